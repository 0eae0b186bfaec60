/// biome_formatter's comments of a document, by node
#[verifier::external_body]
pub struct RComments { x: u8 }
impl RComments {
    pub uninterp spec fn before(&self, n: SyntaxNode) -> bool;
    pub uninterp spec fn inside(&self, n: SyntaxNode) -> bool;
    pub uninterp spec fn after(&self, n: SyntaxNode) -> bool;
    /// has a `# fmt: skip` / `# fmt: table` of its own (T02 says when)
    pub uninterp spec fn skips(&self, n: SyntaxNode) -> bool;
    pub uninterp spec fn tables(&self, n: SyntaxNode) -> bool;
    #[verifier::external_body]
    pub fn has_leading_comments(&self, n: &SyntaxNode) -> (r: bool) ensures r == self.before(*n), { unimplemented!() }
    #[verifier::external_body]
    pub fn has_dangling_comments(&self, n: &SyntaxNode) -> (r: bool) ensures r == self.inside(*n), { unimplemented!() }
    #[verifier::external_body]
    pub fn has_trailing_comments(&self, n: &SyntaxNode) -> (r: bool) ensures r == self.after(*n), { unimplemented!() }
    #[verifier::external_body]
    pub fn has_comments(&self, n: &SyntaxNode) -> (r: bool) ensures r == (self.before(*n) || self.inside(*n) || self.after(*n)), { unimplemented!() }
    #[verifier::external_body]
    pub fn has_skip_directive(&self, n: &SyntaxNode) -> (r: bool) ensures r == self.skips(*n), { unimplemented!() }
    #[verifier::external_body]
    pub fn has_table_directive(&self, n: &SyntaxNode) -> (r: bool) ensures r == self.tables(*n), { unimplemented!() }
    /// only remembers that it was called
    #[verifier::external_body]
    pub fn mark_suppression_checked(&self, n: &SyntaxNode) { unimplemented!() }
}
