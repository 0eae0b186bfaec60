// ---------------------------------------------------------------- biome_rowan: trees, by their contracts
// A node or token is known by its identity; what is below and above it does not change.
pub enum Slot { Node(SyntaxNode), Token(SyntaxToken), Empty }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SyntaxError;
#[allow(non_upper_case_globals)]
impl SyntaxError { pub const SyntaxError: SyntaxError = SyntaxError; pub const PoorLayout: SyntaxError = SyntaxError; }
pub type SyntaxResult<T> = Result<T, SyntaxError>;
#[verifier::external_body]
pub struct SyntaxNode { x: u8 }
#[verifier::external_body]
pub struct SyntaxToken { x: u8 }
#[verifier::external_body]
pub struct SyntaxList { x: u8 }
pub type RSyntaxNode = SyntaxNode;
pub type RSyntaxToken = SyntaxToken;
pub type SyntaxKind = RSyntaxKind;
impl SyntaxNode {
    pub uninterp spec fn kind_of(&self) -> RSyntaxKind;
    pub uninterp spec fn up(&self) -> Option<SyntaxNode>;
    pub uninterp spec fn slot(&self, i: int) -> Slot;
    pub uninterp spec fn arity(&self) -> nat;
    /// how many nodes there are above
    pub uninterp spec fn depth(&self) -> nat;
    /// how many levels there are below
    pub uninterp spec fn height(&self) -> nat;
    /// a line end in front of its first token (in the trivia of that token)
    pub uninterp spec fn led(&self) -> bool;
    /// how many line ends stand in front of its first token, up to the first comment
    pub uninterp spec fn lines(&self) -> nat;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: RSyntaxKind) ensures r == self.kind_of(), { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<SyntaxNode>)
        ensures r == self.up(), r matches Some(p) ==> p.depth() < self.depth(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has_leading_newline(&self) -> (r: bool) ensures r == self.led(), { unimplemented!() }
    /// comments in the trivia of its first or last token
    pub uninterp spec fn commented(&self) -> bool;
    #[verifier::external_body]
    pub fn has_comments_direct(&self) -> (r: bool) ensures r == self.commented(), { unimplemented!() }
    pub uninterp spec fn led_by_comments(&self) -> bool;
    pub uninterp spec fn followed_by_comments(&self) -> bool;
    #[verifier::external_body]
    pub fn has_leading_comments(&self) -> (r: bool) ensures r == self.led_by_comments(), { unimplemented!() }
    #[verifier::external_body]
    pub fn has_trailing_comments(&self) -> (r: bool) ensures r == self.followed_by_comments(), { unimplemented!() }
    #[verifier::external_body]
    pub fn into_list(self) -> (r: SyntaxList) ensures r.of() == self, { unimplemented!() }
}
impl SyntaxList {
    pub uninterp spec fn of(&self) -> SyntaxNode;
    #[verifier::external_body]
    pub fn node(&self) -> (r: &SyntaxNode) ensures *r == self.of(), { unimplemented!() }
    #[verifier::external_body]
    pub fn into_node(self) -> (r: SyntaxNode) ensures r == self.of(), { unimplemented!() }
}
impl Clone for SyntaxNode {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl Clone for SyntaxToken {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl Clone for SyntaxList {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl PartialEqSpecImpl for SyntaxNode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &SyntaxNode) -> bool { *self == *o }
}
impl PartialEq for SyntaxNode {
    #[verifier::external_body]
    fn eq(&self, o: &SyntaxNode) -> bool { unimplemented!() }
}
impl SyntaxToken {
    pub uninterp spec fn kind_of(&self) -> RSyntaxKind;
    pub uninterp spec fn bare(&self) -> Seq<char>;
    /// with its trivia
    pub uninterp spec fn whole(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures r@ == self.whole(), { unimplemented!() }
    pub uninterp spec fn lines(&self) -> nat;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: RSyntaxKind) ensures r == self.kind_of(), { unimplemented!() }
    pub uninterp spec fn led_by_comments(&self) -> bool;
    pub uninterp spec fn followed_by_comments(&self) -> bool;
    #[verifier::external_body]
    pub fn has_leading_comments(&self) -> (r: bool) ensures r == self.led_by_comments(), { unimplemented!() }
    #[verifier::external_body]
    pub fn has_trailing_comments(&self) -> (r: bool) ensures r == self.followed_by_comments(), { unimplemented!() }
    #[verifier::external_body]
    pub fn has_leading_newline(&self) -> (r: bool) ensures r == self.led(), { unimplemented!() }
    pub uninterp spec fn led(&self) -> bool;
    #[verifier::external_body]
    pub fn text_trimmed(&self) -> (r: &str) ensures r@ == self.bare(), { unimplemented!() }
    #[verifier::external_body]
    pub fn text_trimmed_range(&self) -> TextRange { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TextRange { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TextSize { x: u8 }
impl TextRange {
    #[verifier::external_body]
    pub fn start(&self) -> TextSize { unimplemented!() }
}

/// biome_rowan::AstNode: a node of known kinds. The four functions of every implementation
/// are the generated ones.
pub trait AstNode: Sized {
    spec fn node(&self) -> SyntaxNode;
    spec fn casts(kind: RSyntaxKind) -> bool;
    /// the node is of the kind the type (and the variant) stands for
    spec fn fits(&self) -> bool;
    fn can_cast(kind: SyntaxKind) -> (r: bool) ensures r == Self::casts(kind);
    fn cast(syntax: SyntaxNode) -> (r: Option<Self>)
        ensures match r { Some(n) => Self::casts(syntax.kind_of()) && n.node() == syntax && n.fits(), None => !Self::casts(syntax.kind_of()) };
    fn syntax(&self) -> (r: &SyntaxNode) ensures *r == self.node();
    fn into_syntax(self) -> (r: SyntaxNode) ensures r == self.node();
}
/// its default methods
pub trait AstNodeExt: Sized + AstNode {
    fn cast_ref(syntax: &SyntaxNode) -> (r: Option<Self>)
        ensures match r { Some(n) => Self::casts(syntax.kind_of()) && n.node() == *syntax && n.fits(), None => !Self::casts(syntax.kind_of()) };
    fn parent<T: AstNode>(&self) -> (r: Option<T>)
        ensures match r { Some(n) => self.node().up() == Some(n.node()) && n.fits(), None => self.node().up() matches Some(p) ==> !T::casts(p.kind_of()) };
}
impl<N: AstNode> AstNodeExt for N {
    #[verifier::external_body]
    fn cast_ref(syntax: &SyntaxNode) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn parent<T: AstNode>(&self) -> (r: Option<T>) { unimplemented!() }
}
// what an accessor gives for slot i
pub open spec fn is_node<T: AstNode>(s: SyntaxNode, i: int, r: SyntaxResult<T>) -> bool {
    &&& r matches Ok(n) ==> s.slot(i) == Slot::Node(n.node()) && n.fits() && n.node().up() == Some(s) && n.node().height() < s.height()
    &&& r is Err ==> s.slot(i) is Empty
}
pub open spec fn opt_node<T: AstNode>(s: SyntaxNode, i: int, r: Option<T>) -> bool {
    &&& r matches Some(n) ==> s.slot(i) == Slot::Node(n.node()) && n.fits() && n.node().up() == Some(s)
    &&& r is None ==> s.slot(i) is Empty
}
pub open spec fn is_token(s: SyntaxNode, i: int, r: SyntaxResult<SyntaxToken>) -> bool {
    match r { Ok(t) => s.slot(i) == Slot::Token(t), Err(_) => s.slot(i) is Empty }
}
pub open spec fn opt_token(s: SyntaxNode, i: int, r: Option<SyntaxToken>) -> bool {
    match r { Some(t) => s.slot(i) == Slot::Token(t), None => s.slot(i) is Empty }
}
pub open spec fn is_list<T: AstNode>(s: SyntaxNode, i: int, r: T) -> bool {
    s.slot(i) == Slot::Node(r.node()) && r.fits() && r.node().up() == Some(s)
}
/// biome_rowan::support
pub mod support {
    use super::*;
    #[verifier::external_body]
    pub fn required_node<T: AstNode>(s: &SyntaxNode, i: usize) -> (r: SyntaxResult<T>) ensures is_node(*s, i as int, r), { unimplemented!() }
    #[verifier::external_body]
    pub fn node<T: AstNode>(s: &SyntaxNode, i: usize) -> (r: Option<T>) ensures opt_node(*s, i as int, r), { unimplemented!() }
    #[verifier::external_body]
    pub fn required_token(s: &SyntaxNode, i: usize) -> (r: SyntaxResult<SyntaxToken>) ensures is_token(*s, i as int, r), { unimplemented!() }
    #[verifier::external_body]
    pub fn token(s: &SyntaxNode, i: usize) -> (r: Option<SyntaxToken>) ensures opt_token(*s, i as int, r), { unimplemented!() }
    #[verifier::external_body]
    pub fn list<T: AstNode>(s: &SyntaxNode, i: usize) -> (r: T) ensures is_list(*s, i as int, r), { unimplemented!() }
}
