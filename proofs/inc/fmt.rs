// ---------------------------------------------------------------- biome_formatter: what is printed, by contract
// What a piece of a formatter program puts into the document. `lay` says whether layout
// (blanks, line breaks, groups) is looked at: see lay_none.rs and lay_full.rs.
pub enum Lay { Blank, Soft, SoftOrBlank, Hard, Empty, Open(Tag), Close(Tag), Wide, MaybeBlank }
pub enum Tag { Group(bool), Indent, Block, SoftBlock, SoftBlankBlock, Breaks, Fits, StartEntry, EndEntry }
/// how a node is asked to print itself
pub enum Opt { Plain, Table(bool), Left, Last, Double, Braced(bool) }
pub enum Ir {
    Node(SyntaxNode, Opt),
    Token(SyntaxToken),
    /// another text in place of the token
    Replaced(SyntaxToken, Seq<char>),
    /// the token is left out
    Removed(SyntaxToken),
    /// as the source has it
    Verbatim(SyntaxNode),
    Leading(SyntaxNode), Dangling(SyntaxNode), Trailing(SyntaxNode),
    Text(Seq<char>),
    Layout(Lay),
    /// the best fitting of several
    Best(Seq<Seq<Ir>>),
}
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Formatter<C> { x: core::marker::PhantomData<C> }
pub type RFormatter = Formatter<RFormatContext>;
pub struct RFormatContext;
pub type FormatError = SyntaxError;
pub type FormatResult<T> = Result<T, FormatError>;
/// the settings and the comments of the document that is being formatted
pub uninterp spec fn the_options() -> RFormatOptions;
pub uninterp spec fn the_comments() -> RComments;
impl Formatter<RFormatContext> {
    pub uninterp spec fn out(&self) -> Seq<Ir>;
    #[verifier::external_body]
    pub fn options(&self) -> (r: &RFormatOptions) ensures *r == the_options(), { unimplemented!() }
    #[verifier::external_body]
    pub fn comments(&self) -> (r: &RComments) ensures *r == the_comments(), { unimplemented!() }
    #[verifier::external_body]
    pub fn context(&self) -> (r: &RFormatter) ensures r == self, { unimplemented!() }
}
/// biome_formatter::Format. `sure`: what must be there for it to succeed.
pub trait Format {
    spec fn ir(&self) -> Seq<Ir>;
    spec fn sure(&self) -> bool;
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>)
        ensures r is Ok ==> self.sure() && final(f).out() == old(f).out() + self.ir();
}
impl<T: Format> Format for &T {
    open spec fn ir(&self) -> Seq<Ir> { (**self).ir() }
    open spec fn sure(&self) -> bool { (**self).sure() }
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { (**self).fmt(f) }
}
/// `[A, B, ..]` and `format_args![A, B, ..]`
pub struct P<'a, A, B>(pub &'a A, pub B);
pub struct End;
impl<'a, A: Format, B: Format> Format for P<'a, A, B> {
    open spec fn ir(&self) -> Seq<Ir> { self.0.ir() + self.1.ir() }
    open spec fn sure(&self) -> bool { self.0.sure() && self.1.sure() }
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { self.0.fmt(f)?; self.1.fmt(f) }
}
impl Format for End {
    open spec fn ir(&self) -> Seq<Ir> { Seq::empty() }
    open spec fn sure(&self) -> bool { true }
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { Ok(()) }
}
pub fn write_all<T: Format>(f: &mut RFormatter, x: &T) -> (r: FormatResult<()>)
    ensures r is Ok ==> x.sure() && final(f).out() == old(f).out() + x.ir(),
{ x.fmt(f) }
/// any other object of biome_formatter's: known by what it prints
pub struct Out { pub s: Ghost<Seq<Ir>>, pub ok: Ghost<bool> }
impl Format for Out {
    open spec fn ir(&self) -> Seq<Ir> { self.s@ }
    open spec fn sure(&self) -> bool { self.ok@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { unimplemented!() }
}
impl<T: Format> Format for Option<T> {
    open spec fn ir(&self) -> Seq<Ir> { match *self { Some(x) => x.ir(), None => Seq::empty() } }
    open spec fn sure(&self) -> bool { match *self { Some(x) => x.sure(), None => true } }
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { match self { Some(x) => x.fmt(f), None => Ok(()) } }
}
impl<T: Format> Format for SyntaxResult<T> {
    open spec fn ir(&self) -> Seq<Ir> { match *self { Ok(x) => x.ir(), Err(_) => Seq::empty() } }
    open spec fn sure(&self) -> bool { match *self { Ok(x) => x.sure(), Err(_) => false } }
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { match self { Ok(x) => x.fmt(f), Err(_) => Err(SyntaxError) } }
}
#[verifier::prophetic]
pub open spec fn tells<T: FnOnce(&mut RFormatter) -> FormatResult<()>>(c: T, s: Seq<Ir>) -> bool {
    &&& forall|g: &mut RFormatter| #[trigger] c.requires((g,))
    &&& forall|g: &mut RFormatter, r: FormatResult<()>| #[trigger] c.ensures((g,), r) ==> (r is Ok ==> final(g).out() == g.out() + s)
}
#[verifier::external_body]
pub fn format_with<T: Fn(&mut RFormatter) -> FormatResult<()>>(s: Ghost<Seq<Ir>>, c: T) -> (r: Out)
    requires tells(c, s@),
    ensures r.s == s, r.ok@,
{ unimplemented!() }
#[verifier::external_body]
pub fn format_once<T: FnOnce(&mut RFormatter) -> FormatResult<()>>(s: Ghost<Seq<Ir>>, c: T) -> (r: Out)
    requires tells(c, s@),
    ensures r.s == s, r.ok@,
{ unimplemented!() }
macro_rules! layout { ($($f:ident $l:expr;)*) => { verus! { $(
    #[verifier::external_body]
    pub fn $f() -> (r: Out) ensures r.s@ == lay($l), r.ok@, { unimplemented!() }
)* } } }
layout! { space Lay::Blank; soft_line_break Lay::Soft; soft_line_break_or_space Lay::SoftOrBlank; hard_line_break Lay::Hard; empty_line Lay::Empty; expand_parent Lay::Wide; }
macro_rules! around { ($($f:ident $t:expr;)*) => { verus! { $(
    #[verifier::external_body]
    pub fn $f<T: Format>(x: &T) -> (r: Out) ensures r.s@ == lay(Lay::Open($t)) + x.ir() + lay(Lay::Close($t)), r.ok@ == x.sure(), { unimplemented!() }
)* } } }
around! { soft_space_or_block_indent Tag::SoftBlankBlock; indent Tag::Indent; block_indent Tag::Block; soft_block_indent Tag::SoftBlock; if_group_breaks Tag::Breaks; if_group_fits_on_line Tag::Fits; }
#[verifier::external_body]
pub fn maybe_space(b: bool) -> (r: Out) ensures r.s@ == if b { lay(Lay::Blank) } else { Seq::empty() }, r.ok@, { unimplemented!() }
/// the text; a `'static` one is a token of its own
#[verifier::external_body]
pub fn text(s: &'static str) -> (r: Out) ensures r.s@ == seq![Ir::Text(s@)], r.ok@, { unimplemented!() }
pub struct Group { pub s: Ghost<Seq<Ir>>, pub ok: Ghost<bool>, pub wide: Ghost<bool> }
impl Format for Group {
    open spec fn ir(&self) -> Seq<Ir> { lay(Lay::Open(Tag::Group(self.wide@))) + self.s@ + lay(Lay::Close(Tag::Group(self.wide@))) }
    open spec fn sure(&self) -> bool { self.ok@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { unimplemented!() }
}
#[verifier::external_body]
pub fn group<T: Format>(x: &T) -> (r: Group) ensures r.s@ == x.ir(), r.ok@ == x.sure(), !r.wide@, { unimplemented!() }
impl Group {
    #[verifier::external_body]
    pub fn should_expand(self, b: bool) -> (r: Group) ensures r.s == self.s, r.ok == self.ok, r.wide@ == b, { unimplemented!() }
}
pub struct Dynamic { pub t: Ghost<Seq<char>> }
impl Format for Dynamic {
    open spec fn ir(&self) -> Seq<Ir> { seq![Ir::Text(self.t@)] }
    open spec fn sure(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { unimplemented!() }
}
#[verifier::external_body]
pub fn dynamic_text(s: &str, p: TextSize) -> (r: Dynamic) ensures r.t@ == s@, { unimplemented!() }
#[verifier::external_body]
pub fn format_replaced(t: &SyntaxToken, d: &Dynamic) -> (r: Out) ensures r.s@ == seq![Ir::Replaced(*t, d.t@)], r.ok@, { unimplemented!() }
#[verifier::external_body]
pub fn format_removed(t: &SyntaxToken) -> (r: Out) ensures r.s@ == seq![Ir::Removed(*t)], r.ok@, { unimplemented!() }
#[verifier::external_body]
pub fn format_suppressed_node(n: &SyntaxNode) -> (r: Out) ensures r.s@ == seq![Ir::Verbatim(*n)], r.ok@, { unimplemented!() }
#[verifier::external_body]
pub fn format_leading_comments(n: &SyntaxNode) -> (r: Out) ensures r.s@ == seq![Ir::Leading(*n)], r.ok@, { unimplemented!() }
#[verifier::external_body]
pub fn format_trailing_comments(n: &SyntaxNode) -> (r: Out) ensures r.s@ == seq![Ir::Trailing(*n)], r.ok@, { unimplemented!() }
#[verifier::external_body]
pub fn format_dangling_comments(n: &SyntaxNode) -> (r: Out) ensures r.s@ == seq![Ir::Dangling(*n)], r.ok@, { unimplemented!() }
impl Out {
    #[verifier::external_body]
    pub fn with_block_indent(self) -> (r: Out) ensures r == self, { unimplemented!() }
    #[verifier::external_body]
    pub fn with_soft_block_indent(self) -> (r: Out) ensures r == self, { unimplemented!() }
}
/// air's AsFormat: a node prints itself by its own rule, a token prints its text
pub trait AsFormat { type F: Format; spec fn prints(&self, r: Self::F) -> bool; fn format(&self) -> (r: Self::F) ensures self.prints(r); }
pub struct FormatNode { pub n: Ghost<SyntaxNode>, pub o: Ghost<Opt> }
impl Format for FormatNode {
    open spec fn ir(&self) -> Seq<Ir> { seq![Ir::Node(self.n@, self.o@)] }
    open spec fn sure(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { unimplemented!() }
}
pub trait NodeOptions { spec fn opt(&self) -> Opt; }
impl FormatNode {
    #[verifier::external_body]
    pub fn with_options<O: NodeOptions>(self, o: O) -> (r: FormatNode) ensures r.n == self.n, r.o@ == o.opt(), { unimplemented!() }
}
impl<T: AstNode> AsFormat for T {
    type F = FormatNode;
    open spec fn prints(&self, r: FormatNode) -> bool { r.n@ == self.node() && r.o@ == Opt::Plain }
    #[verifier::external_body]
    fn format(&self) -> (r: FormatNode) { unimplemented!() }
}
impl AsFormat for SyntaxToken {
    type F = Out;
    open spec fn prints(&self, r: Out) -> bool { r.s@ == seq![Ir::Token(*self)] && r.ok@ }
    #[verifier::external_body]
    fn format(&self) -> (r: Out) { unimplemented!() }
}
impl AsFormat for &SyntaxToken {
    type F = Out;
    open spec fn prints(&self, r: Out) -> bool { r.s@ == seq![Ir::Token(**self)] && r.ok@ }
    #[verifier::external_body]
    fn format(&self) -> (r: Out) { unimplemented!() }
}
impl<T: AsFormat> AsFormat for SyntaxResult<T> {
    type F = SyntaxResult<T::F>;
    open spec fn prints(&self, r: SyntaxResult<T::F>) -> bool { match (*self, r) { (Ok(x), Ok(y)) => x.prints(y), (Err(_), Err(_)) => true, _ => false } }
    fn format(&self) -> (r: SyntaxResult<T::F>) { match self { Ok(x) => Ok(x.format()), Err(_) => Err(SyntaxError) } }
}
impl<T: AsFormat> AsFormat for Option<T> {
    type F = Option<T::F>;
    open spec fn prints(&self, r: Option<T::F>) -> bool { match (*self, r) { (Some(x), Some(y)) => x.prints(y), (None, None) => true, _ => false } }
    fn format(&self) -> (r: Option<T::F>) { match self { Some(x) => Some(x.format()), None => None } }
}
