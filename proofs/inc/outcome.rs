// What the parser gives for a text.
impl<'a> tree_sitter::Node<'a> {
    /// tree-sitter met a syntax error in it
    pub uninterp spec fn has_err(self) -> bool;
    #[verifier::external_body]
    pub fn has_error(&self) -> (r: bool)
        ensures r == self.has_err(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Tree { p: () }
impl Tree {
    pub uninterp spec fn root(&self) -> Node<'_>;
    #[verifier::external_body]
    pub fn root_node(&self) -> (r: Node<'_>)
        ensures r == self.root(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ParseError { p: () }
impl ParseError {
    #[verifier::external_body]
    pub fn new(message: String) -> ParseError { unimplemented!() }
}
/// what tree-sitter gives for a text without syntax errors
pub open spec fn grammar(n: Node, t: Seq<u8>) -> bool {
    let x = shape(n, kd(n)).x;
    &&& known_node(n) && kd(n) == RSyntaxKind::R_ROOT && wf(n, kd(n)) && fits(t, 0, x) && tidy(t, x)
    &&& n.e() == t.len() && t.len() <= u32::MAX
    &&& bnd(t, end_of(0, x)) && bnd(t, n.e()) && is_gap(t.subrange(end_of(0, x), n.e()))
}
pub type Parsed = (Vec<Ev>, Vec<Trivia>, Option<ParseError>);
pub open spec fn parsed(n: Node, t: Seq<u8>, r: Parsed) -> bool {
    let o = shape(n, kd(n));
    &&& r.2 is None
    &&& r.0@ == o.e
    &&& pieces(r.1@) == close(t, run(t, init(), o.x, false))
}
/// where the tokens end
pub open spec fn token_ends(e: Seq<Ev>) -> Seq<u32>
    decreases e.len(),
{
    if e.len() == 0 { seq![] } else { match e.last() { Event::Token { kind: _, end } => token_ends(e.drop_last()).push(end.raw), _ => token_ends(e.drop_last()) } }
}
pub open spec fn leaf_ends(x: Seq<Leaf>) -> Seq<u32>
    decreases x.len(),
{
    if x.len() == 0 { seq![] } else if x.last().comment { leaf_ends(x.drop_last()) } else { leaf_ends(x.drop_last()).push(x.last().e as u32) }
}
/// the tokens of the tree are the tokens of the source
#[verifier::opaque]
pub open spec fn agree(o: Out) -> bool { token_ends(o.e) == leaf_ends(o.x) }
/// what a tree without syntax errors is made of: the tokens of the source, and pieces of trivia
/// that fill the text between them
pub open spec fn whole(t: Seq<u8>, x: Seq<Leaf>, r: Parsed) -> bool {
    &&& token_ends(r.0@) == leaf_ends(x)
    &&& exists|all: Seq<Piece>| covers(all, 0, t.len() as int) && all_honest(t, all) && in_line(all) && leaves_of(all) == x && #[trigger] told(all) == pieces(r.1@)
}
/// one token that is the whole text
pub open spec fn failed(t: Seq<u8>, r: Parsed) -> bool {
    &&& r.2 is Some
    &&& r.0@ =~= seq![
            Event::Start { kind: RSyntaxKind::R_ROOT, forward_parent: None },
            Event::Start { kind: RSyntaxKind::R_EXPRESSION_LIST, forward_parent: None },
            Event::Start { kind: RSyntaxKind::R_BOGUS_EXPRESSION, forward_parent: None },
            Event::Token { kind: RSyntaxKind::R_BOGUS, end: TextSize { raw: t.len() as u32 } },
            Event::Finish, Event::Finish, Event::Finish]
    &&& r.1@.len() == 0
}
