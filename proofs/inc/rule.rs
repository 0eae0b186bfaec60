/// what a slot of a node prints as when nothing is special about it
pub open spec fn slot_ir(s: Slot, o: Opt) -> Seq<Ir> {
    match s { Slot::Node(n) => seq![Ir::Node(n, o)], Slot::Token(t) => seq![Ir::Token(t)], Slot::Empty => Seq::empty() }
}
pub open spec fn it(n: SyntaxNode, i: int) -> Seq<Ir> { slot_ir(n.slot(i), Opt::Plain) }
/// air's FormatNodeRule, by the part that differs from node to node
pub trait FormatNodeRule<N: AstNode> {
    spec fn wants(&self, n: N) -> bool;
    spec fn fields(&self, n: N) -> Seq<Ir>;
    fn fmt_fields(&self, node: &N, f: &mut RFormatter) -> (r: FormatResult<()>)
        requires self.wants(*node),
        ensures r is Ok ==> final(f).out() == old(f).out() + self.fields(*node);
}
/// the variant of an expression is told by the kind of its node
pub mod variants { use super::*;
pub broadcast proof fn variant_is_kind(e: AnyRExpression)
    requires #[trigger] e.fits(),
    ensures
        e is RBracedExpressions <==> e.node().kind_of() == R_BRACED_EXPRESSIONS,
        e is RIfStatement <==> e.node().kind_of() == R_IF_STATEMENT,
        e is RBinaryExpression <==> e.node().kind_of() == R_BINARY_EXPRESSION,
        e is RCall <==> e.node().kind_of() == R_CALL,
{}
}
/// a panic: not excluded here, but nothing is said of what happens afterwards
#[verifier::external_body]
pub fn gives_up() -> ! { unimplemented!() }
//@@ source crates/air_r_formatter/src/r/auxiliary/if_statement.rs
//@@ item enum SyntaxPosition
//@@   public
//@@   derive Clone, Copy, PartialEq, Eq, Structural
//@@ end
