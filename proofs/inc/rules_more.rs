// ---------------------------------------------------------------- bodies
pub open spec fn braced(n: SyntaxNode) -> Seq<Ir> {
    seq![Ir::Text("{"@)] + lay(Lay::Open(Tag::Block)) + seq![Ir::Node(n, Opt::Plain)] + lay(Lay::Close(Tag::Block)) + seq![Ir::Text("}"@)]
}
pub open spec fn braced_if_broken(n: SyntaxNode) -> Seq<Ir> {
    lay(Lay::Open(Tag::Breaks)) + seq![Ir::Text("{"@)] + lay(Lay::Close(Tag::Breaks))
    + lay(Lay::Open(Tag::SoftBlock)) + seq![Ir::Node(n, Opt::Plain)] + lay(Lay::Close(Tag::SoftBlock))
    + lay(Lay::Open(Tag::Breaks)) + seq![Ir::Text("}"@)] + lay(Lay::Close(Tag::Breaks))
}
/// the node a slot holds
pub open spec fn child(n: SyntaxNode, i: int) -> SyntaxNode { n.slot(i)->Node_0 }
/// a body that already has braces is printed as it is, any other one gets them
pub open spec fn loop_body(e: SyntaxNode) -> Seq<Ir> {
    if e.kind_of() == R_BRACED_EXPRESSIONS { seq![Ir::Node(e, Opt::Plain)] } else { braced(e) }
}
pub open spec fn loop_body_of(e: AnyRExpression) -> Seq<Ir> {
    match e { AnyRExpression::RBracedExpressions(b) => seq![Ir::Node(b.node(), Opt::Plain)], _ => braced(e.node()) }
}
//@@ source crates/air_r_formatter/src/loop_body.rs
//@@ item struct FormatLoopBody
//@@   public
//@@ end
//@@ impl FormatLoopBody
//@@ item fn FormatLoopBody::new
//@@   ret r
//@@ + spec
    ensures r.node == node,
//@@ end
//@@ endimpl
impl Format for FormatLoopBody<'_> {
    open spec fn ir(&self) -> Seq<Ir> { loop_body_of(*self.node) }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatLoopBody<Format>::fmt
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/function_definition.rs
//@@ item struct FormatFunctionBody
//@@   public
//@@ end
//@@ impl FormatFunctionBody
//@@ item fn FormatFunctionBody::new
//@@   ret r
//@@ + spec
    ensures r.node == node,
//@@ end
//@@ endimpl
pub open spec fn function_body(e: SyntaxNode) -> Seq<Ir> {
    if e.kind_of() == R_BRACED_EXPRESSIONS { seq![Ir::Node(e, Opt::Plain)] } else if e.led() { braced(e) } else { braced_if_broken(e) }
}
/// an unbraced body that starts on a line of its own gets braces, any other one when it does not fit
pub open spec fn function_body_of(e: AnyRExpression) -> Seq<Ir> {
    match e { AnyRExpression::RBracedExpressions(b) => seq![Ir::Node(b.node(), Opt::Plain)],
        _ => if e.node().led() { braced(e.node()) } else { braced_if_broken(e.node()) } }
}
impl Format for FormatFunctionBody<'_> {
    open spec fn ir(&self) -> Seq<Ir> { function_body_of(*self.node) }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatFunctionBody<Format>::fmt
//@@   inherits
//@@ end
}
//@@ item fn should_force_braced_expressions
//@@   ret r
//@@ + spec
    ensures r == Ok::<bool, SyntaxError>(node.node().led()),
//@@ end
//@@ source crates/air_r_formatter/src/r/auxiliary/if_statement.rs
//@@ item enum BracedExpressions
//@@   public
//@@   derive Clone, Copy
//@@ end
//@@ item enum IfBodyKind
//@@   public
//@@ end
//@@ item struct FormatIfBody
//@@   public
//@@ end
//@@ item struct FormatRIfStatementOptions
//@@   public
//@@ end
impl NodeOptions for FormatRIfStatementOptions {
    open spec fn opt(&self) -> Opt { match self.braced_expressions { Some(b) => Opt::Braced(b is Force), None => Opt::Plain } }
}
//@@ impl FormatIfBody
//@@ item fn FormatIfBody::new_consequence
//@@   ret r
//@@ + spec
    ensures r.node == node, r.braced_expressions == braced_expressions, r.if_body_kind is Consequence,
//@@ end
//@@ item fn FormatIfBody::new_alternative
//@@   ret r
//@@ + spec
    ensures r.node == node, r.braced_expressions == braced_expressions, r.if_body_kind is Alternative,
//@@ end
//@@ endimpl
pub open spec fn if_body_of(e: AnyRExpression, force: bool, alternative: bool) -> Seq<Ir> {
    match e {
        AnyRExpression::RBracedExpressions(b) => seq![Ir::Node(b.node(), Opt::Plain)],
        AnyRExpression::RIfStatement(i) => if alternative { seq![Ir::Node(i.node(), Opt::Braced(force))] } else if force { braced(e.node()) } else { braced_if_broken(e.node()) },
        _ => if force { braced(e.node()) } else { braced_if_broken(e.node()) },
    }
}
pub open spec fn if_body(e: SyntaxNode, force: bool, alternative: bool) -> Seq<Ir> {
    if e.kind_of() == R_BRACED_EXPRESSIONS { seq![Ir::Node(e, Opt::Plain)] }
    else if e.kind_of() == R_IF_STATEMENT && alternative { seq![Ir::Node(e, Opt::Braced(force))] }
    else if force { braced(e) } else { braced_if_broken(e) }
}
impl Format for FormatIfBody<'_> {
    open spec fn ir(&self) -> Seq<Ir> { if_body_of(*self.node, self.braced_expressions is Force, self.if_body_kind is Alternative) }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatIfBody<Format>::fmt
//@@   inherits
//@@   rewrite? `debug_assert!(matches!(self.braced_expressions, BracedExpressions::Force));` => ``
//@@ end
}
// ---------------------------------------------------------------- the rules with something special
//@@ source crates/air_r_formatter/src/r/auxiliary/else_clause.rs
//@@ item struct FormatRElseClause
//@@   public
//@@ end
//@@ item struct FormatRElseClauseOptions
//@@   public
//@@ end
impl NodeOptions for FormatRElseClauseOptions {
    open spec fn opt(&self) -> Opt { Opt::Braced(self.braced_expressions is Force) }
}
impl FormatNodeRule<RElseClause> for FormatRElseClause {
    open spec fn wants(&self, n: RElseClause) -> bool { true }
    open spec fn fields(&self, n: RElseClause) -> Seq<Ir> {
        it(n.node(), 0) + lay(Lay::Blank) + if_body(child(n.node(), 1), self.braced_expressions is Force, true)
    }
//@@ item fn FormatRElseClause<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/repeat_statement.rs
//@@ item struct FormatRRepeatStatement
//@@   public
//@@ end
impl FormatNodeRule<RRepeatStatement> for FormatRRepeatStatement {
    open spec fn wants(&self, n: RRepeatStatement) -> bool { true }
    open spec fn fields(&self, n: RRepeatStatement) -> Seq<Ir> { lay(Lay::Open(Tag::Group(false))) + it(n.node(), 0) + lay(Lay::Blank) + loop_body(child(n.node(), 1)) + lay(Lay::Close(Tag::Group(false))) }
//@@ item fn FormatRRepeatStatement<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/while_statement.rs
//@@ item struct FormatRWhileStatement
//@@   public
//@@ end
impl FormatNodeRule<RWhileStatement> for FormatRWhileStatement {
    open spec fn wants(&self, n: RWhileStatement) -> bool { true }
    open spec fn fields(&self, n: RWhileStatement) -> Seq<Ir> { lay(Lay::Open(Tag::Group(false))) + it(n.node(), 0) + lay(Lay::Blank) + it(n.node(), 1) + (lay(Lay::Open(Tag::Group(false))) + (lay(Lay::Open(Tag::SoftBlock)) + it(n.node(), 2) + lay(Lay::Close(Tag::SoftBlock))) + lay(Lay::Close(Tag::Group(false)))) + it(n.node(), 3) + lay(Lay::Blank) + loop_body(child(n.node(), 4)) + lay(Lay::Close(Tag::Group(false))) }
//@@ item fn FormatRWhileStatement<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/for_statement.rs
//@@ item struct FormatRForStatement
//@@   public
//@@ end
impl FormatNodeRule<RForStatement> for FormatRForStatement {
    open spec fn wants(&self, n: RForStatement) -> bool { true }
    open spec fn fields(&self, n: RForStatement) -> Seq<Ir> { lay(Lay::Open(Tag::Group(false))) + it(n.node(), 0) + lay(Lay::Blank) + it(n.node(), 1) + it(n.node(), 2) + lay(Lay::Blank) + it(n.node(), 3) + lay(Lay::Blank) + it(n.node(), 4) + it(n.node(), 5) + lay(Lay::Blank) + loop_body(child(n.node(), 6)) + lay(Lay::Close(Tag::Group(false))) }
//@@ item fn FormatRForStatement<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
pub open spec fn paren_body(e: SyntaxNode) -> Seq<Ir> {
    if e.commented() { lay(Lay::Open(Tag::Block)) + seq![Ir::Node(e, Opt::Plain)] + lay(Lay::Close(Tag::Block)) } else { seq![Ir::Node(e, Opt::Plain)] }
}
//@@ source crates/air_r_formatter/src/r/auxiliary/parenthesized_expression.rs
//@@ item struct FormatRParenthesizedExpression
//@@   public
//@@ end
impl FormatNodeRule<RParenthesizedExpression> for FormatRParenthesizedExpression {
    open spec fn wants(&self, n: RParenthesizedExpression) -> bool { true }
    open spec fn fields(&self, n: RParenthesizedExpression) -> Seq<Ir> { it(n.node(), 0) + paren_body(child(n.node(), 1)) + it(n.node(), 2) }
//@@ item fn FormatRParenthesizedExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ + says 1
paren_body(body.node())
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + paren_body(body.node()),
//@@ end
}
pub open spec fn unary_argument(e: SyntaxNode) -> Seq<Ir> {
    let c = the_comments();
    if (c.before(e) || c.inside(e) || c.after(e)) && !c.skips(e) { lay(Lay::Open(Tag::SoftBlock)) + seq![Ir::Node(e, Opt::Plain)] + lay(Lay::Close(Tag::SoftBlock)) } else { seq![Ir::Node(e, Opt::Plain)] }
}
/// only layout
pub open spec fn formula_blank(n: SyntaxNode) -> Seq<Ir> {
    if n.slot(0)->Token_0.kind_of() == TILDE && !leaf(child(n, 1).kind_of()) { lay(Lay::Blank) } else { Seq::empty() }
}
pub open spec fn leaf(k: RSyntaxKind) -> bool {
    RIdentifier::casts(k) || AnyRValue::casts(k) || RTrueExpression::casts(k) || RFalseExpression::casts(k) || RNaExpression::casts(k) || RNanExpression::casts(k)
    || RNullExpression::casts(k) || RInfExpression::casts(k) || RDots::casts(k) || RDotDotI::casts(k) || RNextExpression::casts(k) || RBreakExpression::casts(k)
}
//@@ source crates/air_r_formatter/src/r/auxiliary/unary_expression.rs
//@@ item fn is_complex_unary_formula
//@@   ret r
//@@ + spec
    requires argument.fits(),
    ensures r == (operator.kind_of() == TILDE && !leaf(argument.node().kind_of())),
//@@ end
//@@ item fn is_terminal
//@@   ret r
//@@ + spec
    requires node.fits(),
    ensures r == leaf(node.node().kind_of()),
//@@ end

//@@ item struct FormatRUnaryExpression
//@@   public
//@@ end
impl FormatNodeRule<RUnaryExpression> for FormatRUnaryExpression {
    open spec fn wants(&self, n: RUnaryExpression) -> bool { true }
    open spec fn fields(&self, n: RUnaryExpression) -> Seq<Ir> { it(n.node(), 0) + formula_blank(n.node()) + unary_argument(child(n.node(), 1)) }
//@@ item fn FormatRUnaryExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ + says 1
unary_argument(argument.node())
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + unary_argument(argument.node()),
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/argument.rs
//@@ item struct FormatRArgument
//@@   public
//@@ end
impl FormatNodeRule<RArgument> for FormatRArgument {
    open spec fn wants(&self, n: RArgument) -> bool { true }
    open spec fn fields(&self, n: RArgument) -> Seq<Ir> { argument_ir(n.node()) }
//@@ item fn FormatRArgument<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
pub open spec fn argument_ir(n: SyntaxNode) -> Seq<Ir> {
    it(n, 0) + (if n.slot(0) is Empty { Seq::empty() } else { lay(Lay::Blank) }) + it(n, 1)
}
//@@ item fn fmt_argument_fields
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + argument_ir(node.node()),
//@@ end
