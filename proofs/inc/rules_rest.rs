// ---------------------------------------------------------------- binary expressions, by operator
//@@ item struct FormatRBinaryExpression
//@@   public
//@@ end
pub open spec fn binary_ir(n: SyntaxNode, a: ChainAlignment) -> Seq<Ir> {
    let (l, t, e) = (child(n, 0), op(n), child(n, 2));
    let k = t.kind_of();
    let (le, re) = (seq![Ir::Node(l, Opt::Plain)], seq![Ir::Node(e, Opt::Plain)]);
    if k == WAT || k == EXPONENTIATE || k == EXPONENTIATE2 || k == COLON { group_ir(le + seq![Ir::Token(t)] + re) }
    else if k == TILDE || k == EQUAL || k == WALRUS || k == ASSIGN || k == ASSIGN_RIGHT || k == SUPER_ASSIGN || k == SUPER_ASSIGN_RIGHT { assignment_ir(n, l, t, e) }
    else if chains(k) { chain_ir(l, t, e, a) }
    else { group_ir(le + lay(Lay::Blank) + seq![Ir::Token(t)] + (lay(Lay::Open(Tag::Indent)) + (lay(Lay::SoftOrBlank) + re) + lay(Lay::Close(Tag::Indent)))) }
}
impl FormatNodeRule<RBinaryExpression> for FormatRBinaryExpression {
    open spec fn wants(&self, n: RBinaryExpression) -> bool { true }
    open spec fn fields(&self, n: RBinaryExpression) -> Seq<Ir> { binary_ir(n.node(), self.alignment) }
//@@ item fn FormatRBinaryExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
// ---------------------------------------------------------------- calls
//@@ source crates/air_r_formatter/src/r/auxiliary/call.rs
//@@ item struct FormatRCall
//@@   public
//@@ end
/// laid out as a table: its own directive, the one passed on to it, or the setting
pub open spec fn call_table(n: SyntaxNode) -> bool { the_comments().tables(n) || in_table(n) }
pub uninterp spec fn in_table(n: SyntaxNode) -> bool;
#[verifier::external_body]
pub fn in_table_setting(n: &RCall, f: &RFormatter) -> (r: SyntaxResult<bool>) ensures r matches Ok(b) ==> b == in_table(n.node()), r is Err ==> !in_table(n.node()), { unimplemented!() }
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T)
    ensures r == (match x { Ok(v) => v, Err(_) => d });
//@@ item fn is_table
//@@   ret r
//@@ + spec
    ensures r == call_table(node.node()),
//@@ end
impl FormatNodeRule<RCall> for FormatRCall {
    open spec fn wants(&self, n: RCall) -> bool { true }
    open spec fn fields(&self, n: RCall) -> Seq<Ir> {
        it(n.node(), 0) + slot_ir(n.node().slot(1), Opt::Table(match self.table { Some(t) => t, None => call_table(n.node()) }))
    }
//@@ item fn FormatRCall<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ + closure 1
| | -> (r: bool)
    ensures r == call_table(node.node()),
//@@ end
}
// ---------------------------------------------------------------- parameters
/// biome_rowan's lists, by their elements
pub uninterp spec fn size_of_list(n: SyntaxNode) -> nat;
pub uninterp spec fn item_of_list(n: SyntaxNode, i: int) -> Slot;
impl RParameterList {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (size_of_list(self.node()) == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<SyntaxResult<RParameter>>)
        ensures r is None <==> size_of_list(self.node()) == 0,
            r matches Some(Ok(p)) ==> item_of_list(self.node(), 0) == Slot::Node(p.node()) && p.fits(),
            r matches Some(Err(_)) ==> item_of_list(self.node(), 0) is Empty,
    { unimplemented!() }
}
//@@ source crates/air_r_formatter/src/r/auxiliary/parameters.rs
//@@ item struct FormatRParameters
//@@   public
//@@ end
pub open spec fn parameters_break(l: SyntaxNode) -> bool {
    the_options().persistent_line_breaks is Respect && size_of_list(l) > 0 && (item_of_list(l, 0) matches Slot::Node(p) && p.led())
}
//@@ item fn has_persistent_line_break
//@@   rename has_persistent_line_break_parameters
//@@   ret r
//@@ + spec
    requires *options == the_options(),
    ensures r == parameters_break(items.node()),
//@@ end
impl FormatNodeRule<RParameters> for FormatRParameters {
    open spec fn wants(&self, n: RParameters) -> bool { true }
    open spec fn fields(&self, n: RParameters) -> Seq<Ir> {
        let l = child(n.node(), 1);
        if size_of_list(l) == 0 { it(n.node(), 0) + seq![Ir::Dangling(n.node())] + it(n.node(), 2) }
        else { lay(Lay::Open(Tag::Group(parameters_break(l)))) + (it(n.node(), 0) + (lay(Lay::Open(Tag::SoftBlock)) + it(n.node(), 1) + lay(Lay::Close(Tag::SoftBlock))) + it(n.node(), 2)) + lay(Lay::Close(Tag::Group(parameters_break(l)))) }
    }
//@@ item fn FormatRParameters<FormatNodeRule>::fmt_fields
//@@   inherits
//@@   rewrite? `has_persistent_line_break` => `has_persistent_line_break_parameters`
//@@ end
}
// ---------------------------------------------------------------- the root
//@@ source crates/air_r_formatter/src/joiner_ext.rs
//@@ item enum EmptyLines
//@@   public
//@@   derive Clone, Copy
//@@ end
//@@ source crates/air_r_formatter/src/r/lists/expression_list.rs
//@@ item struct FormatRExpressionListOptions
//@@   public
//@@ end
impl NodeOptions for FormatRExpressionListOptions { open spec fn opt(&self) -> Opt { if self.empty_lines is Double { Opt::Double } else { Opt::Plain } } }
//@@ source crates/air_r_formatter/src/r/auxiliary/root.rs
//@@ item struct FormatRRoot
//@@   public
//@@ end
impl FormatNodeRule<RRoot> for FormatRRoot {
    open spec fn wants(&self, n: RRoot) -> bool { true }
    open spec fn fields(&self, n: RRoot) -> Seq<Ir> {
        it(n.node(), 0) + slot_ir(n.node().slot(1), Opt::Double) + lay(Lay::Hard) + seq![Ir::Removed(n.node().slot(2)->Token_0)]
    }
//@@ item fn FormatRRoot<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
// ---------------------------------------------------------------- conditionals
//@@ source crates/air_r_formatter/src/r/auxiliary/if_statement.rs
//@@ item struct FormatRIfStatement
//@@   public
//@@ end
pub open spec fn else_ir(n: SyntaxNode, force: bool) -> Seq<Ir> {
    match n.slot(5) { Slot::Node(e) => lay(Lay::Blank) + seq![Ir::Node(e, Opt::Braced(force))], _ => Seq::empty() }
}
pub open spec fn if_ir(n: SyntaxNode, force: bool) -> Seq<Ir> {
    group_ir(it(n, 0) + lay(Lay::Blank) + it(n, 1) + (lay(Lay::Open(Tag::Group(false))) + (lay(Lay::Open(Tag::SoftBlock)) + it(n, 2) + lay(Lay::Close(Tag::SoftBlock))) + lay(Lay::Close(Tag::Group(false)))) + it(n, 3) + lay(Lay::Blank)
        + if_body(child(n, 4), force, false) + else_ir(n, force))
}
impl RExpressionList {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == size_of_list(self.node()), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (size_of_list(self.node()) == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<AnyRExpression>)
        ensures match r { Some(e) => size_of_list(self.node()) > 0 && item_of_list(self.node(), 0) == Slot::Node(e.node()) && e.fits() && e.node().height() < self.node().height(), None => size_of_list(self.node()) == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<AnyRExpression>)
        ensures match r { Some(e) => size_of_list(self.node()) > 0 && item_of_list(self.node(), size_of_list(self.node()) - 1) == Slot::Node(e.node()) && e.fits(), None => size_of_list(self.node()) == 0 },
    { unimplemented!() }
}
/// an expression whose value is not used: in the file itself, or in a block without being the last one
pub open spec fn in_effect(n: SyntaxNode) -> bool {
    match n.up() {
        Some(p) if p.kind_of() == R_EXPRESSION_LIST => (p.up() matches Some(q) && q.kind_of() == R_ROOT)
            || size_of_list(p) > 0 && item_of_list(p, size_of_list(p) - 1) != Slot::Node(n),
        _ => false,
    }
}
pub trait SyntaxPositionExt { fn position(&self) -> SyntaxPosition; }
impl SyntaxNode {
//@@ item fn RSyntaxNode<SyntaxPositionExt>::position
//@@   ret r
//@@ + spec
    ensures (r is Effect) == in_effect(*self),
//@@ end
}
/// the braces are there whatever the width: in effect position, or when a body starts a line, has
/// braces, or is a conditional of its own, or the `else` starts a line
pub open spec fn forced(n: SyntaxNode) -> bool {
    ||| in_effect(n)
    ||| forces(child(n, 4))
    ||| n.slot(5) matches Slot::Node(e) && ((e.slot(0) matches Slot::Token(t) && t.led()) || forces(child(e, 1)))
}
pub open spec fn forces(e: SyntaxNode) -> bool { e.led() || e.kind_of() == R_BRACED_EXPRESSIONS || e.kind_of() == R_IF_STATEMENT }
//@@ item fn compute_braced_expressions
//@@   ret r
//@@ + spec
    ensures r matches Ok(b) ==> (b is Force) == forced(node.node()),
//@@ end
impl FormatNodeRule<RIfStatement> for FormatRIfStatement {
    open spec fn wants(&self, n: RIfStatement) -> bool { true }
    open spec fn fields(&self, n: RIfStatement) -> Seq<Ir> {
        if_ir(n.node(), match self.braced_expressions { Some(b) => b is Force, None => forced(n.node()) })
    }
//@@ item fn FormatRIfStatement<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ + says 1
else_ir(node.node(), braced_expressions is Force)
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + else_ir(node.node(), braced_expressions is Force),
//@@ end
}
// ---------------------------------------------------------------- braces
/// biome_rowan's way up
pub open spec fn is_above(a: SyntaxNode, n: SyntaxNode) -> bool
    decreases n.depth()
{ a == n || (n.up() matches Some(p) && p.depth() < n.depth() && is_above(a, p)) }
pub struct Ancestors { pub n: Ghost<SyntaxNode> }
impl SyntaxNode {
    #[verifier::external_body]
    pub fn ancestors(&self) -> (r: Ancestors) ensures r.n@ == *self, { unimplemented!() }
}
impl Ancestors {
    #[verifier::external_body]
    pub fn any<F: Fn(SyntaxNode) -> bool>(self, f: F) -> (r: bool)
        requires forall|a: SyntaxNode| #[trigger] f.requires((a,)),
        ensures
            r ==> exists|a: SyntaxNode| is_above(a, self.n@) && f.ensures((a,), true),
            !r ==> forall|a: SyntaxNode| #[trigger] is_above(a, self.n@) ==> f.ensures((a,), false),
    { unimplemented!() }
}
pub open spec fn in_argument(n: SyntaxNode) -> bool { exists|a: SyntaxNode| is_above(a, n) && a.kind_of() == R_ARGUMENT }
/// the braces inside the braces of `{{ name }}`, as an argument or below one
pub open spec fn inner(n: SyntaxNode) -> SyntaxNode { item_of_list(child(n, 1), 0)->Node_0 }
pub open spec fn curly(n: SyntaxNode) -> bool {
    let l = child(inner(n), 1);
    size_of_list(child(n, 1)) == 1 && inner(n).kind_of() == R_BRACED_EXPRESSIONS && size_of_list(l) == 1
        && (item_of_list(l, 0) matches Slot::Node(s) && s.kind_of() == R_IDENTIFIER) && in_argument(n)
}
pub open spec fn braces_ir(n: SyntaxNode) -> Seq<Ir> {
    if size_of_list(child(n, 1)) == 0 { it(n, 0) + (if the_comments().inside(n) { seq![Ir::Dangling(n)] } else { Seq::empty() }) + it(n, 2) }
    else if curly(n) {
        let i = inner(n);
        group_ir(seq![Ir::Leading(i)] + it(n, 0) + it(i, 0) + (lay(Lay::Open(Tag::SoftBlankBlock)) + it(i, 1) + lay(Lay::Close(Tag::SoftBlankBlock))) + it(i, 2) + it(n, 2) + seq![Ir::Trailing(i)])
    } else { it(n, 0) + (lay(Lay::Open(Tag::Block)) + it(n, 1) + lay(Lay::Close(Tag::Block))) + it(n, 2) }
}
//@@ source crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs
//@@ item struct FormatRBracedExpressions
//@@   public
//@@ end
//@@ item struct RCurlyCurly
//@@   public
//@@ end
//@@ item enum BracedExpressionsVariant
//@@   public
//@@ end
impl RCurlyCurly {
    pub open spec fn of(&self, n: SyntaxNode) -> bool {
        let i = inner(n);
        &&& is_token(n, 0, self.outer_l_curly_token) && is_token(n, 2, self.outer_r_curly_token)
        &&& is_token(i, 0, self.inner_l_curly_token) && is_token(i, 2, self.inner_r_curly_token)
        &&& is_list(i, 1, self.expression) && self.node_inner.node() == i
    }
}
//@@ item fn as_curly_curly
//@@   ret r
//@@ + spec
    ensures match r { Some(c) => curly(node.node()) && c.of(node.node()), None => !curly(node.node()) },
//@@ + closure 1
|syntax: SyntaxNode| -> (r: bool)
    ensures r == (syntax.kind_of() == R_ARGUMENT),
//@@ end
//@@ item fn braced_expressions_variant
//@@   ret r
//@@ + spec
    requires *comments == the_comments(),
    ensures match r {
        BracedExpressionsVariant::Empty => size_of_list(child(node.node(), 1)) == 0 && !the_comments().inside(node.node()),
        BracedExpressionsVariant::EmptyWithDanglingComments => size_of_list(child(node.node(), 1)) == 0 && the_comments().inside(node.node()),
        BracedExpressionsVariant::CurlyCurly(c) => size_of_list(child(node.node(), 1)) != 0 && curly(node.node()) && c.of(node.node()),
        BracedExpressionsVariant::NotEmpty => size_of_list(child(node.node(), 1)) != 0 && !curly(node.node()),
    },
//@@ end
//@@ item fn fmt_curly_curly
//@@   ret r
//@@ + spec
    ensures r is Ok ==> forall|n: SyntaxNode| #[trigger] node.of(n) && size_of_list(child(n, 1)) != 0 && curly(n) ==> final(f).out() == old(f).out() + braces_ir(n),
//@@ end
impl FormatNodeRule<RBracedExpressions> for FormatRBracedExpressions {
    open spec fn wants(&self, n: RBracedExpressions) -> bool { true }
    open spec fn fields(&self, n: RBracedExpressions) -> Seq<Ir> { braces_ir(n.node()) }
//@@ item fn FormatRBracedExpressions<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
// ---------------------------------------------------------------- functions
/// biome_formatter's RemoveSoftLinesBuffer: prints through the formatter, with its soft line
/// breaks taken out (layout, not looked at here)
pub struct RemoveSoftLinesBuffer<'a> { pub f: &'a mut RFormatter }
pub struct Recording<'b> { pub f: &'b mut RFormatter }
#[verifier::external_body]
pub struct Recorded { x: u8 }
impl Recorded {
    pub uninterp spec fn breaks(&self) -> bool;
    #[verifier::external_body]
    pub fn will_break(&self) -> (r: bool) ensures r == self.breaks(), { unimplemented!() }
}
impl<'a> RemoveSoftLinesBuffer<'a> {
    #[verifier::external_body]
    pub fn new(f: &'a mut RFormatter) -> (r: Self) ensures *r.f == *old(f), *final(r.f) == *final(f), { unimplemented!() }
    #[verifier::external_body]
    pub fn start_recording<'b>(&'b mut self) -> (r: Recording<'b>)
        ensures *r.f == *old(self).f, *final(r.f) == *final(self).f, *final(final(self).f) == *final(old(self).f),
    { unimplemented!() }
}
impl<'b> Recording<'b> {
    #[verifier::external_body]
    pub fn stop(self) -> (r: Recorded) ensures *final(self.f) == *old(self.f), { unimplemented!() }
}
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
//@@ item enum GroupedCallArgumentLayout
//@@   public
//@@   derive Clone, Copy
//@@ end
//@@ source crates/air_r_formatter/src/r/auxiliary/function_definition.rs
//@@ item struct FormatRFunctionDefinition
//@@   public
//@@ end
//@@ item struct FormatFunction
//@@   public
//@@ end
//@@ item struct FormatFunctionOptions
//@@   public
//@@   derive Clone, Copy
//@@ end
pub open spec fn function_ir(n: SyntaxNode) -> Seq<Ir> {
    group_ir(it(n, 0) + seq![Ir::Node(child(n, 1), Opt::Plain)] + lay(Lay::Blank) + function_body(child(n, 2)))
}
//@@ impl FormatFunction
//@@ item fn FormatFunction::new
//@@   ret r
//@@ + spec
    ensures r.inner == node,
//@@ end
//@@ item fn FormatFunction::fmt_with_options
//@@   rewrite `recording,` => `recording.f,`
//@@   rewrite? `FormatError::PoorLayout` => `SyntaxError`
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + function_ir(self.inner.node()),
//@@ + says 1
seq![Ir::Node(parameters.node(), Opt::Plain)]
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Node(parameters.node(), Opt::Plain)],
//@@ end
//@@ endimpl
impl FormatNodeRule<RFunctionDefinition> for FormatRFunctionDefinition {
    open spec fn wants(&self, n: RFunctionDefinition) -> bool { true }
    open spec fn fields(&self, n: RFunctionDefinition) -> Seq<Ir> { function_ir(n.node()) }
//@@ item fn FormatRFunctionDefinition<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
