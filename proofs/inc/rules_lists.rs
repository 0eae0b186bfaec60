// ---------------------------------------------------------------- expressions one under the other (T05)
/// what stands in front of an expression that is not the first one: `n` line ends were in front of it
pub open spec fn gap_ir(most: EmptyLines, n: nat, one: Seq<Ir>) -> Seq<Ir> {
    match most {
        EmptyLines::Single => if n > 1 { lay(Lay::Empty) } else { one },
        EmptyLines::Double => if n > 2 { lay(Lay::Empty) + seq![Ir::Text("\n"@)] } else if n == 2 { lay(Lay::Empty) } else { one },
    }
}
pub open spec fn next_ir(first: bool, most: EmptyLines, n: SyntaxNode, one: Seq<Ir>) -> Seq<Ir> {
    if first { Seq::empty() } else { gap_ir(most, n.lines(), one) }
}
/// the first `k` expressions of a list
pub open spec fn stacked(l: SyntaxNode, k: nat, most: EmptyLines) -> Seq<Ir> decreases k {
    if k == 0 { Seq::empty() } else {
        let n = item_of_list(l, k - 1)->Node_0;
        stacked(l, (k - 1) as nat, most) + next_ir(k == 1, most, n, lay(Lay::Hard)) + seq![Ir::Node(n, Opt::Plain)]
    }
}
//@@ source crates/air_r_formatter/src/joiner_ext.rs
//@@ item struct JoinNodesBuilderExt
//@@   public
//@@   rewrite `JoinNodesBuilderExt<'fmt, 'buf, Separator, Context>` => `JoinNodesBuilderExt<'fmt, Separator>`
//@@   rewrite `Formatter<'buf, Context>` => `RFormatter`
//@@ end
impl<'fmt, Separator: Format> JoinNodesBuilderExt<'fmt, Separator> {
    /// nothing else happens to what is printed into
    #[verifier::prophetic]
    pub open spec fn keeps(&self, then: &Self) -> bool {
        *final(then.fmt) == *final(self.fmt) && then.separator == self.separator && then.empty_lines == self.empty_lines
    }
//@@ item fn JoinNodesBuilderExt::new
//@@   rewrite `Formatter<'buf, Context>` => `RFormatter`
//@@   ret r
//@@ + spec
    ensures *r.fmt == *old(fmt), *final(r.fmt) == *final(fmt), r.result is Ok, !r.has_elements, r.separator == separator, r.empty_lines == empty_lines,
//@@ end
//@@ item fn JoinNodesBuilderExt::entry
//@@   rewrite `entry<L: Language>(&mut self, node: &SyntaxNode<L>, content: &dyn Format<Context>)` => `entry<C: Format>(&mut self, node: &SyntaxNode, content: &C)`
//@@ + spec
    ensures
        old(self).keeps(final(self)),
        final(self).result is Ok ==> old(self).result is Ok && final(self).has_elements
            && final(self).fmt.out() == old(self).fmt.out() + next_ir(!old(self).has_elements, old(self).empty_lines, *node, old(self).separator.ir()) + content.ir(),
//@@ + lifted 1 `fn entry_lifted<C: Format>(&mut self, node: &SyntaxNode, content: &C) -> (r: FormatResult<()>)`
    ensures
        old(self).keeps(final(self)),
        r is Ok ==> final(self).has_elements
            && final(self).fmt.out() == old(self).fmt.out() + next_ir(!old(self).has_elements, old(self).empty_lines, *node, old(self).separator.ir()) + content.ir(),
//@@ end
//@@ item fn JoinNodesBuilderExt::entry_no_separator
//@@   rewrite `entry_no_separator(&mut self, content: &dyn Format<Context>)` => `entry_no_separator<C: Format>(&mut self, content: &C)`
//@@ + spec
    ensures
        old(self).keeps(final(self)),
        final(self).result is Ok ==> old(self).result is Ok && final(self).has_elements && final(self).fmt.out() == old(self).fmt.out() + content.ir(),
//@@ + lifted 1 `fn entry_no_separator_lifted<C: Format>(&mut self, content: &C) -> (r: FormatResult<()>)`
    ensures
        old(self).keeps(final(self)),
        r is Ok ==> final(self).has_elements && final(self).fmt.out() == old(self).fmt.out() + content.ir(),
//@@ end
//@@ item fn JoinNodesBuilderExt::finish
//@@   ret r
//@@ + spec
    ensures r == old(self).result, *final(self) == *old(self),
//@@ end
}
//@@ source crates/air_r_formatter/src/formatter_ext.rs
impl Formatter<RFormatContext> {
//@@ item fn Formatter<FormatterExt>::join_nodes_with_hardline_ext
//@@   rewrite `JoinNodesBuilderExt<'a, 'buf, Line, Context>` => `JoinNodesBuilderExt<'a, Out>`
//@@   ret r
//@@ + spec
    ensures *r.fmt == *old(self), *final(r.fmt) == *final(self), r.result is Ok, !r.has_elements, r.separator.ir() == lay(Lay::Hard), r.empty_lines == empty_lines,
//@@ end
}
/// air's FormatRule, for lists
pub trait FormatRule<N: AstNode> {
    spec fn list(&self, n: N) -> Seq<Ir>;
    fn fmt(&self, node: &N, f: &mut RFormatter) -> (r: FormatResult<()>)
        ensures r is Ok ==> final(f).out() == old(f).out() + self.list(*node);
}
/// biome_formatter's: the node; as it stands where its own rule finds a syntax error
#[verifier::external_body]
pub fn format_or_verbatim(x: FormatNode) -> (r: Out) ensures r.s@ == x.ir(), r.ok@, { unimplemented!() }
/// the expressions of a list, in order
#[verifier::external_body]
pub fn expressions_of(l: &RExpressionList) -> (r: Vec<AnyRExpression>)
    ensures r@.len() == size_of_list(l.node()), forall|i: int| 0 <= i < r@.len() ==> item_of_list(l.node(), i) == Slot::Node((#[trigger] r@[i]).node()) && r@[i].fits(),
{ unimplemented!() }
//@@ source crates/air_r_formatter/src/r/lists/expression_list.rs
//@@ item struct FormatRExpressionList
//@@   public
//@@ end
impl FormatRule<RExpressionList> for FormatRExpressionList {
    open spec fn list(&self, n: RExpressionList) -> Seq<Ir> { stacked(n.node(), size_of_list(n.node()), self.empty_lines) }
//@@ item fn FormatRExpressionList<FormatRule>::fmt
//@@   inherits
//@@   rewrite `for rule in node` => `for rule in it: expressions_of(node)`
//@@   attr #[verifier::loop_isolation(false)]
//@@ + preloop 1
        let ghost j = join;
//@@ + loop 1
    invariant
        it.seq().len() == size_of_list(node.node()),
        forall|i: int| 0 <= i < it.seq().len() ==> item_of_list(node.node(), i) == Slot::Node((#[trigger] it.seq()[i]).node()),
        *final(join.fmt) == *final(j.fmt),
        join.separator.ir() == lay(Lay::Hard), join.empty_lines == self.empty_lines,
        join.result is Ok ==> join.has_elements == (it.index@ > 0) && join.fmt.out() == j.fmt.out() + stacked(node.node(), it.index@ as nat, self.empty_lines),
//@@ end
}
impl FormatRExpressionList {
//@@ item fn FormatRExpressionList<FormatRuleWithOptions>::with_options
//@@   rewrite `Self::Options` => `FormatRExpressionListOptions`
//@@   ret r
//@@ + spec
    ensures r.empty_lines == options.empty_lines,
//@@ end
}
// ---------------------------------------------------------------- parameters one behind the other
/// the comma behind an element of a list
pub uninterp spec fn comma_of_list(l: SyntaxNode, i: int) -> Slot;
/// biome_formatter's element of a separated list: with its comma, which the last one has to do without
pub open spec fn separated_ir(l: SyntaxNode, i: int) -> Seq<Ir> {
    slot_ir(item_of_list(l, i), Opt::Plain) + match comma_of_list(l, i) {
        Slot::Token(t) => if i == size_of_list(l) - 1 { seq![Ir::Removed(t)] } else { seq![Ir::Token(t)] },
        _ => Seq::empty(),
    }
}
pub open spec fn in_a_row(l: SyntaxNode, k: nat) -> Seq<Ir> decreases k {
    if k == 0 { Seq::empty() } else {
        in_a_row(l, (k - 1) as nat) + next_ir(k == 1, EmptyLines::Single, item_of_list(l, k - 1)->Node_0, lay(Lay::SoftOrBlank)) + separated_ir(l, k - 1)
    }
}
/// biome_formatter's builder of nodes with one separator
pub struct JoinNodesBuilder<'a> { pub result: FormatResult<()>, pub fmt: &'a mut RFormatter, pub has_elements: bool, pub one: Ghost<Seq<Ir>> }
impl<'a> JoinNodesBuilder<'a> {
    #[verifier::prophetic]
    pub open spec fn keeps(&self, then: &Self) -> bool { *final(then.fmt) == *final(self.fmt) && then.one == self.one }
    #[verifier::external_body]
    pub fn entry<C: Format>(&mut self, node: &SyntaxNode, content: &C)
        ensures
            old(self).keeps(final(self)),
            final(self).result is Ok ==> old(self).result is Ok && final(self).has_elements
                && final(self).fmt.out() == old(self).fmt.out() + next_ir(!old(self).has_elements, EmptyLines::Single, *node, old(self).one@) + content.ir(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: FormatResult<()>)
        ensures r == old(self).result, *final(self) == *old(self),
    { unimplemented!() }
}
impl Formatter<RFormatContext> {
    #[verifier::external_body]
    pub fn join_nodes_with_soft_line<'a>(&'a mut self) -> (r: JoinNodesBuilder<'a>)
        ensures *r.fmt == *old(self), *final(r.fmt) == *final(self), r.result is Ok, !r.has_elements, r.one@ == lay(Lay::SoftOrBlank),
    { unimplemented!() }
}
/// the parameters with their commas, in order, and what each prints
#[verifier::external_body]
pub fn separated_of(l: &RParameterList) -> (r: Vec<(Out, SyntaxResult<RParameter>)>)
    ensures r@.len() == size_of_list(l.node()),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0.s@ == separated_ir(l.node(), i) && (r@[i].1 matches Ok(p) ==> item_of_list(l.node(), i) == Slot::Node(p.node()) && p.fits()),
{ unimplemented!() }
//@@ source crates/air_r_formatter/src/r/lists/parameter_list.rs
//@@ item struct FormatRParameterList
//@@   public
//@@ end
impl FormatRule<RParameterList> for FormatRParameterList {
    open spec fn list(&self, n: RParameterList) -> Seq<Ir> { in_a_row(n.node(), size_of_list(n.node())) }
//@@ item fn FormatRParameterList<FormatRule>::fmt
//@@   inherits
//@@ end
}
//@@ item fn join_parameter_list
//@@   rewrite `join_parameter_list<S>` => `join_parameter_list`
//@@   rewrite `JoinNodesBuilder<'_, '_, S, RFormatContext>` => `JoinNodesBuilder<'_>`
//@@   rewrite? `where S: Format<RFormatContext>,` => ``
//@@   rewrite? `list.format_separated(",").with_trailing_separator(TrailingSeparator::Disallowed).zip(list.iter())` => `separated_of(list)`
//@@   rewrite `in entries` => `in it: entries`
//@@   attr #[verifier::loop_isolation(false)]
//@@   ret r
//@@ + spec
    requires old(joiner).result is Ok, !old(joiner).has_elements, old(joiner).one@ == lay(Lay::SoftOrBlank),
    ensures
        old(joiner).keeps(final(joiner)),
        r is Ok && final(joiner).result is Ok ==> final(joiner).fmt.out() == old(joiner).fmt.out() + in_a_row(list.node(), size_of_list(list.node())),
//@@ + loop 1
    invariant
        it.seq().len() == size_of_list(list.node()),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0.s@ == separated_ir(list.node(), i) && (it.seq()[i].1 matches Ok(p) ==> item_of_list(list.node(), i) == Slot::Node(p.node()) && p.fits()),
        old(joiner).keeps(joiner),
        joiner.result is Ok ==> joiner.has_elements == (it.index@ > 0) && joiner.fmt.out() == old(joiner).fmt.out() + in_a_row(list.node(), it.index@ as nat),
//@@ end
