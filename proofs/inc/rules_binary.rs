// ---------------------------------------------------------------- binary expressions
//@@ source crates/air_r_formatter/src/either.rs
//@@ item enum Either
//@@   public
//@@ end
impl<L: Format, R: Format> Format for Either<L, R> {
    open spec fn ir(&self) -> Seq<Ir> { match *self { Either::Left(x) => x.ir(), Either::Right(x) => x.ir() } }
    open spec fn sure(&self) -> bool { match *self { Either::Left(x) => x.sure(), Either::Right(x) => x.sure() } }
//@@ item fn Either<Format>::fmt
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
//@@ item struct FormatRCallArgumentsOptions
//@@   public
//@@ end
impl NodeOptions for FormatRCallArgumentsOptions { open spec fn opt(&self) -> Opt { Opt::Table(self.table) } }
//@@ source crates/air_r_formatter/src/r/auxiliary/binary_expression.rs
//@@ item enum ChainAlignment
//@@   public
//@@   derive Clone, Copy
//@@ end
//@@ item struct FormatRBinaryExpressionOptions
//@@   public
//@@ end
impl NodeOptions for FormatRBinaryExpressionOptions { open spec fn opt(&self) -> Opt { if self.alignment is LeftAligned { Opt::Left } else { Opt::Plain } } }
//@@ item enum LeftAssignmentKind
//@@   public
//@@ end
//@@ item struct TailPiece
//@@   public
//@@ end
/// Where R's grammar takes `expr_or_assign_or_help`, the only place for an assignment with `=`:
/// in a list of expressions, in parentheses, below `?`, as a side of an assignment or of `?`
/// that is itself in such a place, and as the body of a function, loop or conditional.
pub open spec fn equal_place(n: SyntaxNode) -> bool
    decreases n.depth()
{
    match n.up() {
        None => false,
        Some(p) => {
            let k = p.kind_of();
            ||| k == R_EXPRESSION_LIST
            ||| k == R_PARENTHESIZED_EXPRESSION
            ||| k == R_UNARY_EXPRESSION && has_token(p, 0, WAT)
            ||| k == R_BINARY_EXPRESSION && (has_token(p, 1, ASSIGN) || has_token(p, 1, EQUAL) || has_token(p, 1, WAT)) && p.depth() < n.depth() && equal_place(p)
            ||| k == R_FUNCTION_DEFINITION && p.slot(2) == Slot::Node(n)
            ||| k == R_IF_STATEMENT && p.slot(4) == Slot::Node(n)
            ||| k == R_ELSE_CLAUSE && p.slot(1) == Slot::Node(n)
            ||| k == R_FOR_STATEMENT && p.slot(6) == Slot::Node(n)
            ||| k == R_WHILE_STATEMENT && p.slot(4) == Slot::Node(n)
            ||| k == R_REPEAT_STATEMENT && p.slot(1) == Slot::Node(n)
        },
    }
}
pub open spec fn has_token(n: SyntaxNode, i: int, k: RSyntaxKind) -> bool { n.slot(i) matches Slot::Token(t) && t.kind_of() == k }
/// what becomes of the operator of an assignment
pub open spec fn operator_ir(n: SyntaxNode, t: SyntaxToken) -> Seq<Ir> {
    let style = the_options().assignment_style;
    if t.kind_of() == EQUAL && style is Arrow { seq![Ir::Replaced(t, "<-"@)] }
    else if t.kind_of() == ASSIGN && style is Equal && equal_place(n) { seq![Ir::Replaced(t, "="@)] }
    else { seq![Ir::Token(t)] }
}
//@@ item fn can_normalize_to_equal
//@@   ret r
//@@ + spec
    ensures r == equal_place(node.node()),
    decreases node.node().depth(),
//@@ end
//@@ item fn fmt_left_assignment_operator
//@@   ret r
//@@ + spec
    requires left_assignment_kind is Arrow <==> operator.kind_of() == ASSIGN, left_assignment_kind is Equal <==> operator.kind_of() == EQUAL,
    ensures r is Ok ==> final(f).out() == old(f).out() + operator_ir(node.node(), *operator),
//@@ end
/// an assigned call takes the table directive of the assignment
pub open spec fn rhs_opt(e: SyntaxNode, table: bool) -> Opt { if table && e.kind_of() == R_CALL { Opt::Table(true) } else { Opt::Plain } }
//@@ item fn format_assignment_rhs
//@@   ret r
//@@ + spec
    requires right.fits(),
    ensures r.sure(), r.ir() == seq![Ir::Node(right.node(), rhs_opt(right.node(), table))],
//@@ + says 1
seq![Ir::Node(right.node(), rhs_opt(right.node(), table))]
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Node(right.node(), rhs_opt(right.node(), table))],
//@@ end
/// a line break behind a left assignment (or a tilde) is kept
pub open spec fn kept_break(t: SyntaxToken, e: SyntaxNode) -> bool {
    &&& the_options().persistent_line_breaks is Respect
    &&& t.kind_of() == EQUAL || t.kind_of() == ASSIGN || t.kind_of() == SUPER_ASSIGN || t.kind_of() == TILDE
    &&& e.led()
}
//@@ item fn binary_assignment_has_persistent_line_break
//@@   ret r
//@@ + spec
    requires *options == the_options(),
    ensures r == kept_break(*operator, right.node()),
//@@ end
pub open spec fn rhs_ir(t: SyntaxToken, e: SyntaxNode, table: bool) -> Seq<Ir> {
    if kept_break(t, e) {
        lay(Lay::Open(Tag::Indent)) + (lay(Lay::Hard) + seq![Ir::Node(e, if e.kind_of() == R_BINARY_EXPRESSION { Opt::Left } else { rhs_opt(e, table) })]) + lay(Lay::Close(Tag::Indent))
    } else { lay(Lay::Blank) + seq![Ir::Node(e, rhs_opt(e, table))] }
}
pub open spec fn group_ir(s: Seq<Ir>) -> Seq<Ir> { lay(Lay::Open(Tag::Group(false))) + s + lay(Lay::Close(Tag::Group(false))) }
pub open spec fn assignment_ir(n: SyntaxNode, l: SyntaxNode, t: SyntaxToken, e: SyntaxNode) -> Seq<Ir> {
    group_ir(seq![Ir::Node(l, Opt::Plain)] + lay(Lay::Blank) + operator_ir(n, t) + rhs_ir(t, e, the_comments().tables(n)))
}
//@@ item fn fmt_binary_assignment
//@@   ret r
//@@ + spec
    requires right.fits(),
    ensures r is Ok ==> final(f).out() == old(f).out() + assignment_ir(node.node(), left.node(), operator, right.node()),
//@@ + says 1
rhs_ir(operator, right.node(), table)
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + rhs_ir(operator, right.node(), table),
//@@ + says 2
operator_ir(node.node(), operator)
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + operator_ir(node.node(), operator),
//@@ end
//@@ item fn fmt_binary_sticky
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + group_ir(seq![Ir::Node(left.node(), Opt::Plain), Ir::Token(operator), Ir::Node(right.node(), Opt::Plain)]),
//@@ end
//@@ item fn fmt_binary
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + group_ir(seq![Ir::Node(left.node(), Opt::Plain)] + lay(Lay::Blank) + seq![Ir::Token(operator)]
        + (lay(Lay::Open(Tag::Indent)) + (lay(Lay::SoftOrBlank) + seq![Ir::Node(right.node(), Opt::Plain)]) + lay(Lay::Close(Tag::Indent)))),
//@@ end
// ---------------------------------------------------------------- chains
impl AnyRExpression {
//@@ source crates/air_r_syntax/src/generated/nodes.rs
//@@ item fn AnyRExpression::as_r_binary_expression
//@@   ret r
//@@ + spec
    ensures match r { Some(n) => *self == AnyRExpression::RBinaryExpression(*n), None => !(self is RBinaryExpression) },
//@@ end
}
pub open spec fn chains(k: RSyntaxKind) -> bool {
    k == PIPE || k == SPECIAL || k == OR || k == OR2 || k == AND || k == AND2 || k == PLUS || k == MINUS || k == MULTIPLY || k == DIVIDE
}
pub open spec fn op(n: SyntaxNode) -> SyntaxToken { n.slot(1)->Token_0 }
/// a binary expression that a chain goes on through
pub open spec fn is_chain(e: SyntaxNode) -> bool {
    e.kind_of() == R_BINARY_EXPRESSION && e.slot(1) is Token && chains(op(e).kind_of())
}
pub open spec fn chain_head(e: SyntaxNode) -> SyntaxNode
    decreases e.height()
{ if is_chain(e) && child(e, 0).height() < e.height() { chain_head(child(e, 0)) } else { e } }
pub open spec fn piece(t: SyntaxToken, e: SyntaxNode) -> Seq<Ir> {
    lay(Lay::Blank) + (seq![Ir::Token(t)] + ((if e.lines() > 1 { lay(Lay::Empty) } else { lay(Lay::SoftOrBlank) }) + seq![Ir::Node(e, Opt::Plain)]))
}
/// every operator and right-hand side below the chain, in order, with the trailing comments of the expressions left out
pub open spec fn chain_pieces(e: SyntaxNode) -> Seq<Ir>
    decreases e.height()
{
    if is_chain(e) && child(e, 0).height() < e.height() { chain_pieces(child(e, 0)) + (piece(op(e), child(e, 2)) + seq![Ir::Trailing(e)]) } else { Seq::empty() }
}
pub open spec fn tail_piece(p: TailPiece) -> Seq<Ir> {
    piece(p.operator, p.right.node()) + (match p.enclosing { Some(e) => seq![Ir::Trailing(e.node())], None => Seq::empty() })
}
pub open spec fn forward(t: Seq<TailPiece>) -> Seq<Ir>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { forward(t.drop_last()) + tail_piece(t.last()) } }
pub open spec fn backward(t: Seq<TailPiece>) -> Seq<Ir>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { tail_piece(t.last()) + backward(t.drop_last()) } }
pub proof fn lemma_forward_front(t: Seq<TailPiece>)
    requires t.len() > 0,
    ensures forward(t) == tail_piece(t[0]) + forward(t.drop_first()),
    decreases t.len()
{
    reveal_with_fuel(forward, 2);
    if t.len() > 1 {
        lemma_forward_front(t.drop_last());
        assert(t.drop_last().drop_first() =~= t.drop_first().drop_last());
        assert(t.drop_first().last() == t.last());
        assert(forward(t.drop_first()) == forward(t.drop_first().drop_last()) + tail_piece(t.last()));
        assert(forward(t) =~= tail_piece(t[0]) + forward(t.drop_first()));
    } else {
        assert(t.drop_last() =~= Seq::empty());
        assert(t.drop_first() =~= Seq::empty());
    }
}
pub proof fn lemma_reverse(t: Seq<TailPiece>)
    ensures forward(t.reverse()) == backward(t),
    decreases t.len()
{
    if t.len() > 0 {
        lemma_reverse(t.drop_last());
        lemma_forward_front(t.reverse());
        assert(t.reverse().drop_first() =~= t.drop_last().reverse());
    } else {
        assert(t.reverse() =~= Seq::empty());
    }
}
pub assume_specification<T> [<[T]>::reverse](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(v) ==> f.requires((v,)),
    ensures match o { Some(v) => f.ensures((v,), r), None => !r };
//@@ source crates/air_r_formatter/src/r/auxiliary/binary_expression.rs
//@@ item fn is_chainable_binary_operator
//@@   ret r
//@@ + spec
    ensures r == chains(kind),
//@@ end
//@@ item fn as_chainable_binary_expression
//@@   ret r
//@@ + spec
    requires node.fits(),
    ensures
        r matches Ok(Some(n)) ==> *node == AnyRExpression::RBinaryExpression(*n) && is_chain(node.node()),
        r matches Ok(None) ==> !is_chain(node.node()),
//@@ end
/// a line break in front of the first right-hand side breaks the whole chain
pub open spec fn chain_breaks(t: Seq<TailPiece>) -> bool {
    the_options().persistent_line_breaks is Respect && t.len() > 0 && t[0].right.node().led()
}
//@@ item fn has_persistent_line_break
//@@   ret r
//@@ + spec
    requires *options == the_options(),
    ensures r == chain_breaks(tail@),
//@@ + closure 1
|piece: &TailPiece| -> (r: bool)
    ensures r == piece.right.node().led(),
//@@ end
pub open spec fn chain_first(e: SyntaxNode, e0: SyntaxNode) -> SyntaxNode
    decreases e.height()
{ if is_chain(e) && child(e, 0).height() < e.height() { chain_first(child(e, 0), child(e, 2)) } else { e0 } }
pub open spec fn chain_ir(l: SyntaxNode, t: SyntaxToken, e: SyntaxNode, a: ChainAlignment) -> Seq<Ir> {
    let p = chain_pieces(l) + piece(t, e);
    lay(Lay::Open(Tag::Group(the_options().persistent_line_breaks is Respect && chain_first(l, e).led()))) +
    (seq![Ir::Node(chain_head(l), Opt::Plain)] + (if a is LeftAligned { p } else { lay(Lay::Open(Tag::Indent)) + p + lay(Lay::Close(Tag::Indent)) })) + lay(Lay::Close(Tag::Group(the_options().persistent_line_breaks is Respect && chain_first(l, e).led())))
}
//@@ item fn fmt_binary_chain
//@@   ret r
//@@   rewrite? `in tail . iter ( )` => `in it: tail.iter()`
//@@ + spec
    requires left.fits(),
    ensures r is Ok ==> final(f).out() == old(f).out() + chain_ir(left.node(), operator, right.node(), alignment),
//@@ + body
    let ghost (l0, t0, r0) = (left.node(), operator, right.node());
//@@ + loop 1
    invariant
        left.fits(),
        tail@.len() > 0,
        chain_head(left.node()) == chain_head(l0),
        chain_pieces(left.node()) + backward(tail@) == chain_pieces(l0) + piece(t0, r0),
        chain_first(left.node(), tail@.last().right.node()) == chain_first(l0, r0),
    ensures
        !is_chain(left.node()),
    decreases left.node().height(),
//@@ + preloop 1
    proof {
        assert(tail@.drop_last() =~= Seq::empty());
        reveal_with_fuel(backward, 2);
        assert(chain_pieces(left.node()) + backward(tail@) =~= chain_pieces(l0) + piece(t0, r0));
    }
//@@ + loopbody 1
    let ghost (was, tail0) = (left.node(), tail@);
//@@ + looptail 1
    proof {
        assert(tail@.drop_last() =~= tail0);
        assert(chain_pieces(left.node()) + backward(tail@) =~= chain_pieces(was) + backward(tail0));
    }
//@@ + after_stmt `tail . reverse`
    proof { lemma_reverse(tail_before); }
//@@ + before `tail . reverse`
    let ghost tail_before = tail@;
//@@ + says 1
forward(tail@)
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + forward(tail@),
//@@ + preloop 2
    let ghost f0 = f.out();
//@@ + loop 2
    invariant
        it.seq() == tail@.map(|i, x: TailPiece| &x),
        f.out() == f0 + forward(tail@.take(it.index@)),
//@@ + looptail 2
    proof {
        let k = it.index@;
        assert(tail@.take(k + 1).drop_last() =~= tail@.take(k));
        assert(tail@.take(k + 1).last() == tail@[k]);
        assert(f.out() =~= f0 + forward(tail@.take(k + 1)));
    }
//@@ + loopafter 2
    proof { assert(tail@.take(tail@.len() as int) =~= tail@); }
//@@ end
