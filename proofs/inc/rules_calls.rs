// ---------------------------------------------------------------- calls and subsets (T05, T06, T07)
/// the first `k` arguments, one behind the other: an empty line where the source has one
pub open spec fn row(a: Seq<SeparatedArgument>, k: nat) -> Seq<Ir> decreases k {
    if k == 0 { Seq::empty() } else {
        row(a, (k - 1) as nat) + (if k == 1 { Seq::empty() } else if a[k - 1].lines() <= 1 { lay(Lay::SoftOrBlank) } else { lay(Lay::Empty) }) + a[k - 1].ir()
    }
}
/// the first `k` with nothing between them
pub open spec fn tight(a: Seq<SeparatedArgument>, k: nat) -> Seq<Ir> decreases k {
    if k == 0 { Seq::empty() } else { tight(a, (k - 1) as nat) + a[k - 1].ir() }
}
/// the only argument hugs the parentheses
pub open spec fn hugs(a: Seq<SeparatedArgument>, r: SyntaxResult<SyntaxToken>) -> bool {
    &&& a.len() == 1
    &&& a[0].arg()->Ok_0.node().slot(0) is Empty
    &&& a[0].arg()->Ok_0.node().slot(1) matches Slot::Node(v) && !v.commented() && (v.kind_of() == R_CALL || v.kind_of() == R_SUBSET || v.kind_of() == R_SUBSET2)
    &&& !(r matches Ok(t) && t.led_by_comments())
}
pub open spec fn broken_out(wide: bool, l: Seq<Ir>, h: Seq<SeparatedArgument>, a: Seq<SeparatedArgument>, hug: bool, r: Seq<Ir>) -> Seq<Ir> {
    let body = if !wide && hug { row(a, a.len()) } else { lay(Lay::Open(Tag::SoftBlock)) + row(a, a.len()) + lay(Lay::Close(Tag::SoftBlock)) };
    lay(Lay::Open(Tag::Group(wide))) + (l + (tight(h, h.len()) + ((if h.len() > 0 && a.len() > 0 { lay(Lay::Blank) } else { Seq::empty() }) + (body + (r + Seq::<Ir>::empty()))))) + lay(Lay::Close(Tag::Group(wide)))
}
pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and ](x: Result<T, E>, f: F) -> (r: bool)
    requires x matches Ok(v) ==> f.requires((v,)),
    ensures match x { Ok(v) => f.ensures((v,), r), Err(_) => !r };
/// things printed one behind the other
pub trait Entries { spec fn each(&self) -> Seq<Seq<Ir>>; }
impl<'a, T: Format> Entries for &'a [T] { open spec fn each(&self) -> Seq<Seq<Ir>> { Seq::new(self@.len(), |i: int| self@[i].ir()) } }
pub open spec fn joined(e: Seq<Seq<Ir>>, k: nat, between: Seq<Ir>) -> Seq<Ir> decreases k {
    if k == 0 { Seq::empty() } else { joined(e, (k - 1) as nat, between) + (if k == 1 { Seq::empty() } else { between }) + e[k - 1] }
}
/// biome_formatter's
pub struct JoinBuilder<'a> { pub result: FormatResult<()>, pub fmt: &'a mut RFormatter, pub has_elements: bool, pub between: Ghost<Seq<Ir>> }
impl<'a> JoinBuilder<'a> {
    #[verifier::external_body]
    pub fn entries<E: Entries>(self, e: E) -> (r: Self)
        ensures *final(r.fmt) == *final(self.fmt), r.between == self.between, r.has_elements == (self.has_elements || e.each().len() > 0),
            r.result is Ok ==> self.result is Ok && r.fmt.out() == old(self.fmt).out() + ((if self.has_elements && e.each().len() > 0 { self.between@ } else { Seq::empty() }) + joined(e.each(), e.each().len(), self.between@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<T: Format>(self, x: &T) -> (r: Self)
        ensures *final(r.fmt) == *final(self.fmt), r.between == self.between, r.has_elements,
            r.result is Ok ==> self.result is Ok && x.sure() && r.fmt.out() == old(self.fmt).out() + ((if self.has_elements { self.between@ } else { Seq::empty() }) + x.ir()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: FormatResult<()>)
        ensures r == self.result, *final(self.fmt) == *old(self.fmt),
    { unimplemented!() }
}
impl Formatter<RFormatContext> {
    #[verifier::external_body]
    pub fn join<'a>(&'a mut self) -> (r: JoinBuilder<'a>)
        ensures *r.fmt == *old(self), *final(r.fmt) == *final(self), r.result is Ok, !r.has_elements, r.between@ == Seq::<Ir>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join_with<'a, S: Format>(&'a mut self, s: S) -> (r: JoinBuilder<'a>)
        ensures *r.fmt == *old(self), *final(r.fmt) == *final(self), r.result is Ok, !r.has_elements, r.between@ == s.ir(),
    { unimplemented!() }
}
proof fn holes_joined(h: Seq<SeparatedArgument>, e: Seq<Seq<Ir>>, k: nat)
    requires k <= h.len(), e.len() == h.len(), forall|i: int| 0 <= i < h.len() ==> e[i] == (#[trigger] h[i]).ir(),
    ensures joined(e, k, Seq::empty()) == tight(h, k),
    decreases k,
{
    if k > 0 {
        holes_joined(h, e, (k - 1) as nat);
        assert(h[k - 1].ir() == e[k - 1]);
        assert(joined(e, (k - 1) as nat, Seq::empty()) + Seq::<Ir>::empty() == joined(e, (k - 1) as nat, Seq::empty()));
    }
}
spec fn those(a: Seq<FormatCallArgument>) -> Seq<SeparatedArgument> { a.map_values(|x: FormatCallArgument| x.what()) }
spec fn the_holes(a: Seq<FormatCallArgumentHole>) -> Seq<SeparatedArgument> { a.map_values(|x: FormatCallArgumentHole| x.what()) }
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
//@@ item enum RCallLikeArguments
//@@   public
//@@ end
impl RCallLikeArguments {
    pub open spec fn node(&self) -> SyntaxNode {
        match *self { RCallLikeArguments::Call(n) => n.node(), RCallLikeArguments::Subset(n) => n.node(), RCallLikeArguments::Subset2(n) => n.node() }
    }
}
//@@ impl RCallLikeArguments
//@@ item fn RCallLikeArguments::l_token
//@@   ret r
//@@ + spec
    ensures is_token(self.node(), 0, r),
//@@ end
//@@ item fn RCallLikeArguments::r_token
//@@   ret r
//@@ + spec
    ensures is_token(self.node(), 2, r),
//@@ end
//@@ item fn RCallLikeArguments::items
//@@   ret r
//@@ + spec
    ensures is_list(self.node(), 1, r),
//@@ end
//@@ item fn RCallLikeArguments::syntax
//@@   ret r
//@@ + spec
    ensures *r == self.node(),
//@@ end
//@@ endimpl
//@@ item fn is_hugging_call
//@@   ret r
//@@ + spec
    ensures r matches Ok(b) ==> b == hugs(those(items@), r_token),
//@@ + closure 1
|tok: SyntaxToken| -> (r: bool)
    ensures r == tok.led_by_comments(),
//@@ end
//@@ item struct FormatAllArgsBrokenOut
//@@   rewrite `&'a dyn Format<RFormatContext>` => `&'a Out`
//@@ end
impl<'a> Format for FormatAllArgsBrokenOut<'a> {
    closed spec fn ir(&self) -> Seq<Ir> {
        let r = match self.call.node().slot(2) { Slot::Token(t) => Ok(t), _ => Err(SyntaxError) };
        broken_out(self.expand, self.l_token.ir(), the_holes(self.leading_holes@), those(self.args@), hugs(those(self.args@), r), self.r_token.ir())
    }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatAllArgsBrokenOut<Format>::fmt
//@@   inherits
//@@   rewrite `in self.args.iter().enumerate()` => `in it: numbered(self.args)`
//@@   rewrite `.entries(self.leading_holes.iter())` => `.entries(self.leading_holes)`
//@@   attr #[verifier::loop_isolation(false)]
//@@ + body
    proof { holes_joined(the_holes(self.leading_holes@), self.leading_holes.each(), self.leading_holes@.len()); }
//@@ + says 1
row(those(self.args@), self.args@.len())
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + row(those(self.args@), self.args@.len()),
//@@ + loop 1
    invariant
        it.seq().len() == self.args@.len(),
        forall|i: int| 0 <= i < self.args@.len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == self.args@[i],
        f.out() == old(f).out() + row(those(self.args@), it.index@ as nat),
//@@ + loopbody 1
        proof { use_type_invariant(entry); }
//@@ + says 2
tight(the_holes(self.leading_holes@), self.leading_holes@.len())
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + tight(the_holes(self.leading_holes@), self.leading_holes@.len()),
//@@ end
}
// ---------------------------------------------------------------- the last argument on its own
pub open spec fn spreads(n: SyntaxNode) -> bool { if size_of_list(child(n, 1)) == 0 { the_comments().inside(n) } else { !curly(n) } }
pub open spec fn groupable(v: SyntaxNode) -> bool {
    if v.kind_of() == R_BRACED_EXPRESSIONS { spreads(v) }
    else { v.kind_of() == R_FUNCTION_DEFINITION && (v.slot(2) matches Slot::Node(b) && (b.kind_of() == R_BRACED_EXPRESSIONS ==> spreads(b))) }
}
pub open spec fn any_comments(n: SyntaxNode) -> bool { the_comments().before(n) || the_comments().inside(n) || the_comments().after(n) }
pub open spec fn last_groups(l: SyntaxNode) -> bool {
    &&& args_of(l).len() > 0
    &&& args_of(l).last().arg() matches Ok(a) && !any_comments(a.node())
        && !(a.node().slot(0) matches Slot::Node(c) && any_comments(c))
        && (a.node().slot(1) matches Slot::Node(v) && groupable(v))
}
/// biome_rowan's AstSeparatedList
impl RArgumentList {
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<SyntaxResult<RArgument>>)
        ensures match r { Some(a) => args_of(self.node()).len() > 0 && a == args_of(self.node()).last().arg() && (a matches Ok(x) ==> x.fits()), None => args_of(self.node()).len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Arguments) ensures r.s@ == args_of(self.node()), { unimplemented!() }
    #[verifier::external_body]
    pub fn format_separated(&self, s: &'static str) -> (r: Separated) ensures r.l@ == self.node(), { unimplemented!() }
}
pub struct Arguments { pub s: Ghost<Seq<SeparatedArgument>> }
impl Arguments {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<SyntaxResult<RArgument>>)
        ensures match r {
            Some(a) => old(self).s@.len() > 0 && final(self).s@ == old(self).s@.skip(1) && a == old(self).s@[0].arg() && (a matches Ok(x) ==> x.fits()),
            None => old(self).s@.len() == 0 && final(self).s@ == old(self).s@ },
    { unimplemented!() }
}
/// biome_formatter's separated elements
pub enum TrailingSeparator { Allowed, Disallowed, Mandatory, Omit }
pub struct Separated { pub l: Ghost<SyntaxNode> }
pub struct Unseparated { pub l: Ghost<SyntaxNode> }
impl Separated {
    #[verifier::external_body]
    pub fn with_trailing_separator(self, t: TrailingSeparator) -> (r: Unseparated) requires t is Disallowed, ensures r.l@ == self.l@, { unimplemented!() }
}
pub open spec fn each_separated(l: SyntaxNode) -> Seq<Seq<Ir>> { Seq::new(args_of(l).len(), |i: int| separated_ir(l, i)) }
impl Entries for Unseparated { open spec fn each(&self) -> Seq<Seq<Ir>> { each_separated(self.l@) } }
pub struct Made<T> { pub s: Ghost<Seq<T>>, pub p: core::marker::PhantomData<T> }
impl Elements {
    #[verifier::external_body]
    pub fn take_while_ref<F: Fn(&SeparatedArgument) -> bool>(&mut self, f: F) -> (r: Elements)
        requires forall|e: &SeparatedArgument| #[trigger] f.requires((e,)),
        ensures
            r.s@ + final(self).s@ == old(self).s@,
            forall|i: int| 0 <= i < r.s@.len() ==> f.ensures((&#[trigger] r.s@[i],), true),
            final(self).s@.len() > 0 ==> f.ensures((&final(self).s@[0],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<T, F: Fn(SeparatedArgument) -> T>(self, f: F) -> (r: Made<T>)
        requires forall|e: SeparatedArgument| #[trigger] f.requires((e,)),
        ensures r.s@.len() == self.s@.len(), forall|i: int| 0 <= i < r.s@.len() ==> f.ensures((self.s@[i],), #[trigger] r.s@[i]),
    { unimplemented!() }
}
impl Numbered {
    #[verifier::external_body]
    pub fn map<T, F: Fn((usize, SeparatedArgument)) -> T>(self, f: F) -> (r: Made<T>)
        requires forall|e: (usize, SeparatedArgument)| #[trigger] f.requires((e,)), self.i@ == 0,
        ensures r.s@.len() == self.s@.len(), forall|i: int| 0 <= i < r.s@.len() ==> f.ensures(((i as usize, self.s@[i]),), #[trigger] r.s@[i]),
    { unimplemented!() }
}
impl<T> Made<T> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self.s@, { unimplemented!() }
}
//@@ item fn braced_expressions_is_groupable
//@@   ret r
//@@ + spec
    requires *comments == the_comments(),
    ensures r == spreads(node.node()),
//@@ end
//@@ item fn argument_is_groupable
//@@   rewrite? `use air_r_syntax::AnyRExpression::*;` => `use AnyRExpression::*;`
//@@   ret r
//@@ + spec
    requires *comments == the_comments(), argument.fits(),
    ensures r == Ok::<bool, SyntaxError>(groupable(argument.node())),
//@@ + closure 1
|body: AnyRExpression| -> (r: bool)
    requires body.fits(),
    ensures r == (body.node().kind_of() == R_BRACED_EXPRESSIONS ==> spreads(body.node())),
//@@ end
//@@ item fn should_group_first_argument
//@@   ret r
//@@ + spec
    ensures r == Ok::<bool, SyntaxError>(false),
//@@ end
//@@ item fn should_group_last_argument
//@@   ret r
//@@ + spec
    requires *comments == the_comments(),
    ensures r matches Ok(b) ==> b == last_groups(list.node()), r is Err ==> !last_groups(list.node()),
//@@ end
//@@ item fn arguments_grouped_layout
//@@   ret r
//@@ + spec
    requires *comments == the_comments(),
    ensures (r is Some) == last_groups(args.node()), r matches Some(g) ==> g is GroupedLastArgument,
//@@ end
// ---------------------------------------------------------------- the whole
pub open spec fn is_kind(s: Slot, k: RSyntaxKind) -> bool { s matches Slot::Node(n) && n.kind_of() == k }
/// a string and a block, each of them with or without a name, and nothing else
pub open spec fn titled_block(a: Seq<SeparatedArgument>) -> bool {
    &&& a.len() == 2
    &&& a[0].arg() matches Ok(x) && is_kind(x.node().slot(1), R_STRING_VALUE)
    &&& a[1].arg() matches Ok(x) && is_kind(x.node().slot(1), R_BRACED_EXPRESSIONS)
}
pub open spec fn list_of(n: SyntaxNode) -> SyntaxNode { child(n, 1) }
pub open spec fn hole(e: SeparatedArgument) -> bool { e.arg() matches Ok(a) && a.node().slot(0) is Empty && a.node().slot(1) is Empty }
/// a hole that clings to the opening bracket
pub open spec fn clings(e: SeparatedArgument) -> bool { hole(e) && !any_comments(e.arg()->Ok_0.node()) }
pub open spec fn leading(a: Seq<SeparatedArgument>) -> nat decreases a.len() {
    if a.len() > 0 && clings(a[0]) { 1 + leading(a.skip(1)) } else { 0 }
}
proof fn leading_is(h: Seq<SeparatedArgument>, a: Seq<SeparatedArgument>, all: Seq<SeparatedArgument>)
    requires all == h + a, forall|i: int| 0 <= i < h.len() ==> clings(#[trigger] h[i]), a.len() > 0 ==> !clings(a[0]),
    ensures leading(all) == h.len(), all.take(h.len() as int) == h, all.skip(h.len() as int) == a,
    decreases h.len(),
{
    assert(all.take(h.len() as int) =~= h);
    assert(all.skip(h.len() as int) =~= a);
    if h.len() > 0 {
        assert(all[0] == h[0]);
        assert(all.skip(1) =~= h.skip(1) + a);
        assert forall|i: int| 0 <= i < h.skip(1).len() implies clings(#[trigger] h.skip(1)[i]) by { assert(h.skip(1)[i] == h[i + 1]); }
        leading_is(h.skip(1), a, all.skip(1));
    } else {
        assert(all =~= a);
    }
}
/// an empty line anywhere between the arguments
pub open spec fn roomy(h: Seq<SeparatedArgument>, a: Seq<SeparatedArgument>) -> bool {
    ||| exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).comma_lines() > 1
    ||| exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).lines() > 1
}
/// a line break in front of the first of them
pub open spec fn led_on(h: Seq<SeparatedArgument>, a: Seq<SeparatedArgument>) -> bool {
    &&& the_options().persistent_line_breaks is Respect
    &&& (exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).comma_lines() > 0) || (a.len() > 0 && a[0].lines() > 0)
}
/// what is printed of a list whose last argument is grouped: one of `fits_as`
pub uninterp spec fn fitted(n: SyntaxNode) -> Seq<Ir>;
pub open spec fn titled(n: SyntaxNode) -> bool { n.kind_of() == R_CALL_ARGUMENTS && (n.up() matches Some(c) && c.kind_of() == R_CALL && titled_block(args_of(list_of(child(c, 1))))) }
pub open spec fn call_like(n: SyntaxNode) -> Seq<Ir> {
    let all = args_of(list_of(n));
    let k = leading(all) as int;
    let h = all.take(k);
    let a = all.skip(k);
    let r = match n.slot(2) { Slot::Token(t) => Ok(t), _ => Err(SyntaxError) };
    if all.len() == 0 { it(n, 0) + seq![Ir::Dangling(n)] + it(n, 2) }
    else if titled(n) { it(n, 0) + joined(each_separated(list_of(n)), all.len(), lay(Lay::Blank)) + it(n, 2) }
    else if roomy(h, a) || led_on(h, a) { broken_out(true, it(n, 0), h, a, hugs(a, r), it(n, 2)) }
    else if last_groups(list_of(n)) { fitted(n) }
    else { broken_out(false, it(n, 0), h, a, hugs(a, r), it(n, 2)) }
}
//@@ source crates/air_r_syntax/src/argument_ext.rs
impl RArgument {
//@@ item fn RArgument::is_hole
//@@   ret r
//@@ + spec
    ensures r == (self.node().slot(0) is Empty && self.node().slot(1) is Empty),
//@@ end
}
//@@ source crates/air_r_syntax/src/call_ext.rs
impl RCall {
//@@ item fn RCall::is_test_call
//@@   ret r
//@@ + spec
    ensures r matches Ok(b) ==> b == titled_block(args_of(list_of(child(self.node(), 1)))),
//@@ end
//@@ item fn RCall::is_titled_block_call
//@@   ret r
//@@ + spec
    ensures r == titled_block(args_of(list_of(arguments.node()))),
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
impl RCallLikeArguments {
    pub open spec fn fits(&self) -> bool {
        match *self { RCallLikeArguments::Call(n) => n.fits(), RCallLikeArguments::Subset(n) => n.fits(), RCallLikeArguments::Subset2(n) => n.fits() }
    }
    /// `write_grouped_arguments`, whose contract is proved below: which of the ways it prints depends
    /// on the document and its settings alone
    #[verifier::external_body]
    fn write_grouped(&self, l_token: SyntaxToken, leading_holes: Vec<FormatCallArgumentHole>, arguments: Vec<FormatCallArgument>, r_token: SyntaxToken, group_layout: GroupedCallArgumentLayout, f: &mut RFormatter) -> (r: FormatResult<()>)
        requires self.grouping(l_token, leading_holes@, arguments@, r_token, group_layout),
        ensures r is Ok ==> final(f).out() == old(f).out() + fitted(self.node()) && fits_as(self.node(), fitted(self.node())),
    { unimplemented!() }
    spec fn grouping(&self, l_token: SyntaxToken, h: Seq<FormatCallArgumentHole>, a: Seq<FormatCallArgument>, r_token: SyntaxToken, g: GroupedCallArgumentLayout) -> bool {
        let all = args_of(list_of(self.node()));
        &&& self.fits()
        &&& is_token(self.node(), 0, Ok(l_token)) && is_token(self.node(), 2, Ok(r_token))
        &&& the_holes(h) == all.take(leading(all) as int) && those(a) == all.skip(leading(all) as int)
        &&& a.len() > 0
        &&& g is GroupedLastArgument
    }
//@@ item fn RCallLikeArguments<Format>::fmt
//@@   ret r
//@@   rewrite `leading_holes.iter().any` => `leading_holes.as_slice().any_of`
//@@   rewrite `arguments.iter().any` => `arguments.as_slice().any_of`
//@@   rewrite `has_persistent_line_break` => `has_persistent_line_break_arguments`
//@@   rewrite `write_grouped_arguments` => `write_grouped`
//@@ + spec
    requires self.fits(),
    ensures r is Ok ==> final(f).out() == old(f).out() + call_like(self.node()),
//@@ + before `let has_empty_line`
        proof {
            let h = the_holes(leading_holes@);
            let a = those(arguments@);
            let all = args_of(items.node());
            assert(h + a =~= all);
            assert forall|i: int| 0 <= i < h.len() implies clings(#[trigger] h[i]) by { assert(h[i] == leading_holes@[i].what()); }
            assert(a.len() > 0 ==> a[0] == arguments@[0].what());
            leading_is(h, a, all);
            assert(last_groups(items.node()) ==> a.len() > 0) by { if a.len() == 0 && h.len() > 0 { assert(all.last() == h[h.len() - 1]); } };
            assert forall|i: int| #![trigger h[i]] #![trigger leading_holes@[i]] 0 <= i < h.len() implies h[i].comma_lines() == leading_holes@[i].leading_lines by { assert(h[i] == leading_holes@[i].what()); }
            assert forall|i: int| #![trigger a[i]] #![trigger arguments@[i]] 0 <= i < a.len() implies a[i].lines() == arguments@[i].lead() by { assert(a[i] == arguments@[i].what()); }
        }
//@@ + after_stmt `let has_empty_line`
        proof {
            let h = the_holes(leading_holes@);
            let a = those(arguments@);
            assert(has_empty_line ==> (exists|i: int| 0 <= i < leading_holes@.len() && leading_holes@[i].leading_lines > 1) || (exists|i: int| 0 <= i < arguments@.len() && (#[trigger] arguments@[i]).lead() > 1));
            assert(has_empty_line ==> roomy(h, a));
            assert(roomy(h, a) ==> has_empty_line);
            assert(arguments_break(leading_holes@, arguments@) == led_on(h, a));
        }
//@@ + closure 1
|call: RCall| -> (r: SyntaxResult<bool>)
    ensures r matches Ok(b) ==> b == titled_block(args_of(list_of(child(call.node(), 1)))),
//@@ + says 2
joined(each_separated(items.node()), args_of(items.node()).len(), lay(Lay::Blank))
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + joined(each_separated(items.node()), args_of(items.node()).len(), lay(Lay::Blank)),
//@@ + closure 3
|element: &SeparatedArgument| -> (r: bool)
    ensures r == clings(*element),
//@@ + closure 4
|node: &RArgument| -> (r: bool)
    ensures r == (node.node().slot(0) is Empty && node.node().slot(1) is Empty && !any_comments(node.node())),
//@@ + closure 5
|p1_in: (usize, SeparatedArgument)| -> (r: FormatCallArgument)
    ensures r.what() == p1_in.1, r.lead() == p1_in.1.lines(),
//@@ + closure 6
|leading_hole: &FormatCallArgumentHole| -> (r: bool)
    ensures r == (leading_hole.leading_lines > 1),
//@@ + closure 7
|argument: &FormatCallArgument| -> (r: bool)
    ensures r == (argument.lead() > 1),
//@@ end
}
#[verifier::external_body]
pub struct Snapshot { x: u8 }
impl Snapshot { pub uninterp spec fn of(&self) -> Seq<Ir>; }
impl Formatter<RFormatContext> {
    #[verifier::external_body]
    pub fn state_snapshot(&self) -> (r: Snapshot) ensures r.of() == self.out(), { unimplemented!() }
    #[verifier::external_body]
    pub fn restore_state_snapshot(&mut self, s: Snapshot) ensures final(self).out() == s.of(), { unimplemented!() }
}
#[verifier::external_body]
pub fn format_verbatim_node(n: &SyntaxNode) -> (r: Out) ensures r.s@ == seq![Ir::Verbatim(*n)], r.ok@, { unimplemented!() }
/// whether the arguments can be set as a table, and what that is (T01)
pub uninterp spec fn tabular(n: SyntaxNode) -> bool;
pub uninterp spec fn table(n: SyntaxNode) -> Seq<Ir>;
//@@ item struct FormatRCallArguments
//@@   public
//@@ end
impl FormatRCallArguments {
    #[verifier::external_body]
    fn fmt_table(&self, node: &RCallArguments, f: &mut RFormatter) -> (r: FormatResult<Option<()>>)
        ensures r matches Ok(Some(_)) ==> tabular(node.node()) && final(f).out() == old(f).out() + table(node.node()), r matches Ok(None) ==> !tabular(node.node()),
    { unimplemented!() }
//@@ item fn FormatRCallArguments::fmt_call_like
//@@   ret r
//@@ + spec
    requires node.fits(),
    ensures r is Ok ==> final(f).out() == old(f).out() + call_like(node.node()),
//@@ end
//@@ item fn FormatRCallArguments<FormatRuleWithOptions>::with_options
//@@   rewrite `Self::Options` => `FormatRCallArgumentsOptions`
//@@   ret r
//@@ + spec
    ensures r.table == options.table,
//@@ end
}
impl FormatNodeRule<RCallArguments> for FormatRCallArguments {
    open spec fn wants(&self, n: RCallArguments) -> bool { n.fits() }
    open spec fn fields(&self, n: RCallArguments) -> Seq<Ir> {
        if !self.table { call_like(n.node()) } else if tabular(n.node()) { table(n.node()) } else { seq![Ir::Verbatim(n.node())] }
    }
//@@ item fn FormatRCallArguments<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/subset_arguments.rs
//@@ item struct FormatRSubsetArguments
//@@   public
//@@ end
impl FormatNodeRule<RSubsetArguments> for FormatRSubsetArguments {
    open spec fn wants(&self, n: RSubsetArguments) -> bool { n.fits() }
    open spec fn fields(&self, n: RSubsetArguments) -> Seq<Ir> { call_like(n.node()) }
//@@ item fn FormatRSubsetArguments<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/subset_2_arguments.rs
//@@ item struct FormatRSubset2Arguments
//@@   public
//@@ end
impl FormatNodeRule<RSubset2Arguments> for FormatRSubset2Arguments {
    open spec fn wants(&self, n: RSubset2Arguments) -> bool { n.fits() }
    open spec fn fields(&self, n: RSubset2Arguments) -> Seq<Ir> { call_like(n.node()) }
//@@ item fn FormatRSubset2Arguments<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
// ---------------------------------------------------------------- the last argument, printed by hand
/// a function that is the last of several arguments is asked for a layout of its own; otherwise
/// as by the argument's own rule, `argument_ir`, and the comma
pub open spec fn grouped_ir(e: SeparatedArgument, only: bool) -> Seq<Ir> {
    let a = e.arg()->Ok_0.node();
    if !only && is_kind(a.slot(1), R_FUNCTION_DEFINITION) {
        it(a, 0) + (if a.slot(0) is Empty { Seq::empty() } else { lay(Lay::Blank) }) + slot_ir(a.slot(1), Opt::Last)
            + (match e.comma() { Ok(Some(t)) => seq![Ir::Token(t)], _ => Seq::empty() })
    } else { e.ir() }
}
impl NodeOptions for FormatFunctionOptions { open spec fn opt(&self) -> Opt { if self.call_argument_layout is Some { Opt::Last } else { Opt::Plain } } }
pub mod prelude_calls { use super::*;
/// runs it with other bookkeeping
#[verifier::external_body]
pub fn with_token_tracking_disabled<F: FnOnce(&mut RFormatter) -> FormatResult<()>>(s: Ghost<Seq<Ir>>, f: &mut RFormatter, c: F) -> (r: FormatResult<()>)
    requires tells(c, s@),
    ensures r is Ok ==> final(f).out() == old(f).out() + s@,
{ unimplemented!() }
}
use prelude_calls::with_token_tracking_disabled;
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
//@@ item struct FormatGroupedFirstArgument
//@@ end
impl<'a> Format for FormatGroupedFirstArgument<'a> {
    closed spec fn ir(&self) -> Seq<Ir> { self.argument.what().ir() }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatGroupedFirstArgument<Format>::fmt
//@@   inherits
//@@ end
}
//@@ item struct FormatGroupedLastArgument
//@@ end
impl<'a> Format for FormatGroupedLastArgument<'a> {
    closed spec fn ir(&self) -> Seq<Ir> { grouped_ir(self.argument.what(), self.is_only) }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatGroupedLastArgument<Format>::fmt
//@@   inherits
//@@   rewrite? `use air_r_syntax::AnyRExpression::*;` => `use AnyRExpression::*;`
//@@ + before `Ok(())`
                    proof {
                        assert(is_kind(argument.node().slot(1), R_FUNCTION_DEFINITION));
                        assert(argument.node() == self.argument.what().arg()->Ok_0.node());
                        assert(f.out() =~= old(f).out() + grouped_ir(self.argument.what(), self.is_only));
                    }
//@@ + says 1
grouped_ir(self.argument.what(), self.is_only)
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + grouped_ir(self.argument.what(), self.is_only),
//@@ end
}
//@@ item struct FormatGroupedArgument
//@@ end
impl Format for FormatGroupedArgument {
    closed spec fn ir(&self) -> Seq<Ir> { if self.layout matches Some(GroupedCallArgumentLayout::GroupedLastArgument) { grouped_ir(self.argument.what(), self.single_argument_list) } else { self.argument.what().ir() } }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatGroupedArgument<Format>::fmt
//@@   inherits
//@@ end
}
// ---------------------------------------------------------------- the best fitting of several
/// one of the ways to print it, between the marks of biome_formatter's
pub open spec fn way(s: Seq<Ir>) -> Seq<Ir> { seq![Ir::Layout(Lay::Open(Tag::StartEntry))] + s + seq![Ir::Layout(Lay::Close(Tag::EndEntry))] }
/// the arguments, the last of them printed by hand
pub open spec fn each_grouped(a: Seq<SeparatedArgument>) -> Seq<Seq<Ir>> {
    Seq::new(a.len(), |i: int| if i == a.len() - 1 { grouped_ir(a[i], a.len() == 1) } else { a[i].ir() })
}
pub open spec fn in_line(l: Seq<Ir>, h: Seq<SeparatedArgument>, args: Seq<Ir>, some: bool, r: Seq<Ir>) -> Seq<Ir> {
    l + (tight(h, h.len()) + ((if h.len() > 0 && some { lay(Lay::Blank) } else { Seq::empty() }) + (args + (r + Seq::<Ir>::empty()))))
}
pub open spec fn flat(l: Seq<Ir>, h: Seq<SeparatedArgument>, a: Seq<SeparatedArgument>, r: Seq<Ir>) -> Seq<Ir> {
    in_line(l, h, joined(each_grouped(a), a.len(), lay(Lay::SoftOrBlank)), a.len() > 0, r)
}
/// the same with the last argument in a group that is broken
pub open spec fn last_open(a: Seq<SeparatedArgument>) -> Seq<Ir> {
    let e = each_grouped(a);
    joined(e, (a.len() - 1) as nat, lay(Lay::SoftOrBlank)) + ((if a.len() > 1 { lay(Lay::SoftOrBlank) } else { Seq::empty() })
        + (lay(Lay::Open(Tag::Group(true))) + e[a.len() - 1] + lay(Lay::Close(Tag::Group(true)))))
}
pub open spec fn middle(l: Seq<Ir>, h: Seq<SeparatedArgument>, a: Seq<SeparatedArgument>, r: Seq<Ir>) -> Seq<Ir> {
    in_line(l, h, last_open(a), a.len() > 0, r)
}
/// What may be printed of a list whose last argument is grouped: broken out in full, or the best fitting of
/// the ways to print it. Each of them has every argument once, in order, between the brackets. The one in a
/// single line is not tried when the last argument has to break.
pub open spec fn fits_as(n: SyntaxNode, w: Seq<Ir>) -> bool {
    let all = args_of(list_of(n));
    let h = all.take(leading(all) as int);
    let a = all.skip(leading(all) as int);
    let r = match n.slot(2) { Slot::Token(t) => Ok(t), _ => Err(SyntaxError) };
    let wide = broken_out(true, it(n, 0), h, a, hugs(a, r), it(n, 2));
    ||| w == wide
    ||| w == seq![Ir::Best(seq![way(flat(it(n, 0), h, a, it(n, 2))), way(middle(it(n, 0), h, a, it(n, 2))), way(wide)])]
    ||| must_break(a.last().ir()) && w == lay(Lay::Wide) + seq![Ir::Best(seq![way(middle(it(n, 0), h, a, it(n, 2))), way(wide)])]
}
/// biome_formatter: a buffer of its own, what it held, and the choice between such
pub struct FormatState { x: u8 }
pub struct VecBuffer { x: u8 }
impl VecBuffer {
    #[verifier::external_body]
    pub fn new(s: FormatState) -> (r: RFormatter) ensures r.out() == Seq::<Ir>::empty(), { unimplemented!() }
}
impl Formatter<RFormatContext> {
    #[verifier::external_body]
    pub fn state_mut(&mut self) -> (r: FormatState) ensures final(self).out() == old(self).out(), { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Printed) ensures r.s@ == self.out(), { unimplemented!() }
    #[verifier::external_body]
    pub fn write_elements(&mut self, e: Printed) -> (r: FormatResult<()>) ensures r is Ok ==> final(self).out() == old(self).out() + e.s@, { unimplemented!() }
}
pub struct Printed { pub s: Ghost<Seq<Ir>> }
impl Printed {
    #[verifier::external_body]
    pub fn into_boxed_slice(self) -> (r: Printed) ensures r == self, { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Printed) ensures r == self, { unimplemented!() }
    /// a mark is an element of its own
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<FormatElement>)
        requires old(self).s@.len() > 0, old(self).s@[0] == Ir::Layout(Lay::Open(Tag::StartEntry)),
        ensures final(self).s@ == old(self).s@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<FormatElement>)
        requires old(self).s@.len() > 0, old(self).s@.last() == Ir::Layout(Lay::Close(Tag::EndEntry)),
        ensures final(self).s@ == old(self).s@.drop_last(),
    { unimplemented!() }
}
impl FormatElement {
    #[verifier::external_body]
    pub fn Tag(t: Tag) -> (r: FormatElement) ensures r.ir() == seq![Ir::Layout(if t is EndEntry { Lay::Close(t) } else { Lay::Open(t) })], { unimplemented!() }
    #[verifier::external_body]
    pub fn BestFitting(b: BestFittingElement) -> (r: FormatElement) ensures r.ir() == seq![Ir::Best(b.w@)], { unimplemented!() }
}
pub mod format_element { pub use super::BestFittingElement; }
pub struct BestFittingElement { pub w: Ghost<Seq<Seq<Ir>>> }
impl BestFittingElement {
    /// what makes it safe: two or more
    #[verifier::external_body]
    pub unsafe fn from_vec_unchecked(v: Vec<Printed>) -> (r: BestFittingElement)
        requires v@.len() >= 2,
        ensures r.w@ == v@.map_values(|x: Printed| x.s@),
    { unimplemented!() }
}
pub struct Memoized<T> { pub x: T }
impl<T: Format> Format for Memoized<T> {
    open spec fn ir(&self) -> Seq<Ir> { self.x.ir() }
    open spec fn sure(&self) -> bool { self.x.sure() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut RFormatter) -> (r: FormatResult<()>) { unimplemented!() }
}
impl FormatGroupedArgument {
    #[verifier::external_body]
    pub fn memoized(self) -> (r: Memoized<Self>) ensures r.x == self, { unimplemented!() }
}
impl Out {
    #[verifier::external_body]
    pub fn memoized(self) -> (r: Out) ensures r == self, { unimplemented!() }
}
/// `Vec::into_iter().enumerate()`, `split_at_mut`, `[..n]`, `&mut x[i]`, by their contracts
pub struct Counted<T> { pub s: Ghost<Seq<T>> }
#[verifier::external_body]
pub fn counted<T>(v: Vec<T>) -> (r: Counted<T>) ensures r.s@ == v@, { unimplemented!() }
impl<T> Counted<T> {
    #[verifier::external_body]
    pub fn map<U, F: Fn((usize, T)) -> U>(self, f: F) -> (r: Made<U>)
        requires forall|e: (usize, T)| #[trigger] f.requires((e,)),
        ensures r.s@.len() == self.s@.len(), forall|i: int| 0 <= i < r.s@.len() ==> f.ensures(((i as usize, self.s@[i]),), #[trigger] r.s@[i]),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn split_at_mut<T>(v: &mut Vec<T>, k: usize) -> (r: (&mut [T], &mut [T]))
    requires k <= old(v)@.len(),
    ensures r.0@ == old(v)@.take(k as int), r.1@ == old(v)@.skip(k as int), final(v)@ == final(r.0)@ + final(r.1)@, final(r.0)@.len() == r.0@.len(), final(r.1)@.len() == r.1@.len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn at_mut<T>(s: &mut [T], i: usize) -> (r: &mut T)
    requires i < old(s)@.len(),
    ensures *r == old(s)@[i as int], final(s)@ == old(s)@.update(i as int, *final(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn up_to<T>(v: &Vec<T>, k: usize) -> (r: &[T]) requires k <= v@.len(), ensures r@ == v@.take(k as int), { unimplemented!() }
#[verifier::external_body]
pub fn from<T>(v: &Vec<T>, k: usize) -> (r: &[T]) requires k <= v@.len(), ensures r@ == v@.skip(k as int), { unimplemented!() }
#[verifier::external_body]
fn any_will_break(a: &mut [FormatCallArgument], f: &mut RFormatter) -> (r: bool)
    ensures forall|i: int| 0 <= i < old(a)@.len() ==> (#[trigger] final(a)@[i]).what() == old(a)@[i].what(), final(a)@.len() == old(a)@.len(), final(f).out() == old(f).out(),
{ unimplemented!() }
#[verifier::external_body]
pub fn is_poor_layout(r: &FormatResult<()>) -> (b: bool) ensures b ==> *r is Err, { unimplemented!() }
#[verifier::external_body]
pub fn drop<T>(x: T) { unimplemented!() }
/// the two ways in one line are made of the same kept pieces, of which one that failed fails again
#[verifier::external_body]
proof fn fails_again(flat: bool, middle: bool) requires middle, ensures flat { }
proof fn joined_alike(d: Seq<Seq<Ir>>, e: Seq<Seq<Ir>>, k: nat, b: Seq<Ir>)
    requires k <= d.len(), k <= e.len(), forall|i: int| 0 <= i < k ==> d[i] == e[i],
    ensures joined(d, k, b) == joined(e, k, b),
    decreases k,
{
    if k > 0 { joined_alike(d, e, (k - 1) as nat, b); }
}
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
impl RCallLikeArguments {
//@@ item fn RCallLikeArguments::write_grouped_arguments
//@@   rewrite `other_args.iter_mut().any(|arg| arg.will_break(f))` => `any_will_break(other_args, f)`
//@@   rewrite `arguments.split_at_mut(1)` => `split_at_mut(&mut arguments, 1)`
//@@   rewrite `arguments.split_at_mut(end_index)` => `split_at_mut(&mut arguments, end_index)`
//@@   rewrite `&mut first[0]` => `at_mut(first, 0)`
//@@   rewrite `&mut last[0]` => `at_mut(last, 0)`
//@@   rewrite `buffer,` => `&mut buffer,`
//@@   rewrite `arguments.into_iter().enumerate()` => `counted(arguments)`
//@@   rewrite `.collect::<Vec<_>>()` => `.collect()`
//@@   rewrite `.entries(leading_holes.iter())` => `.entries(leading_holes.as_slice())`
//@@   rewrite `.entries(grouped.iter())` => `.entries(grouped.as_slice())`
//@@   rewrite `matches!(result, Err(FormatError::PoorLayout))` => `is_poor_layout(&result)`
//@@   rewrite `joiner.entry(&group(&grouped[0]).should_expand(true));` => `let joiner = joiner.entry(&group(&grouped[0]).should_expand(true));`
//@@   rewrite `joiner.entries(&grouped[1..])` => `joiner.entries(from(&grouped, 1))`
//@@   rewrite `joiner.entries(&grouped[..last_index]);` => `let joiner = joiner.entries(up_to(&grouped, last_index));`
//@@   ret r
//@@ + spec
    requires self.grouping(l_token, leading_holes@, arguments@, r_token, group_layout),
    ensures r is Ok ==> exists|w: Seq<Ir>| #[trigger] fits_as(self.node(), w) && final(f).out() == old(f).out() + w,
//@@ + closure 2
|p1_in: (usize, FormatCallArgument)| -> (r: Memoized<FormatGroupedArgument>)
    ensures r.x.argument == p1_in.1, r.x.single_argument_list == (last_index == 0), r.x.layout == if p1_in.0 == last_index { Some(group_layout) } else { None },
//@@ + says 3
tight(h, h.len())
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + tight(h, h.len()),
//@@ + says 4
joined(each_grouped(a), a.len(), lay(Lay::SoftOrBlank))
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + joined(each_grouped(a), a.len(), lay(Lay::SoftOrBlank)),
//@@ + says 5
tight(h, h.len())
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + tight(h, h.len()),
//@@ + says 6
last_open(a)
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + last_open(a),
//@@ + body
    let ghost h = the_holes(leading_holes@);
    let ghost a = those(arguments@);
    let ghost mut went = true;
    let ghost rt = match self.node().slot(2) { Slot::Token(t) => Ok(t), _ => Err(SyntaxError) };
    let ghost wide = broken_out(true, it(self.node(), 0), h, a, hugs(a, rt), it(self.node(), 2));
    let ghost w_flat = way(flat(it(self.node(), 0), h, a, it(self.node(), 2)));
    let ghost w_middle = way(middle(it(self.node(), 0), h, a, it(self.node(), 2)));
    let ghost all_ways = seq![Ir::Best(seq![w_flat, w_middle, way(wide)])];
    let ghost both_ways = lay(Lay::Wide) + seq![Ir::Best(seq![w_middle, way(wide)])];
    proof {
        assert(it(self.node(), 0) == seq![Ir::Token(l_token)]);
        assert(it(self.node(), 2) == seq![Ir::Token(r_token)]);
        assert(fits_as(self.node(), wide));
        assert(fits_as(self.node(), all_ways));
        assert(must_break(a.last().ir()) ==> fits_as(self.node(), both_ways));
        assert(wide + Seq::<Ir>::empty() == wide);
        assert forall|s: &[FormatCallArgumentHole]| #![trigger s.each()] s@ == leading_holes@ implies joined(s.each(), h.len(), Seq::empty()) == tight(h, h.len()) by { holes_joined(h, s.each(), h.len()); }
    }
//@@ + before `return write!`
                proof {
                    assert(those(arguments@) =~= a);
                }
//@@ + after_stmt `let variants`
        let ghost o = old(f).out();
        proof {
            let v = variants@.map_values(|x: Printed| x.s@);
            if grouped_breaks {
                assert(v =~= seq![w_middle, way(wide)]);
                assert(f.out() =~= o + lay(Lay::Wide));
                assert((o + lay(Lay::Wide)) + seq![Ir::Best(v)] =~= o + both_ways);
            } else {
                assert(v =~= seq![w_flat, w_middle, way(wide)]);
                assert(f.out() =~= o);
            }
        }
//@@ + after_stmt `let grouped_breaks`
        proof {
            assert(those(arguments@) =~= a);
            assert(grouped_breaks ==> must_break(a.last().ir()));
        }
//@@ + after_stmt `let last_index = grouped.len() - 1`
                                proof {
                                    let e = each_grouped(a);
                                    let x = Seq::<Ir>::empty() + joined(e, (a.len() - 1) as nat, lay(Lay::SoftOrBlank));
                                    let y = (if a.len() > 1 { lay(Lay::SoftOrBlank) } else { Seq::<Ir>::empty() }) + (lay(Lay::Open(Tag::Group(true))) + e[a.len() - 1] + lay(Lay::Close(Tag::Group(true))));
                                    assert(x + y =~= last_open(a));
                                    assert forall|o: Seq<Ir>| #[trigger] ((o + x) + y) == o + last_open(a) by { assert(((o + x) + y) =~= o + (x + y)); }
                                    assert(grouped@[a.len() - 1].ir() == e[a.len() - 1]);
                                }
//@@ + before `return f.write_elements`
                proof {
                    assert(most_expanded_iter.s@ =~= wide);
                }
//@@ + before `let last_index = arguments.len() - 1`
        proof {
            assert(most_expanded.s@ =~= way(wide));
        }
//@@ + after_stmt `let result`
            proof { went = result is Ok; }
//@@ + before `let most_flat`
        proof {
            let e = each_grouped(a);
            assert(those(grouped_from) == a);
            assert forall|i: int| 0 <= i < a.len() implies (#[trigger] grouped@[i]).ir() == e[i] by { assert(a[i] == grouped_from[i].what()); }
            assert forall|s: &[Memoized<FormatGroupedArgument>]| #![trigger s.each()] s@ == grouped@ implies joined(s.each(), a.len(), lay(Lay::SoftOrBlank)) == joined(e, a.len(), lay(Lay::SoftOrBlank)) by { assert(s.each() =~= e); }
            assert forall|s: &[Memoized<FormatGroupedArgument>]| #![trigger s.each()] s@ == grouped@.take(a.len() - 1) implies joined(s.each(), (a.len() - 1) as nat, lay(Lay::SoftOrBlank)) == joined(e, (a.len() - 1) as nat, lay(Lay::SoftOrBlank)) by {
                joined_alike(s.each(), e, (a.len() - 1) as nat, lay(Lay::SoftOrBlank));
            }
        }
//@@ + after_stmt `let last_index = arguments.len() - 1`
        let ghost grouped_from = arguments@;
//@@ + before `let variants`
        proof {
            fails_again(went, true);
            assert(most_flat.s@ =~= w_flat);
            assert(middle_variant.s@ =~= w_middle);
        }
//@@ end
}
// ---------------------------------------------------------------- comments that are printed among the fields are not printed again
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
impl FormatRCallArguments {
//@@ item fn FormatRCallArguments<FormatNodeRule>::fmt_dangling_comments
//@@   rewrite? `_: &RCallArguments` => `_node: &RCallArguments`
//@@   rewrite? `_: &mut RFormatter` => `f: &mut RFormatter`
//@@   ret r
//@@ + spec
    ensures r is Ok, final(f).out() == old(f).out(),
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/subset_arguments.rs
impl FormatRSubsetArguments {
//@@ item fn FormatRSubsetArguments<FormatNodeRule>::fmt_dangling_comments
//@@   rewrite? `_: &RSubsetArguments` => `_node: &RSubsetArguments`
//@@   rewrite? `_: &mut RFormatter` => `f: &mut RFormatter`
//@@   ret r
//@@ + spec
    ensures r is Ok, final(f).out() == old(f).out(),
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/subset_2_arguments.rs
impl FormatRSubset2Arguments {
//@@ item fn FormatRSubset2Arguments<FormatNodeRule>::fmt_dangling_comments
//@@   rewrite? `_: &RSubset2Arguments` => `_node: &RSubset2Arguments`
//@@   rewrite? `_: &mut RFormatter` => `f: &mut RFormatter`
//@@   ret r
//@@ + spec
    ensures r is Ok, final(f).out() == old(f).out(),
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/parameters.rs
impl FormatRParameters {
//@@ item fn FormatRParameters<FormatNodeRule>::fmt_dangling_comments
//@@   rewrite? `_: &RParameters` => `_node: &RParameters`
//@@   rewrite? `_: &mut RFormatter` => `f: &mut RFormatter`
//@@   ret r
//@@ + spec
    ensures r is Ok, final(f).out() == old(f).out(),
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/braced_expressions.rs
impl FormatRBracedExpressions {
//@@ item fn FormatRBracedExpressions<FormatNodeRule>::fmt_dangling_comments
//@@   rewrite? `_: &RBracedExpressions` => `_node: &RBracedExpressions`
//@@   rewrite? `_: &mut RFormatter` => `f: &mut RFormatter`
//@@   ret r
//@@ + spec
    ensures r is Ok, final(f).out() == old(f).out(),
//@@ end
}
