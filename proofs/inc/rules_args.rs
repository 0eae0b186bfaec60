/// whether it has to break: that depends on what is printed alone
pub uninterp spec fn must_break(s: Seq<Ir>) -> bool;
/// a printed piece that biome_formatter keeps
#[verifier::external_body]
pub struct FormatElement { x: u8 }
impl FormatElement {
    pub uninterp spec fn ir(&self) -> Seq<Ir>;
    #[verifier::external_body]
    pub fn will_break(&self) -> (r: bool) ensures r == must_break(self.ir()), { unimplemented!() }
}
impl Clone for FormatElement {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
/// `Result::clone` and `slice::Iter::any`, by their contracts
pub trait KeptClone: Sized { fn kept_clone(&self) -> (r: Self) ensures r == *self; }
impl KeptClone for FormatResult<Option<FormatElement>> {
    #[verifier::external_body]
    fn kept_clone(&self) -> (r: Self) { unimplemented!() }
}
pub trait AnyOf<T> {
    spec fn all(&self) -> Seq<T>;
    fn any_of<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.all().len() ==> f.requires((&#[trigger] self.all()[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self.all().len() && f.ensures((&#[trigger] self.all()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.all().len() ==> f.ensures((&#[trigger] self.all()[i],), false);
}
impl<T> AnyOf<T> for [T] {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn any_of<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
}
pub type Kept = FormatResult<Option<FormatElement>>;
/// what was kept is what would be printed
pub open spec fn keeps(k: Kept, s: Seq<Ir>, ok: bool) -> bool {
    match k { Ok(Some(e)) => ok && e.ir() == s, Ok(None) => ok && s.len() == 0, Err(_) => true }
}
impl Formatter<RFormatContext> {
    #[verifier::external_body]
    pub fn intern<T: Format>(&mut self, x: &T) -> (r: Kept) ensures final(self).out() == old(self).out(), keeps(r, x.ir(), x.sure()), { unimplemented!() }
    #[verifier::external_body]
    pub fn write_element(&mut self, e: FormatElement) -> (r: FormatResult<()>) ensures r is Ok ==> final(self).out() == old(self).out() + e.ir(), { unimplemented!() }
}
/// core::cell::Cell, with what is always true of what it holds
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cell<T> { x: core::marker::PhantomData<T> }
impl<T> Cell<T> {
    pub uninterp spec fn may(&self, v: T) -> bool;
    #[verifier::external_body]
    pub fn new(g: Ghost<spec_fn(T) -> bool>, v: T) -> (r: Self) requires g@(v), ensures forall|x: T| #[trigger] r.may(x) == g@(x), { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, v: T) requires self.may(v), { unimplemented!() }
}
impl<T> Cell<Option<T>> {
    #[verifier::external_body]
    pub fn take(&self) -> (r: Option<T>) ensures self.may(r), { unimplemented!() }
}
pub open spec fn memo(x: Option<Kept>, e: SeparatedArgument) -> bool { x matches Some(k) ==> keeps(k, e.ir(), true) }
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
//@@ rewrite* `AstSeparatedElement<RLanguage, RArgument>` => `SeparatedArgument`
//@@ item struct FormatCallArgumentHole
//@@ end
impl FormatCallArgumentHole {
    spec fn what(&self) -> SeparatedArgument { self.element }
    #[verifier::type_invariant]
    spec fn ok(&self) -> bool {
        &&& self.leading_lines == self.element.comma_lines()
        &&& forall|x: Option<Kept>| #[trigger] self.content.may(x) == memo(x, self.element)
    }
}
//@@ impl FormatCallArgumentHole
//@@ item fn FormatCallArgumentHole::new
//@@   rewrite `Cell::new(None)` => `Cell::new(Ghost(|x: Option<Kept>| memo(x, element)), None)`
//@@   ret r
//@@ + spec
    ensures r.what() == element, r.leading_lines == element.comma_lines(),
//@@ end
//@@ item fn FormatCallArgumentHole::leading_lines
//@@   ret r
//@@ + spec
    ensures r == self.leading_lines,
//@@ end
//@@ endimpl
impl Format for FormatCallArgumentHole {
    closed spec fn ir(&self) -> Seq<Ir> { self.what().ir() }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatCallArgumentHole<Format>::fmt
//@@   inherits
//@@   rewrite? `content.clone()` => `content.kept_clone()`
//@@ + body
    proof { use_type_invariant(self); }
//@@ + says 1
self.element.ir()
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + self.element.ir(),
//@@ end
}
//@@ item enum FormatCallArgument
//@@ end
impl FormatCallArgument {
    spec fn what(&self) -> SeparatedArgument { match *self { FormatCallArgument::Default { element, .. } => element, FormatCallArgument::Inspected { element, .. } => element } }
    spec fn lead(&self) -> usize { match *self { FormatCallArgument::Default { leading_lines, .. } => leading_lines, FormatCallArgument::Inspected { leading_lines, .. } => leading_lines } }
    #[verifier::type_invariant]
    spec fn ok(&self) -> bool {
        &&& self.lead() == self.what().lines()
        &&& (*self) matches FormatCallArgument::Inspected { content, element, .. } ==> keeps(content, element.ir(), element.sure())
    }
}
//@@ impl FormatCallArgument
//@@ item fn FormatCallArgument::new
//@@   ret r
//@@ + spec
    ensures r.what() == element, r is Default, r.lead() == element.lines(),
//@@ + closure 1
|node: &RArgument| -> (r: usize)
    ensures r == node.node().lines(),
//@@ end
//@@ item fn FormatCallArgument::will_break
//@@   rewrite? `intern(&self)` => `intern(&*self)`
//@@   ret r
//@@ + spec
    ensures final(self).what() == old(self).what(), final(f).out() == old(f).out(), r ==> must_break(old(self).what().ir()),
//@@ + body
    proof { use_type_invariant(&*self); }
//@@ end
//@@ item fn FormatCallArgument::fmt_with_cache
//@@   rewrite? `content.clone()` => `content.kept_clone()`
//@@   ret r
//@@ + spec
    ensures r is Ok ==> self.what().sure() && final(f).out() == old(f).out() + self.what().ir(),
//@@ + body
    proof { use_type_invariant(self); }
//@@ end
//@@ item fn FormatCallArgument::leading_lines
//@@   ret r
//@@ + spec
    ensures r == self.lead(),
//@@ end
//@@ item fn FormatCallArgument::element
//@@   ret r
//@@ + spec
    ensures *r == self.what(),
//@@ end
//@@ endimpl
impl Format for FormatCallArgument {
    closed spec fn ir(&self) -> Seq<Ir> { self.what().ir() }
    closed spec fn sure(&self) -> bool { self.what().sure() }
//@@ item fn FormatCallArgument<Format>::fmt
//@@   inherits
//@@ end
}
/// a line break in front of the first argument, or in front of the comma of a hole before it, breaks them all
spec fn arguments_break(h: Seq<FormatCallArgumentHole>, a: Seq<FormatCallArgument>) -> bool {
    &&& the_options().persistent_line_breaks is Respect
    &&& (exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).leading_lines > 0) || (a.len() > 0 && a[0].lead() > 0)
}
//@@ item fn has_persistent_line_break
//@@   rename has_persistent_line_break_arguments
//@@   rewrite `leading_holes.iter().any` => `leading_holes.any_of`
//@@   ret r
//@@ + spec
    requires *options == the_options(),
    ensures r == arguments_break(leading_holes@, arguments@),
//@@ + closure 1
|hole: &FormatCallArgumentHole| -> (r: bool)
    ensures r == (hole.leading_lines > 0),
//@@ + closure 2
|argument: &FormatCallArgument| -> (r: bool)
    ensures r == (argument.lead() > 0),
//@@ end
