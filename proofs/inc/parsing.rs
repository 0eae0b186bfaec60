// ---------------------------------------------------------------- assumed contracts: tree_sitter, biome_parser, biome_rowan, std
// (stand-ins: the crates are not available offline)
impl TextSize {
    /// From<u32>
    pub fn from(n: u32) -> (r: TextSize)
        ensures r.raw == n,
    { TextSize { raw: n } }
    /// TryFrom<usize>
    pub fn try_from(n: usize) -> (r: Result<TextSize, TooLong>)
        ensures n <= u32::MAX ==> r is Ok && r->Ok_0.raw == n, n > u32::MAX ==> r is Err,
    { if n <= u32::MAX as usize { Ok(TextSize { raw: n as u32 }) } else { Err(TooLong {}) } }
}
#[derive(Debug)]
pub struct TooLong {}
/// bytes().iter().peekable()
#[verifier::external_body]
pub struct ByteIter<'a> { it: core::iter::Peekable<core::slice::Iter<'a, u8>> }
impl<'a> ByteIter<'a> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn of(b: &'a [u8]) -> (r: ByteIter<'a>)
        ensures r.rest() == b@,
    { ByteIter { it: b.iter().peekable() } }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&&'a u8>)
        ensures
            final(self).rest() == old(self).rest(),
            old(self).rest().len() == 0 ==> r is None,
            old(self).rest().len() > 0 ==> r is Some && **(r->Some_0) == old(self).rest()[0],
    { self.it.peek() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && *(r->Some_0) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { self.it.next() }
    #[verifier::external_body]
    pub fn next_if<F: FnOnce(&&'a u8) -> bool>(&mut self, f: F) -> (r: Option<&'a u8>)
        requires forall|x: &&'a u8| f.requires((x,)),
        ensures
            r is None ==> final(self).rest() == old(self).rest() && (old(self).rest().len() > 0 ==> exists|x: &&'a u8| **x == old(self).rest()[0] && f.ensures((x,), false)),
            r is Some ==> old(self).rest().len() > 0 && *(r->Some_0) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1)
                && exists|x: &&'a u8| **x == old(self).rest()[0] && f.ensures((x,), true),
    { self.it.next_if(f) }
}
/// biome_unicode_table: the classes of bytes that matter here
pub enum Dispatch { WHS, SEM, OTHER }
#[verifier::external_body]
pub fn lookup_byte(b: u8) -> (r: Dispatch)
    ensures r is WHS == (9 <= b <= 13 || b == 32), r is SEM == (b == 59),
{ unimplemented!() }

#[verifier::external_trait_specification]
pub trait ExPattern: Sized {
    type ExternalTraitSpecificationFor: std::str::pattern::Pattern;
}
pub uninterp spec fn occurs<P>(p: P, b: Seq<u8>) -> bool;
pub assume_specification<P: std::str::pattern::Pattern>[ str::contains ](s: &str, p: P) -> (r: bool)
    ensures r == occurs(p, s.spec_bytes()),
;
pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_contains_lf(b: Seq<u8>)
        ensures #[trigger] occurs('\n', b) == has_lf(b);
}
pub assume_specification<I: core::slice::SliceIndex<str>>[ <str as core::ops::Index<I>>::index ](s: &str, i: I) -> (r: &<I as core::slice::SliceIndex<str>>::Output)
    ensures vstd::slice::SliceIndexSpec::index_postcondition(&i, s, r),
;
/// code that must not be reached
#[verifier::external_body]
pub fn give_up<T>() -> (r: T)
    requires false,
{ unimplemented!() }
