// ---------------------------------------------------------------- assumed contracts: biome_text_size
// (not available offline: offsets are u32 bytes, a range has start <= end, overflow panics)
pub mod text_size {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::cmp::Ordering;

#[derive(Clone, Copy)]
pub struct TextSize { pub raw: u32 }

#[derive(Clone, Copy)]
pub struct TextRange { lo: TextSize, hi: TextSize }

impl TextSize {
    pub open spec fn v(self) -> int { self.raw as int }
    pub fn checked_sub(self, o: TextSize) -> (r: Option<TextSize>)
        ensures r == (if self.raw >= o.raw { Some(TextSize { raw: (self.raw - o.raw) as u32 }) } else { None }),
    { if self.raw >= o.raw { Some(TextSize { raw: self.raw - o.raw }) } else { None } }
    #[verifier::external_body]
    pub fn of<T: TextLen>(t: T) -> (r: TextSize)
        requires t.tlen() <= u32::MAX,
        ensures r.v() == t.tlen(),
    { unimplemented!() }
}
impl core::default::Default for TextSize {
    fn default() -> (r: TextSize)
        ensures r.v() == 0,
    { TextSize { raw: 0 } }
}
pub trait TextLen: Sized {
    spec fn tlen(self) -> int;
}
pub open spec fn bytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
impl<'a> TextLen for &'a str { open spec fn tlen(self) -> int { bytes(self@).len() as int } }
impl<'a> TextLen for &'a String { open spec fn tlen(self) -> int { bytes(self@).len() as int } }

impl AddAssignSpecImpl<TextSize> for TextSize {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: TextSize) -> bool { self.v() + o.v() <= u32::MAX }
    open spec fn add_assign_spec(&self, o: TextSize) -> &TextSize { &TextSize { raw: (self.raw + o.raw) as u32 } }
}
impl core::ops::AddAssign<TextSize> for TextSize {
    fn add_assign(&mut self, o: TextSize) { self.raw = self.raw + o.raw }
}
impl SubAssignSpecImpl<TextSize> for TextSize {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: TextSize) -> bool { self.v() >= o.v() }
    open spec fn sub_assign_spec(&self, o: TextSize) -> &TextSize { &TextSize { raw: (self.raw - o.raw) as u32 } }
}
impl core::ops::SubAssign<TextSize> for TextSize {
    fn sub_assign(&mut self, o: TextSize) { self.raw = self.raw - o.raw }
}
impl PartialEqSpecImpl for TextSize {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TextSize) -> bool { self.raw == o.raw }
}
impl PartialEq for TextSize {
    fn eq(&self, o: &TextSize) -> bool { self.raw == o.raw }
}
impl Eq for TextSize {}
pub open spec fn ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl PartialOrdSpecImpl for TextSize {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &TextSize) -> Option<Ordering> { Some(ord(self.v(), o.v())) }
}
impl PartialOrd for TextSize {
    fn partial_cmp(&self, o: &TextSize) -> Option<Ordering> {
        if self.raw < o.raw { Some(Ordering::Less) } else if self.raw == o.raw { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}
impl OrdSpecImpl for TextSize {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &TextSize) -> Ordering { ord(self.v(), o.v()) }
}
impl Ord for TextSize {
    fn cmp(&self, o: &TextSize) -> Ordering {
        if self.raw < o.raw { Ordering::Less } else if self.raw == o.raw { Ordering::Equal } else { Ordering::Greater }
    }
}
impl FromSpecImpl<TextSize> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: TextSize) -> usize { t.raw as usize }
}
impl core::convert::From<TextSize> for usize {
    fn from(t: TextSize) -> usize { t.raw as usize }
}

impl TextRange {
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.lo.v() <= self.hi.v() }
    pub closed spec fn s(self) -> int { self.lo.v() }
    pub closed spec fn e(self) -> int { self.hi.v() }
    pub fn new(lo: TextSize, hi: TextSize) -> (r: TextRange)
        requires lo.v() <= hi.v(),
        ensures r.s() == lo.v(), r.e() == hi.v(),
    { TextRange { lo, hi } }
    #[verifier::external_body]
    pub fn at(lo: TextSize, len: TextSize) -> (r: TextRange)
        requires lo.v() + len.v() <= u32::MAX,
        ensures r.s() == lo.v(), r.e() == lo.v() + len.v(),
    { unimplemented!() }
    pub fn empty(at: TextSize) -> (r: TextRange)
        ensures r.s() == at.v(), r.e() == at.v(),
    { TextRange { lo: at, hi: at } }
    pub fn start(self) -> (r: TextSize)
        ensures r.v() == self.s(), self.s() <= self.e(),
    { proof { use_type_invariant(self); } self.lo }
    pub fn end(self) -> (r: TextSize)
        ensures r.v() == self.e(), self.s() <= self.e(),
    { proof { use_type_invariant(self); } self.hi }
    pub fn len(self) -> (r: TextSize)
        ensures r.v() == self.e() - self.s(), self.s() <= self.e(),
    { proof { use_type_invariant(self); } TextSize { raw: self.hi.raw - self.lo.raw } }
    pub fn is_empty(self) -> (r: bool)
        ensures r == (self.s() == self.e()),
    { self.lo.raw == self.hi.raw }
    pub fn contains_inclusive(self, o: TextSize) -> (r: bool)
        ensures r == (self.s() <= o.v() <= self.e()),
    { self.lo.raw <= o.raw && o.raw <= self.hi.raw }
}
impl PartialEqSpecImpl for TextRange {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TextRange) -> bool { self.s() == o.s() && self.e() == o.e() }
}
impl PartialEq for TextRange {
    fn eq(&self, o: &TextRange) -> bool { self.lo.raw == o.lo.raw && self.hi.raw == o.hi.raw }
}
/// every range is a proper one
pub broadcast axiom fn axiom_range(r: TextRange)
    ensures #[trigger] r.s() <= r.e(), 0 <= r.s(), r.e() <= u32::MAX;
}
pub use text_size::*;
