//! Stand-in for biome_text_size (a copy of rust-analyzer's text-size), which is not
//! available offline: 32-bit offsets and ranges with the documented behaviour.
use std::convert::TryFrom;
use std::fmt;
use std::num::TryFromIntError;
use std::ops::*;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize { raw: u32 }
impl fmt::Debug for TextSize { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.raw) } }
pub trait TextLen: Copy { fn text_len(self) -> TextSize; }
impl TextLen for &'_ str { fn text_len(self) -> TextSize { self.len().try_into().unwrap() } }
impl TextLen for &'_ String { fn text_len(self) -> TextSize { self.as_str().text_len() } }
impl TextLen for char { fn text_len(self) -> TextSize { (self.len_utf8() as u32).into() } }
impl TextSize {
    pub const fn new(raw: u32) -> Self { TextSize { raw } }
    pub fn of<T: TextLen>(text: T) -> TextSize { text.text_len() }
    pub fn checked_add(self, rhs: TextSize) -> Option<TextSize> { self.raw.checked_add(rhs.raw).map(TextSize::new) }
    pub fn checked_sub(self, rhs: TextSize) -> Option<TextSize> { self.raw.checked_sub(rhs.raw).map(TextSize::new) }
}
impl From<u32> for TextSize { fn from(raw: u32) -> Self { TextSize { raw } } }
impl From<TextSize> for u32 { fn from(v: TextSize) -> Self { v.raw } }
impl TryFrom<usize> for TextSize { type Error = TryFromIntError; fn try_from(v: usize) -> Result<Self, TryFromIntError> { Ok(u32::try_from(v)?.into()) } }
impl From<TextSize> for usize { fn from(v: TextSize) -> Self { v.raw as usize } }
impl Add for TextSize { type Output = TextSize; fn add(self, o: TextSize) -> TextSize { TextSize { raw: self.raw + o.raw } } }
impl Sub for TextSize { type Output = TextSize; fn sub(self, o: TextSize) -> TextSize { TextSize { raw: self.raw - o.raw } } }
impl AddAssign for TextSize { fn add_assign(&mut self, o: TextSize) { *self = *self + o } }
impl SubAssign for TextSize { fn sub_assign(&mut self, o: TextSize) { *self = *self - o } }

#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct TextRange { start: TextSize, end: TextSize }
impl fmt::Debug for TextRange { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}..{:?}", self.start, self.end) } }
impl TextRange {
    pub fn new(start: TextSize, end: TextSize) -> TextRange { assert!(start <= end); TextRange { start, end } }
    pub fn at(offset: TextSize, len: TextSize) -> TextRange { TextRange::new(offset, offset + len) }
    pub fn empty(offset: TextSize) -> TextRange { TextRange { start: offset, end: offset } }
    pub fn up_to(end: TextSize) -> TextRange { TextRange { start: 0.into(), end } }
    pub const fn start(self) -> TextSize { self.start }
    pub const fn end(self) -> TextSize { self.end }
    pub fn len(self) -> TextSize { self.end - self.start }
    pub const fn is_empty(self) -> bool { self.start.raw == self.end.raw }
    pub fn contains(self, o: TextSize) -> bool { self.start <= o && o < self.end }
    pub fn contains_inclusive(self, o: TextSize) -> bool { self.start <= o && o <= self.end }
    pub fn contains_range(self, o: TextRange) -> bool { self.start <= o.start && o.end <= self.end }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let (s, e) = (self.start.max(o.start), self.end.min(o.end));
        (s <= e).then(|| TextRange::new(s, e))
    }
    pub fn cover(self, o: TextRange) -> TextRange { TextRange::new(self.start.min(o.start), self.end.max(o.end)) }
    pub fn cover_offset(self, o: TextSize) -> TextRange { self.cover(TextRange::empty(o)) }
    pub fn ordering(self, o: TextRange) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        if self.end <= o.start { Less } else if o.end <= self.start { Greater } else { Equal }
    }
}
impl From<TextRange> for Range<usize> { fn from(r: TextRange) -> Range<usize> { r.start.into()..r.end.into() } }
impl From<TextRange> for Range<u32> { fn from(r: TextRange) -> Range<u32> { r.start.raw..r.end.raw } }
impl Index<TextRange> for str { type Output = str; fn index(&self, r: TextRange) -> &str { &self[Range::<usize>::from(r)] } }
impl Index<TextRange> for String { type Output = str; fn index(&self, r: TextRange) -> &str { &self[Range::<usize>::from(r)] } }
impl IndexMut<TextRange> for str { fn index_mut(&mut self, r: TextRange) -> &mut str { &mut self[Range::<usize>::from(r)] } }
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&TextSize> { Bound::Excluded(&self.end) }
}
impl Add<TextSize> for TextRange { type Output = TextRange; fn add(self, o: TextSize) -> TextRange { TextRange::new(self.start + o, self.end + o) } }
impl Sub<TextSize> for TextRange { type Output = TextRange; fn sub(self, o: TextSize) -> TextRange { TextRange::new(self.start - o, self.end - o) } }
