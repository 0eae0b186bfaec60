// ---------------------------------------------------------------- lines of a text
/// the first line feed at or behind i (the end of the text if there is none)
pub open spec fn next_nl(t: Seq<u8>, i: int) -> int
    decreases t.len() - i,
{ if i >= t.len() { t.len() as int } else if i < 0 { 0 } else if t[i] == 10 { i } else { next_nl(t, i + 1) } }
pub open spec fn line_start(t: Seq<u8>, k: int) -> Option<int>
    decreases k,
{
    if k <= 0 { Some(0) } else {
        match line_start(t, k - 1) {
            None => None,
            Some(s) => if next_nl(t, s) < t.len() { Some(next_nl(t, s) + 1) } else { None },
        }
    }
}
pub open spec fn line_text(t: Seq<u8>, k: int) -> Seq<u8> {
    match line_start(t, k) { Some(s) => t.subrange(s, next_nl(t, s)), None => Seq::empty() }
}
// ---------------------------------------------------------------- assumed contracts: lsp-types
pub mod lsp_types {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position {
    pub fn new(line: u32, character: u32) -> (r: Position)
        ensures r == (Position { line, character }),
    { Position { line, character } }
}
#[derive(Clone, Copy)]
pub struct Range { pub start: Position, pub end: Position }
impl Range {
    pub fn new(start: Position, end: Position) -> (r: Range)
        ensures r == (Range { start, end }),
    { Range { start, end } }
}
pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
pub struct TextEdit { pub range: Range, pub new_text: String }
}
// ---------------------------------------------------------------- assumed contracts: biome_line_index
// (not available offline: lines end at line feeds, an offset is the start of the line plus the
// column; columns of the wide encodings are converted within their own line)
pub mod biome_line_index {
use super::*;
#[derive(Clone, Copy)]
pub enum WideEncoding { Utf16, Utf32 }
#[derive(Clone, Copy)]
pub struct LineCol { pub line: u32, pub col: u32 }
#[derive(Clone, Copy)]
pub struct WideLineCol { pub line: u32, pub col: u32 }
#[verifier::external_body]
pub struct LineIndex { x: u8 }
/// the column in bytes of a column in code units, in a line
pub uninterp spec fn narrow(line: Seq<u8>, enc: WideEncoding, col: int) -> int;
/// it depends on what is in front of it only
pub axiom fn axiom_narrow(a: Seq<u8>, b: Seq<u8>, enc: WideEncoding, col: int)
    requires 0 <= narrow(a, enc, col) <= a.len(), narrow(a, enc, col) <= b.len(),
        a.take(narrow(a, enc, col)) == b.take(narrow(a, enc, col)), bnd(a, narrow(a, enc, col)), bnd(b, narrow(a, enc, col)),
    ensures narrow(b, enc, col) == narrow(a, enc, col);
impl LineIndex {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(t: &str) -> (r: LineIndex)
        requires bytes(t@).len() <= u32::MAX,
        ensures r.text() == bytes(t@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn offset(&self, lc: LineCol) -> (r: Option<TextSize>)
        requires line_start(self.text(), lc.line as int) matches Some(s) ==> s + lc.col <= u32::MAX,
        ensures match line_start(self.text(), lc.line as int) { Some(s) => r is Some && r->Some_0.v() == s + lc.col, None => r is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_utf8(&self, enc: WideEncoding, lc: WideLineCol) -> (r: LineCol)
        ensures r.line == lc.line, r.col == narrow(line_text(self.text(), lc.line as int), enc, lc.col as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn line_col(&self, o: TextSize) -> (r: Option<LineCol>)
        ensures
            o.v() <= self.text().len() ==> r is Some,
            r matches Some(lc) ==> line_start(self.text(), lc.line as int) is Some
                && line_start(self.text(), lc.line as int)->Some_0 + lc.col == o.v()
                && (o.v() <= self.text().len() ==> o.v() <= next_nl(self.text(), line_start(self.text(), lc.line as int)->Some_0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_wide(&self, enc: WideEncoding, lc: LineCol) -> (r: Option<WideLineCol>)
        ensures
            line_start(self.text(), lc.line as int) matches Some(s) ==> (s + lc.col <= next_nl(self.text(), s) && bnd(self.text(), s + lc.col) ==> r is Some),
            r matches Some(w) ==> w.line == lc.line && (line_start(self.text(), lc.line as int) matches Some(s) ==> (s + lc.col <= next_nl(self.text(), s) && bnd(self.text(), s + lc.col)
                ==> narrow(line_text(self.text(), lc.line as int), enc, w.col as int) == lc.col)),
    { unimplemented!() }
}
}
pub use biome_line_index::{LineIndex, LineCol, WideLineCol, WideEncoding, narrow, axiom_narrow};
// ---------------------------------------------------------------- assumed contracts: anyhow
pub mod anyhow {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Error { x: u8 }
impl core::fmt::Debug for Error {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub fn error() -> Error { unimplemented!() }
pub trait Context<T>: Sized {
    spec fn found(self) -> Option<T>;
    fn with_context<F>(self, f: F) -> (r: Result<T>)
        ensures match self.found() { Some(x) => r == Ok::<T, Error>(x), None => r is Err };
}
impl<T> Context<T> for Option<T> {
    open spec fn found(self) -> Option<T> { self }
    #[verifier::external_body]
    fn with_context<F>(self, f: F) -> (r: Result<T>) { unimplemented!() }
}
}
pub use anyhow::Context;
