// Contracts for crates/aether_lsp_utils/src/proto (properties E04, E05).
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::utf8::*;

macro_rules! format { ($($t:tt)*) => { () } }

verus! {
//@@ include inc/text_size.rs
//@@ include inc/edits.rs
//@@ include inc/lsp.rs
//@@ include inc/endings.rs
pub use text_size as biome_text_size;
use code::{Indel, PositionEncoding, LineEnding};
use lsp_types::TextDocumentContentChangeEvent as Change;
use vstd::std_specs::convert::FromSpecImpl;

pub mod line_ending {
use super::*;
/// proved for L01
#[verifier::external_body]
pub fn normalize(x: String) -> (r: String)
    ensures r@ == strip_c(x@),
{ unimplemented!() }
}

//@@ include inc/changes.rs
impl FromSpecImpl<TextRange> for core::ops::Range<usize> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(r: TextRange) -> core::ops::Range<usize> { core::ops::Range { start: r.s() as usize, end: r.e() as usize } }
}
impl core::convert::From<TextRange> for core::ops::Range<usize> {
    #[verifier::external_body]
    fn from(r: TextRange) -> core::ops::Range<usize> { unimplemented!() }
}
/// Vec::iter().rposition()
pub trait LastWhere<T> {
    spec fn elems(&self) -> Seq<T>;
    fn last_where<F: FnMut(&T) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|x: T| call_requires(f, (&x,)),
        ensures
            r matches Some(i) ==> i < self.elems().len() && call_ensures(f, (&self.elems()[i as int],), true)
                && forall|j: int| #![trigger self.elems()[j]] i < j < self.elems().len() ==> call_ensures(f, (&self.elems()[j],), false),
            r is None ==> forall|j: int| #![trigger self.elems()[j]] 0 <= j < self.elems().len() ==> call_ensures(f, (&self.elems()[j],), false);
}
impl<T> LastWhere<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn last_where<F: FnMut(&T) -> bool>(&self, f: F) -> (r: Option<usize>) { unimplemented!() }
}

//@@ include inc/at_once.rs
//@@ include inc/utf8.rs
//@@ include inc/crlf.rs
//@@ include inc/client.rs
/// str::replace of a character by a text
pub uninterp spec fn with_char_replaced(s: Seq<char>, c: char, x: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_replaced(s: Seq<char>, x: Seq<char>)
    requires x =~= seq!['\r', '\n'],
    ensures #[trigger] with_char_replaced(s, '\n', x) == crc(s);
pub trait ReplaceChar {
    spec fn the(&self) -> Seq<char>;
    fn replace_char(&self, c: char, x: &str) -> (r: String)
        ensures r@ == with_char_replaced(self.the(), c, x@);
}
impl ReplaceChar for String {
    open spec fn the(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn replace_char(&self, c: char, x: &str) -> (r: String) { unimplemented!() }
}
/// TextEdit, by the contracts proved for E01
#[verifier::external_body]
pub struct TextEdit { x: u8 }
impl TextEdit {
    pub uninterp spec fn items(&self) -> Seq<Indel>;
    #[verifier::external_body]
    pub fn into_run(self) -> (r: Run<Indel>)
        ensures r.seq() == self.items(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(range: TextRange, text: String) -> (r: TextEdit)
        ensures
            wf(r.items()),
            forall|t: Seq<u8>| #![trigger fits(t, r.items())] range.e() <= t.len() && bnd(t, range.s()) && bnd(t, range.e()) ==> fits(t, r.items()),
            forall|t: Seq<u8>| #![trigger applied(t, r.items())] range.e() <= t.len() ==> applied(t, r.items()) == splice(t, range.s(), range.e(), bytes(text@)),
    { unimplemented!() }
}
pub mod diff {
use super::*;
/// proved for E03
#[verifier::external_body]
pub fn diff(left: &str, right: &str) -> (r: TextEdit)
    requires bytes(left@).len() <= u32::MAX,
    ensures wf(r.items()), fits(bytes(left@), r.items()), applied(bytes(left@), r.items()) == bytes(right@),
{ unimplemented!() }
}

// ---------------------------------------------------------------- assumed contracts: std
/// lexicographic order of two numbers
pub open spec fn lex(a: (int, int), b: (int, int)) -> core::cmp::Ordering {
    if a.0 != b.0 { ord(a.0, b.0) } else { ord(a.1, b.1) }
}
pub open spec fn put<T>(v: Seq<T>, x: T, g: spec_fn(T) -> (int, int)) -> Seq<T>
    decreases v.len(),
{
    if v.len() == 0 || !(lex(g(v.last()), g(x)) is Greater) { v.push(x) } else { put(v.drop_last(), x, g).push(v.last()) }
}
/// the stable sort of v
pub open spec fn isort<T>(v: Seq<T>, g: spec_fn(T) -> (int, int)) -> Seq<T>
    decreases v.len(),
{
    if v.len() == 0 { v } else { put(isort(v.drop_last(), g), v.last(), g) }
}
/// slice::sort_by is the stable sort, slice::reverse reverses
pub trait SliceOps<T> {
    spec fn items(&self) -> Seq<T>;
    fn stable_sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: T, b: T| call_requires(f, (&a, &b)),
        ensures forall|g: spec_fn(T) -> (int, int)| (forall|a: T, b: T, k: core::cmp::Ordering| call_ensures(f, (&a, &b), k) ==> k == lex(g(a), g(b)))
            ==> #[trigger] isort(old(self).items(), g) == final(self).items();
    fn reverse_all(&mut self)
        ensures final(self).items() == old(self).items().reverse();
    fn into_run(self) -> (r: Run<T>)
        where Self: Sized
        ensures r.seq() == self.items();
}
impl<T> SliceOps<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn stable_sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn reverse_all(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn into_run(self) -> (r: Run<T>) { unimplemented!() }
}
pub assume_specification<F: FnOnce() -> core::cmp::Ordering>[ core::cmp::Ordering::then_with ](o: core::cmp::Ordering, f: F) -> (r: core::cmp::Ordering)
    requires call_requires(f, ()),
    ensures o is Equal ==> call_ensures(f, (), r), !(o is Equal) ==> r == o,
;
/// vec::IntoIter, map and collect
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Run<T> { v: Vec<T> }
impl<T> Run<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Run<U>)
        requires forall|i: int| #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> call_requires(f, (self.seq()[i],)),
        ensures r.seq().len() == self.seq().len(), forall|i: int| #![trigger r.seq()[i]] 0 <= i < self.seq().len() ==> call_ensures(f, (self.seq()[i],), r.seq()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: Run<T>)
        ensures r.seq() == self.seq().reverse(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromRun<T>>(self) -> (r: C)
        ensures C::collected(self.seq(), r),
    { unimplemented!() }
}
pub trait FromRun<T>: Sized { spec fn collected(v: Seq<T>, r: Self) -> bool; }
impl<T> FromRun<T> for Vec<T> { open spec fn collected(v: Seq<T>, r: Self) -> bool { r@ == v } }
impl<T> FromRun<anyhow::Result<T>> for anyhow::Result<Vec<T>> {
    open spec fn collected(v: Seq<anyhow::Result<T>>, r: Self) -> bool {
        match r {
            Ok(x) => x@.len() == v.len() && forall|i: int| #![trigger v[i]] #![trigger x@[i]] 0 <= i < v.len() ==> v[i] == Ok::<T, anyhow::Error>(x@[i]),
            Err(_) => exists|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i] is Err,
        }
    }
}
pub open spec fn start() -> spec_fn(lsp_types::TextEdit) -> (int, int) { |e: lsp_types::TextEdit| (e.range.start.line as int, e.range.start.character as int) }
/// the edits in order of their start, edits with one start in the order given
pub open spec fn in_order(v: Seq<lsp_types::TextEdit>) -> Seq<lsp_types::TextEdit> { isort(v, start()) }

// ---------------------------------------------------------------- the code
pub mod code {
use super::*;
use std::ops::Range;

//@@ source crates/aether_lsp_utils/src/text_edit.rs
//@@ item struct Indel
//@@   public
//@@ end
//@@ source crates/aether_lsp_utils/src/proto.rs
//@@ item enum PositionEncoding
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/line_ending.rs
//@@ item enum LineEnding
//@@   derive Clone, Copy
//@@ end
//@@ source crates/aether_lsp_utils/src/proto/from_proto.rs
//@@ item fn line_col_from_position
//@@   ret r
//@@ + spec
    ensures r.line == position.line, r.col == col_of(line_index.text(), position_encoding, position),
//@@ end
//@@ item fn offset_from_position
//@@   bare 1
//@@   ret r
//@@ + spec
    requires fits_u32(line_index.text(), position_encoding, position),
    ensures match pos(line_index.text(), position_encoding, position) { Some(o) => r is Ok && r->Ok_0.v() == o, None => r is Err },
//@@ end
//@@ item fn text_range
//@@   ret r
//@@ + spec
    requires
        fits_u32(line_index.text(), position_encoding, range.start), fits_u32(line_index.text(), position_encoding, range.end),
        pos(line_index.text(), position_encoding, range.start) is Some && pos(line_index.text(), position_encoding, range.end) is Some ==>
            pos(line_index.text(), position_encoding, range.start)->Some_0 <= pos(line_index.text(), position_encoding, range.end)->Some_0,
    ensures
        r is Ok <==> pos(line_index.text(), position_encoding, range.start) is Some && pos(line_index.text(), position_encoding, range.end) is Some,
        r matches Ok(x) ==> pos(line_index.text(), position_encoding, range.start) == Some(x.s()) && pos(line_index.text(), position_encoding, range.end) == Some(x.e()),
//@@ end
//@@ item fn apply_text_changes
//@@   rewrite `. replace_range` => `.splice_str`
//@@   rewrite `changes . iter ( ) . rposition` => `changes.last_where`
//@@   rewrite `for change in changes` => `for change in it: changes`
//@@ + spec
    requires
        old(line_index).text() == bytes(old(contents)@),
        run(bytes(old(contents)@), position_encoding, changes@) is Some,
    ensures
        Some(bytes(final(contents)@)) == run(bytes(old(contents)@), position_encoding, changes@),
//@@ + closure 1 `|change|`
|change: &lsp_types::TextDocumentContentChangeEvent| -> (r: bool)
    ensures r == (change.range is None),
//@@ + body
    let ghost all = changes@;
    let ghost t0 = bytes(contents@);
    let ghost mut cut: int = 0;
    proof { assert(all.skip(0) =~= all); vstd::std_specs::vec::axiom_spec_len(&changes); }
//@@ + after_stmt `let change = changes . pop ( )`
    proof {
        cut = idx + 1;
        lemma_run_prefix(t0, position_encoding, all, idx as int);
    }
//@@ + preloop 1
    let ghost cs = changes@;
    let ghost t1 = bytes(contents@);
    proof {
        assert(cs =~= all.skip(cut));
        assert(all.take(cut) + all.skip(cut) =~= all);
        if cut > 0 { lemma_run_concat(t0, position_encoding, all.take(cut), cs); }
        assert(cs.take(0) =~= Seq::<Change>::empty());
        assert forall|k: int| #![trigger cs[k]] 0 <= k < cs.len() implies cs[k].range is Some by { assert(cs[k] == all[cut + k]); }
    }
//@@ + loop 1 `for change in changes`
    invariant
        it.seq() == cs,
        forall|k: int| #![trigger cs[k]] 0 <= k < cs.len() ==> cs[k].range is Some,
        run(t1, position_encoding, cs) is Some,
        run(t1, position_encoding, cs.take(it.index@)) == Some(bytes(contents@)),
        same_lines(line_index.text(), bytes(contents@), last_start_line as int),
//@@ + loopbody 1
    proof { lemma_run_prefix(t1, position_encoding, cs, it.index@); }
    let ghost t = bytes(contents@);
//@@ + before `last_start_line = range . start . line`
    proof {
        let n = if range.end.line >= last_start_line { range.end.line + 1 } else { last_start_line as int };
        lemma_in_line(t, range.start.line as int, pos(t, position_encoding, range.start)->Some_0);
        lemma_in_line(t, range.end.line as int, pos(t, position_encoding, range.end)->Some_0);
        lemma_pos_agree(line_index.text(), t, position_encoding, n, range.start);
        lemma_pos_agree(line_index.text(), t, position_encoding, n, range.end);
        lemma_step_lines(t, position_encoding, range, bytes(strip_c(change.text@)));
    }
//@@ + loopafter 1
    proof { assert(cs.take(cs.len() as int) =~= cs); }
//@@ end
//@@ item fn apply_text_edits
//@@   rewrite `edits . sort_by` => `edits.stable_sort_by`
//@@   rewrite? `edits . reverse ( )` => `edits.reverse_all()`
//@@   rewrite `edits . into_iter ( )` => `edits.into_run()`
//@@ + spec
    requires
        old(line_index).text() == bytes(old(contents)@),
        separate(bytes(old(contents)@), position_encoding, in_order(edits@)),
        bytes(old(contents)@).len() + xlen(in_order(edits@)) <= u32::MAX,
    ensures
        bytes(final(contents)@) == at_once(bytes(old(contents)@), ges(bytes(old(contents)@), position_encoding, in_order(edits@))),
//@@ + body
    let ghost t = bytes(contents@);
    let ghost v = in_order(edits@);
    proof { assert(isort(edits.items(), start()) == v); }
//@@ + closure 1 `|a, b|`
|a: &lsp_types::TextEdit, b: &lsp_types::TextEdit| -> (r: core::cmp::Ordering)
    ensures r == lex(start()(*a), start()(*b)),
//@@ + closure 2 `||`
|| -> (r: core::cmp::Ordering)
    ensures r == ord(a_start.character as int, b_start.character as int),
//@@ + closure 3 `|edit|`
|edit: lsp_types::TextEdit| -> (r: lsp_types::TextDocumentContentChangeEvent)
    ensures r == (Change { range: Some(edit.range), range_length: None, text: edit.new_text }),
//@@ + before `apply_text_changes`
    proof {
        assert(changes@ =~= changes_of(v.reverse()));
        assert(t.take(t.len() as int) =~= t);
        assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies ge(t, position_encoding, v[i]).e <= t.len() by {
            assert(sound(t, position_encoding, v[i].range));
            lemma_in_line(t, v[i].range.end.line as int, ge(t, position_encoding, v[i]).e);
        }
        lemma_reverse(t, t, position_encoding, v, t.len() as int);
    }
//@@ end
//@@ source crates/aether_lsp_utils/src/proto/to_proto.rs
//@@ item fn position_from_line_col
//@@   bare 1
//@@   ret r
//@@ + spec
    requires
        line_start(line_index.text(), line_col.line as int) is Some,
        in_line(line_index.text(), line_col.line as int, line_start(line_index.text(), line_col.line as int)->Some_0 + line_col.col),
    ensures
        r matches Ok(p) && p.line == line_col.line && pos(line_index.text(), position_encoding, p) == Some(line_start(line_index.text(), line_col.line as int)->Some_0 + line_col.col),
//@@ end
//@@ item fn position_from_offset
//@@   bare 1
//@@   ret r
//@@ + spec
    requires offset.v() <= line_index.text().len(), bnd(line_index.text(), offset.v()),
    ensures r matches Ok(p) && pos(line_index.text(), position_encoding, p) == Some(offset.v()) && in_line(line_index.text(), p.line as int, offset.v()),
//@@ end
//@@ item fn range
//@@   ret r
//@@   rewrite `fn range` => `fn range_of`
//@@ + spec
    requires range.e() <= line_index.text().len(), bnd(line_index.text(), range.s()), bnd(line_index.text(), range.e()),
    ensures r matches Ok(x) && sound(line_index.text(), position_encoding, x) && pos(line_index.text(), position_encoding, x.start) == Some(range.s()) && pos(line_index.text(), position_encoding, x.end) == Some(range.e()),
//@@ + body
    proof { broadcast use text_size::axiom_range; }
//@@ + after_stmt `let end`
    proof { lemma_lines_ordered(line_index.text(), start.line as int, end.line as int, range.s(), range.e()); }
//@@ end
//@@ item fn text_edit
//@@   ret r
//@@   rewrite `= range` => `= range_of`
//@@   rewrite `indel . insert . replace` => `indel.insert.replace_char`
//@@ + spec
    requires indel.delete.e() <= line_index.text().len(), bnd(line_index.text(), indel.delete.s()), bnd(line_index.text(), indel.delete.e()),
    ensures r matches Ok(x) && says(line_index.text(), position_encoding, endings, indel, x),
//@@ + body
    proof { broadcast use axiom_replaced; reveal_strlit("\r\n"); }
//@@ end
//@@ item fn text_edit_vec
//@@   ret r
//@@   rewrite `text_edit . into_iter ( )` => `text_edit.into_run()`
//@@ + spec
    requires wf(text_edit.items()), fits(line_index.text(), text_edit.items()),
    ensures
        r matches Ok(x) && all_say(line_index.text(), position_encoding, endings, text_edit.items(), x@)
            && separate(le(endings, line_index.text()), position_encoding, x@)
            && client(le(endings, line_index.text()), position_encoding, x@) == le(endings, applied(line_index.text(), text_edit.items())),
//@@ + body
    let ghost items = text_edit.items();
    let ghost t = line_index.text();
    proof {
        assert forall|x: Seq<lsp_types::TextEdit>| #[trigger] all_say(t, position_encoding, endings, items, x) implies
            separate(le(endings, t), position_encoding, x) && client(le(endings, t), position_encoding, x) == le(endings, applied(t, items)) by
        { lemma_client(t, position_encoding, endings, items, x); }
    }
//@@ + closure 1 `|indel|`
|indel: Indel| -> (r: anyhow::Result<lsp_types::TextEdit>)
    requires indel.delete.e() <= line_index.text().len(), bnd(line_index.text(), indel.delete.s()), bnd(line_index.text(), indel.delete.e()),
    ensures r matches Ok(x) && says(line_index.text(), position_encoding, endings, indel, x),
//@@ end
//@@ item fn doc_edit_vec
//@@   ret r
//@@   rewrite `edits . into_iter ( )` => `edits.into_run()`
//@@ + spec
    requires
        wf(text_edit.items()), fits(line_index.text(), text_edit.items()), clean(endings, text_edit.items()),
        line_index.text().len() + ins_total(text_edit.items()) <= u32::MAX,
    ensures
        r matches Ok(x) && run(line_index.text(), position_encoding, x@) == Some(applied(line_index.text(), text_edit.items())),
//@@ + body
    let ghost items = text_edit.items();
    let ghost t = line_index.text();
//@@ + after_stmt `let edits`
    let ghost es = edits@;
    proof {
        lemma_server(t, position_encoding, endings, items, es);
        assert forall|y: Seq<Change>| y.len() == es.len() && (forall|i: int| #![trigger y[i]] 0 <= i < y.len() ==> y[i] == (Change { range: Some(es.reverse()[i].range), range_length: None, text: es.reverse()[i].new_text }))
            implies #[trigger] run(t, position_encoding, y) == Some(applied(t, items)) by { assert(y =~= changes_of(es.reverse())); }
    }
//@@ + closure 1 `|edit|`
|edit: lsp_types::TextEdit| -> (r: lsp_types::TextDocumentContentChangeEvent)
    ensures r == (Change { range: Some(edit.range), range_length: None, text: edit.new_text }),
//@@ end
//@@ item fn replace_range_edit
//@@   ret r
//@@ + spec
    requires range.e() <= line_index.text().len(), bnd(line_index.text(), range.s()), bnd(line_index.text(), range.e()),
    ensures
        r matches Ok(x) && separate(le(endings, line_index.text()), position_encoding, x@)
            && client(le(endings, line_index.text()), position_encoding, x@) == le(endings, splice(line_index.text(), range.s(), range.e(), bytes(replace_with@))),
//@@ end
//@@ item fn replace_all_edit
//@@   ret r
//@@ + spec
    requires line_index.text() == bytes(text@), bytes(text@).len() <= u32::MAX,
    ensures
        r matches Ok(x) && separate(le(endings, bytes(text@)), position_encoding, x@)
            && client(le(endings, bytes(text@)), position_encoding, x@) == le(endings, bytes(replace_with@)),
//@@ end
}

fn main() {}
} // verus!
