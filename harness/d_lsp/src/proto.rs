//! E04 changes and edits from the client, E05 edits for the client.
use crate::edits::{at_once, gen_text, vary};
use aether_lsp_utils::proto::{PositionEncoding, from_proto, to_proto};
use biome_line_index::{LineIndex, WideEncoding};
use biome_text_size::{TextRange, TextSize};
use hx::{Ctx, Rng};
use settings::LineEnding;
use tower_lsp::lsp_types::{Position, Range, TextDocumentContentChangeEvent as Change, TextEdit};

pub const ENC: [PositionEncoding; 3] = [PositionEncoding::Utf8, PositionEncoding::Wide(WideEncoding::Utf16), PositionEncoding::Wide(WideEncoding::Utf32)];

pub fn units(c: char, enc: PositionEncoding) -> u32 {
    match enc {
        PositionEncoding::Utf8 => c.len_utf8() as u32,
        PositionEncoding::Wide(WideEncoding::Utf16) => c.len_utf16() as u32,
        PositionEncoding::Wide(WideEncoding::Utf32) => 1,
    }
}
/// the position of the byte offset o; lines end with eol
pub fn position(t: &str, eol: &str, o: usize, enc: PositionEncoding) -> Position {
    let (mut line, mut start) = (0, 0);
    while let Some(k) = t[start..].find(eol) {
        if start + k + eol.len() > o { break; }
        start += k + eol.len();
        line += 1;
    }
    Position { line, character: t[start..o].chars().map(|c| units(c, enc)).sum() }
}
/// the byte offset of a position
pub fn offset(t: &str, eol: &str, p: Position, enc: PositionEncoding) -> usize {
    let mut start = 0;
    for _ in 0..p.line { start += t[start..].find(eol).expect("line of a client position") + eol.len(); }
    let (mut o, mut n) = (start, 0);
    for c in t[start..].chars() {
        if n >= p.character { break; }
        n += units(c, enc);
        o += c.len_utf8();
    }
    assert_eq!(n, p.character, "column of a client position");
    o
}
pub fn strip(x: &str) -> String { x.replace("\r\n", "\n") }
fn bounds(t: &str) -> Vec<usize> { (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect() }

fn run_changes(t: &str, changes: &[Change], enc: PositionEncoding) -> String {
    let mut s = t.to_string();
    for c in changes {
        let x = strip(&c.text);
        match c.range {
            None => s = x,
            Some(r) => { let (a, b) = (offset(&s, "\n", r.start, enc), offset(&s, "\n", r.end, enc)); s.replace_range(a..b, &x); }
        }
    }
    s
}
pub const NEW: &[&str] = &["", "x", "\n", "\r\n", "a\r\nb", "é\n\n", "𐐀", "long text without any line\r\n"];
fn changes_case(t: &str, changes: &[Change], enc: PositionEncoding) -> Result<(), String> {
    let want = run_changes(t, changes, enc);
    let mut s = t.to_string();
    let mut ix = LineIndex::new(t);
    from_proto::apply_text_changes(&mut s, changes.to_vec(), &mut ix, enc);
    if s == want { Ok(()) } else { Err(format!("the text becomes {s:?}, expected {want:?}")) }
}
pub fn gen_changes(r: &mut Rng, t: &str, enc: PositionEncoding, max: usize) -> Vec<Change> {
    let mut s = t.to_string();
    let mut v = vec![];
    for _ in 0..1 + r.below(max) {
        let x = r.pick(NEW).to_string();
        let ch = if r.chance(1, 10) { Change { range: None, range_length: None, text: if r.chance(1, 2) { x } else { gen_text(r, 12) } } } else {
            let b = bounds(&s);
            let i = r.below(b.len());
            let j = (i + r.below(4)).min(b.len() - 1);
            Change { range: Some(Range { start: position(&s, "\n", b[i], enc), end: position(&s, "\n", b[j], enc) }), range_length: None, text: x }
        };
        s = run_changes(&s, std::slice::from_ref(&ch), enc);
        v.push(ch);
    }
    v
}
fn edits_case(t: &str, v: &[(u32, u32, String)], enc: PositionEncoding) -> Result<(), String> {
    let edits: Vec<TextEdit> = v.iter().map(|(s, e, x)| TextEdit { range: Range { start: position(t, "\n", *s as usize, enc), end: position(t, "\n", *e as usize, enc) }, new_text: x.clone() }).collect();
    let mut w: Vec<(u32, u32, String)> = v.iter().map(|(s, e, x)| (*s, *e, strip(x))).collect();
    w.sort_by_key(|e| e.0);
    let want = at_once(t, &w);
    let mut s = t.to_string();
    let mut ix = LineIndex::new(t);
    from_proto::apply_text_edits(&mut s, edits, &mut ix, enc);
    if s == want { Ok(()) } else { Err(format!("the text becomes {s:?}, expected {want:?}")) }
}
/// edits that do not overlap, in the order of the array; of two that start together only the
/// last in the array deletes anything
pub fn gen_edits(r: &mut Rng, t: &str, max: usize) -> Vec<(u32, u32, String)> {
    let b = bounds(t);
    let mut cuts: Vec<usize> = (0..2 * r.below(max + 1)).map(|_| r.below(b.len())).collect();
    cuts.sort();
    let mut v: Vec<(u32, u32, String)> = cuts.chunks(2).map(|c| (b[c[0]] as u32, b[c[1]] as u32, r.pick(NEW).to_string())).collect();
    // shuffle, then bring edits with one start into the order insertions first
    for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); }
    for i in 0..v.len() { for j in i + 1..v.len() { if v[i].0 == v[j].0 && v[i].1 > v[j].1 { v.swap(i, j); } } }
    v
}
fn points_case(t: &str, enc: PositionEncoding) -> Result<(), String> {
    let ix = LineIndex::new(t);
    for o in bounds(t) {
        let p = position(t, "\n", o, enc);
        let got = from_proto::offset_from_position(p, &ix, enc).map_err(|e| e.to_string())?;
        if usize::from(got) != o { return Err(format!("position {p:?} is offset {got:?}, expected {o}")); }
        let back = to_proto::position_from_offset(TextSize::from(o as u32), &ix, enc).map_err(|e| e.to_string())?;
        if back != p { return Err(format!("offset {o} is position {back:?}, expected {p:?}")); }
    }
    let lines = t.matches('\n').count() as u32;
    if from_proto::offset_from_position(Position { line: lines + 1, character: 0 }, &ix, enc).is_ok() { return Err("a line behind the end has an offset".into()); }
    Ok(())
}
fn name(enc: PositionEncoding) -> &'static str { match enc { PositionEncoding::Utf8 => "utf-8", PositionEncoding::Wide(WideEncoding::Utf16) => "utf-16", _ => "utf-32" } }

pub fn e04(c: &mut Ctx) {
    let texts = ["", "a", "\n", "a𐐀b\né\n", "ab\ncd\n\nef", "é"];
    c.stage("positions of short texts");
    for t in texts { for enc in ENC { c.case(|| format!("{t:?} in {}", name(enc)), || points_case(t, enc)); } }
    c.stage("one change, every range of short texts");
    for t in texts { for enc in ENC { let b = bounds(t); for i in 0..b.len() { for j in i..b.len() { for x in NEW {
        let ch = [Change { range: Some(Range { start: position(t, "\n", b[i], enc), end: position(t, "\n", b[j], enc) }), range_length: None, text: x.to_string() }];
        c.case(|| format!("{t:?} {} {ch:?}", name(enc)), || changes_case(t, &ch, enc));
    } } } } }
    c.stage("one point edit twice");
    for t in texts { for o in bounds(t) {
        let v = [(o as u32, o as u32, "A".to_string()), (o as u32, o as u32, "B".to_string())];
        c.case(|| format!("{t:?} {v:?}"), || edits_case(t, &v, PositionEncoding::Utf8));
    } }
    c.stage("random batches");
    while c.time_left(1.0) {
        let t = gen_text(&mut c.rng, 24);
        let enc = *c.rng.pick(&ENC);
        let ch = gen_changes(&mut c.rng, &t, enc, 6);
        c.case(|| format!("{t:?} {} {ch:?}", name(enc)), || changes_case(&t, &ch, enc));
        let v = gen_edits(&mut c.rng, &t, 5);
        c.case(|| format!("{t:?} {} edits {v:?}", name(enc)), || edits_case(&t, &v, enc));
        c.case(|| format!("{t:?} in {}", name(enc)), || points_case(&t, enc));
    }
}

/// what a client makes of the edits: all at once, on its own text
pub fn client(own: &str, eol: &str, edits: &[TextEdit], enc: PositionEncoding) -> String {
    let mut v: Vec<(u32, u32, String)> = edits.iter().map(|e| (offset(own, eol, e.range.start, enc) as u32, offset(own, eol, e.range.end, enc) as u32, e.new_text.clone())).collect();
    v.sort_by_key(|e| e.0);
    for w in v.windows(2) { assert!(w[0].1 <= w[1].0, "overlapping edits for the client: {v:?}"); }
    at_once(own, &v)
}
pub fn with_eol(t: &str, e: LineEnding) -> String { match e { LineEnding::Lf => t.to_string(), LineEnding::Crlf => t.replace('\n', "\r\n") } }
fn eol(e: LineEnding) -> &'static str { match e { LineEnding::Lf => "\n", LineEnding::Crlf => "\r\n" } }

fn all_case(t: &str, new: &str, e: LineEnding, enc: PositionEncoding, style: u32) -> Result<(), String> {
    dissimilar::STYLE.with(|s| s.set(style));
    let ix = LineIndex::new(t);
    let own = with_eol(t, e);
    let want = with_eol(new, e);
    let edits = to_proto::replace_all_edit(t, new, &ix, enc, e).map_err(|e| e.to_string())?;
    let got = client(&own, eol(e), &edits, enc);
    if got != want { return Err(format!("the client's text becomes {got:?}, expected {want:?}; edits {edits:?}")); }
    // the same as a list of changes, applied one after the other
    let changes = to_proto::doc_edit_vec(aether_lsp_utils::diff::diff(t, new), &ix, enc, e).map_err(|e| e.to_string())?;
    let mut s = t.to_string();
    let mut ix = LineIndex::new(t);
    from_proto::apply_text_changes(&mut s, changes.clone(), &mut ix, enc);
    if s != new { return Err(format!("the list of changes gives {s:?}, expected {new:?}; changes {changes:?}")); }
    Ok(())
}
fn one_case(t: &str, a: usize, b: usize, x: &str, e: LineEnding, enc: PositionEncoding) -> Result<(), String> {
    let ix = LineIndex::new(t);
    let own = with_eol(t, e);
    let mut new = t.to_string();
    new.replace_range(a..b, x);
    let want = with_eol(&new, e);
    let r = TextRange::new((a as u32).into(), (b as u32).into());
    let edits = to_proto::replace_range_edit(r, x.to_string(), &ix, enc, e).map_err(|e| e.to_string())?;
    let got = client(&own, eol(e), &edits, enc);
    if got != want { return Err(format!("the client's text becomes {got:?}, expected {want:?}; edits {edits:?}")); }
    let edit = aether_lsp_utils::text_edit::TextEdit::replace(r, x.to_string());
    let doc = to_proto::doc_edit_vec(edit, &ix, enc, e).map_err(|e| e.to_string())?;
    let as_edits: Vec<TextEdit> = doc.into_iter().map(|c| TextEdit { range: c.range.expect("range"), new_text: c.text }).collect();
    if as_edits != edits { return Err(format!("doc_edit_vec gives {as_edits:?}, expected {edits:?}")); }
    Ok(())
}
/// with lone carriage returns (in a string, say), but none in front of a line feed
fn lone_cr(r: &mut hx::Rng, t: String) -> String {
    let mut t = t;
    for _ in 0..r.below(3) { let b = bounds(&t); let i = b[r.below(b.len())]; t.insert(i, '\r'); }
    while t.contains("\r\n") { t = strip(&t); }
    t
}
pub fn e05(c: &mut Ctx) {
    let es = [LineEnding::Lf, LineEnding::Crlf];
    c.stage("all pairs of short texts");
    let al = ['a', '\n', '𐐀'];
    let mut all = vec![String::new()];
    let mut k = 0;
    while k < all.len() {
        if all[k].chars().count() < 3 { for x in al { let mut s = all[k].clone(); s.push(x); all.push(s); } }
        k += 1;
    }
    for a in &all { for b in &all { for e in es { for style in 0..2 {
        c.case(|| format!("{a:?} to {b:?} {e:?}"), || all_case(a, b, e, ENC[1], style));
    } } } }
    c.stage("random texts, every encoding");
    while c.time_left(1.0) {
        let a = gen_text(&mut c.rng, 40);
        let b = if c.rng.chance(3, 4) { vary(&mut c.rng, &a) } else { gen_text(&mut c.rng, 40) };
        let (a, b) = if c.rng.chance(1, 3) { (lone_cr(&mut c.rng, a), lone_cr(&mut c.rng, b)) } else { (a, b) };
        let (e, enc, style) = (*c.rng.pick(&es), *c.rng.pick(&ENC), c.rng.below(3) as u32);
        c.case(|| format!("{a:?} to {b:?} {e:?} {}", name(enc)), || all_case(&a, &b, e, enc, style));
        let bs = bounds(&a);
        let i = c.rng.below(bs.len());
        let j = (i + c.rng.below(6)).min(bs.len() - 1);
        let x = gen_text(&mut c.rng, 6);
        let x = if c.rng.chance(1, 3) { lone_cr(&mut c.rng, x) } else { x };
        c.case(|| format!("{a:?} {}..{} by {x:?} {e:?} {}", bs[i], bs[j], name(enc)), || one_case(&a, bs[i], bs[j], &x, e, enc));
    }
}
