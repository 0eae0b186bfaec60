//! E01 builder and apply, E02 union and offsets, E03 diff.
use aether_lsp_utils::text_edit::{Indel, TextEdit, TextEditBuilder};
use biome_text_size::{TextRange, TextSize};
use hx::{Ctx, Rng};

/// (start, end, text)
pub type E = (u32, u32, String);

fn rng_of(e: &E) -> TextRange {
    TextRange::new(e.0.into(), e.1.into())
}
fn add(b: &mut TextEditBuilder, e: &E) {
    if e.0 == e.1 { b.insert(e.0.into(), e.2.clone()) }
    else if e.2.is_empty() { b.delete(rng_of(e)) }
    else { b.replace(rng_of(e), e.2.clone()) }
}
fn items(t: &TextEdit) -> Vec<E> {
    t.iter().map(|i: &Indel| (u32::from(i.delete.start()), u32::from(i.delete.end()), i.insert.clone())).collect()
}
pub fn at_once(t: &str, v: &[E]) -> String {
    let mut o = String::new();
    let mut p = 0;
    for (s, e, x) in v {
        o.push_str(&t[p..*s as usize]);
        o.push_str(x);
        p = *e as usize;
    }
    o.push_str(&t[p..]);
    o
}
fn once(v: &[E]) -> Vec<E> {
    let mut o: Vec<E> = vec![];
    for e in v {
        if o.last() == Some(e) && e.0 < e.1 { continue; }
        o.push(e.clone());
    }
    o
}
fn chain(v: &[E]) -> bool {
    v.windows(2).all(|w| w[0].1 <= w[1].0 || w[0] == w[1])
}
/// sorted with gaps: what the invariant of a TextEdit asks (gaps may be empty only if not merged)
fn sorted_disjoint(v: &[E]) -> bool {
    v.iter().all(|e| e.0 <= e.1) && v.windows(2).all(|w| w[0].1 <= w[1].0)
}
fn build(v: &[E]) -> TextEdit {
    let mut b = TextEdit::builder();
    for e in v { add(&mut b, e) }
    b.finish()
}
const TEXTS: &[&str] = &["", "a", "abcdefgh", "é𐐀x\nyß\n", "0123456789abcdefghijklmnopqrstuvwxyz"];
const INS: &[&str] = &["", "X", "YY", "é", "\n", "𐐀z"];
fn bounds(t: &str) -> Vec<u32> {
    (0..=t.len()).filter(|i| t.is_char_boundary(*i)).map(|i| i as u32).collect()
}
fn gen_edits(r: &mut Rng, t: &str, max: usize) -> Vec<E> {
    let b = bounds(t);
    let mut v = vec![];
    let n = r.below(max + 1);
    for _ in 0..n {
        let i = r.below(b.len());
        let k = if r.chance(1, 3) { 0 } else { r.below(3) };
        let j = (i + k).min(b.len() - 1);
        let e = (b[i], b[j], r.pick(INS).to_string());
        v.push(e);
        if r.chance(1, 6) { let d = r.pick(&v).clone(); v.push(d); }
    }
    v
}
/// a list that is disjoint or equal, in random order
fn gen_ok(r: &mut Rng, t: &str, max: usize) -> Vec<E> {
    let mut v = gen_edits(r, t, max);
    let mut s = v.clone();
    s.sort_by_key(|e| (e.0, e.1));
    // keep a chain
    let mut keep: Vec<E> = vec![];
    for e in s {
        if keep.last().is_none_or(|l| l.1 <= e.0 || *l == e) { keep.push(e) }
    }
    // keep the relative order of v where possible
    let mut out = vec![];
    for e in v.drain(..) {
        if let Some(k) = keep.iter().position(|x| *x == e) { keep.remove(k); out.push(e) }
    }
    out
}
fn show(t: &str, v: &[E]) -> String { format!("text {t:?}, edits {v:?}") }

fn check_built(t: &str, v: &[E]) -> Result<(), String> {
    let mut s = v.to_vec();
    s.sort_by_key(|e| (e.0, e.1));
    let want = at_once(t, &once(&s));
    let edit = build(v);
    let got = items(&edit);
    if !sorted_disjoint(&got) { return Err(format!("finish gives {got:?}, which is not sorted and disjoint")); }
    if edit.len() != got.len() || edit.is_empty() != got.is_empty() { return Err("len/is_empty disagree with the list".into()); }
    let mut out = t.to_string();
    edit.apply(&mut out);
    if out != want { return Err(format!("applying {got:?} gives {out:?}, expected {want:?}")); }
    let owned: Vec<E> = edit.clone().into_iter().map(|i| (u32::from(i.delete.start()), u32::from(i.delete.end()), i.insert)).collect();
    if owned != got { return Err("into_iter differs from iter".into()); }
    Ok(())
}
fn check_rejected(v: &[E]) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(v))) {
        Err(_) => Ok(()),
        Ok(e) => Err(format!("overlapping edits are accepted as {:?}", items(&e))),
    }
}
fn e01_case(t: &str, v: &[E]) -> Result<(), String> {
    let mut s = v.to_vec();
    s.sort_by_key(|e| (e.0, e.1));
    if chain(&s) { check_built(t, v) } else { check_rejected(v) }
}
pub fn e01(c: &mut Ctx) {
    c.stage("all pairs and triples of edits of a short text");
    let t = "aé𐐀";
    let b = bounds(t);
    let mut all: Vec<E> = vec![];
    for i in 0..b.len() { for j in i..b.len() { for x in ["", "X", "é"] { all.push((b[i], b[j], x.to_string())); } } }
    for e in &all { c.case(|| show(t, &[e.clone()]), || e01_case(t, &[e.clone()])); }
    for e in &all { for f in &all {
        let v = [e.clone(), f.clone()];
        c.case(|| show(t, &v), || e01_case(t, &v));
    } }
    for e in &all { for f in &all {
        if !c.deep && (e.2 == "é" || f.2 == "é") { continue; }
        for g in &all {
            let v = [e.clone(), f.clone(), g.clone()];
            let mut s = v.to_vec();
            s.sort_by_key(|e| (e.0, e.1));
            if !chain(&s) && !c.deep { continue; }
            c.case(|| show(t, &v), || e01_case(t, &v));
        }
    } }
    c.stage("single-edit constructors");
    for e in &all {
        c.case(|| show(t, &[e.clone()]), || {
            let edit = if e.0 == e.1 { TextEdit::insert(e.0.into(), e.2.clone()) } else if e.2.is_empty() { TextEdit::delete(rng_of(e)) } else { TextEdit::replace(rng_of(e), e.2.clone()) };
            let mut o = t.to_string();
            edit.apply(&mut o);
            let w = at_once(t, &[e.clone()]);
            if o == w { Ok(()) } else { Err(format!("gives {o:?}, expected {w:?}")) }
        });
    }
    c.stage("random lists of up to 30 edits");
    while c.time_left(1.0) {
        let t = c.rng.pick(TEXTS).to_string();
        let m = *c.rng.pick(&[3, 6, 15, 17, 18, 30]);
        let v = if c.rng.chance(5, 6) { gen_ok(&mut c.rng, &t, m) } else { gen_edits(&mut c.rng, &t, m.min(8)) };
        c.case(|| show(&t, &v), || e01_case(&t, &v));
    }
}

fn e02_case(t: &str, v: &[E], w: &[E]) -> Result<(), String> {
    let mut a = build(v);
    let b = build(w);
    let (ia, ib) = (items(&a), items(&b));
    // merge, a first at equal starts
    let (mut i, mut j, mut m) = (0, 0, vec![]);
    while i < ia.len() || j < ib.len() {
        if j == ib.len() || (i < ia.len() && ia[i].0 <= ib[j].0) { m.push(ia[i].clone()); i += 1 } else { m.push(ib[j].clone()); j += 1 }
    }
    match a.union(b.clone()) {
        Ok(()) => {
            if !chain(&m) { return Err(format!("overlapping edits unite to {:?}", items(&a))); }
            let want = once(&m);
            if items(&a) != want { return Err(format!("the union is {:?}, expected {want:?}", items(&a))); }
            let mut o = t.to_string();
            a.apply(&mut o);
            if o != at_once(t, &want) { return Err(format!("applying the union gives {o:?}, expected {:?}", at_once(t, &want))); }
        }
        Err(back) => {
            if chain(&m) { return Err("disjoint edits are refused".into()); }
            if items(&back) != ib { return Err("the refused edit comes back changed".into()); }
            if items(&a) != ia { return Err("a refused union changes the edit".into()); }
        }
    }
    Ok(())
}
fn offset_case(t: &str, v: &[E]) -> Result<(), String> {
    let e = build(v);
    let it = items(&e);
    for o in 0..=t.len() as u32 {
        let mut want = Some(o as i64);
        let mut delta = 0i64;
        for (s, en, x) in &it {
            if *s < o {
                if o < *en { want = None; break; }
                delta += x.len() as i64 - (*en - *s) as i64;
            }
        }
        let want = want.map(|w| (w + delta) as u32);
        let got = e.apply_to_offset(TextSize::from(o)).map(u32::from);
        if got != want { return Err(format!("offset {o} moves to {got:?}, expected {want:?} with {it:?}")); }
    }
    let mut b = TextEdit::builder();
    for e in v { add(&mut b, e) }
    for o in 0..=t.len() as u32 {
        let want = v.iter().any(|e| e.0 <= o && o <= e.1);
        if b.invalidates_offset(o.into()) != want { return Err(format!("invalidates_offset({o}) is {}", !want)); }
    }
    if b.is_empty() != v.is_empty() { return Err("is_empty of the builder".into()); }
    Ok(())
}
pub fn e02(c: &mut Ctx) {
    c.stage("all pairs of single edits");
    let t = "aé𐐀";
    let b = bounds(t);
    let mut all: Vec<E> = vec![];
    for i in 0..b.len() { for j in i..b.len() { for x in ["", "X"] { all.push((b[i], b[j], x.to_string())); } } }
    for e in &all { for f in &all {
        let (v, w) = ([e.clone()], [f.clone()]);
        c.case(|| format!("{} with {w:?}", show(t, &v)), || e02_case(t, &v, &w));
    } }
    c.stage("offsets");
    for e in &all { c.case(|| show(t, &[e.clone()]), || offset_case(t, &[e.clone()])); }
    c.stage("random edits");
    while c.time_left(1.0) {
        let t = c.rng.pick(TEXTS).to_string();
        let v = gen_ok(&mut c.rng, &t, 8);
        let mut w = gen_ok(&mut c.rng, &t, 4);
        if c.rng.chance(1, 2) {
            // make disjoint from v
            w.retain(|e| v.iter().all(|f| f == e || e.1 <= f.0 || f.1 <= e.0));
        }
        c.case(|| format!("{} with {w:?}", show(&t, &v)), || e02_case(&t, &v, &w));
        c.case(|| show(&t, &v), || offset_case(&t, &v));
    }
}

pub fn gen_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(&['a', 'b', 'c', '\n', ' ', 'é', '𐐀', '中'])).collect()
}
pub fn vary(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.below(5) {
        let i = r.below(c.len() + 1);
        match r.below(3) {
            0 => c.insert(i, *r.pick(&['a', 'b', '\n', ' ', 'é', '𐐀'])),
            1 if i < c.len() => { c.remove(i); }
            _ if i < c.len() => c[i] = *r.pick(&['a', 'x', '\n', 'ß']),
            _ => {}
        }
    }
    c.into_iter().collect()
}
fn e03_case(a: &str, b: &str) -> Result<(), String> {
    for style in 0..3 {
        dissimilar::STYLE.with(|s| s.set(style));
        let e = aether_lsp_utils::diff::diff(a, b);
        let it = items(&e);
        if !sorted_disjoint(&it) { return Err(format!("diff gives {it:?}, which is not sorted and disjoint")); }
        let mut o = a.to_string();
        e.apply(&mut o);
        if o != b { return Err(format!("diff gives {it:?}; applied to the first text it gives {o:?}")); }
    }
    Ok(())
}
pub fn e03(c: &mut Ctx) {
    c.stage("all pairs of texts up to three characters");
    let al = ['a', 'b', '\n', '𐐀'];
    let mut all = vec![String::new()];
    let mut k = 0;
    while k < all.len() {
        if all[k].chars().count() < 3 { for x in al { let mut s = all[k].clone(); s.push(x); all.push(s); } }
        k += 1;
    }
    for a in &all { for b in &all { c.case(|| format!("diff({a:?}, {b:?})"), || e03_case(a, b)); } }
    c.stage("random texts and variations");
    while c.time_left(1.0) {
        let a = gen_text(&mut c.rng, 60);
        let b = if c.rng.chance(3, 4) { vary(&mut c.rng, &a) } else { gen_text(&mut c.rng, 60) };
        c.case(|| format!("diff({a:?}, {b:?})"), || e03_case(&a, &b));
    }
}
