// Contracts for crates/aether_lsp_utils/src/text_edit.rs (properties E01, E02).
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::utf8::*;

/// a failing assertion is a panic: the condition is an obligation
macro_rules! assert { ($e:expr) => { $crate::holds($e) } }
macro_rules! assert_eq { ($a:expr, $b:expr) => { $crate::holds($a == $b) } }

verus! {
pub fn holds(b: bool)
    requires b,
{}

//@@ include inc/text_size.rs

//@@ include inc/edits.rs

use code::{Indel, TextEditBuilder};
impl core::default::Default for TextEditBuilder {
    #[verifier::external_body]
    fn default() -> (r: TextEditBuilder)
        ensures r.indels@ == Seq::<Indel>::empty(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- assumed contracts: std, itertools
impl vstd::std_specs::cmp::PartialEqSpecImpl for Indel {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Indel) -> bool { same(*self, *o) }
}
/// derived
impl PartialEq for Indel {
    #[verifier::external_body]
    fn eq(&self, o: &Indel) -> (r: bool) { unimplemented!() }
}
pub open spec fn same(a: Indel, b: Indel) -> bool { a.insert@ == b.insert@ && a.delete.s() == b.delete.s() && a.delete.e() == b.delete.e() }

pub open spec fn key(i: Indel) -> (TextSize, TextSize) { (TextSize { raw: i.delete.s() as u32 }, TextSize { raw: i.delete.e() as u32 }) }
/// tuples compare lexicographically
pub open spec fn key_le(a: (TextSize, TextSize), b: (TextSize, TextSize)) -> bool { a.0.v() < b.0.v() || (a.0.v() == b.0.v() && a.1.v() <= b.1.v()) }
pub open spec fn le(a: Indel, b: Indel) -> bool { a.delete.s() < b.delete.s() || (a.delete.s() == b.delete.s() && a.delete.e() <= b.delete.e()) }
/// x put into the sorted list v behind everything that is not greater
pub open spec fn put<T>(v: Seq<T>, x: T, g: spec_fn(T) -> (TextSize, TextSize)) -> Seq<T>
    decreases v.len(),
{
    if v.len() == 0 || key_le(g(v.last()), g(x)) { v.push(x) } else { put(v.drop_last(), x, g).push(v.last()) }
}
/// the stable sort of v
pub open spec fn isort<T>(v: Seq<T>, g: spec_fn(T) -> (TextSize, TextSize)) -> Seq<T>
    decreases v.len(),
{
    if v.len() == 0 { v } else { put(isort(v.drop_last(), g), v.last(), g) }
}
pub open spec fn kf() -> spec_fn(Indel) -> (TextSize, TextSize) { |i: Indel| key(i) }
/// the edits in order of their position; edits of one position in the order they were made
pub open spec fn ordered(v: Seq<Indel>) -> Seq<Indel> { isort(v, kf()) }

/// [T]::sort_by_key is the stable sort
pub trait StableSort<T> {
    spec fn elems(&self) -> Seq<T>;
    fn stable_sort_by_key<F: FnMut(&T) -> (TextSize, TextSize)>(&mut self, f: F)
        requires forall|x: T| call_requires(f, (&x,)),
        ensures forall|g: spec_fn(T) -> (TextSize, TextSize)| (forall|x: T, k: (TextSize, TextSize)| call_ensures(f, (&x,), k) ==> k == g(x))
            ==> #[trigger] isort(old(self).elems(), g) == final(self).elems();
}
impl<T> StableSort<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn stable_sort_by_key<F: FnMut(&T) -> (TextSize, TextSize)>(&mut self, f: F)
    { self.sort_by_key(f) }
}

/// an iterator over references to the elements of a sequence
pub trait Refs<'a>: Sized {
    spec fn rest(&self) -> Seq<&'a Indel>;
    fn clone(&self) -> (r: Self)
        ensures r.rest() == self.rest();
    fn skip(&mut self, n: usize) -> (r: Skipped<'a>)
        ensures r.elems() == (if n <= old(self).rest().len() { old(self).rest().skip(n as int) } else { Seq::empty() });
    fn zip(self, o: Skipped<'a>) -> (r: Pairs<'a>)
        ensures r.l() == self.rest(), r.r() == o.elems();
}
#[verifier::external_body]
pub struct Run<'a> { _p: &'a Indel }
impl<'a> Run<'a> { pub uninterp spec fn elems(&self) -> Seq<&'a Indel>; }
#[verifier::external_body]
pub struct Skipped<'a> { _p: &'a Indel }
impl<'a> Skipped<'a> { pub uninterp spec fn elems(&self) -> Seq<&'a Indel>; }
#[verifier::external_body]
pub struct Pairs<'a> { _p: &'a Indel }
impl<'a> Pairs<'a> {
    pub uninterp spec fn l(&self) -> Seq<&'a Indel>;
    pub uninterp spec fn r(&self) -> Seq<&'a Indel>;
    pub open spec fn n(&self) -> int { if self.l().len() <= self.r().len() { self.l().len() as int } else { self.r().len() as int } }
    #[verifier::external_body]
    pub fn all<F: FnMut((&'a Indel, &'a Indel)) -> bool>(&mut self, f: F) -> (b: bool)
        requires forall|p: (&'a Indel, &'a Indel)| call_requires(f, (p,)),
        ensures
            b ==> forall|i: int| #![trigger old(self).l()[i]] #![trigger old(self).r()[i]] 0 <= i < old(self).n() ==> call_ensures(f, ((old(self).l()[i], old(self).r()[i]),), true),
            !b ==> exists|i: int| #![trigger old(self).l()[i]] 0 <= i < old(self).n() && call_ensures(f, ((old(self).l()[i], old(self).r()[i]),), false),
    { unimplemented!() }
}
impl<'a> Refs<'a> for Run<'a> {
    open spec fn rest(&self) -> Seq<&'a Indel> { self.elems() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn skip(&mut self, n: usize) -> (r: Skipped<'a>) { unimplemented!() }
    #[verifier::external_body]
    fn zip(self, o: Skipped<'a>) -> (r: Pairs<'a>) { unimplemented!() }
}
/// slice::iter
pub trait IterOf {
    spec fn of(&self) -> Seq<Indel>;
    fn iter_of<'a>(&'a self) -> (r: Run<'a>)
        ensures r.elems() == self.of().map(|i: int, x: Indel| &x);
}
impl IterOf for [Indel] {
    open spec fn of(&self) -> Seq<Indel> { self@ }
    #[verifier::external_body]
    fn iter_of<'a>(&'a self) -> (r: Run<'a>) { unimplemented!() }
}

impl IterOf for Vec<Indel> {
    open spec fn of(&self) -> Seq<Indel> { self@ }
    #[verifier::external_body]
    fn iter_of<'a>(&'a self) -> (r: Run<'a>) { unimplemented!() }
}
pub open spec fn derefs(v: Seq<&Indel>) -> Seq<Indel> { v.map(|i: int, x: &Indel| *x) }
/// the stable merge: g says whether its first argument comes first
#[verifier::opaque]
pub open spec fn merge(v: Seq<Indel>, w: Seq<Indel>, g: spec_fn(Indel, Indel) -> bool) -> Seq<Indel>
    decreases v.len() + w.len(),
{
    if v.len() == 0 { w } else if w.len() == 0 { v }
    else if g(v[0], w[0]) { seq![v[0]] + merge(v.skip(1), w, g) }
    else { seq![w[0]] + merge(v, w.skip(1), g) }
}
#[verifier::opaque]
pub open spec fn dedup(v: Seq<Indel>, g: spec_fn(Indel, Indel) -> bool) -> Seq<Indel>
    decreases v.len(),
{
    if v.len() <= 1 { v } else {
        let q = dedup(v.drop_last(), g);
        if g(q.last(), v.last()) { q } else { q.push(v.last()) }
    }
}
impl<'a> Run<'a> {
    #[verifier::external_body]
    pub fn any<F: FnMut(&'a Indel) -> bool>(&mut self, f: F) -> (b: bool)
        requires forall|p: &'a Indel| call_requires(f, (p,)),
        ensures
            !b ==> forall|i: int| #![trigger old(self).elems()[i]] 0 <= i < old(self).elems().len() ==> call_ensures(f, (old(self).elems()[i],), false),
            b ==> exists|i: int| #![trigger old(self).elems()[i]] 0 <= i < old(self).elems().len() && call_ensures(f, (old(self).elems()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn merge_by<F: FnMut(&&'a Indel, &&'a Indel) -> bool>(self, o: Run<'a>, f: F) -> (r: Run<'a>)
        requires forall|a: &'a Indel, b: &'a Indel| call_requires(f, (&a, &b)),
        ensures forall|g: spec_fn(Indel, Indel) -> bool| (forall|a: &'a Indel, b: &'a Indel, c: bool| call_ensures(f, (&a, &b), c) ==> c == g(*a, *b))
            ==> #[trigger] merge(derefs(self.elems()), derefs(o.elems()), g) == derefs(r.elems()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dedup_by<F: FnMut(&&'a Indel, &&'a Indel) -> bool>(self, f: F) -> (r: Run<'a>)
        requires forall|a: &'a Indel, b: &'a Indel| call_requires(f, (&a, &b)),
        ensures forall|g: spec_fn(Indel, Indel) -> bool| (forall|a: &'a Indel, b: &'a Indel, c: bool| call_ensures(f, (&a, &b), c) ==> c == g(*a, *b))
            ==> #[trigger] dedup(derefs(self.elems()), g) == derefs(r.elems()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Items)
        ensures r.seq() == derefs(self.elems()),
    { unimplemented!() }
}

/// vec::IntoIter with itertools' adaptors
#[verifier::external_body]
pub struct Items { v: Vec<Indel> }
impl Items {
    pub uninterp spec fn seq(&self) -> Seq<Indel>;
    #[verifier::external_body]
    pub fn dedup_by<F: FnMut(&Indel, &Indel) -> bool>(self, f: F) -> (r: Items)
        requires forall|a: Indel, b: Indel| call_requires(f, (&a, &b)),
        ensures dedups(f, self.seq(), r.seq()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn coalesce<F: FnMut(Indel, Indel) -> Result<Indel, (Indel, Indel)>>(self, f: F) -> (r: Items)
        requires forall|a: Indel, b: Indel| call_requires(f, (a, b)),
        ensures coalesces(f, self.seq(), r.seq()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<Indel>)
        ensures r@ == self.seq(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_vec(self) -> (r: Vec<Indel>)
        ensures r@ == self.seq(),
    { unimplemented!() }
}
pub trait IntoItems {
    spec fn items(&self) -> Seq<Indel>;
    fn into_items(self) -> (r: Items)
        where Self: Sized
        ensures r.seq() == self.items();
}
impl IntoItems for Vec<Indel> {
    open spec fn items(&self) -> Seq<Indel> { self@ }
    #[verifier::external_body]
    fn into_items(self) -> (r: Items) { unimplemented!() }
}
/// h[i] is the result after the elements 0..=i
pub open spec fn stepwise(v: Seq<Indel>, h: Seq<Seq<Indel>>, r: Seq<Indel>, step: spec_fn(Seq<Indel>, Indel, Seq<Indel>) -> bool) -> bool {
    if v.len() == 0 { r == v } else {
        h.len() == v.len() && h[0] == v.take(1) && r == h.last()
            && forall|i: int| #![trigger h[i]] 0 < i < v.len() ==> h[i - 1].len() > 0 && step(h[i - 1], v[i], h[i])
    }
}
pub open spec fn dd_step<F: FnMut(&Indel, &Indel) -> bool>(f: F) -> spec_fn(Seq<Indel>, Indel, Seq<Indel>) -> bool {
    |q: Seq<Indel>, x: Indel, q2: Seq<Indel>|
        exists|b: bool| #[trigger] call_ensures(f, (&q.last(), &x), b) && q2 == (if b { q } else { q.push(x) })
}
pub open spec fn co_step<F: FnMut(Indel, Indel) -> Result<Indel, (Indel, Indel)>>(f: F) -> spec_fn(Seq<Indel>, Indel, Seq<Indel>) -> bool {
    |q: Seq<Indel>, x: Indel, q2: Seq<Indel>|
        exists|c: Result<Indel, (Indel, Indel)>| #[trigger] call_ensures(f, (q.last(), x), c)
            && q2 == (match c { Ok(m) => q.drop_last().push(m), Err((y, z)) => q.drop_last().push(y).push(z) })
}
/// runs of elements the closure calls equal shrink to their first element
#[verifier::opaque]
pub open spec fn dedups<F: FnMut(&Indel, &Indel) -> bool>(f: F, v: Seq<Indel>, r: Seq<Indel>) -> bool {
    exists|h: Seq<Seq<Indel>>| stepwise(v, h, r, dd_step(f))
}
/// neighbours the closure merges become one element
#[verifier::opaque]
pub open spec fn coalesces<F: FnMut(Indel, Indel) -> Result<Indel, (Indel, Indel)>>(f: F, v: Seq<Indel>, r: Seq<Indel>) -> bool {
    exists|h: Seq<Seq<Indel>>| stepwise(v, h, r, co_step(f))
}

// ---------------------------------------------------------------- specification: the builder
/// neighbours are disjoint, or the same edit
pub open spec fn chain(v: Seq<Indel>) -> bool {
    forall|i: int| #![trigger v[i]] 0 <= i < v.len() - 1 ==> v[i].delete.e() <= v[i + 1].delete.s() || same(v[i], v[i + 1])
}
pub open spec fn chain_refs(v: Seq<&Indel>) -> bool {
    forall|i: int| #![trigger v[i]] 0 <= i < v.len() - 1 ==> v[i].delete.e() <= v[i + 1].delete.s() || same(*v[i], *v[i + 1])
}
pub proof fn lemma_chain_refs(v: Seq<Indel>)
    ensures chain_refs(v.map(|i: int, x: Indel| &x)) == chain(v),
{
    let w = v.map(|i: int, x: Indel| &x);
    if chain_refs(w) { assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() - 1 implies v[i].delete.e() <= v[i + 1].delete.s() || same(v[i], v[i + 1]) by { assert(w[i] == v[i]); } }
    if chain(v) { assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() - 1 implies w[i].delete.e() <= w[i + 1].delete.s() || same(*w[i], *w[i + 1]) by { assert(w[i] == v[i]); } }
}
/// an edit that deletes something, made twice, is one edit
pub open spec fn once(v: Seq<Indel>) -> Seq<Indel>
    decreases v.len(),
{
    if v.len() <= 1 { v } else {
        let q = once(v.drop_last());
        if same(q.last(), v.last()) && v.last().delete.s() < v.last().delete.e() { q } else { q.push(v.last()) }
    }
}
pub open spec fn rep() -> spec_fn(Indel, Indel) -> bool { |a: Indel, b: Indel| same(a, b) && a.delete.s() < a.delete.e() }
pub proof fn lemma_once(v: Seq<Indel>)
    ensures once(v) == dedup(v, rep()),
    decreases v.len(),
{ reveal_with_fuel(dedup, 2); if v.len() > 1 { lemma_once(v.drop_last()); } }
/// both lists of edits in order of their start
pub open spec fn first() -> spec_fn(Indel, Indel) -> bool { |a: Indel, b: Indel| a.delete.s() <= b.delete.s() }
pub open spec fn merged(v: Seq<Indel>, w: Seq<Indel>) -> Seq<Indel> { merge(v, w, first()) }
/// how many edits start before the offset
pub open spec fn started(v: Seq<Indel>, o: int) -> int
    decreases v.len(),
{ if v.len() == 0 || v.last().delete.s() < o { v.len() as int } else { started(v.drop_last(), o) } }
pub proof fn lemma_started(v: Seq<Indel>, o: int, n: int)
    requires wf(v), 0 <= n <= v.len(), forall|i: int| #![trigger v[i]] 0 <= i < n ==> v[i].delete.s() < o, n < v.len() ==> v[n].delete.s() >= o,
    ensures started(v, o) == n,
    decreases v.len(),
{
    if n < v.len() {
        lemma_wf_tail(v);
        assert(v.last() == v[v.len() - 1]);
        if n < v.len() - 1 { assert(v[n].delete.e() <= v[v.len() - 1].delete.s() && v[n].delete.s() <= v[n].delete.e()); }
        assert(v.drop_last().len() == v.len() - 1);
        assert forall|i: int| #![trigger v.drop_last()[i]] 0 <= i < n implies v.drop_last()[i].delete.s() < o by { assert(v.drop_last()[i] == v[i]); }
        if n < v.len() - 1 { assert(v.drop_last()[n] == v[n]); }
        lemma_started(v.drop_last(), o, n);
    } else if n > 0 { assert(v.last() == v[n - 1]); }
}
/// the edits of a builder that made the edits v: in order, without repetition
pub open spec fn all_edits(v: Seq<Indel>) -> Seq<Indel> { once(ordered(v)) }


/// one more edit was made
pub open spec fn made(v: Seq<Indel>, w: Seq<Indel>, s: int, e: int, x: Seq<char>) -> bool {
    w.len() == v.len() + 1 && exists|i: Indel| i.delete.s() == s && i.delete.e() == e && i.insert@ == x && ordered(w) == #[trigger] ordered(v.push(i))
}
/// the list does what one edit does
pub open spec fn just(v: Seq<Indel>, s: int, e: int, x: Seq<char>) -> bool {
    exists|i: Indel| i.delete.s() == s && i.delete.e() == e && i.insert@ == x && #[trigger] equivalent(seq![i], v)
}
pub broadcast proof fn lemma_single_ok(v: Seq<Indel>, i: Indel)
    requires v.len() == 0,
    ensures chain(#[trigger] ordered(v.push(i))),
{ lemma_ordered_sorted(v.push(i)); }
pub proof fn lemma_single(w: Seq<Indel>, s: int, e: int, x: Seq<char>)
    requires made(Seq::empty(), w, s, e, x),
    ensures chain(ordered(w)), exists|i: Indel| i.delete.s() == s && i.delete.e() == e && i.insert@ == x && #[trigger] seq![i] == all_edits(w),
{
    let i = choose|i: Indel| i.delete.s() == s && i.delete.e() == e && i.insert@ == x && ordered(w) == #[trigger] ordered(Seq::<Indel>::empty().push(i));
    assert(seq![i].drop_last() =~= Seq::<Indel>::empty());
    assert(Seq::<Indel>::empty().push(i) =~= seq![i]);
    assert(ordered(Seq::<Indel>::empty()) =~= Seq::<Indel>::empty());
    assert(ordered(seq![i]) =~= seq![i]);
}

// ---------------------------------------------------------------- lemmas: order
pub open spec fn sorted(v: Seq<Indel>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i], v[j]) }
pub proof fn lemma_put_len(v: Seq<Indel>, x: Indel)
    ensures put(v, x, kf()).len() == v.len() + 1,
    decreases v.len(),
{ if v.len() == 0 || key_le(key(v.last()), key(x)) {} else { lemma_put_len(v.drop_last(), x); } }
pub proof fn lemma_put(v: Seq<Indel>, x: Indel)
    requires sorted(v),
    ensures sorted(put(v, x, kf())), forall|i: int| #![trigger put(v, x, kf())[i]] 0 <= i < v.len() + 1 ==> put(v, x, kf())[i] == x || v.contains(put(v, x, kf())[i]),
    decreases v.len(),
{
    broadcast use text_size::axiom_range;
    lemma_put_len(v, x);
    if v.len() == 0 || key_le(key(v.last()), key(x)) {
        let w = v.push(x);
        assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies le(w[i], w[j]) by {
            if j == v.len() && i < v.len() - 1 { assert(le(v[i], v[v.len() - 1])); }
        }
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies w[i] == x || v.contains(w[i]) by { if i < v.len() { assert(v[i] == w[i]); } }
    } else {
        let d = v.drop_last();
        assert(sorted(d)) by { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies le(d[i], d[j]) by { assert(d[i] == v[i] && d[j] == v[j]); } }
        lemma_put(d, x);
        lemma_put_len(d, x);
        let q = put(d, x, kf());
        let w = q.push(v.last());
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies w[i] == x || v.contains(w[i]) by {
            if i < q.len() { assert(w[i] == q[i]); if q[i] != x { let k = d.index_of(q[i]); assert(d[k] == v[k]); } } else { assert(v[v.len() - 1] == w[i]); }
        }
        assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies le(w[i], w[j]) by {
            if j < q.len() { assert(w[i] == q[i] && w[j] == q[j]); }
            else {
                assert(w[i] == q[i]);
                if q[i] != x { let k = d.index_of(q[i]); assert(d[k] == v[k]); assert(le(v[k], v[v.len() - 1])); }
            }
        }
    }
}
pub proof fn lemma_ordered_sorted(v: Seq<Indel>)
    ensures sorted(ordered(v)), ordered(v).len() == v.len(),
    decreases v.len(),
{ if v.len() > 0 { lemma_ordered_sorted(v.drop_last()); lemma_put(ordered(v.drop_last()), v.last()); lemma_put_len(ordered(v.drop_last()), v.last()); } }
/// sorting a sorted list changes nothing
pub proof fn lemma_ordered_id(v: Seq<Indel>)
    requires sorted(v),
    ensures ordered(v) == v,
    decreases v.len(),
{
    broadcast use text_size::axiom_range;
    if v.len() > 0 {
        let d = v.drop_last();
        assert(sorted(d)) by { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies le(d[i], d[j]) by { assert(d[i] == v[i] && d[j] == v[j]); } }
        lemma_ordered_id(d);
        if d.len() > 0 { assert(le(v[v.len() - 2], v[v.len() - 1])); assert(d.last() == v[v.len() - 2]); }
        assert(d.push(v.last()) =~= v);
    }
}
/// what was ordered before one more edit came need not be remembered otherwise
pub proof fn lemma_ordered_push(v: Seq<Indel>, x: Indel)
    ensures ordered(ordered(v).push(x)) == ordered(v.push(x)), ordered(ordered(v)) == ordered(v),
{
    lemma_ordered_sorted(v);
    lemma_ordered_id(ordered(v));
    assert(ordered(v).push(x).drop_last() =~= ordered(v));
    assert(v.push(x).drop_last() =~= v);
}
/// an edit made behind all others stays last
pub proof fn lemma_ordered_append(v: Seq<Indel>, x: Indel)
    requires ordered(v).len() == 0 || le(ordered(v).last(), x),
    ensures ordered(v.push(x)) == ordered(v).push(x),
{
    broadcast use text_size::axiom_range;
    assert(v.push(x).drop_last() =~= v);
}

// ---------------------------------------------------------------- lemmas: the builder's clean-up
pub proof fn lemma_once_len(v: Seq<Indel>)
    ensures v.len() > 0 ==> once(v).len() > 0, once(v).len() <= v.len(),
    decreases v.len(),
{ if v.len() > 1 { lemma_once_len(v.drop_last()); } }
/// without repetitions, the chain is disjoint
pub proof fn lemma_once_wf(v: Seq<Indel>)
    requires chain(v),
    ensures wf(once(v)), v.len() > 0 ==> once(v).len() > 0 && same(once(v).last(), v.last()),
    decreases v.len(),
{
    broadcast use text_size::axiom_range;
    if v.len() > 1 {
        let d = v.drop_last();
        assert(chain(d)) by { assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() - 1 implies d[i].delete.e() <= d[i + 1].delete.s() || same(d[i], d[i + 1]) by { assert(d[i] == v[i] && d[i + 1] == v[i + 1]); } }
        lemma_once_wf(d);
        let q = once(d);
        assert(d.last() == v[v.len() - 2]);
        if same(q.last(), v.last()) && v.last().delete.s() < v.last().delete.e() {} else {
            assert(q.last().delete.e() <= v.last().delete.s());
            lemma_wf_push(q, v.last());
        }
    }
}
pub proof fn lemma_wf_push(q: Seq<Indel>, x: Indel)
    requires wf(q), q.len() > 0 ==> q.last().delete.e() <= x.delete.s(),
    ensures wf(q.push(x)),
{
    broadcast use text_size::axiom_range;
    let w = q.push(x);
    assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies w[i].delete.e() <= w[j].delete.s() by {
        if j < q.len() { assert(q[i] == w[i] && q[j] == w[j]); }
        else { assert(w[i] == q[i]); assert(q.last() == q[q.len() - 1]); if i < q.len() - 1 { assert(q[i].delete.e() <= q[q.len() - 1].delete.s()); } }
    }
}
/// the two lists of edits do the same to every text they fit
pub open spec fn equivalent(v: Seq<Indel>, r: Seq<Indel>) -> bool {
    &&& forall|t: Seq<u8>| #![trigger applied(t, r)] all_before(v, t.len() as int) ==> applied(t, r) == applied(t, v)
    &&& forall|t: Seq<u8>| #![trigger fits(t, r)] fits(t, v) ==> fits(t, r)
    &&& ins_total(v) == ins_total(r)
}
pub open spec fn unite(a: Indel, b: Indel, m: Indel) -> bool {
    m.delete.s() == a.delete.s() && m.delete.e() == b.delete.e() && m.insert@ == a.insert@ + b.insert@
}
pub proof fn lemma_equiv_push(v: Seq<Indel>, q: Seq<Indel>, x: Indel)
    requires wf(v.push(x)), wf(q.push(x)), equivalent(v, q), q.len() > 0, v.len() > 0,
    ensures equivalent(v.push(x), q.push(x)),
{
    broadcast use text_size::axiom_range;
    let (v1, q1) = (v.push(x), q.push(x));
    assert(v1.drop_last() =~= v && q1.drop_last() =~= q);
    lemma_wf_tail(v1);
    assert forall|t: Seq<u8>| #![trigger applied(t, q1)] all_before(v1, t.len() as int) implies applied(t, q1) == applied(t, v1) by {
        assert(v1[v1.len() - 1] == x);
        assert(all_before(v, t.take(x.delete.s()).len() as int));
        assert(applied(t.take(x.delete.s()), q) == applied(t.take(x.delete.s()), v));
    }
    assert forall|t: Seq<u8>| #![trigger fits(t, q1)] fits(t, v1) implies fits(t, q1) by {
        assert(fits(t, v)) by { assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i].delete.e() <= t.len() && bnd(t, v[i].delete.s()) && bnd(t, v[i].delete.e()) by { assert(v1[i] == v[i]); } }
        assert(fits(t, q));
        assert forall|i: int| #![trigger q1[i]] 0 <= i < q1.len() implies q1[i].delete.e() <= t.len() && bnd(t, q1[i].delete.s()) && bnd(t, q1[i].delete.e()) by {
            if i < q.len() { assert(q[i] == q1[i]); } else { assert(v1[v1.len() - 1] == x); }
        }
    }
}
/// merging the last edit with one that starts where it ends
pub proof fn lemma_equiv_unite(v: Seq<Indel>, q: Seq<Indel>, b: Indel, m: Indel)
    requires wf(v.push(b)), wf(q), equivalent(v, q), q.len() > 0, v.len() > 0, q.last().delete.e() == b.delete.s(), unite(q.last(), b, m),
    ensures equivalent(v.push(b), q.drop_last().push(m)), wf(q.drop_last().push(m)),
{
    broadcast use text_size::axiom_range;
    let a = q.last();
    let (v1, q0, q1) = (v.push(b), q.drop_last(), q.drop_last().push(m));
    assert(v1.drop_last() =~= v && q1.drop_last() =~= q0);
    lemma_wf_tail(v1);
    lemma_wf_tail(q);
    assert(wf(q1)) by { if q0.len() > 0 { assert(q0.last() == q[q.len() - 2] && a == q[q.len() - 1]); } lemma_wf_push(q0, m); }
    encode_utf8_concat(a.insert@, b.insert@);
    assert(ins(m) == ins(a) + ins(b));
    assert forall|t: Seq<u8>| #![trigger applied(t, q1)] all_before(v1, t.len() as int) implies applied(t, q1) == applied(t, v1) by {
        assert(v1[v1.len() - 1] == b);
        let u = t.take(b.delete.s());
        assert(all_before(v, u.len() as int));
        assert(applied(u, q) == applied(u, v));
        assert(u.take(a.delete.s()) =~= t.take(m.delete.s()));
        assert(u.skip(a.delete.e()) =~= Seq::<u8>::empty());
        assert(applied(u, q) =~= applied(t.take(m.delete.s()), q0) + ins(a));
        assert(applied(t, v1) =~= applied(t.take(m.delete.s()), q0) + (ins(a) + ins(b)) + t.skip(b.delete.e()));
    }
    assert forall|t: Seq<u8>| #![trigger fits(t, q1)] fits(t, v1) implies fits(t, q1) by {
        assert(fits(t, v)) by { assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i].delete.e() <= t.len() && bnd(t, v[i].delete.s()) && bnd(t, v[i].delete.e()) by { assert(v1[i] == v[i]); } }
        assert(fits(t, q));
        assert(v1[v1.len() - 1] == b && q[q.len() - 1] == a);
        assert forall|i: int| #![trigger q1[i]] 0 <= i < q1.len() implies q1[i].delete.e() <= t.len() && bnd(t, q1[i].delete.s()) && bnd(t, q1[i].delete.e()) by {
            if i < q0.len() { assert(q[i] == q1[i]); }
        }
    }
}

/// what the closure of coalesce has to be
pub open spec fn unites<F: FnMut(Indel, Indel) -> Result<Indel, (Indel, Indel)>>(f: F) -> bool {
    forall|a: Indel, b: Indel, c: Result<Indel, (Indel, Indel)>| #[trigger] call_ensures(f, (a, b), c) ==> match c {
        Ok(m) => a.delete.e() == b.delete.s() && unite(a, b, m),
        Err((x, y)) => a.delete.e() != b.delete.s() && x == a && y == b,
    }
}
pub proof fn lemma_coalesce_step(v: Seq<Indel>, q: Seq<Indel>, b: Indel, c: Result<Indel, (Indel, Indel)>, r: Seq<Indel>)
    requires wf(v.push(b)), wf(q), equivalent(v, q), v.len() > 0, q.len() > 0, q.last().delete.e() == v.last().delete.e(),
        match c { Ok(m) => q.last().delete.e() == b.delete.s() && unite(q.last(), b, m), Err((x, y)) => q.last().delete.e() != b.delete.s() && x == q.last() && y == b },
        r == (match c { Ok(m) => q.drop_last().push(m), Err((y, z)) => q.drop_last().push(y).push(z) }),
    ensures wf(r), equivalent(v.push(b), r), r.len() > 0, r.last().delete.e() == b.delete.e(),
{
    broadcast use text_size::axiom_range;
    let w = v.push(b);
    assert(w[v.len() - 1] == v.last() && w[v.len() as int] == b);
    match c {
        Ok(m) => { lemma_equiv_unite(v, q, b, m); }
        Err((x, y)) => {
            assert(q.drop_last().push(x) =~= q);
            lemma_wf_push(q, b);
            lemma_equiv_push(v, q, b);
        }
    }
}
pub broadcast proof fn lemma_coalesces<F: FnMut(Indel, Indel) -> Result<Indel, (Indel, Indel)>>(f: F, v: Seq<Indel>, r: Seq<Indel>)
    requires wf(v), unites(f), #[trigger] coalesces(f, v, r),
    ensures wf(r), equivalent(v, r),
{
    reveal(coalesces);
    broadcast use text_size::axiom_range;
    let step = co_step(f);
    let h = choose|h: Seq<Seq<Indel>>| stepwise(v, h, r, step);
    if v.len() > 0 {
        lemma_coalesce_upto(f, v, h, r, v.len() as int);
        assert(v.take(v.len() as int) =~= v);
    }
}
proof fn lemma_coalesce_upto<F: FnMut(Indel, Indel) -> Result<Indel, (Indel, Indel)>>(f: F, v: Seq<Indel>, h: Seq<Seq<Indel>>, r: Seq<Indel>, n: int)
    requires wf(v), unites(f), 0 < n <= v.len(),
        stepwise(v, h, r, co_step(f)),
    ensures wf(h[n - 1]), equivalent(v.take(n), h[n - 1]), h[n - 1].len() > 0, h[n - 1].last().delete.e() == v[n - 1].delete.e(),
    decreases n,
{
    lemma_wf_prefix(v, n);
    if n == 1 {
        assert(h[0] =~= v.take(1));
    } else {
        lemma_coalesce_upto(f, v, h, r, n - 1);
        let (q, x, q2) = (h[n - 2], v[n - 1], h[n - 1]);
        let c = choose|c: Result<Indel, (Indel, Indel)>| #[trigger] call_ensures(f, (q.last(), x), c)
            && q2 == (match c { Ok(m) => q.drop_last().push(m), Err((y, z)) => q.drop_last().push(y).push(z) });
        assert(v.take(n - 1).push(x) =~= v.take(n));
        lemma_coalesce_step(v.take(n - 1), q, x, c, q2);
    }
}
pub open spec fn repeats<F: FnMut(&Indel, &Indel) -> bool>(f: F) -> bool {
    forall|a: Indel, b: Indel, c: bool| #[trigger] call_ensures(f, (&a, &b), c) ==> c == (same(a, b) && a.delete.s() < a.delete.e())
}
pub broadcast proof fn lemma_dedups<F: FnMut(&Indel, &Indel) -> bool>(f: F, v: Seq<Indel>, r: Seq<Indel>)
    requires repeats(f), #[trigger] dedups(f, v, r),
    ensures r == once(v),
{
    reveal(dedups);
    let step = dd_step(f);
    let h = choose|h: Seq<Seq<Indel>>| stepwise(v, h, r, step);
    if v.len() > 0 {
        lemma_dedup_upto(f, v, h, r, v.len() as int);
        assert(v.take(v.len() as int) =~= v);
    }
}
proof fn lemma_dedup_upto<F: FnMut(&Indel, &Indel) -> bool>(f: F, v: Seq<Indel>, h: Seq<Seq<Indel>>, r: Seq<Indel>, n: int)
    requires repeats(f), 0 < n <= v.len(),
        stepwise(v, h, r, dd_step(f)),
    ensures h[n - 1] == once(v.take(n)),
    decreases n,
{
    if n > 1 {
        lemma_dedup_upto(f, v, h, r, n - 1);
        let (q, x, q2) = (h[n - 2], v[n - 1], h[n - 1]);
        assert(v.take(n).drop_last() =~= v.take(n - 1));
        assert(v.take(n).last() == x);
        let b = choose|b: bool| #[trigger] call_ensures(f, (&q.last(), &x), b) && q2 == (if b { q } else { q.push(x) });
    }
}

// ---------------------------------------------------------------- assumed contracts: dissimilar
// (not available offline: the chunks spell out both texts)
pub mod dissimilar {
use vstd::prelude::*;
#[derive(Clone, Copy)]
pub enum Chunk<'a> { Equal(&'a str), Delete(&'a str), Insert(&'a str) }
pub open spec fn old_text(v: Seq<Chunk<'_>>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else {
        old_text(v.drop_last()) + match v.last() { Chunk::Equal(x) => x@, Chunk::Delete(x) => x@, Chunk::Insert(x) => Seq::empty() }
    }
}
pub open spec fn new_text(v: Seq<Chunk<'_>>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else {
        new_text(v.drop_last()) + match v.last() { Chunk::Equal(x) => x@, Chunk::Delete(x) => Seq::empty(), Chunk::Insert(x) => x@ }
    }
}
#[verifier::external_body]
pub fn diff<'a>(l: &'a str, r: &'a str) -> (v: Vec<Chunk<'a>>)
    ensures old_text(v@) == l@, new_text(v@) == r@,
{ unimplemented!() }
}
use dissimilar::*;
/// vec::IntoIter::peekable
#[verifier::external_body]
pub struct Peek<'a> { v: Vec<Chunk<'a>> }
impl<'a> Peek<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Chunk<'a>>;
    #[verifier::external_body]
    pub fn new(v: Vec<Chunk<'a>>) -> (r: Peek<'a>)
        ensures r.rest() == v@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Chunk<'a>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_copied(&mut self) -> (r: Option<Chunk<'a>>)
        ensures final(self).rest() == old(self).rest(),
            old(self).rest().len() == 0 ==> r is None,
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]),
    { unimplemented!() }
}

// ---------------------------------------------------------------- specification: diff
/// the edits made after the chunks c
pub open spec fn diffing(c: Seq<Chunk<'_>>, w: Seq<Indel>, pos: int) -> bool {
    &&& pos == bytes(old_text(c)).len()
    &&& wf(w)
    &&& w.len() > 0 ==> w.last().delete.e() <= pos
    &&& fits(bytes(old_text(c)), w)
    &&& applied(bytes(old_text(c)), w) == bytes(new_text(c))
}
pub proof fn lemma_diffing_before(c: Seq<Chunk<'_>>, w: Seq<Indel>, pos: int)
    requires diffing(c, w, pos),
    ensures all_before(w, pos),
{}
pub proof fn lemma_wf_chain(v: Seq<Indel>)
    requires wf(v),
    ensures chain(v), once(v) == v,
    decreases v.len(),
{
    broadcast use text_size::axiom_range;
    if v.len() > 1 {
        lemma_wf_tail(v);
        lemma_wf_chain(v.drop_last());
        assert(v.drop_last().last() == v[v.len() - 2] && v.last() == v[v.len() - 1]);
        assert(v.drop_last().push(v.last()) =~= v);
    }
}
pub proof fn lemma_prefix(c: Seq<Chunk<'_>>, n: int)
    requires 0 <= n <= c.len(),
    ensures bytes(old_text(c.take(n))).len() <= bytes(old_text(c)).len(),
    decreases c.len(),
{
    if n == c.len() { assert(c.take(n) =~= c); } else {
        lemma_prefix(c.drop_last(), n);
        assert(c.drop_last().take(n) =~= c.take(n));
        encode_utf8_concat(old_text(c.drop_last()), match c.last() { Chunk::Equal(x) => x@, Chunk::Delete(x) => x@, Chunk::Insert(x) => Seq::empty() });
    }
}
pub proof fn lemma_equal(c: Seq<Chunk<'_>>, w: Seq<Indel>, pos: int, d: Seq<char>, c2: Seq<Chunk<'_>>)
    requires diffing(c, w, pos), old_text(c2) == old_text(c) + d, new_text(c2) == new_text(c) + d,
    ensures diffing(c2, w, pos + bytes(d).len()),
{
    let t = bytes(old_text(c));
    lemma_bnd_concat(old_text(c), d);
    encode_utf8_concat(new_text(c), d);
    lemma_diffing_before(c, w, pos);
    lemma_applied_tail(t, bytes(d), w);
    assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies w[i].delete.e() <= bytes(old_text(c2)).len() && bnd(bytes(old_text(c2)), w[i].delete.s()) && bnd(bytes(old_text(c2)), w[i].delete.e()) by {
        assert(bnd(t, w[i].delete.s()) && bnd(t, w[i].delete.e()));
    }
}
pub proof fn lemma_edit(c: Seq<Chunk<'_>>, v: Seq<Indel>, pos: int, d: Seq<char>, x: Seq<char>, c2: Seq<Chunk<'_>>)
    requires diffing(c, ordered(v), pos), old_text(c2) == old_text(c) + d, new_text(c2) == new_text(c) + x,
    ensures forall|i: Indel| #![trigger v.push(i)] i.delete.s() == pos && i.delete.e() == pos + bytes(d).len() && i.insert@ == x ==>
        chain(ordered(v.push(i))) && diffing(c2, ordered(v.push(i)), pos + bytes(d).len()),
{
    assert forall|i: Indel| #![trigger v.push(i)] i.delete.s() == pos && i.delete.e() == pos + bytes(d).len() && i.insert@ == x implies
        chain(ordered(v.push(i))) && diffing(c2, ordered(v.push(i)), pos + bytes(d).len()) by {
        broadcast use text_size::axiom_range;
        let w = ordered(v);
        let t = bytes(old_text(c));
        let t2 = bytes(old_text(c2));
        let w2 = w.push(i);
        lemma_ordered_append(v, i);
        lemma_wf_push(w, i);
        lemma_wf_chain(w2);
        lemma_bnd_concat(old_text(c), d);
        encode_utf8_concat(new_text(c), x);
        assert(w2.drop_last() =~= w);
        assert(t2.take(pos) =~= t);
        assert(t2.skip(pos + bytes(d).len()) =~= Seq::<u8>::empty());
        assert(applied(t2, w2) =~= applied(t, w) + ins(i));
        assert forall|k: int| #![trigger w2[k]] 0 <= k < w2.len() implies w2[k].delete.e() <= t2.len() && bnd(t2, w2[k].delete.s()) && bnd(t2, w2[k].delete.e()) by {
            if k < w.len() { assert(w2[k] == w[k]); assert(bnd(t, w[k].delete.s()) && bnd(t, w[k].delete.e())); } else { assert(w2[k] == i); }
        }
    }
}

// ---------------------------------------------------------------- the code
pub mod code {
use super::*;
use std::cmp::max;
broadcast use {text_size::axiom_range, lemma_coalesces, lemma_dedups};

//@@ source crates/aether_lsp_utils/src/text_edit.rs
//@@ rewrite* `. replace_range` => `.splice_str`
//@@ item struct Indel
//@@   public
//@@ end
//@@ item struct TextEdit
//@@   public
//@@ end
//@@ item struct TextEditBuilder
//@@   public
//@@ end
//@@ impl Indel
//@@ item fn Indel::insert
//@@   ret r
//@@ + spec
    ensures r.delete.s() == offset.v(), r.delete.e() == offset.v(), r.insert@ == text@,
//@@ end
//@@ item fn Indel::delete
//@@   ret r
//@@ + spec
    ensures r.delete == range, r.insert@ =~= Seq::<char>::empty(),
//@@ end
//@@ item fn Indel::replace
//@@   ret r
//@@ + spec
    ensures r.delete == range, r.insert@ == replace_with@,
//@@ end
//@@ item fn Indel::apply
//@@ + spec
    requires self.delete.e() <= bytes(old(text)@).len(), bnd(bytes(old(text)@), self.delete.s()), bnd(bytes(old(text)@), self.delete.e()),
    ensures bytes(final(text)@) == splice(bytes(old(text)@), self.delete.s(), self.delete.e(), ins(*self)), bnd(bytes(final(text)@), self.delete.s()),
//@@ end
//@@ endimpl
//@@ impl TextEdit
//@@ item fn TextEdit::len
//@@   ret r
//@@ + spec
    ensures r == self.indels@.len(),
//@@ end
//@@ item fn TextEdit::is_empty
//@@   ret r
//@@ + spec
    ensures r == (self.indels@.len() == 0),
//@@ end
//@@ item fn TextEdit::apply
//@@ + spec
    requires
        wf(self.indels@), fits(bytes(old(text)@), self.indels@),
        bytes(old(text)@).len() + ins_total(self.indels@) <= u32::MAX,
    ensures bytes(final(text)@) == applied(bytes(old(text)@), self.indels@),
//@@ rewrite `for indel in & self . indels` => `for indel in it: &self.indels`
//@@ rewrite `for indel in self . indels` => `for indel in it: self.indels`
//@@ + loop 1 `for indel in &self.indels`
    invariant
        it.seq() == self.indels@.map(|i, x: Indel| &x),
        wf(self.indels@), all_before(self.indels@, t0.len() as int),
        t0.len() + ins_total(self.indels@) <= u32::MAX,
        text_size.v() == t0.len(),
        total_len.v() == t0.len() + ins_total(self.indels@.take(it.index@)) - del_total(self.indels@.take(it.index@)),
        bytes(text@) == t0,
//@@ + loopbody 1
    proof {
        let (v, k) = (self.indels@, it.index@);
        assert(indel == &v[k]);
        assert(v.take(k + 1).drop_last() =~= v.take(k));
        lemma_totals_mono(v, k + 1);
        lemma_wf_prefix(v, k + 1);
        assert(all_before(v.take(k + 1), t0.len() as int)) by { assert forall|i: int| #![trigger v.take(k + 1)[i]] 0 <= i < k + 1 implies v.take(k + 1)[i].delete.e() <= t0.len() by { assert(v[i].delete.e() <= t0.len()); } }
        lemma_sizes(t0, v.take(k + 1));
        lemma_wf_prefix(v, k);
        assert(all_before(v.take(k), t0.len() as int)) by { assert forall|i: int| #![trigger v.take(k)[i]] 0 <= i < k implies v.take(k)[i].delete.e() <= t0.len() by { assert(v[i].delete.e() <= t0.len()); } }
        lemma_sizes(t0, v.take(k));
    }
//@@ + loopafter 1
    proof { assert(self.indels@.take(self.indels@.len() as int) =~= self.indels@); }
//@@ + loop 2 `for indel in self.indels.iter().rev()`
    invariant
        it.seq() == self.indels@.map(|i, x: Indel| &x).reverse(),
        wf(self.indels@),
        fits(bytes(text@), self.indels@.take(self.indels@.len() - it.index@)),
        back_to_front(bytes(text@), self.indels@.take(self.indels@.len() - it.index@)) == back_to_front(t0, self.indels@),
//@@ + loopbody 2
    let ghost t1 = bytes(text@);
    proof {
        let (v, m) = (self.indels@, self.indels@.len() - it.index@);
        assert(indel == &v[m - 1]);
        assert(v.take(m).last() == v[m - 1]);
        assert(v.take(m).drop_last() =~= v.take(m - 1));
    }
//@@ + looptail 2
    proof {
        let (v, m) = (self.indels@, self.indels@.len() - it.index@);
        let (w, t2) = (v.take(m - 1), bytes(text@));
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies w[i].delete.e() <= t2.len() && bnd(t2, w[i].delete.s()) && bnd(t2, w[i].delete.e()) by {
            assert(v.take(m)[i] == w[i] && v.take(m)[m - 1] == *indel && v[i] == w[i] && v[m - 1] == *indel);
        }
    }
//@@ + before `let text_size`
    let ghost t0 = bytes(text@);
    proof {
        let v = self.indels@;
        assert(v.take(v.len() as int) =~= v);
        lemma_at_once(t0, v);
        lemma_sizes(t0, v);
        assert(v.take(0).len() == 0);
    }
//@@ + body
    proof {
        let v = self.indels@;
        assert(all_before(v, bytes(text@).len() as int));
        if v.len() == 1 {
            let d = v.drop_last();
            assert(applied(bytes(text@).take(v.last().delete.s()), d) == bytes(text@).take(v.last().delete.s()));
        }
    }
//@@ end
//@@ endimpl
//@@ rewrite* `. sort_by_key` => `.stable_sort_by_key`
//@@ rewrite* `std :: iter :: Iterator < Item = & 'a Indel > + Clone` => `Refs<'a>`
//@@ rewrite* `indels . iter ( )` => `indels.iter_of()`
//@@ rewrite* `indels . into_iter ( )` => `indels.into_items()`
//@@ item fn check_disjoint
//@@   ret r
//@@ + spec
    ensures r == chain_refs(old(indels).rest()),
//@@ + closure 1 `|(l, r)|`
|p1_in: (&'a Indel, &'a Indel)| -> (b: bool)
    ensures b == (p1_in.0.delete.e() <= p1_in.1.delete.s() || same(*p1_in.0, *p1_in.1)),
//@@ end
//@@ item fn check_disjoint_and_sort
//@@   ret r
//@@ + spec
    ensures final(indels)@ == ordered(old(indels)@), r == chain(final(indels)@),
//@@ + closure 1 `|indel|`
|indel: &Indel| -> (k: (TextSize, TextSize))
    ensures k == key(*indel),
//@@ + body
    proof { assert(isort(indels.elems(), kf()) == ordered(indels@)); }
//@@ + before `check_disjoint`
    proof { lemma_chain_refs(indels@); }
//@@ end
//@@ item fn assert_disjoint_or_equal
//@@ + spec
    requires chain(ordered(old(indels)@)),
    ensures final(indels)@ == ordered(old(indels)@),
//@@ end
//@@ item fn coalesce_indels
//@@   ret r
//@@ + spec
    requires chain(indels@),
    ensures wf(r@), equivalent(once(indels@), r@),
//@@ + body
    proof { lemma_once_wf(indels@); }
//@@ + closure 1 `|a, b|`
|a: &Indel, b: &Indel| -> (r: bool)
    ensures r == (same(*a, *b) && a.delete.s() < a.delete.e()),
//@@ + closure 2 `|mut a, b|`
|a_in: Indel, b: Indel| -> (r: Result<Indel, (Indel, Indel)>)
    ensures match r {
        Ok(m) => a_in.delete.e() == b.delete.s() && unite(a_in, b, m),
        Err((x, y)) => a_in.delete.e() != b.delete.s() && x == a_in && y == b,
    },
//@@ end
//@@ impl TextEditBuilder
//@@ item fn TextEditBuilder::is_empty
//@@   ret r
//@@ + spec
    ensures r == (self.indels@.len() == 0),
//@@ end
//@@ item fn TextEditBuilder::indel
//@@   public
//@@ + spec
    requires old(self).indels@.len() >= 16 || chain(ordered(old(self).indels@.push(indel))),
    ensures ordered(final(self).indels@) == ordered(old(self).indels@.push(indel)), final(self).indels@.len() == old(self).indels@.len() + 1,
//@@ + body
    proof { lemma_ordered_push(self.indels@.push(indel), indel); lemma_ordered_sorted(self.indels@.push(indel)); }
//@@ end
//@@ item fn TextEditBuilder::replace
//@@ + spec
    requires forall|i: Indel| #![trigger old(self).indels@.push(i)] i.delete == range && i.insert@ == replace_with@ ==> old(self).indels@.len() >= 16 || chain(ordered(old(self).indels@.push(i))),
    ensures made(old(self).indels@, final(self).indels@, range.s(), range.e(), replace_with@),
//@@ end
//@@ item fn TextEditBuilder::delete
//@@ + spec
    requires forall|i: Indel| #![trigger old(self).indels@.push(i)] i.delete == range && i.insert@ == Seq::<char>::empty() ==> old(self).indels@.len() >= 16 || chain(ordered(old(self).indels@.push(i))),
    ensures made(old(self).indels@, final(self).indels@, range.s(), range.e(), Seq::empty()),
//@@ end
//@@ item fn TextEditBuilder::insert
//@@ + spec
    requires forall|i: Indel| #![trigger old(self).indels@.push(i)] i.delete.s() == offset.v() && i.delete.e() == offset.v() && i.insert@ == text@ ==> old(self).indels@.len() >= 16 || chain(ordered(old(self).indels@.push(i))),
    ensures made(old(self).indels@, final(self).indels@, offset.v(), offset.v(), text@),
//@@ end
//@@ item fn TextEditBuilder::finish
//@@   ret r
//@@ + spec
    requires chain(ordered(self.indels@)),
    ensures wf(r.indels@), equivalent(all_edits(self.indels@), r.indels@),
//@@ end
//@@ item fn TextEditBuilder::invalidates_offset
//@@   ret r
//@@ + spec
    ensures r == (exists|i: int| #![trigger self.indels@[i]] 0 <= i < self.indels@.len() && self.indels@[i].delete.s() <= offset.v() <= self.indels@[i].delete.e()),
//@@ + body
    let ghost w = self.indels@.map(|i: int, x: Indel| &x);
    proof {
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies *w[i] == self.indels@[i] by {}
        assert forall|i: int| #![trigger self.indels@[i]] 0 <= i < w.len() implies *w[i] == self.indels@[i] by {}
    }
//@@ + closure 1 `|indel|`
|indel: &Indel| -> (r: bool)
    ensures r == (indel.delete.s() <= offset.v() <= indel.delete.e()),
//@@ end
//@@ endimpl
//@@ impl TextEdit
//@@ item fn TextEdit::builder
//@@   ret r
//@@ + spec
    ensures r.indels@ == Seq::<Indel>::empty(),
//@@ end
//@@ item fn TextEdit::insert
//@@   ret r
//@@ + spec
    ensures wf(r.indels@), just(r.indels@, offset.v(), offset.v(), text@),
//@@ + body
    proof { broadcast use lemma_single_ok; }
//@@ + before `builder . finish ( )`
    proof { lemma_single(builder.indels@, offset.v(), offset.v(), text@); }
//@@ end
//@@ item fn TextEdit::delete
//@@   ret r
//@@ + spec
    ensures wf(r.indels@), just(r.indels@, range.s(), range.e(), Seq::empty()),
//@@ + body
    proof { broadcast use lemma_single_ok; }
//@@ + before `builder . finish ( )`
    proof { lemma_single(builder.indels@, range.s(), range.e(), Seq::empty()); }
//@@ end
//@@ item fn TextEdit::replace
//@@   ret r
//@@ + spec
    ensures wf(r.indels@), just(r.indels@, range.s(), range.e(), replace_with@),
//@@ + body
    proof { broadcast use lemma_single_ok; }
//@@ + before `builder . finish ( )`
    proof { lemma_single(builder.indels@, range.s(), range.e(), replace_with@); }
//@@ end
//@@ item fn TextEdit::union
//@@   ret r
//@@   rewrite `self . iter ( )` => `self.indels.iter_of()`
//@@   rewrite `other . iter ( )` => `other.indels.iter_of()`
//@@ + spec
    ensures
        r is Ok <==> chain(merged(old(self).indels@, other.indels@)),
        r is Ok ==> final(self).indels@ == once(merged(old(self).indels@, other.indels@)) && wf(final(self).indels@),
        r is Err ==> final(self).indels@ == old(self).indels@ && r == Err::<(), TextEdit>(other),
//@@ + body
    proof {
        let (v, w) = (self.indels@, other.indels@);
        assert(derefs(v.map(|i: int, x: Indel| &x)) =~= v);
        assert(derefs(w.map(|i: int, x: Indel| &x)) =~= w);
        assert(merge(v, w, first()) == merged(v, w));
        lemma_once(merged(v, w));
        if chain(merged(v, w)) { lemma_once_wf(merged(v, w)); }
    }
//@@ + closure 1 `|l, r|`
|l: &&'_ Indel, r: &&'_ Indel| -> (b: bool)
    ensures b == (l.delete.s() <= r.delete.s()),
//@@ + after_stmt `let iter_merge`
    proof {
        let m = iter_merge.elems();
        assert(derefs(m).map(|i: int, x: Indel| &x) =~= m);
        lemma_chain_refs(derefs(m));
        assert(dedup(derefs(m), rep()) == once(derefs(m)));
    }
//@@ + closure 2 `|a, b|`
|a: &&'_ Indel, b: &&'_ Indel| -> (r: bool)
    ensures r == (same(**a, **b) && a.delete.s() < a.delete.e()),
//@@ end
//@@ item fn TextEdit::apply_to_offset
//@@   ret r
//@@   rewrite `for indel in & self . indels` => `for indel in it: &self.indels`
//@@ + spec
    requires wf(self.indels@), offset.v() + ins_total(self.indels@) <= u32::MAX,
    ensures
        r is None <==> exists|i: int| #![trigger self.indels@[i]] 0 <= i < self.indels@.len() && self.indels@[i].delete.s() < offset.v() < self.indels@[i].delete.e(),
        r matches Some(x) ==> forall|t: Seq<u8>| #![trigger applied(t, self.indels@.take(started(self.indels@, offset.v())))] t.len() == offset.v() ==>
            x.v() == applied(t, self.indels@.take(started(self.indels@, offset.v()))).len(),
//@@ + body
    let ghost mut n: int = 0;
    proof { assert(self.indels@.take(0).len() == 0); lemma_totals_mono(self.indels@, 0); }
//@@ + loop 1 `for indel in &self.indels`
    invariant_except_break
        n == it.index@,
    invariant
        it.seq() == self.indels@.map(|i, x: Indel| &x),
        wf(self.indels@), offset.v() + ins_total(self.indels@) <= u32::MAX,
        0 <= n <= self.indels@.len(),
        forall|i: int| #![trigger self.indels@[i]] 0 <= i < n ==> self.indels@[i].delete.s() < offset.v() && self.indels@[i].delete.e() <= offset.v(),
        res.v() == offset.v() + ins_total(self.indels@.take(n)) - del_total(self.indels@.take(n)),
    ensures
        n < self.indels@.len() ==> self.indels@[n].delete.s() >= offset.v(),
//@@ + loopbody 1
    proof {
        let v = self.indels@;
        let t = Seq::new(offset.v() as nat, |i: int| 0u8);
        assert(indel == &v[n]);
        assert(v.take(n + 1).drop_last() =~= v.take(n));
        lemma_totals_mono(v, n + 1);
        lemma_wf_prefix(v, n);
        assert(all_before(v.take(n), t.len() as int)) by { assert forall|i: int| #![trigger v.take(n)[i]] 0 <= i < n implies v.take(n)[i].delete.e() <= t.len() by { assert(v[i].delete.e() <= t.len()); } }
        lemma_sizes(t, v.take(n));
        if v[n].delete.e() <= offset.v() {
            lemma_wf_prefix(v, n + 1);
            assert(all_before(v.take(n + 1), t.len() as int)) by { assert forall|i: int| #![trigger v.take(n + 1)[i]] 0 <= i < n + 1 implies v.take(n + 1)[i].delete.e() <= t.len() by { assert(v[i].delete.e() <= t.len()); } }
            lemma_sizes(t, v.take(n + 1));
        }
    }
//@@ + looptail 1
    proof { n = n + 1; }
//@@ + loopafter 1
    proof {
        let v = self.indels@;
        lemma_started(v, offset.v(), n);
        lemma_wf_prefix(v, n);
        assert forall|t: Seq<u8>| #![trigger applied(t, v.take(n))] t.len() == offset.v() implies res.v() == applied(t, v.take(n)).len() by {
            assert(all_before(v.take(n), t.len() as int)) by { assert forall|i: int| #![trigger v.take(n)[i]] 0 <= i < n implies v.take(n)[i].delete.e() <= t.len() by { assert(v[i].delete.e() <= t.len()); } }
            lemma_sizes(t, v.take(n));
        }
        assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies !(v[i].delete.s() < offset.v() < v[i].delete.e()) by {
            if i > n { assert(v[n].delete.e() <= v[i].delete.s() && v[n].delete.s() <= v[n].delete.e()); }
        }
    }
//@@ end
//@@ endimpl
//@@ source crates/aether_lsp_utils/src/diff.rs
//@@ item fn diff
//@@   ret r
//@@   rewrite `chunks . into_iter ( ) . peekable ( )` => `Peek::new(chunks)`
//@@   rewrite? `Some ( & Chunk :: Insert ( inserted ) )` => `Some(Chunk::Insert(inserted))`
//@@   rewrite? `inserted . into ( )` => `inserted.to_owned()`
//@@   rewrite? `chunks . peek ( )` => `chunks.peek_copied()`
//@@ + spec
    requires bytes(left@).len() <= u32::MAX,
    ensures wf(r.indels@), fits(bytes(left@), r.indels@), applied(bytes(left@), r.indels@) == bytes(right@),
//@@ + body
    broadcast use encode_utf8_concat;
    proof { lemma_bytes_empty(); }
//@@ + before `let mut chunks`
    let ghost all = chunks@;
//@@ + loop 1 `while let Some(chunk) = chunks.next()`
    invariant
        bytes(left@).len() <= u32::MAX,
        old_text(all) == left@, new_text(all) == right@,
        chunks.rest().len() <= all.len(),
        chunks.rest() == all.skip(all.len() - chunks.rest().len()),
        diffing(all.take(all.len() - chunks.rest().len()), ordered(builder.indels@), pos.v()),
    ensures chunks.rest().len() == 0,
    decreases chunks.rest().len(),
//@@ + loopbody 1
    proof {
        let n = all.len() - chunks.rest().len() - 1;
        let c = all.take(n);
        let c2 = all.take(n + 1);
        assert(chunk == all[n]);
        lemma_bytes_empty();
        lemma_prefix(all, n + 1);
        assert(c2.drop_last() =~= c && c2.last() == chunk);
        assert(chunks.rest() =~= all.skip(n + 1));
        let v = builder.indels@;
        match chunk {
            Chunk::Equal(x) => { lemma_equal(c, ordered(v), pos.v(), x@, c2); encode_utf8_concat(old_text(c), x@); }
            Chunk::Insert(x) => { lemma_edit(c, v, pos.v(), Seq::empty(), x@, c2); }
            Chunk::Delete(x) => {
                lemma_edit(c, v, pos.v(), x@, Seq::empty(), c2);
                encode_utf8_concat(old_text(c), x@);
                if n + 1 < all.len() {
                    let c3 = all.take(n + 2);
                    assert(c3.drop_last() =~= c2 && c3.last() == all[n + 1]);
                    assert(chunks.rest()[0] == all[n + 1]);
                    assert(chunks.rest().skip(1) =~= all.skip(n + 2));
                    assert(new_text(c2) =~= new_text(c) && old_text(c2) == old_text(c) + x@);
                    if let Chunk::Insert(y) = all[n + 1] { assert(old_text(c3) =~= old_text(c2)); lemma_edit(c, v, pos.v(), x@, y@, c3); }
                }
            }
        }
    }
//@@ + before `builder . finish ( )`
    proof {
        assert(all.take(all.len() as int) =~= all);
        lemma_wf_chain(ordered(builder.indels@));
        let w = ordered(builder.indels@);
        assert(applied(bytes(left@), w) == bytes(right@));
        assert(all_before(w, bytes(left@).len() as int)) by { lemma_diffing_before(all, w, pos.v()); }
    }
//@@ end
}

fn main() {}
} // verus!
