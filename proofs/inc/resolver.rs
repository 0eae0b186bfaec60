// ---------------------------------------------------------------- paths, abstractly
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(std::path::Path);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);

/// the components of a path, coded by numbers in the order of `std::path::Component`
pub uninterp spec fn comps(p: &Path) -> Seq<int>;
pub uninterp spec fn bcomps(p: PathBuf) -> Seq<int>;
pub uninterp spec fn as_ref_of<A: core::marker::PointeeSized, B: core::marker::PointeeSized>(a: &A) -> &B;

#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    fn as_ref(&self) -> (r: &T)
        ensures r == as_ref_of::<Self, T>(self);
}

pub open spec fn lex(a: Seq<int>, b: Seq<int>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.skip(1), b.skip(1)) }
}

pub open spec fn prefix(a: Seq<int>, b: Seq<int>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a
}

pub open spec fn ord_int(o: Ordering) -> int {
    match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}

pub proof fn lemma_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    ensures
        lex(a, b) != Ordering::Greater ==> ord_int(lex(a, c)) <= ord_int(lex(b, c)),
        lex(a, b) == Ordering::Less && lex(b, c) != Ordering::Greater ==> lex(a, c) == Ordering::Less,
        lex(a, b) != Ordering::Greater && lex(b, c) == Ordering::Less ==> lex(a, c) == Ordering::Less,
    decreases a.len() + b.len() + c.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}

pub proof fn lemma_eq(a: Seq<int>, b: Seq<int>)
    ensures
        lex(a, b) == Ordering::Equal <==> a == b,
        ord_int(lex(a, b)) == -ord_int(lex(b, a)),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_eq(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) {
            assert(a == seq![a[0]] + a.skip(1));
            assert(b == seq![b[0]] + b.skip(1));
        }
    } else if a.len() == 0 && b.len() == 0 {
        assert(a == b);
    }
}

/// of two prefixes of one path, the shorter is a prefix of the longer and sorts first
pub proof fn lemma_prefix(a: Seq<int>, b: Seq<int>, p: Seq<int>)
    requires prefix(a, p), prefix(b, p), a.len() < b.len(),
    ensures lex(a, b) == Ordering::Less,
    decreases a.len(),
{
    if a.len() > 0 {
        assert(p.take(a.len() as int)[0] == p[0]);
        assert(p.take(b.len() as int)[0] == p[0]);
        assert(p.skip(1).take(a.len() - 1) =~= p.take(a.len() as int).skip(1));
        assert(p.skip(1).take(b.len() - 1) =~= p.take(b.len() as int).skip(1));
        lemma_prefix(a.skip(1), b.skip(1), p.skip(1));
    }
}

// ---------------------------------------------------------------- assumed contracts: std
pub assume_specification<'a, T, F: FnMut(&'a T) -> Ordering>[ <[T]>::binary_search_by ](s: &'a [T], f: F) -> (r: Result<usize, usize>)
    requires
        forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> call_requires(f, (&s@[i],)),
        forall|i: int, j: int, a: Ordering, b: Ordering| #![trigger call_ensures(f, (&s@[i],), a), call_ensures(f, (&s@[j],), b)]
            0 <= i <= j < s@.len() && call_ensures(f, (&s@[i],), a) && call_ensures(f, (&s@[j],), b) ==> ord_int(a) <= ord_int(b),
    ensures
        match r {
            Ok(k) => k < s@.len() && call_ensures(f, (&s@[k as int],), Ordering::Equal),
            Err(k) => k <= s@.len()
                && (forall|i: int| #![trigger s@[i]] 0 <= i < k ==> call_ensures(f, (&s@[i],), Ordering::Less))
                && (forall|i: int| #![trigger s@[i]] k <= i < s@.len() ==> call_ensures(f, (&s@[i],), Ordering::Greater)),
        },
;
pub assume_specification[ PathBuf::as_path ](p: &PathBuf) -> (r: &Path)
    ensures comps(r) == bcomps(*p),
;
pub assume_specification[ <PathBuf as core::ops::Deref>::deref ](p: &PathBuf) -> (r: &Path)
    ensures comps(r) == bcomps(*p),
;
pub assume_specification<P: AsRef<Path>>[ Path::starts_with ](p: &Path, base: P) -> (r: bool)
    ensures r == prefix(comps(as_ref_of::<P, Path>(&base)), comps(p)),
;

pub assume_specification<T>[ std::mem::replace ](d: &mut T, v: T) -> (r: T)
    ensures r == *old(d), *final(d) == v,
;
pub assume_specification<T, U, D, F>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    where
        D: FnOnce() -> U,
        F: FnOnce(T) -> U,
    requires
        o is None ==> call_requires(d, ()),
        o matches Some(x) ==> call_requires(f, (x,)),
    ensures
        o is None ==> call_ensures(d, (), r),
        o matches Some(x) ==> call_ensures(f, (x,), r),
;

pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_as_ref_path(p: &Path)
        ensures #[trigger] as_ref_of::<&Path, Path>(&p) == p;
    pub broadcast axiom fn axiom_cmp(a: &Path, b: &Path)
        ensures #[trigger] a.cmp_spec(b) == lex(comps(a), comps(b));
    pub broadcast axiom fn axiom_cmpb(a: PathBuf, b: PathBuf)
        ensures #[trigger] a.cmp_spec(&b) == lex(bcomps(a), bcomps(b));
    pub axiom fn axiom_obeys()
        ensures <Path as OrdSpec>::obeys_cmp_spec(), <PathBuf as OrdSpec>::obeys_cmp_spec();
}

/// lets the verifier pass from an index into a list to the index into its reversal
pub broadcast proof fn lemma_rev<A, B>(r: Seq<A>, s: Seq<B>, i: int)
    ensures #![trigger r.reverse(), s[i]] 0 <= i < r.len() ==> r.reverse()[r.len() - 1 - i] == r[i],
{
}

// ---------------------------------------------------------------- the resolver as a map
pub open spec fn sorted<T>(s: Seq<PathItem<T>>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> lex(bcomps(s[i].path), bcomps(s[j].path)) == Ordering::Less
}

pub open spec fn has<T>(s: Seq<PathItem<T>>, k: Seq<int>, v: T) -> bool {
    exists|i: int| 0 <= i < s.len() && bcomps(#[trigger] s[i].path) == k && s[i].value == v
}

pub open spec fn absent<T>(s: Seq<PathItem<T>>, k: Seq<int>) -> bool {
    forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> bcomps(s[i].path) != k
}

pub proof fn lemma_lexes(k: Seq<int>)
    ensures
        forall|a: Seq<int>, b: Seq<int>| #![trigger lex(a, k), lex(b, k)] lex(a, b) != Ordering::Greater ==> ord_int(lex(a, k)) <= ord_int(lex(b, k)),
        forall|a: Seq<int>| #![trigger lex(a, k)] (lex(a, k) == Ordering::Equal <==> a == k) && ord_int(lex(a, k)) == -ord_int(lex(k, a)),
{
    assert forall|a: Seq<int>, b: Seq<int>| #![trigger lex(a, k), lex(b, k)] lex(a, b) != Ordering::Greater implies ord_int(lex(a, k)) <= ord_int(lex(b, k)) by { lemma_trans(a, b, k); }
    assert forall|a: Seq<int>| #![trigger lex(a, k)] (lex(a, k) == Ordering::Equal <==> a == k) && ord_int(lex(a, k)) == -ord_int(lex(k, a)) by { lemma_eq(a, k); }
}

pub proof fn lemma_flip(k: Seq<int>)
    ensures forall|a: Seq<int>| #![trigger lex(k, a)] ord_int(lex(a, k)) == -ord_int(lex(k, a)),
{
    assert forall|a: Seq<int>| #![trigger lex(k, a)] ord_int(lex(a, k)) == -ord_int(lex(k, a)) by { lemma_eq(a, k); }
}

/// `b` is `a` with `k` set to `v`; `r` is what `k` was set to before
pub open spec fn added<T>(a: Seq<PathItem<T>>, b: Seq<PathItem<T>>, k: Seq<int>, v: T, r: Option<T>) -> bool {
    &&& match r { Some(o) => has(a, k, o) && b.len() == a.len(), None => absent(a, k) && b.len() == a.len() + 1 }
    &&& has(b, k, v)
    &&& forall|k2: Seq<int>, w: T| k2 != k ==> (#[trigger] has(a, k2, w) <==> has(b, k2, w))
}

pub open spec fn removed<T>(a: Seq<PathItem<T>>, b: Seq<PathItem<T>>, k: Seq<int>, r: Option<T>) -> bool {
    &&& match r { Some(o) => has(a, k, o) && b.len() == a.len() - 1, None => absent(a, k) && a == b }
    &&& absent(b, k)
    &&& forall|k2: Seq<int>, w: T| k2 != k ==> (#[trigger] has(a, k2, w) <==> has(b, k2, w))
}

pub proof fn lemma_added_swap<T>(a: Seq<PathItem<T>>, b: Seq<PathItem<T>>, x: int, k: Seq<int>, v: T)
    requires
        sorted(a), 0 <= x < a.len(), b.len() == a.len(), bcomps(a[x].path) == k, b[x].path == a[x].path, b[x].value == v,
        forall|i: int| 0 <= i < a.len() && i != x ==> b[i] == a[i],
    ensures added(a, b, k, v, Some(a[x].value)), sorted(b),
{
    assert(has(a, k, a[x].value));
    assert(has(b, k, v));
    assert forall|k2: Seq<int>, w: T| k2 != k implies (#[trigger] has(a, k2, w) <==> has(b, k2, w)) by {
        if has(a, k2, w) {
            let i = choose|i: int| 0 <= i < a.len() && bcomps(#[trigger] a[i].path) == k2 && a[i].value == w;
            assert(b[i] == a[i]);
        }
        if has(b, k2, w) {
            let i = choose|i: int| 0 <= i < b.len() && bcomps(#[trigger] b[i].path) == k2 && b[i].value == w;
            assert(b[i] == a[i]);
        }
    }
}

pub proof fn lemma_added_new<T>(a: Seq<PathItem<T>>, x: int, it: PathItem<T>)
    requires
        sorted(a), 0 <= x <= a.len(),
        forall|i: int| #![trigger a[i]] 0 <= i < x ==> lex(bcomps(a[i].path), bcomps(it.path)) == Ordering::Less,
        forall|i: int| #![trigger a[i]] x <= i < a.len() ==> lex(bcomps(a[i].path), bcomps(it.path)) == Ordering::Greater,
    ensures added(a, a.insert(x, it), bcomps(it.path), it.value, None), sorted(a.insert(x, it)),
{
    let b = a.insert(x, it);
    let k = bcomps(it.path);
    assert(b[x] == it);
    assert(has(b, k, it.value));
    assert(absent(a, k)) by {
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies bcomps(a[i].path) != k by { lemma_eq(bcomps(a[i].path), k); }
    }
    assert forall|k2: Seq<int>, w: T| k2 != k implies (#[trigger] has(a, k2, w) <==> has(b, k2, w)) by {
        if has(a, k2, w) {
            let i = choose|i: int| 0 <= i < a.len() && bcomps(#[trigger] a[i].path) == k2 && a[i].value == w;
            assert(b[if i < x { i } else { i + 1 }] == a[i]);
        }
        if has(b, k2, w) {
            let i = choose|i: int| 0 <= i < b.len() && bcomps(#[trigger] b[i].path) == k2 && b[i].value == w;
            assert(i != x);
            assert(b[i] == a[if i < x { i } else { i - 1 }]);
        }
    }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies lex(bcomps(b[i].path), bcomps(b[j].path)) == Ordering::Less by {
        if j == x {
            assert(b[i] == a[i]);
        } else if i == x {
            assert(b[j] == a[j - 1]);
            lemma_eq(bcomps(b[j].path), k);
        } else {
            let i0 = if i < x { i } else { i - 1 };
            let j0 = if j < x { j } else { j - 1 };
            assert(b[i] == a[i0] && b[j] == a[j0]);
        }
    }
}

pub proof fn lemma_removed<T>(a: Seq<PathItem<T>>, x: int, k: Seq<int>)
    requires sorted(a), 0 <= x < a.len(), bcomps(a[x].path) == k,
    ensures removed(a, a.remove(x), k, Some(a[x].value)), sorted(a.remove(x)),
{
    let b = a.remove(x);
    assert(has(a, k, a[x].value));
    assert(absent(b, k)) by {
        assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies bcomps(b[i].path) != k by {
            let i0 = if i < x { i } else { i + 1 };
            assert(b[i] == a[i0]);
            if i0 < x { lemma_eq(bcomps(a[i0].path), bcomps(a[x].path)); } else { lemma_eq(bcomps(a[x].path), bcomps(a[i0].path)); }
        }
    }
    assert forall|k2: Seq<int>, w: T| k2 != k implies (#[trigger] has(a, k2, w) <==> has(b, k2, w)) by {
        if has(a, k2, w) {
            let i = choose|i: int| 0 <= i < a.len() && bcomps(#[trigger] a[i].path) == k2 && a[i].value == w;
            assert(i != x);
            assert(b[if i < x { i } else { i - 1 }] == a[i]);
        }
        if has(b, k2, w) {
            let i = choose|i: int| 0 <= i < b.len() && bcomps(#[trigger] b[i].path) == k2 && b[i].value == w;
            assert(b[i] == a[if i < x { i } else { i + 1 }]);
        }
    }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies lex(bcomps(b[i].path), bcomps(b[j].path)) == Ordering::Less by {
        assert(b[i] == a[if i < x { i } else { i + 1 }]);
        assert(b[j] == a[if j < x { j } else { j + 1 }]);
    }
}

/// the closest ancestor-or-self of `p` among the items
pub open spec fn closest<T>(s: Seq<PathItem<T>>, p: Seq<int>, r: Option<&PathItem<T>>) -> bool {
    match r {
        Some(x) => {
            &&& exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x
            &&& prefix(bcomps(x.path), p)
            &&& forall|j: int| #![trigger s[j]] 0 <= j < s.len() && prefix(bcomps(s[j].path), p) ==> s[j] == x || bcomps(s[j].path).len() < bcomps(x.path).len()
        },
        None => forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> !prefix(bcomps(s[j].path), p),
    }
}

pub proof fn lemma_closest<T>(s: Seq<PathItem<T>>, p: Seq<int>)
    requires sorted(s),
    ensures
        forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && prefix(bcomps(s[i].path), p) && prefix(bcomps(s[j].path), p)
            ==> bcomps(s[i].path).len() < bcomps(s[j].path).len(),
{
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && prefix(bcomps(s[i].path), p) && prefix(bcomps(s[j].path), p)
        implies bcomps(s[i].path).len() < bcomps(s[j].path).len() by {
        let (a, b) = (bcomps(s[i].path), bcomps(s[j].path));
        lemma_eq(a, b);
        if a.len() > b.len() { lemma_prefix(b, a, p); }
        if a.len() == b.len() { assert(a == b); }
    }
}
