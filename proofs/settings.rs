// Contracts for crates/settings (properties S01, S02, S03).
#![feature(allocator_api)]
#![allow(unused_imports, non_snake_case, dead_code)]
use vstd::prelude::*;
verus! {
//@@ rewrite* `|_|` => `|_unused|`

// ------------------------------------------------------------------ widths (S01)
pub mod indent_width {
use super::*;
use std::num::NonZeroU8;
use vstd::std_specs::convert::*;
//@@ source crates/settings/src/indent_width.rs
//@@ item struct IndentWidth
//@@   public
//@@ end
//@@ item struct IndentWidthFromIntError
//@@   public
//@@ end

pub mod nzax {
use super::*;
/// std: the value of a NonZero integer determines it, and every non-zero value occurs
pub uninterp spec fn nz(v: u8) -> NonZeroU8;
pub broadcast axiom fn axiom_nz(v: u8)
    ensures v != 0 ==> (#[trigger] nz(v))@ == v;
pub broadcast axiom fn axiom_nz_unique(n: NonZeroU8)
    ensures #![trigger n@] n@ != 0, nz(n@) == n;
}
use nzax::*;
broadcast use {axiom_nz, axiom_nz_unique};

pub assume_specification[ <NonZeroU8 as TryFrom<u8>>::try_from ](v: u8) -> (r: Result<NonZeroU8, <NonZeroU8 as TryFrom<u8>>::Error>)
    ensures match r { Ok(n) => v != 0 && n@ == v, Err(_) => v == 0 },
;

pub open spec fn conv(v: int) -> Result<IndentWidth, IndentWidthFromIntError> {
    if 1 <= v <= 24 { Ok(IndentWidth(nz(v as u8))) } else { Err(IndentWidthFromIntError(v as usize)) }
}

//@@ impl IndentWidth
//@@ item const IndentWidth::DEFAULT
//@@   public
//@@ end
//@@ item const IndentWidth::MAX
//@@   public
//@@ end
//@@ item fn IndentWidth::value
//@@   ret r
//@@ + spec
    ensures r == self.0@,
//@@ end
//@@ endimpl
//@@ impl IndentWidth Default
//@@ item fn IndentWidth<Default>::default
//@@   ret r
//@@ + spec
    ensures r.0@ == 2,
//@@ end
//@@ endimpl
impl TryFromSpecImpl<u8> for IndentWidth {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<IndentWidth, IndentWidthFromIntError> { conv(v as int) }
}
//@@ impl IndentWidth TryFrom:u8
//@@ item type IndentWidth<TryFrom:u8>::Error
//@@ end
//@@ item fn IndentWidth<TryFrom:u8>::try_from
//@@   ret r
//@@ + spec
    ensures
        match r { Ok(w) => 1 <= (value as int) <= 24 && w.0@ == (value as int), Err(e) => !(1 <= (value as int) <= 24) && e.0 == (value as int) },
//@@ end
//@@ endimpl
impl TryFromSpecImpl<usize> for IndentWidth {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: usize) -> Result<IndentWidth, IndentWidthFromIntError> { conv(v as int) }
}
//@@ impl IndentWidth TryFrom:usize
//@@ item type IndentWidth<TryFrom:usize>::Error
//@@ end
//@@ item fn IndentWidth<TryFrom:usize>::try_from
//@@   ret r
//@@ + spec
    ensures
        match r { Ok(w) => 1 <= (value as int) <= 24 && w.0@ == (value as int), Err(e) => !(1 <= (value as int) <= 24) && e.0 == (value as int) },
//@@ + closure 1 `|_|`
|_e: std::num::TryFromIntError| -> (e: IndentWidthFromIntError)
    ensures e.0 == value
//@@ end
//@@ endimpl
impl TryFromSpecImpl<NonZeroU8> for IndentWidth {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: NonZeroU8) -> Result<IndentWidth, IndentWidthFromIntError> { conv(v@ as int) }
}
//@@ impl IndentWidth TryFrom:NonZeroU8
//@@ item type IndentWidth<TryFrom:NonZeroU8>::Error
//@@ end
//@@ item fn IndentWidth<TryFrom:NonZeroU8>::try_from
//@@   ret r
//@@ + spec
    ensures
        match r { Ok(w) => 1 <= (value@ as int) <= 24 && w.0@ == (value@ as int), Err(e) => !(1 <= (value@ as int) <= 24) && e.0 == (value@ as int) },
//@@ end
//@@ endimpl
impl FromSpecImpl<IndentWidth> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IndentWidth) -> u8 { v.0@ }
}
//@@ impl u8 From:IndentWidth
//@@ item fn u8<From:IndentWidth>::from
//@@   ret r
//@@ + spec
    ensures r == value.0@,
//@@ end
//@@ endimpl
impl FromSpecImpl<IndentWidth> for NonZeroU8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IndentWidth) -> NonZeroU8 { v.0 }
}
//@@ impl NonZeroU8 From:IndentWidth
//@@ item fn NonZeroU8<From:IndentWidth>::from
//@@   ret r
//@@ + spec
    ensures r == value.0,
//@@ end
//@@ endimpl
}

pub mod line_width {
use super::*;
use std::num::NonZeroU16;
use vstd::std_specs::convert::*;
//@@ source crates/settings/src/line_width.rs
//@@ item struct LineWidth
//@@   public
//@@ end
//@@ item struct LineWidthFromIntError
//@@   public
//@@ end

pub mod nzax {
use super::*;
/// std: the value of a NonZero integer determines it, and every non-zero value occurs
pub uninterp spec fn nz(v: u16) -> NonZeroU16;
pub broadcast axiom fn axiom_nz(v: u16)
    ensures v != 0 ==> (#[trigger] nz(v))@ == v;
pub broadcast axiom fn axiom_nz_unique(n: NonZeroU16)
    ensures #![trigger n@] n@ != 0, nz(n@) == n;
}
use nzax::*;
broadcast use {axiom_nz, axiom_nz_unique};

pub assume_specification[ <NonZeroU16 as TryFrom<u16>>::try_from ](v: u16) -> (r: Result<NonZeroU16, <NonZeroU16 as TryFrom<u16>>::Error>)
    ensures match r { Ok(n) => v != 0 && n@ == v, Err(_) => v == 0 },
;

pub open spec fn conv(v: int) -> Result<LineWidth, LineWidthFromIntError> {
    if 1 <= v <= 320 { Ok(LineWidth(nz(v as u16))) } else { Err(LineWidthFromIntError(v as u16)) }
}

//@@ impl LineWidth
//@@ item const LineWidth::DEFAULT
//@@   public
//@@ end
//@@ item const LineWidth::MAX
//@@   public
//@@ end
//@@ item fn LineWidth::value
//@@   ret r
//@@ + spec
    ensures r == self.0@,
//@@ end
//@@ endimpl
//@@ impl LineWidth Default
//@@ item fn LineWidth<Default>::default
//@@   ret r
//@@ + spec
    ensures r.0@ == 80,
//@@ end
//@@ endimpl
impl TryFromSpecImpl<u16> for LineWidth {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u16) -> Result<LineWidth, LineWidthFromIntError> { conv(v as int) }
}
//@@ impl LineWidth TryFrom:u16
//@@ item type LineWidth<TryFrom:u16>::Error
//@@ end
//@@ item fn LineWidth<TryFrom:u16>::try_from
//@@   ret r
//@@ + spec
    ensures
        match r { Ok(w) => 1 <= (value as int) <= 320 && w.0@ == (value as int), Err(e) => !(1 <= (value as int) <= 320) && e.0 == (value as int) },
//@@ end
//@@ endimpl
impl TryFromSpecImpl<NonZeroU16> for LineWidth {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: NonZeroU16) -> Result<LineWidth, LineWidthFromIntError> { conv(v@ as int) }
}
//@@ impl LineWidth TryFrom:NonZeroU16
//@@ item type LineWidth<TryFrom:NonZeroU16>::Error
//@@ end
//@@ item fn LineWidth<TryFrom:NonZeroU16>::try_from
//@@   ret r
//@@ + spec
    ensures
        match r { Ok(w) => 1 <= (value@ as int) <= 320 && w.0@ == (value@ as int), Err(e) => !(1 <= (value@ as int) <= 320) && e.0 == (value@ as int) },
//@@ end
//@@ endimpl
impl FromSpecImpl<LineWidth> for u16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: LineWidth) -> u16 { v.0@ }
}
//@@ impl u16 From:LineWidth
//@@ item fn u16<From:LineWidth>::from
//@@   ret r
//@@ + spec
    ensures r == value.0@,
//@@ end
//@@ endimpl
impl FromSpecImpl<LineWidth> for NonZeroU16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: LineWidth) -> NonZeroU16 { v.0 }
}
//@@ impl NonZeroU16 From:LineWidth
//@@ item fn NonZeroU16<From:LineWidth>::from
//@@   ret r
//@@ + spec
    ensures r == value.0,
//@@ end
//@@ endimpl
}


// ------------------------------------------------------------------ keywords (S03)
pub mod keywords {
use super::*;
use std::str::FromStr;

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: core::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}

/// std: a str is determined by its characters
pub mod strax {
use super::*;
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
}
broadcast use strax::axiom_str_ext;

//@@ source crates/settings/src/assignment_style.rs
//@@ item enum AssignmentStyle
//@@ end
//@@ impl AssignmentStyle FromStr
//@@ item type AssignmentStyle<FromStr>::Err
//@@ end
//@@ item fn AssignmentStyle<FromStr>::from_str
//@@   ret r
//@@ + spec
    ensures
        s@ == "arrow"@ ==> r == Result::<Self, &'static str>::Ok(AssignmentStyle::Arrow),
        s@ == "equal"@ ==> r == Result::<Self, &'static str>::Ok(AssignmentStyle::Equal),
        s@ == "preserve"@ ==> r == Result::<Self, &'static str>::Ok(AssignmentStyle::Preserve),
        s@ != "arrow"@ && s@ != "equal"@ && s@ != "preserve"@ ==> r is Err,
//@@ + body
    proof { reveal_strlit("arrow"); reveal_strlit("equal"); reveal_strlit("preserve"); }
//@@ end
//@@ endimpl

//@@ source crates/settings/src/indent_style.rs
//@@ item enum IndentStyle
//@@ end
//@@ impl IndentStyle FromStr
//@@ item type IndentStyle<FromStr>::Err
//@@ end
//@@ item fn IndentStyle<FromStr>::from_str
//@@   ret r
//@@ + spec
    ensures
        s@ == "tab"@ ==> r == Result::<Self, &'static str>::Ok(IndentStyle::Tab),
        s@ == "space"@ ==> r == Result::<Self, &'static str>::Ok(IndentStyle::Space),
        s@ != "tab"@ && s@ != "space"@ ==> r is Err,
//@@ + body
    proof { reveal_strlit("tab"); reveal_strlit("space"); }
//@@ end
//@@ endimpl
//@@ impl IndentStyle
//@@ item fn IndentStyle::is_tab
//@@   ret r
//@@ + spec
    ensures r == (self == IndentStyle::Tab),
//@@ end
//@@ item fn IndentStyle::is_space
//@@   ret r
//@@ + spec
    ensures r == (self == IndentStyle::Space),
//@@ end
//@@ endimpl

//@@ source crates/settings/src/persistent_line_breaks.rs
//@@ item enum PersistentLineBreaks
//@@ end
//@@ impl PersistentLineBreaks FromStr
//@@ item type PersistentLineBreaks<FromStr>::Err
//@@ end
//@@ item fn PersistentLineBreaks<FromStr>::from_str
//@@   ret r
//@@ + spec
    ensures
        s@ == "respect"@ ==> r == Result::<Self, &'static str>::Ok(PersistentLineBreaks::Respect),
        s@ == "ignore"@ ==> r == Result::<Self, &'static str>::Ok(PersistentLineBreaks::Ignore),
        s@ != "respect"@ && s@ != "ignore"@ ==> r is Err,
//@@ + body
    proof { reveal_strlit("respect"); reveal_strlit("ignore"); }
//@@ end
//@@ endimpl
//@@ impl PersistentLineBreaks
//@@ item fn PersistentLineBreaks::is_respect
//@@   ret r
//@@ + spec
    ensures r == (self == PersistentLineBreaks::Respect),
//@@ end
//@@ item fn PersistentLineBreaks::is_ignore
//@@   ret r
//@@ + spec
    ensures r == (self == PersistentLineBreaks::Ignore),
//@@ end
//@@ endimpl
}

// ------------------------------------------------------------------ name lists (S02)
pub mod names {
use super::*;
use std::sync::Arc;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;

/// std: strings are ordered lexicographically by character
pub open spec fn lex(a: Seq<char>, b: Seq<char>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if (a[0] as u32) < (b[0] as u32) { Ordering::Less }
    else if (a[0] as u32) > (b[0] as u32) { Ordering::Greater }
    else { lex(a.skip(1), b.skip(1)) }
}

pub open spec fn sorted_names(s: Seq<String>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> lex(s[i]@, s[j]@) != Ordering::Greater
}

pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> {
    s.map_values(|x: String| x@)
}

pub assume_specification<T: Ord>[ <[T]>::sort_unstable ](s: &mut [T])
    ensures
        final(s)@.to_multiset() == old(s)@.to_multiset(),
        forall|i: int, j: int| #![trigger final(s)@[i], final(s)@[j]] 0 <= i < j < final(s)@.len() ==> final(s)@[i].cmp_spec(&final(s)@[j]) != Ordering::Greater,
;
pub open spec fn ord_int(o: Ordering) -> int {
    match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}
pub assume_specification<'a, T, F: FnMut(&'a T) -> Ordering>[ <[T]>::binary_search_by ](s: &'a [T], f: F) -> (r: Result<usize, usize>)
    requires
        forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> call_requires(f, (&s@[i],)),
        forall|i: int, j: int, a: Ordering, b: Ordering| #![trigger call_ensures(f, (&s@[i],), a), call_ensures(f, (&s@[j],), b)]
            0 <= i <= j < s@.len() && call_ensures(f, (&s@[i],), a) && call_ensures(f, (&s@[j],), b) ==> ord_int(a) <= ord_int(b),
    ensures
        match r {
            Ok(k) => k < s@.len() && call_ensures(f, (&s@[k as int],), Ordering::Equal),
            Err(_) => forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> exists|o: Ordering| call_ensures(f, (&s@[i],), o) && o != Ordering::Equal,
        },
;
pub assume_specification<T>[ <[T] as std::borrow::ToOwned>::to_owned ](s: &[T]) -> (r: Vec<T>)
    where T: Clone,
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]),
;
pub assume_specification<T, A: std::alloc::Allocator + Clone>[ <Arc<[T], A> as From<Vec<T, A>>>::from ](v: Vec<T, A>) -> (r: Arc<[T], A>)
    ensures r@ == v@,
;
pub broadcast axiom fn axiom_cmp(a: String, b: String)
    ensures #[trigger] a.cmp_spec(&b) == lex(a@, b@);

pub broadcast axiom fn axiom_str_cmp(a: &str, b: &str)
    ensures #[trigger] a.cmp_spec(b) == lex(a@, b@);
pub axiom fn axiom_str_obeys()
    ensures <str as OrdSpec>::obeys_cmp_spec();

pub proof fn lemma_lex_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures
        lex(a, b) != Ordering::Greater ==> ord_int(lex(a, c)) <= ord_int(lex(b, c)),
    decreases a.len() + b.len() + c.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_lex_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}

/// lex(.., n) is monotone, and Equal means equal
pub proof fn lemma_lex_eq(a: Seq<char>, b: Seq<char>)
    ensures lex(a, b) == Ordering::Equal <==> a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lex_eq(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) {
            assert(a == seq![a[0]] + a.skip(1));
            assert(b == seq![b[0]] + b.skip(1));
        }
    } else if a.len() == 0 && b.len() == 0 {
        assert(a == b);
    }
}

pub proof fn lemma_lex(n: Seq<char>)
    ensures
        forall|a: Seq<char>, b: Seq<char>| #![trigger lex(a, n), lex(b, n)] lex(a, b) != Ordering::Greater ==> ord_int(lex(a, n)) <= ord_int(lex(b, n)),
        forall|a: Seq<char>| #![trigger lex(a, n)] lex(a, n) == Ordering::Equal <==> a == n,
{
    assert forall|a: Seq<char>, b: Seq<char>| #![trigger lex(a, n), lex(b, n)] lex(a, b) != Ordering::Greater implies ord_int(lex(a, n)) <= ord_int(lex(b, n)) by { lemma_lex_trans(a, b, n); }
    assert forall|a: Seq<char>| #![trigger lex(a, n)] lex(a, n) == Ordering::Equal <==> a == n by { lemma_lex_eq(a, n); }
}

/// equal multisets of strings give equal multisets of views
pub proof fn lemma_views(a: Seq<String>, b: Seq<String>)
    requires a.to_multiset() == b.to_multiset(),
    ensures views(a).to_multiset() == views(b).to_multiset(),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if a.len() == 0 {
        assert(views(a) =~= views(b));
    } else {
        let x = a.last();
        assert(a.contains(x));
        assert(a.to_multiset().count(x) > 0);
        assert(b.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
        let a2 = a.drop_last();
        let b2 = b.remove(k);
        assert(a2 =~= a.remove(a.len() - 1));
        assert(a2.to_multiset() == a.to_multiset().remove(x));
        assert(b2.to_multiset() == b.to_multiset().remove(x));
        lemma_views(a2, b2);
        assert(views(a) =~= views(a2).push(x@));
        assert(views(b2) =~= views(b).remove(k));
        assert(views(b)[k] == x@);
        assert(views(b2).to_multiset() == views(b).to_multiset().remove(x@));
        assert(views(b).contains(x@));
        assert(views(b2).to_multiset().insert(x@) =~= views(b).to_multiset());
    }
}

//@@ source crates/settings/src/sorted_strings.rs
//@@ item struct SortedStrings
//@@   public
//@@ end
//@@ impl SortedStrings
//@@ item fn SortedStrings::new
//@@   ret r
//@@ + spec
    ensures sorted_names(r.0@), r.0@.to_multiset() == strings@.to_multiset(),
//@@ + body
    broadcast use axiom_cmp;
//@@ end
//@@ item fn SortedStrings::as_slice
//@@   ret r
//@@ + spec
    ensures r@ == self.0@,
//@@ end
//@@ item fn SortedStrings::contains
//@@   ret r
//@@ + spec
    requires sorted_names(self.0@),
    ensures r == exists|i: int| 0 <= i < self.0@.len() && self.0@[i]@ == name@,
//@@ + body
    broadcast use axiom_str_cmp;
    proof { lemma_lex(name@); axiom_str_obeys(); }
//@@ + closure 1 `|probe|`
|probe: &String| -> (o: Ordering)
    ensures o == lex(probe@, name@)
//@@ end
//@@ endimpl

//@@ source crates/settings/src/skip.rs
//@@ item struct Skip
//@@   public
//@@ end
//@@ impl Skip
//@@ item fn Skip::contains
//@@   ret r
//@@ + spec
    requires sorted_names(self.0.0@),
    ensures r == exists|i: int| 0 <= i < self.0.0@.len() && self.0.0@[i]@ == name@,
//@@ end
//@@ endimpl

//@@ source crates/settings/src/table.rs
//@@ item struct Table
//@@   public
//@@ end
//@@ impl Table
//@@ item fn Table::new
//@@   ret r
//@@ + spec
    ensures sorted_names(r.0.0@), r.0.0@.to_multiset() == names@.to_multiset(),
//@@ end
//@@ item fn Table::as_slice
//@@   ret r
//@@ + spec
    ensures r@ == self.0.0@,
//@@ end
//@@ item fn Table::contains
//@@   ret r
//@@ + spec
    requires sorted_names(self.0.0@),
    ensures r == exists|i: int| 0 <= i < self.0.0@.len() && self.0.0@[i]@ == name@,
//@@ end
//@@ item fn Table::merge
//@@   ret r
//@@ + spec
    ensures
        sorted_names(r.0.0@),
        views(r.0.0@).to_multiset() == views(self.0.0@ + table.0.0@).to_multiset(),
//@@ + before `Table::new(names)`
    proof {
        assert(views(names@) =~= views(self.0.0@ + table.0.0@));
        assert forall|r: Seq<String>| #![trigger r.to_multiset()] r.to_multiset() == names@.to_multiset() implies views(r).to_multiset() == views(names@).to_multiset() by {
            lemma_views(r, names@);
        }
    }
//@@ end
//@@ endimpl
}

fn main() {}
} // verus!
