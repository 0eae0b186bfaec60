// Contracts for crates/workspace/src/toml.rs (search) and discovery.rs (discover_settings): W06, W07.
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::path::{Path, PathBuf};

pub mod tracing {
    macro_rules! trace { ($($t:tt)*) => { () } }
    pub(crate) use trace;
}

verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(std::path::Path);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExAncestors<'a>(std::path::Ancestors<'a>);

/// a path by its components
pub type Comps = Seq<int>;
pub uninterp spec fn comps(p: &Path) -> Comps;
pub uninterp spec fn bcomps(p: PathBuf) -> Comps;
pub uninterp spec fn as_ref_of<A: core::marker::PointeeSized, B: core::marker::PointeeSized>(a: &A) -> &B;
/// the path and its ancestors, closest first
pub uninterp spec fn anc(c: Comps) -> Seq<Comps>;
/// the components of the relative path a text spells
pub uninterp spec fn of_str(s: Seq<char>) -> Comps;
/// the state of the file system while the search runs
pub uninterp spec fn isf(c: Comps) -> bool;

#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    fn as_ref(&self) -> (r: &T)
        ensures r == as_ref_of::<Self, T>(self);
}

pub open spec fn suffix(a: Comps, b: Comps) -> bool { a.len() <= b.len() && b.skip(b.len() - a.len()) == a }

pub assume_specification[ <PathBuf as core::ops::Deref>::deref ](p: &PathBuf) -> (r: &Path)
    ensures comps(r) == bcomps(*p),
;
pub assume_specification[ Path::is_file ](p: &Path) -> (r: bool)
    ensures r == isf(comps(p)),
;
pub assume_specification<P: AsRef<Path>>[ Path::join ](p: &Path, q: P) -> (r: PathBuf)
    ensures bcomps(r) == comps(p) + comps(as_ref_of::<P, Path>(&q)),
;
pub assume_specification<P: AsRef<Path>>[ Path::ends_with ](p: &Path, q: P) -> (r: bool)
    ensures r == suffix(comps(as_ref_of::<P, Path>(&q)), comps(p)),
;
pub assume_specification[ Path::to_path_buf ](p: &Path) -> (r: PathBuf)
    ensures bcomps(r) == comps(p),
;
pub assume_specification<'a>[ Path::ancestors ](p: &'a Path) -> (r: std::path::Ancestors<'a>)
    ensures
        r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        r.remaining().len() == anc(comps(p)).len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> comps(#[trigger] r.remaining()[i]) == anc(comps(p))[i],
;

pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_as_ref_path(p: &Path)
        ensures #[trigger] as_ref_of::<&Path, Path>(&p) == p;
    pub broadcast axiom fn axiom_as_ref_pathref(p: &Path)
        ensures #[trigger] as_ref_of::<Path, Path>(p) == p;
    pub broadcast axiom fn axiom_as_ref_ref<A>(p: &A)
        ensures #[trigger] as_ref_of::<&A, Path>(&p) == as_ref_of::<A, Path>(p);
    pub broadcast axiom fn axiom_as_ref_pathbuf(p: PathBuf)
        ensures comps(#[trigger] as_ref_of::<PathBuf, Path>(&p)) == bcomps(p);
    pub broadcast axiom fn axiom_as_ref_str(s: &str)
        ensures comps(#[trigger] as_ref_of::<&str, Path>(&s)) == of_str(s@);
    /// std: a path is its own first ancestor, the ancestors of an ancestor are the rest, none occurs twice
    pub broadcast axiom fn axiom_anc(c: Comps)
        ensures #![trigger anc(c)]
            anc(c).len() >= 1, anc(c)[0] == c,
            forall|i: int| 0 <= i < anc(c).len() ==> #[trigger] anc(anc(c)[i]) == anc(c).skip(i),
            forall|i: int, j: int| 0 <= i < j < anc(c).len() ==> #[trigger] anc(c)[i] != #[trigger] anc(c)[j];
}

// ---------------------------------------------------------------- specification
/// the configuration file of a directory: the visible name wins
pub open spec fn toml_in(c: Comps) -> Option<Comps> {
    if isf(c + of_str("air.toml"@)) { Some(c + of_str("air.toml"@)) }
    else if isf(c + of_str(".air.toml"@)) { Some(c + of_str(".air.toml"@)) }
    else { None }
}
/// the closest directory with a configuration file, among the first n ancestors from k on
pub open spec fn first(a: Seq<Comps>, k: int) -> Option<Comps>
    decreases a.len() - k,
{
    if 0 <= k < a.len() { if toml_in(a[k]) is Some { Some(a[k]) } else { first(a, k + 1) } } else { None }
}
pub open spec fn closest(c: Comps) -> Option<Comps> { first(anc(c), 0) }

pub proof fn lemma_first_skip(a: Seq<Comps>, i: int, k: int)
    requires 0 <= i <= a.len(), 0 <= k,
    ensures first(a.skip(i), k) == first(a, i + k),
    decreases a.len() - i - k,
{
    if i + k < a.len() { lemma_first_skip(a, i, k + 1); }
}
/// the closest configuration of an ancestor without configurations below it is that of the path
pub proof fn lemma_closest(c: Comps, k: int)
    requires 0 <= k < anc(c).len(), forall|i: int| 0 <= i < k ==> toml_in(#[trigger] anc(c)[i]) is None,
    ensures
        closest(c) == first(anc(c), k), closest(anc(c)[k]) == first(anc(c), k),
        forall|i: int| 0 <= i <= k ==> closest(#[trigger] anc(c)[i]) == closest(c),
    decreases k,
{
    broadcast use ax::axiom_anc;
    lemma_first_skip(anc(c), k, 0);
    if k > 0 {
        lemma_closest(c, k - 1);
    }
}

pub open spec fn bopt(o: Option<PathBuf>) -> Option<Comps> { match o { Some(p) => Some(bcomps(p)), None => None } }

// ---------------------------------------------------------------- callees and dependencies, by their contracts
pub mod anyhow {
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
}
#[verifier::external_body]
pub struct Settings { x: u8 }
#[verifier::external_body]
pub struct TomlOptions { x: u8 }
#[verifier::external_body]
pub struct ParseTomlError { x: u8 }
impl From<ParseTomlError> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: ParseTomlError) -> anyhow::Error { unimplemented!() }
}
/// what a configuration file says
pub uninterp spec fn parsed(c: Comps) -> Option<TomlOptions>;
/// what it comes to for a root directory
pub uninterp spec fn settled(o: TomlOptions, root: Comps) -> Option<Settings>;
#[verifier::external_body]
pub fn parse_air_toml<P: AsRef<Path>>(path: P) -> (r: Result<TomlOptions, ParseTomlError>)
    ensures match r { Ok(o) => parsed(comps(as_ref_of::<P, Path>(&path))) == Some(o), Err(_) => parsed(comps(as_ref_of::<P, Path>(&path))) is None },
{ unimplemented!() }
impl TomlOptions {
    #[verifier::external_body]
    pub fn into_settings(self, root: &Path) -> (r: anyhow::Result<Settings>)
        ensures match r { Ok(s) => settled(self, comps(root)) == Some(s), Err(_) => settled(self, comps(root)) is None },
    { unimplemented!() }
}
pub open spec fn settings_at(dir: Comps) -> Option<Settings> {
    match toml_in(dir) {
        Some(t) => match parsed(t) { Some(o) => settled(o, dir), None => None },
        None => None,
    }
}

pub mod fs {
    use super::*;
    /// the absolute path
    pub uninterp spec fn normal(c: Comps) -> Comps;
    #[verifier::external_body]
    pub fn normalize_path<P: AsRef<Path>>(path: P) -> (r: PathBuf)
        ensures bcomps(r) == normal(comps(as_ref_of::<P, Path>(&path))),
    { unimplemented!() }
}

/// rustc_hash: a set of paths, compared by their components
#[verifier::external_body]
pub struct FxHashSet<'a> { x: Vec<&'a Path> }
impl<'a> FxHashSet<'a> {
    pub uninterp spec fn view(&self) -> Set<Comps>;
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r@ == Set::<Comps>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, p: &'a Path) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(comps(p)), r == !old(self)@.contains(comps(p)),
    { unimplemented!() }
}

use code::DiscoveredSettings;
pub open spec fn recorded(v: Seq<DiscoveredSettings>, d: Comps) -> bool {
    exists|i: int| 0 <= i < v.len() && bcomps(#[trigger] v[i].directory) == d
}
pub open spec fn closed(v: Seq<DiscoveredSettings>, c: Comps) -> bool {
    closest(c) matches Some(d) ==> recorded(v, d)
}
pub open spec fn sound(v: Seq<DiscoveredSettings>, ps: Seq<PathBuf>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> toml_in(bcomps(#[trigger] v[i].directory)) is Some && settings_at(bcomps(v[i].directory)) == Some(v[i].settings)
            && exists|j: int| 0 <= j < ps.len() && closest(bcomps(#[trigger] ps[j])) == Some(bcomps(v[i].directory))
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> bcomps(#[trigger] v[i].directory) != bcomps(#[trigger] v[j].directory)
}

pub proof fn lemma_recorded(v: Seq<DiscoveredSettings>)
    ensures forall|x: DiscoveredSettings, d: Comps| #![trigger recorded(v.push(x), d)]
        recorded(v.push(x), d) == (recorded(v, d) || bcomps(x.directory) == d),
{
    assert forall|x: DiscoveredSettings, d: Comps| #![trigger recorded(v.push(x), d)]
        recorded(v.push(x), d) == (recorded(v, d) || bcomps(x.directory) == d) by {
        let w = v.push(x);
        if recorded(v, d) {
            let i = choose|i: int| 0 <= i < v.len() && bcomps(#[trigger] v[i].directory) == d;
            assert(w[i] == v[i]);
        }
        if bcomps(x.directory) == d { assert(w[v.len() as int].directory == x.directory); }
        if recorded(w, d) && bcomps(x.directory) != d {
            let i = choose|i: int| 0 <= i < w.len() && bcomps(#[trigger] w[i].directory) == d;
            assert(i < v.len());
            assert(w[i] == v[i]);
        }
    }
}

pub mod code {
use super::*;
broadcast use {ax::axiom_as_ref_path, ax::axiom_as_ref_pathref, ax::axiom_as_ref_ref, ax::axiom_as_ref_pathbuf, ax::axiom_as_ref_str, ax::axiom_anc};

//@@ source crates/workspace/src/toml.rs
//@@ item fn find_air_toml_in_directory
//@@   ret r
//@@ + spec
    ensures bopt(r) == toml_in(comps(as_ref_of::<P, Path>(&path))),
//@@ end
//@@ item fn find_air_toml
//@@   ret r
//@@   attr #[verifier::loop_isolation(false)]
//@@   rewrite `for directory in path` => `for directory in it: path`
//@@ + spec
    ensures bopt(r) == (match closest(comps(as_ref_of::<P, Path>(&path))) { Some(d) => toml_in(d), None => None }),
//@@ + loop 1
    invariant
        it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
        it.seq().len() == anc(comps(as_ref_of::<P, Path>(&path))).len(),
        forall|i: int| 0 <= i < it.seq().len() ==> comps(#[trigger] it.seq()[i]) == anc(comps(as_ref_of::<P, Path>(&path)))[i],
        closest(comps(as_ref_of::<P, Path>(&path))) == first(anc(comps(as_ref_of::<P, Path>(&path))), it.index@),
//@@ end
//@@ item fn is_air_toml
//@@   ret r
//@@ + spec
    ensures r == (suffix(of_str("air.toml"@), comps(as_ref_of::<P, Path>(&path))) || suffix(of_str(".air.toml"@), comps(as_ref_of::<P, Path>(&path)))),
//@@ end

//@@ source crates/workspace/src/discovery.rs
//@@ item struct DiscoveredSettings
//@@   public
//@@ end
//@@ item fn parse_settings
//@@   ret r
//@@ + spec
    ensures
        r matches Ok(s) ==> (parsed(comps(toml)) matches Some(o) && settled(o, comps(root_directory)) == Some(s)),
        r is Err ==> !(parsed(comps(toml)) matches Some(o) && settled(o, comps(root_directory)) is Some),
//@@ end
//@@ item fn discover_settings
//@@   ret r
//@@   rewrite `for path in & paths` => `for path in outer: &paths`
//@@   rewrite `for ancestor in path . ancestors ( )` => `for ancestor in inner: path.ancestors()`
//@@ + spec
    ensures
        r matches Ok(v) ==> exists|ps: Seq<PathBuf>| {
            &&& ps.len() == paths@.len()
            &&& forall|i: int| 0 <= i < ps.len() ==> bcomps(#[trigger] ps[i]) == fs::normal(comps(as_ref_of::<P, Path>(&paths@[i])))
            &&& sound(v@, ps)
            &&& forall|i: int| 0 <= i < ps.len() ==> closed(v@, bcomps(#[trigger] ps[i]))
        },
//@@ + loop 1 `for path in & paths`
    invariant
        sound(discovered_settings@, paths@),
        forall|c: Comps| #[trigger] seen@.contains(c) ==> closed(discovered_settings@, c),
        forall|i: int| 0 <= i < discovered_settings@.len() ==> seen@.contains(bcomps(#[trigger] discovered_settings@[i].directory)),
        forall|i: int| 0 <= i < outer.index@ ==> closed(discovered_settings@, bcomps(#[trigger] paths@[i])),
//@@ + loopbody 1
    let ghost oi = outer.index@;
    let ghost a = anc(bcomps(*path));
    let ghost v0 = discovered_settings@;
//@@ + loop 2 `for ancestor in path . ancestors ( )`
    invariant_except_break
        discovered_settings@ == v0,
        closest(bcomps(*path)) == first(a, inner.index@),
        forall|i: int| 0 <= i < inner.index@ ==> toml_in(#[trigger] a[i]) is None && closest(a[i]) == closest(bcomps(*path)),
        forall|c: Comps| #[trigger] seen@.contains(c) ==> closed(v0, c) || exists|i: int| 0 <= i < inner.index@ && c == #[trigger] a[i],
    invariant
        0 <= oi < paths@.len(), *path == paths@[oi], a == anc(bcomps(*path)),
        inner.iter.obeys_prophetic_iter_laws(), inner.iter.decrease() is Some,
        inner.seq().len() == a.len(),
        forall|i: int| 0 <= i < inner.seq().len() ==> comps(#[trigger] inner.seq()[i]) == a[i],
        sound(discovered_settings@, paths@),
        forall|i: int| 0 <= i < discovered_settings@.len() ==> seen@.contains(bcomps(#[trigger] discovered_settings@[i].directory)),
        forall|c: Comps| closed(v0, c) ==> closed(discovered_settings@, c),
    ensures
        forall|c: Comps| #[trigger] seen@.contains(c) ==> closed(discovered_settings@, c),
        closed(discovered_settings@, bcomps(*path)),
//@@ + loopbody 2
    let ghost k = inner.index@;
    proof {
        lemma_closest(bcomps(*path), k);
        lemma_recorded(v0);
    }
//@@ + loop 3
    invariant true,
//@@ end
}

fn main() {}
} // verus!
