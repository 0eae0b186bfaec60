// Contracts for the command line: crates/air/src/commands/format.rs, format/paths.rs, format/stdin.rs and
// status.rs (properties C01, C02).
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::multiset::Multiset;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::control_flow::spec_from;
use std::cmp::Ordering;
use std::path::{Path, PathBuf};

/// logging has no effect: its arguments are not evaluated here
pub mod tracing {
    macro_rules! nothing { ($($t:tt)*) => { () } }
    pub(crate) use nothing as warn;
    pub(crate) use nothing as trace;
    pub(crate) use nothing as error;
}

verus! {
//@@ include inc/resolver.rs

/// the options of the formatter
pub mod opts {
use super::*;
//@@ include inc/options.rs
pub mod context {
use super::*;
use super::settings::LineEnding;
//@@ source crates/air_r_formatter/src/context.rs
//@@ item struct RFormatOptions
//@@   public
//@@ end
}
pub mod wset {
use super::*;
use super::context::RFormatOptions;
//@@ source crates/workspace/src/settings.rs
//@@ item struct Settings
//@@   public
//@@ end
//@@ item struct FormatSettings
//@@   public
//@@ end
//@@ impl FormatSettings
//@@ assume toml_options FormatSettings::to_format_options
//@@ end
//@@ endimpl
}
}
use opts::context::RFormatOptions;
use opts::finalized;
use opts::wset::{Settings, FormatSettings};
use opts::{ExcludePatterns, DefaultExcludePatterns, DefaultIncludePatterns};
pub mod anyhow {
    use super::*;
    pub use super::opts::anyhow::*;
    impl From<io::Error> for Error {
        #[verifier::external_body]
        fn from(e: io::Error) -> Self { unimplemented!() }
    }
    impl FromSpecImpl<io::Error> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(e: io::Error) -> Self { arbitrary() }
    }
}
//@@ include inc/found.rs
use resolve::{PathItem, PathResolver};
use code::discovery;
use code::discovery::DiscoveredSettings;

// ---------------------------------------------------------------- parser, formatter, printer
//@@ include inc/formatter.rs
use code::{FormattedSource, FormatSourceError, FormatParseError};

// ---------------------------------------------------------------- the file system, standard input and output
/// the text of a file; none when it cannot be read or is not UTF-8
pub uninterp spec fn content(p: Seq<int>) -> Option<Seq<char>>;
/// what the run may write; what it wrote; what it tried to write
pub uninterp spec fn may_write(p: Seq<int>, b: Seq<u8>) -> bool;
pub uninterp spec fn wrote(p: Seq<int>, b: Seq<u8>) -> bool;
pub uninterp spec fn failed(p: Seq<int>, b: Seq<u8>) -> bool;
/// the text given on standard input; what may be printed; what was printed; what could not be
pub uninterp spec fn given() -> Option<Seq<char>>;
pub uninterp spec fn may_print(b: Seq<u8>) -> bool;
pub uninterp spec fn printed_out(b: Seq<u8>) -> bool;
pub uninterp spec fn print_failed(b: Seq<u8>) -> bool;
/// the files named as ones that would be reformatted
pub uninterp spec fn informed(l: Seq<PathBuf>) -> bool;

pub mod io {
    use super::*;
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    #[verifier::external_body]
    pub struct Stdin { x: u8 }
    #[verifier::external_body]
    pub struct StdinLock { x: u8 }
    #[verifier::external_body]
    pub struct Stdout { x: u8 }
    #[verifier::external_body]
    pub struct StdoutLock { x: u8 }
    #[verifier::external_body]
    pub struct Stderr { x: u8 }
    #[verifier::external_body]
    pub struct StderrLock { x: u8 }
    #[verifier::external_body]
    pub fn stdin() -> Stdin { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout() -> Stdout { unimplemented!() }
    #[verifier::external_body]
    pub fn stderr() -> Stderr { unimplemented!() }
    impl Stdin {
        #[verifier::external_body]
        pub fn lock(&self) -> StdinLock { unimplemented!() }
    }
    impl Stderr {
        #[verifier::external_body]
        pub fn lock(&self) -> StderrLock { unimplemented!() }
    }
    impl Stdout {
        #[verifier::external_body]
        pub fn lock(&self) -> StdoutLock { unimplemented!() }
    }
    impl StdinLock {
        #[verifier::external_body]
        pub fn read_to_string(&mut self, out: &mut String) -> (r: Result<usize>)
            ensures match given() { Some(t) => r is Ok && final(out)@ == old(out)@ + t, None => r is Err },
        { unimplemented!() }
    }
    impl StdoutLock {
        #[verifier::external_body]
        pub fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
            requires may_print(b@),
            ensures r is Ok ==> printed_out(b@), r is Err ==> print_failed(b@),
        { unimplemented!() }
    }
}
use io::stderr;
pub mod files {
    use super::*;
    #[verifier::external_body]
    pub fn read_to_string<P: AsRef<Path>>(path: P) -> (r: io::Result<String>)
        ensures match content(comps(as_ref_of::<P, Path>(&path))) { Some(t) => r matches Ok(s) && s@ == t, None => r is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> (r: io::Result<()>)
        requires may_write(comps(as_ref_of::<P, Path>(&path)), as_ref_of::<C, [u8]>(&contents)@),
        ensures
            r is Ok ==> wrote(comps(as_ref_of::<P, Path>(&path)), as_ref_of::<C, [u8]>(&contents)@),
            r is Err ==> failed(comps(as_ref_of::<P, Path>(&path)), as_ref_of::<C, [u8]>(&contents)@),
    { unimplemented!() }
}
pub mod fs {
    use super::*;
    /// the absolute path
    pub uninterp spec fn normal(c: Seq<int>) -> Seq<int>;
    #[verifier::external_body]
    pub fn normalize_path<P: AsRef<Path>>(path: P) -> (r: PathBuf)
        ensures bcomps(r) == normal(comps(as_ref_of::<P, Path>(&path))),
    { unimplemented!() }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExDisplay<'a>(std::path::Display<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExExitCode(std::process::ExitCode);
use std::process::ExitCode;
pub uninterp spec fn number(c: ExitCode) -> u8;
pub assume_specification[ <ExitCode as From<u8>>::from ](n: u8) -> (r: ExitCode)
    ensures number(r) == n,
;
pub assume_specification[ Path::display ](p: &Path) -> (r: std::path::Display<'_>)
;
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@),
;
pub assume_specification[ Path::to_path_buf ](p: &Path) -> (r: PathBuf)
    ensures bcomps(r) == comps(p),
;
pub mod axc {
    use super::*;
    pub broadcast axiom fn axiom_string_bytes(s: String)
        ensures (#[trigger] as_ref_of::<String, [u8]>(&s))@ == encode_utf8(s@);
    pub broadcast axiom fn axiom_ref_bytes(s: &String)
        ensures (#[trigger] as_ref_of::<&String, [u8]>(&s))@ == encode_utf8(s@);
    pub broadcast axiom fn axiom_path_ref(p: &Path)
        ensures #[trigger] as_ref_of::<Path, Path>(p) == p;
}

// ---------------------------------------------------------------- the files found, the patterns
pub mod ignore {
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub mod gitignore {
        #[verifier::external_body]
        pub struct Glob { x: u8 }
    }
}
use ignore::gitignore::Glob;
/// the patterns see the components of a path only
pub uninterp spec fn exc<'a>(e: &'a ExcludePatterns, p: Seq<int>, dir: bool) -> Option<&'a Glob>;
pub uninterp spec fn dxc<'a>(e: &'a DefaultExcludePatterns, p: Seq<int>, dir: bool) -> Option<&'a Glob>;
pub uninterp spec fn dic<'a>(e: &'a DefaultIncludePatterns, p: Seq<int>, dir: bool) -> Option<&'a Glob>;
pub open spec fn ex_any<'a>(e: &'a ExcludePatterns, p: &Path, dir: bool) -> Option<&'a Glob> { exc(e, comps(p), dir) }
pub open spec fn dx_any<'a>(e: &'a DefaultExcludePatterns, p: &Path, dir: bool) -> Option<&'a Glob> { dxc(e, comps(p), dir) }
pub open spec fn di_self<'a>(e: &'a DefaultIncludePatterns, p: &Path, dir: bool) -> Option<&'a Glob> { dic(e, comps(p), dir) }
/// a file the user names is left out; is one air formats (W08)
pub open spec fn out_any(s: FormatSettings, p: Seq<int>) -> bool {
    (s.exclude matches Some(e) && exc(&e, p, false) is Some) || (s.default_exclude matches Some(e) && dxc(&e, p, false) is Some)
}
pub open spec fn included(s: FormatSettings, p: Seq<int>) -> bool {
    s.default_include matches Some(e) && dic(&e, p, false) is Some
}
pub open spec fn formattable(s: FormatSettings, p: Seq<int>, x: discovery::Exclude, i: discovery::Include) -> bool {
    !(x is Matched && out_any(s, p)) && (i is Everything || included(s, p))
}
pub type Entry = Result<PathBuf, ignore::Error>;
/// the walk over the paths given, decided entry by entry (W08), ends with these
pub uninterp spec fn lists(paths: Seq<Seq<int>>, r: PathResolver<Settings>, x: discovery::Exclude, i: discovery::Include, v: Seq<Entry>) -> bool;
#[verifier::external_body]
pub struct Listed { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Chosen<T> { x: Vec<T> }
#[verifier::external_body]
pub fn discover_r_file_paths<P: AsRef<Path>>(paths: &[P], resolver: &PathResolver<Settings>, mode: discovery::Mode, exclude: discovery::Exclude, include: discovery::Include) -> (r: Listed)
    ensures
        forall|q: Seq<Seq<int>>| q.len() == paths@.len() && (forall|i: int| #![trigger q[i]] 0 <= i < q.len() ==> q[i] == comps(as_ref_of::<P, Path>(&paths@[i]))) ==>
            #[trigger] lists(q, *resolver, exclude, include, r@),
{ unimplemented!() }
impl Listed {
    pub uninterp spec fn view(&self) -> Seq<Entry>;
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Listed)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<T, F: FnMut(Entry) -> Option<T>>(self, f: F) -> (r: Chosen<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|o: Seq<Option<T>>| #[trigger] somes(o) == r@ && o.len() == self@.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> call_ensures(f, (self@[i],), o[i]),
    { unimplemented!() }
}
pub enum Either<L, R> { Left(L), Right(R) }
pub open spec fn lefts<L, R>(s: Seq<Either<L, R>>) -> Seq<L>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Either::Left(x) => lefts(s.drop_last()).push(x), Either::Right(_) => lefts(s.drop_last()) } }
}
pub open spec fn rights<L, R>(s: Seq<Either<L, R>>) -> Seq<R>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Either::Right(x) => rights(s.drop_last()).push(x), Either::Left(_) => rights(s.drop_last()) } }
}
impl<T> Chosen<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn partition_map<L, R, F: FnMut(T) -> Either<L, R>>(self, f: F) -> (r: (Vec<L>, Vec<R>))
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|e: Seq<Either<L, R>>| #[trigger] lefts(e) == r.0@ && rights(e) == r.1@ && e.len() == self@.len() && forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> call_ensures(f, (self@[i],), e[i]),
    { unimplemented!() }
}

// ---------------------------------------------------------------- specification
pub open spec fn options_of(f: FormatSettings, source: Seq<char>) -> RFormatOptions {
    RFormatOptions {
        indent_style: f.indent_style, indent_width: f.indent_width, line_ending: finalized(f.line_ending, source), line_width: f.line_width,
        persistent_line_breaks: f.persistent_line_breaks, assignment_style: f.assignment_style, skip: f.skip, table: f.table,
    }
}
/// what formatting makes of a text: nothing (an error), no change, or another text
pub open spec fn outcome(t: Option<Seq<char>>, f: FormatSettings) -> Option<Option<Seq<char>>> {
    match t {
        None => None,
        Some(s) => match parse_error(s) {
            Some(_) => None,
            None => match printed(options_of(f, s), s) { Err(_) => None, Ok(n) => if n == s { Some(None) } else { Some(Some(n)) } },
        },
    }
}
pub open spec fn taken(o: Option<&PathItem<Settings>>, d: Settings) -> Settings { match o { Some(y) => y.value, None => d } }
/// the settings of a path: those of the closest configuration, or the defaults
pub open spec fn settled(r: PathResolver<Settings>, p: Seq<int>) -> Settings {
    taken(choose|o: Option<&PathItem<Settings>>| closest(r.items@, p, o), r.fallback)
}
pub proof fn lemma_unique(r: PathResolver<Settings>, p: Seq<int>)
    ensures forall|o: Option<&PathItem<Settings>>| #[trigger] closest(r.items@, p, o) ==> settled(r, p) == taken(o, r.fallback),
{
    let s = r.items@;
    assert forall|o: Option<&PathItem<Settings>>| #[trigger] closest(s, p, o) implies settled(r, p) == taken(o, r.fallback) by {
        let c = choose|c: Option<&PathItem<Settings>>| closest(s, p, c);
        assert(closest(s, p, c));
        if let Some(x) = o {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x;
            if let Some(y) = c {
                let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == y;
                assert(s[i] == y || bcomps(s[i].path).len() < bcomps(y.path).len());
                assert(s[j] == x || bcomps(s[j].path).len() < bcomps(x.path).len());
            } else {
                assert(!prefix(bcomps(s[i].path), p));
            }
        } else if let Some(y) = c {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == y;
            assert(!prefix(bcomps(s[j].path), p));
        }
    }
}
/// a resolver loaded with the configurations found for the paths
pub open spec fn loaded(r: PathResolver<Settings>, q: Seq<Seq<int>>) -> bool {
    &&& sorted(r.items@) && r.fallback == defaults()
    &&& found(q) is Some
    &&& forall|v: Seq<DiscoveredSettings>| found(q) == Some(v) ==> #[trigger] holds(r.items@, v, v.len() as int)
}
pub open spec fn made(r: PathResolver<Settings>, p: Seq<int>) -> Option<Option<Seq<char>>> { outcome(content(p), settled(r, p).format) }
/// an entry that cannot be formatted
pub open spec fn broken(r: PathResolver<Settings>, x: Entry) -> bool { match x { Err(_) => true, Ok(p) => made(r, bcomps(p)) is None } }
/// an entry that formatting changes, and what it becomes
pub open spec fn becomes(r: PathResolver<Settings>, x: Entry) -> Option<Seq<char>> {
    match x { Err(_) => None, Ok(p) => match made(r, bcomps(p)) { Some(t) => t, None => None } }
}
pub open spec fn entry_path(x: Entry) -> Seq<int> { match x { Ok(p) => bcomps(p), Err(_) => Seq::empty() } }
/// the file of a changed entry holds its formatted text
pub open spec fn stored(r: PathResolver<Settings>, x: Entry) -> bool { becomes(r, x) matches Some(t) ==> wrote(entry_path(x), encode_utf8(t)) }
pub open spec fn unstored(r: PathResolver<Settings>, x: Entry) -> bool { becomes(r, x) matches Some(t) && failed(entry_path(x), encode_utf8(t)) }
/// the error names the file
pub open spec fn about(e: paths::FormatPathError, x: Entry) -> bool {
    match e {
        paths::FormatPathError::Format(p, _) => x is Ok && bcomps(p) == entry_path(x),
        paths::FormatPathError::Read(p, _) => x is Ok && bcomps(p) == entry_path(x),
        paths::FormatPathError::Write(p, _) => x is Ok && bcomps(p) == entry_path(x),
        paths::FormatPathError::Ignore(i) => x == Entry::Err(i),
    }
}
pub open spec fn write_entry(r: PathResolver<Settings>, x: Entry, o: Option<paths::FormatPathError>) -> bool {
    match o { None => !broken(r, x) && stored(r, x), Some(e) => (broken(r, x) || unstored(r, x)) && about(e, x) }
}
pub open spec fn check_entry(r: PathResolver<Settings>, x: Entry, o: Option<Result<PathBuf, paths::FormatPathError>>) -> bool {
    match o {
        None => !broken(r, x) && becomes(r, x) is None,
        Some(Ok(p)) => !broken(r, x) && becomes(r, x) is Some && bcomps(p) == entry_path(x),
        Some(Err(e)) => broken(r, x) && about(e, x),
    }
}
pub open spec fn side(x: Result<PathBuf, paths::FormatPathError>) -> Either<PathBuf, paths::FormatPathError> {
    match x { Ok(p) => Either::Left(p), Err(e) => Either::Right(e) }
}
/// writing is allowed for changed files only, with their formatted text
pub open spec fn writable(r: PathResolver<Settings>, v: Seq<Entry>) -> bool {
    forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> (becomes(r, v[i]) matches Some(t) ==> may_write(entry_path(v[i]), encode_utf8(t)))
}
pub open spec fn write_verdict(r: PathResolver<Settings>, v: Seq<Entry>, s: ExitStatus) -> bool {
    match s {
        ExitStatus::Success => forall|i: int| 0 <= i < v.len() ==> !broken(r, #[trigger] v[i]) && stored(r, v[i]),
        ExitStatus::Error => exists|i: int| 0 <= i < v.len() && (broken(r, #[trigger] v[i]) || unstored(r, v[i])),
        ExitStatus::Failure => false,
    }
}
pub open spec fn check_verdict(r: PathResolver<Settings>, v: Seq<Entry>, s: ExitStatus) -> bool {
    let error = exists|i: int| 0 <= i < v.len() && broken(r, #[trigger] v[i]);
    let change = exists|i: int| 0 <= i < v.len() && becomes(r, #[trigger] v[i]) is Some;
    s == (if error { ExitStatus::Error } else if change { ExitStatus::Failure } else { ExitStatus::Success })
}
pub proof fn lemma_somes<T>(o: Seq<Option<T>>)
    ensures
        somes(o).len() == 0 <==> forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]) is None,
        forall|j: int| 0 <= j < somes(o).len() ==> exists|i: int| 0 <= i < o.len() && o[i] == Some(#[trigger] somes(o)[j]),
        forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some ==> exists|j: int| 0 <= j < somes(o).len() && o[i] == Some(#[trigger] somes(o)[j]),
    decreases o.len(),
{
    if o.len() > 0 {
        let p = o.drop_last();
        lemma_somes(p);
        assert forall|j: int| 0 <= j < somes(o).len() implies exists|i: int| 0 <= i < o.len() && o[i] == Some(#[trigger] somes(o)[j]) by {
            if j < somes(p).len() {
                let i = choose|i: int| 0 <= i < p.len() && p[i] == Some(#[trigger] somes(p)[j]);
                assert(o[i] == Some(somes(o)[j]));
            } else {
                assert(o[o.len() - 1] == Some(somes(o)[j]));
            }
        }
        assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some implies exists|j: int| 0 <= j < somes(o).len() && o[i] == Some(#[trigger] somes(o)[j]) by {
            if i < p.len() {
                assert(p[i] is Some);
                let j = choose|j: int| 0 <= j < somes(p).len() && p[i] == Some(#[trigger] somes(p)[j]);
                assert(o[i] == Some(somes(o)[j]));
            } else {
                assert(o[i] == Some(somes(o)[somes(o).len() - 1]));
            }
        }
        assert(forall|i: int| 0 <= i < p.len() ==> p[i] == #[trigger] o[i]);
        if somes(o).len() == 0 { assert(o.last() is None); }
    }
}
pub proof fn lemma_sides<L, R>(s: Seq<Either<L, R>>)
    ensures
        lefts(s).len() == 0 <==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Right,
        rights(s).len() == 0 <==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Left,
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_sides(p);
        assert(forall|i: int| 0 <= i < p.len() ==> p[i] == #[trigger] s[i]);
    }
}
pub proof fn lemma_write_verdicts(r: PathResolver<Settings>, v: Seq<Entry>)
    ensures forall|o: Seq<Option<paths::FormatPathError>>| (o.len() == v.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> write_entry(r, v[i], o[i]))
            ==> write_verdict(r, v, if (#[trigger] somes(o)).len() == 0 { ExitStatus::Success } else { ExitStatus::Error }),
{
    assert forall|o: Seq<Option<paths::FormatPathError>>| (o.len() == v.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> write_entry(r, v[i], o[i]))
            implies write_verdict(r, v, if (#[trigger] somes(o)).len() == 0 { ExitStatus::Success } else { ExitStatus::Error }) by {
        lemma_somes(o);
        if somes(o).len() == 0 {
            assert forall|i: int| 0 <= i < v.len() implies !broken(r, #[trigger] v[i]) && stored(r, v[i]) by { assert(o[i] is None); }
        } else {
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some;
            assert(broken(r, v[i]) || unstored(r, v[i]));
        }
    }
}
pub open spec fn file_named(l: Seq<PathBuf>, x: Entry) -> bool { exists|j: int| 0 <= j < l.len() && bcomps(#[trigger] l[j]) == entry_path(x) }
pub open spec fn changes(r: PathResolver<Settings>, v: Seq<Entry>, p: PathBuf) -> bool { exists|i: int| 0 <= i < v.len() && becomes(r, #[trigger] v[i]) is Some && entry_path(v[i]) == bcomps(p) }
/// the files named are those that would change
pub open spec fn names_changed(r: PathResolver<Settings>, v: Seq<Entry>, l: Seq<PathBuf>) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> changes(r, v, #[trigger] l[j])
    &&& forall|i: int| 0 <= i < v.len() && becomes(r, #[trigger] v[i]) is Some ==> file_named(l, v[i])
}
pub proof fn lemma_lefts<L, R>(s: Seq<Either<L, R>>)
    ensures
        forall|j: int| 0 <= j < lefts(s).len() ==> exists|i: int| 0 <= i < s.len() && s[i] == Either::<L, R>::Left(#[trigger] lefts(s)[j]),
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Left ==> exists|j: int| 0 <= j < lefts(s).len() && s[i] == Either::<L, R>::Left(#[trigger] lefts(s)[j]),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_lefts(p);
        assert forall|j: int| 0 <= j < lefts(s).len() implies exists|i: int| 0 <= i < s.len() && s[i] == Either::<L, R>::Left(#[trigger] lefts(s)[j]) by {
            if j < lefts(p).len() {
                let i = choose|i: int| 0 <= i < p.len() && p[i] == Either::<L, R>::Left(#[trigger] lefts(p)[j]);
                assert(s[i] == Either::<L, R>::Left(lefts(s)[j]));
            } else {
                assert(s[s.len() - 1] == Either::<L, R>::Left(lefts(s)[j]));
            }
        }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Left implies exists|j: int| 0 <= j < lefts(s).len() && s[i] == Either::<L, R>::Left(#[trigger] lefts(s)[j]) by {
            if i < p.len() {
                assert(p[i] is Left);
                let j = choose|j: int| 0 <= j < lefts(p).len() && p[i] == Either::<L, R>::Left(#[trigger] lefts(p)[j]);
                assert(s[i] == Either::<L, R>::Left(lefts(s)[j]));
            } else {
                assert(s[i] == Either::<L, R>::Left(lefts(s)[lefts(s).len() - 1]));
            }
        }
    }
}
pub open spec fn status_of(l: Seq<PathBuf>, e: Seq<paths::FormatPathError>) -> ExitStatus {
    if e.len() != 0 { ExitStatus::Error } else if l.len() != 0 { ExitStatus::Failure } else { ExitStatus::Success }
}
pub type Sent = Result<PathBuf, paths::FormatPathError>;
pub type Side = Either<PathBuf, paths::FormatPathError>;
pub open spec fn entries_ok(r: PathResolver<Settings>, v: Seq<Entry>, o: Seq<Option<Sent>>) -> bool {
    o.len() == v.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> check_entry(r, v[i], o[i])
}
pub open spec fn sides_ok(m: Seq<Sent>, s: Seq<Side>) -> bool { s.len() == m.len() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] == side(m[i]) }
/// every entry is among those handed on, or fine and unchanged; every one handed on is of an entry
pub proof fn lemma_there(r: PathResolver<Settings>, v: Seq<Entry>, o: Seq<Option<Sent>>, i: int) -> (j: int)
    requires entries_ok(r, v, o), 0 <= i < v.len(), broken(r, v[i]) || becomes(r, v[i]) is Some,
    ensures 0 <= j < somes(o).len(), check_entry(r, v[i], Some(somes(o)[j])),
{
    lemma_somes(o);
    assert(check_entry(r, v[i], o[i]));
    assert(o[i] is Some);
    choose|j: int| 0 <= j < somes(o).len() && o[i] == Some(#[trigger] somes(o)[j])
}
pub proof fn lemma_back(r: PathResolver<Settings>, v: Seq<Entry>, o: Seq<Option<Sent>>, j: int) -> (i: int)
    requires entries_ok(r, v, o), 0 <= j < somes(o).len(),
    ensures 0 <= i < v.len(), check_entry(r, v[i], Some(somes(o)[j])),
{
    lemma_somes(o);
    let i = choose|i: int| 0 <= i < o.len() && o[i] == Some(#[trigger] somes(o)[j]);
    assert(check_entry(r, v[i], o[i]));
    i
}
pub proof fn lemma_named(r: PathResolver<Settings>, v: Seq<Entry>, o: Seq<Option<Sent>>, s: Seq<Side>)
    requires entries_ok(r, v, o), sides_ok(somes(o), s),
    ensures names_changed(r, v, lefts(s)),
{
    lemma_lefts(s);
    let l = lefts(s);
    assert forall|j: int| 0 <= j < l.len() implies changes(r, v, #[trigger] l[j]) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == Side::Left(#[trigger] lefts(s)[j]);
        assert(s[k] == side(somes(o)[k]));
        let i = lemma_back(r, v, o, k);
        assert(becomes(r, v[i]) is Some && entry_path(v[i]) == bcomps(l[j]));
    }
    assert forall|i: int| 0 <= i < v.len() && becomes(r, #[trigger] v[i]) is Some implies file_named(l, v[i]) by {
        let k = lemma_there(r, v, o, i);
        assert(s[k] == side(somes(o)[k]));
        assert(s[k] is Left);
        let j = choose|j: int| 0 <= j < lefts(s).len() && s[k] == Side::Left(#[trigger] lefts(s)[j]);
        assert(bcomps(l[j]) == entry_path(v[i]));
    }
}
pub proof fn lemma_check_verdict(r: PathResolver<Settings>, v: Seq<Entry>, o: Seq<Option<Sent>>, s: Seq<Side>)
    requires entries_ok(r, v, o), sides_ok(somes(o), s),
    ensures check_verdict(r, v, status_of(lefts(s), rights(s))), names_changed(r, v, lefts(s)),
{
    lemma_named(r, v, o, s);
    lemma_sides(s);
    let l = lefts(s);
    if exists|i: int| 0 <= i < v.len() && broken(r, #[trigger] v[i]) {
        let i = choose|i: int| 0 <= i < v.len() && broken(r, #[trigger] v[i]);
        let k = lemma_there(r, v, o, i);
        assert(s[k] == side(somes(o)[k]));
        assert(s[k] is Right);
    }
    if rights(s).len() != 0 {
        let k = choose|j: int| 0 <= j < s.len() && !((#[trigger] s[j]) is Left);
        assert(s[k] == side(somes(o)[k]));
        let i = lemma_back(r, v, o, k);
        assert(broken(r, v[i]));
    }
    if l.len() != 0 {
        let z = l[0];
        assert(changes(r, v, z));
        let i = choose|i: int| 0 <= i < v.len() && becomes(r, #[trigger] v[i]) is Some && entry_path(v[i]) == bcomps(z);
        assert(becomes(r, v[i]) is Some);
    }
    if exists|i: int| 0 <= i < v.len() && becomes(r, #[trigger] v[i]) is Some {
        let i = choose|i: int| 0 <= i < v.len() && becomes(r, #[trigger] v[i]) is Some;
        assert(file_named(l, v[i]));
    }
}
pub proof fn lemma_checked(r: PathResolver<Settings>, v: Seq<Entry>)
    ensures forall|o: Seq<Option<Sent>>, s: Seq<Side>| #![trigger somes(o), lefts(s)] entries_ok(r, v, o) && sides_ok(somes(o), s)
        ==> check_verdict(r, v, status_of(lefts(s), rights(s))) && names_changed(r, v, lefts(s)),
{
    assert forall|o: Seq<Option<Sent>>, s: Seq<Side>| #![trigger somes(o), lefts(s)] entries_ok(r, v, o) && sides_ok(somes(o), s)
        implies check_verdict(r, v, status_of(lefts(s), rights(s))) && names_changed(r, v, lefts(s)) by {
        lemma_check_verdict(r, v, o, s);
    }
}
/// the paths given
pub open spec fn roots<P: AsRef<Path>>(paths: Seq<P>) -> Seq<Seq<int>> { Seq::new(paths.len(), |i: int| comps(as_ref_of::<P, Path>(&paths[i]))) }
/// what a run over paths answers
pub open spec fn answered(q: Seq<Seq<int>>, check: bool, x: discovery::Exclude, i: discovery::Include, r: anyhow::Result<ExitStatus>) -> bool {
    match r {
        Ok(s) => exists|res: PathResolver<Settings>, v: Seq<Entry>| #![trigger loaded(res, q), lists(q, res, x, i, v)] loaded(res, q) && lists(q, res, x, i, v) && if check {
            check_verdict(res, v, s) && exists|l: Seq<PathBuf>| #[trigger] informed(l) && names_changed(res, v, l)
        } else { write_verdict(res, v, s) },
        Err(_) => found(q) is None || check,
    }
}
/// what a run over paths may write
pub open spec fn allowed(q: Seq<Seq<int>>, x: discovery::Exclude, i: discovery::Include) -> bool {
    forall|res: PathResolver<Settings>, v: Seq<Entry>| #[trigger] loaded(res, q) && #[trigger] lists(q, res, x, i, v) ==> writable(res, v)
}
/// what standard input becomes under settings: passed through when air does not format such a file
pub open spec fn stdin_becomes(s: FormatSettings, p: Seq<int>, x: discovery::Exclude, i: discovery::Include) -> Option<Seq<char>> {
    if formattable(s, p, x, i) {
        match outcome(given(), s) { None => None, Some(None) => given(), Some(Some(t)) => Some(t) }
    } else { given() }
}
pub open spec fn stdin_path(p: PathBuf) -> Seq<int> { fs::normal(bcomps(p)) }
/// what a run over standard input answers
pub open spec fn stdin_answered(p: Seq<int>, check: bool, x: discovery::Exclude, i: discovery::Include, r: anyhow::Result<ExitStatus>) -> bool {
    match r {
        Err(_) => found(seq![p]) is None,
        Ok(st) => exists|res: PathResolver<Settings>| #[trigger] loaded(res, seq![p]) && {
            let s = settled(res, p).format;
            if check {
                st == (if !formattable(s, p, x, i) { ExitStatus::Success } else {
                    match outcome(given(), s) { None => ExitStatus::Error, Some(None) => ExitStatus::Success, Some(Some(_)) => ExitStatus::Failure }
                })
            } else {
                match stdin_becomes(s, p, x, i) {
                    None => st == ExitStatus::Error,
                    Some(t) => (st == ExitStatus::Success && printed_out(encode_utf8(t))) || (st == ExitStatus::Error && print_failed(encode_utf8(t))),
                }
            }
        },
    }
}

pub mod resolve {
use super::*;
//@@ source crates/workspace/src/resolve.rs
//@@ item struct PathResolver
//@@   public
//@@ end
//@@ item struct PathItem
//@@   public
//@@ end
//@@ impl PathResolver
//@@ assume resolve PathResolver::new
//@@ end
//@@ assume resolve PathResolver::add
//@@ end
//@@ assume resolve PathResolver::resolve_or_fallback
//@@ end
//@@ endimpl
}
pub mod code {
use super::*;
pub mod discovery {
use super::*;
//@@ source crates/workspace/src/discovery.rs
//@@ item struct DiscoveredSettings
//@@   public
//@@ end
//@@ item enum Mode
//@@   public
//@@ end
//@@ item enum Exclude
//@@   public
//@@   derive Clone, Copy
//@@ end
//@@ item enum Include
//@@   public
//@@   derive Clone, Copy
//@@ end
//@@ assume discovery any_exclude_matched_path_or_any_parents
//@@ end
//@@ assume discovery any_include_matched_path
//@@ end
}
//@@ source crates/workspace/src/format.rs
//@@ item enum FormattedSource
//@@   public
//@@ end
//@@ item enum FormatSourceError
//@@   public
//@@ end
//@@ item enum FormatParseError
//@@   public
//@@ end
//@@ assume format_source format_source
//@@ end
}
pub mod workspace {
    pub mod discovery { pub use crate::code::discovery::*; }
    pub mod format { pub use crate::code::*; }
}
pub mod status {
use super::*;
//@@ source crates/air/src/status.rs
//@@ item enum ExitStatus
//@@   public
//@@   derive Clone, Copy
//@@ end
impl FromSpecImpl<ExitStatus> for ExitCode {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: ExitStatus) -> ExitCode { arbitrary() }
}
//@@ impl ExitCode From
//@@ item fn ExitCode<From>::from
//@@   ret r
//@@ + spec
    ensures number(r) == (match status { ExitStatus::Success => 0u8, ExitStatus::Failure => 1u8, ExitStatus::Error => 255u8 }),
//@@ end
//@@ endimpl
}
use status::ExitStatus;

pub mod derived {
use super::*;
impl From<ignore::Error> for paths::FormatPathError {
    #[verifier::external_body]
    fn from(e: ignore::Error) -> (r: paths::FormatPathError)
        ensures r == paths::FormatPathError::Ignore(e),
    { unimplemented!() }
}
impl FromSpecImpl<ignore::Error> for paths::FormatPathError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ignore::Error) -> paths::FormatPathError { paths::FormatPathError::Ignore(e) }
}
}

pub mod paths {
use super::*;
use super::command::FormatMode;
broadcast use {ax::axiom_as_ref_path, axw::axiom_as_ref_ref, axw::axiom_as_ref_pathbuf, axw::axiom_into, axc::axiom_string_bytes, axc::axiom_ref_bytes, axc::axiom_path_ref};
//@@ source crates/air/src/commands/format/paths.rs
//@@ rewrite* `std :: fs ::` => `files ::`
//@@ item enum FormatPathError
//@@   public
//@@ end
/// names each file on standard error
#[verifier::external_body]
fn inform_changed(paths: &[PathBuf], f: &mut io::StderrLock) -> (r: io::Result<()>)
    ensures r is Ok ==> informed(paths@),
{ unimplemented!() }
//@@ item fn format
//@@   ret r
//@@   public
//@@   rewrite `in discover_settings` => `in it: discover_settings`
//@@ + spec
    requires mode is Write ==> allowed(roots(paths@), exclude, include),
    ensures answered(roots(paths@), mode is Check, exclude, include, r),
//@@ + body
    let ghost q = roots(paths@);
//@@ + loop 1
    invariant
        q == roots(paths@), sorted(resolver.items@), resolver.fallback == defaults(), found(q) == Some(it.seq()),
        holds(resolver.items@, it.seq(), it.index@),
//@@ + loopbody 1
    proof { lemma_holds(resolver.items@, it.seq(), it.index@); }
//@@ + loopafter 1
    proof { assert(loaded(resolver, q)); }
//@@ + loop 2
    invariant true,
//@@ + loop 3
    invariant true,
//@@ end
//@@ item fn format_paths_write
//@@   ret r
//@@ + spec
    requires
        sorted(resolver.items@),
        forall|v: Seq<Entry>| #[trigger] lists(roots(paths@), *resolver, exclude, include, v) ==> writable(*resolver, v),
    ensures
        exists|v: Seq<Entry>| #[trigger] lists(roots(paths@), *resolver, exclude, include, v)
            && write_verdict(*resolver, v, if r@.len() == 0 { ExitStatus::Success } else { ExitStatus::Error }),
//@@ + body
    let ghost gp = paths@;
    proof { assert forall|p: Seq<int>, o: Option<&PathItem<Settings>>| #[trigger] closest(resolver.items@, p, o) implies settled(*resolver, p) == taken(o, resolver.fallback) by { lemma_unique(*resolver, p); } }
//@@ + after `let paths = discover_r_file_paths(paths, resolver, discovery::Mode::Format, exclude, include);`
    proof { assert(lists(roots(gp), *resolver, exclude, include, paths@)); lemma_write_verdicts(*resolver, paths@); }
//@@ + closure 1 `|path|`
|path: Result<PathBuf, ignore::Error>| -> (o: Option<FormatPathError>)
    requires becomes(*resolver, path) matches Some(t) ==> may_write(entry_path(path), encode_utf8(t))
    ensures write_entry(*resolver, path, o)
//@@ end
//@@ item fn format_paths_check
//@@   ret r
//@@   rewrite? `. map ( Ok )` => `.map(|p: PathBuf| -> (o: Result<PathBuf, FormatPathError>) ensures o == Ok::<PathBuf, FormatPathError>(p) { Ok(p) })`
//@@ + spec
    requires sorted(resolver.items@),
    ensures
        exists|v: Seq<Entry>| #[trigger] lists(roots(paths@), *resolver, exclude, include, v)
            && check_verdict(*resolver, v, status_of(r.0@, r.1@)) && names_changed(*resolver, v, r.0@),
//@@ + body
    let ghost gp = paths@;
    proof { assert forall|p: Seq<int>, o: Option<&PathItem<Settings>>| #[trigger] closest(resolver.items@, p, o) implies settled(*resolver, p) == taken(o, resolver.fallback) by { lemma_unique(*resolver, p); } }
//@@ + after `let paths = discover_r_file_paths(paths, resolver, discovery::Mode::Format, exclude, include);`
    proof { assert(lists(roots(gp), *resolver, exclude, include, paths@)); lemma_checked(*resolver, paths@); }
//@@ + closure 1 `|path|`
|path: Result<PathBuf, ignore::Error>| -> (o: Option<Result<PathBuf, FormatPathError>>)
    ensures check_entry(*resolver, path, o)
//@@ + closure 2 `|result|`
|result: Result<PathBuf, FormatPathError>| -> (o: Either<PathBuf, FormatPathError>)
    ensures o == side(result)
//@@ end
//@@ item fn format_path
//@@   ret r
//@@ + spec
    ensures
        match r {
            Err(e) => outcome(content(comps(as_ref_of::<P, Path>(&path))), *settings) is None && match e {
                FormatPathError::Format(q, _) => bcomps(q) == comps(as_ref_of::<P, Path>(&path)),
                FormatPathError::Read(q, _) => bcomps(q) == comps(as_ref_of::<P, Path>(&path)),
                _ => false,
            },
            Ok(FormattedSource::Unchanged) => outcome(content(comps(as_ref_of::<P, Path>(&path))), *settings) == Some(None::<Seq<char>>),
            Ok(FormattedSource::Changed(t)) => outcome(content(comps(as_ref_of::<P, Path>(&path))), *settings) == Some(Some(t@)),
        },
//@@ + closure 1 `|error|`
|error: io::Error| -> (e: FormatPathError)
    ensures e matches FormatPathError::Read(q, _) && bcomps(q) == comps(path)
//@@ + closure 2 `|error|`
|error: FormatSourceError| -> (e: FormatPathError)
    ensures e matches FormatPathError::Format(q, _) && bcomps(q) == comps(path)
//@@ end
//@@ item fn write_path
//@@   ret r
//@@ + spec
    requires formatted matches FormattedSource::Changed(t) ==> may_write(comps(as_ref_of::<P, Path>(&path)), encode_utf8(t@)),
    ensures
        formatted matches FormattedSource::Changed(t) ==> (r is Ok ==> wrote(comps(as_ref_of::<P, Path>(&path)), encode_utf8(t@))) && (r is Err ==> failed(comps(as_ref_of::<P, Path>(&path)), encode_utf8(t@))),
        formatted is Unchanged ==> r is Ok,
//@@ end
//@@ item fn check_path
//@@   ret r
//@@ + spec
    ensures match r { Some(q) => formatted is Changed && bcomps(q) == comps(as_ref_of::<P, Path>(&path)), None => formatted is Unchanged },
//@@ end
}
pub mod stdin {
use super::*;
use super::command::FormatMode;
broadcast use {ax::axiom_as_ref_path, axw::axiom_as_ref_ref, axw::axiom_as_ref_pathbuf, axw::axiom_into, axc::axiom_path_ref};
//@@ source crates/air/src/commands/format/stdin.rs
//@@ rewrite* `std :: io ::` => `io ::`
//@@ rewrite* `map_err ( FormatStdinError :: Read )` => `map_err(|e: io::Error| -> (x: FormatStdinError) { FormatStdinError::Read(e) })`
//@@ rewrite* `map_err ( FormatStdinError :: Write )` => `map_err(|e: io::Error| -> (x: FormatStdinError) { FormatStdinError::Write(e) })`
//@@ rewrite* `map_err ( FormatStdinError :: Format )` => `map_err(|e: FormatSourceError| -> (x: FormatStdinError) { FormatStdinError::Format(e) })`
//@@ item enum FormattedStdin
//@@   public
//@@ end
//@@ item enum FormatStdinError
//@@   public
//@@ end
//@@ item fn format
//@@   ret r
//@@   public
//@@   rewrite `in discover_settings` => `in it: discover_settings`
//@@ + spec
    requires
        mode is Write ==> forall|res: PathResolver<Settings>| #[trigger] loaded(res, seq![stdin_path(path)]) ==>
            (stdin_becomes(settled(res, stdin_path(path)).format, stdin_path(path), exclude, include) matches Some(t) ==> may_print(encode_utf8(t))),
    ensures stdin_answered(stdin_path(path), mode is Check, exclude, include, r),
//@@ + body
    let ghost q = seq![stdin_path(path)];
//@@ + loop 1
    invariant
        bcomps(path) == q[0], q.len() == 1, sorted(resolver.items@), resolver.fallback == defaults(), found(q) == Some(it.seq()),
        holds(resolver.items@, it.seq(), it.index@),
//@@ + loopbody 1
    proof { lemma_holds(resolver.items@, it.seq(), it.index@); }
//@@ + loopafter 1
    proof { assert(loaded(resolver, q)); }
//@@ end
//@@ item fn format_stdin_write
//@@   ret r
//@@ + spec
    requires
        sorted(resolver.items@),
        stdin_becomes(settled(*resolver, comps(as_ref_of::<P, Path>(&path))).format, comps(as_ref_of::<P, Path>(&path)), exclude, include) matches Some(t) ==> may_print(encode_utf8(t)),
    ensures
        match stdin_becomes(settled(*resolver, comps(as_ref_of::<P, Path>(&path))).format, comps(as_ref_of::<P, Path>(&path)), exclude, include) {
            None => r is Err,
            Some(t) => (r is Ok ==> printed_out(encode_utf8(t))) && (r is Err ==> print_failed(encode_utf8(t))),
        },
//@@ + body
    let ghost gp = as_ref_of::<P, Path>(&path);
    proof { lemma_unique(*resolver, comps(gp)); }
//@@ end
//@@ item fn format_stdin_check
//@@   ret r
//@@ + spec
    requires sorted(resolver.items@),
    ensures
        ({
            let p = comps(as_ref_of::<P, Path>(&path));
            let s = settled(*resolver, p).format;
            match r {
                Ok(b) => if formattable(s, p, exclude, include) { outcome(given(), s) is Some && b == (outcome(given(), s)->0 is Some) } else { !b },
                Err(_) => formattable(s, p, exclude, include) && outcome(given(), s) is None,
            }
        }),
//@@ + body
    let ghost gp = as_ref_of::<P, Path>(&path);
    proof { lemma_unique(*resolver, comps(gp)); }
//@@ end
//@@ item fn format_stdin
//@@   ret r
//@@ + spec
    ensures
        match r {
            Err(_) => outcome(given(), *settings) is None,
            Ok(FormattedStdin::Unchanged(t)) => outcome(given(), *settings) == Some(None::<Seq<char>>) && given() == Some(t@),
            Ok(FormattedStdin::Changed(t)) => outcome(given(), *settings) == Some(Some(t@)),
        },
//@@ end
//@@ item fn asis_stdin
//@@   ret r
//@@ + spec
    ensures match given() { None => r is Err, Some(t) => r matches Ok(FormattedStdin::Unchanged(s)) && s@ == t },
//@@ end
//@@ item fn read_stdin
//@@   ret r
//@@ + spec
    ensures match given() { None => r is Err, Some(t) => r matches Ok(s) && s@ == t },
//@@ end
//@@ item fn is_stdin_formattable
//@@   ret r
//@@ + spec
    ensures r == formattable(settings.format, comps(as_ref_of::<P, Path>(&path)), exclude, include),
//@@ end
}
pub mod command {
use super::*;
//@@ source crates/air/src/args.rs
//@@ item struct FormatCommand
//@@   public
//@@ end
//@@ source crates/air/src/commands/format.rs
//@@ item enum FormatMode
//@@   public
//@@   derive Clone, Copy
//@@ end
pub open spec fn excluding(c: FormatCommand) -> discovery::Exclude { if c.force { discovery::Exclude::Nothing } else { discovery::Exclude::Matched } }
pub open spec fn including(c: FormatCommand) -> discovery::Include { if c.force { discovery::Include::Everything } else { discovery::Include::Matched } }
//@@ item fn format
//@@   ret r
//@@   public
//@@ + spec
    requires
        command.stdin_file_path is None && !command.check ==> allowed(roots(command.paths@), excluding(command), including(command)),
        forall|p: PathBuf| command.stdin_file_path == Some(p) && command.paths@.len() == 0 && !command.check ==> forall|res: PathResolver<Settings>| #[trigger] loaded(res, seq![stdin_path(p)]) ==>
            (stdin_becomes(settled(res, stdin_path(p)).format, stdin_path(p), excluding(command), including(command)) matches Some(t) ==> may_print(encode_utf8(t))),
    ensures
        command.stdin_file_path is None ==> answered(roots(command.paths@), command.check, excluding(command), including(command), r),
        command.stdin_file_path is Some && command.paths@.len() != 0 ==> r == Ok::<ExitStatus, anyhow::Error>(ExitStatus::Error),
        forall|p: PathBuf| command.stdin_file_path == Some(p) && command.paths@.len() == 0 ==>
            #[trigger] stdin_answered(stdin_path(p), command.check, excluding(command), including(command), r),
//@@ end
//@@ item fn check_argument_consistency
//@@   bare 1
//@@   ret r
//@@ + spec
    ensures r == (if command.stdin_file_path is Some && command.paths@.len() != 0 { Some(ExitStatus::Error) } else { None }),
//@@ end
//@@ impl FormatMode
//@@ item fn FormatMode::from_command
//@@   ret r
//@@ + spec
    ensures r is Check <==> command.check,
//@@ end
//@@ endimpl
}

fn main() {}
} // verus!
