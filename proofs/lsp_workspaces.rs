// Contracts for the workspace folders of the language server: crates/lsp/src/workspaces.rs (property K03).
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use std::cmp::Ordering;
use std::path::{Path, PathBuf};

/// logging has no effect: its arguments are not evaluated here
pub mod tracing {
    macro_rules! nothing { ($($t:tt)*) => { () } }
    pub(crate) use nothing as warn;
    pub(crate) use nothing as trace;
    pub(crate) use nothing as error;
}

verus! {
//@@ include inc/resolver.rs
//@@ include inc/world.rs

pub mod anyhow {
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    #[verifier::external_body]
    pub fn error() -> Error { unimplemented!() }
    macro_rules! anyhow_ { ($($t:tt)*) => { crate::anyhow::error() } }
    pub(crate) use anyhow_ as anyhow;
}
// ---------------------------------------------------------------- url, std::path
pub uninterp spec fn scheme(u: Url) -> Seq<char>;
/// the path a file URL names
pub uninterp spec fn file_path(u: Url) -> Option<Seq<int>>;
impl Url {
    #[verifier::external_body]
    pub fn scheme(&self) -> (r: &str)
        ensures r@ == scheme(*self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_file_path(&self) -> (r: Result<PathBuf, ()>)
        ensures match r { Ok(p) => file_path(*self) == Some(bcomps(p)), Err(_) => file_path(*self) is None },
    { unimplemented!() }
}
/// the directory a path is in
pub uninterp spec fn up(p: Seq<int>) -> Option<Seq<int>>;
pub assume_specification[ Path::parent ](p: &Path) -> (r: Option<&Path>)
    ensures match r { Some(d) => up(comps(p)) == Some(comps(d)), None => up(comps(p)) is None },
;
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> call_requires(f, (x,)),
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => !r },
;
pub uninterp spec fn url_text(u: Url) -> Seq<char>;
impl Url {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        ensures r@ == url_text(*self),
    { unimplemented!() }
}
/// the components of the relative path a text spells
pub uninterp spec fn of_str(s: Seq<char>) -> Seq<int>;
pub assume_specification<P: AsRef<Path>>[ Path::join ](p: &Path, q: P) -> (r: PathBuf)
    ensures bcomps(r) == comps(p) + comps(as_ref_of::<P, Path>(&q)),
;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExDisplay<'a>(std::path::Display<'a>);
pub assume_specification[ Path::display ](p: &Path) -> (r: std::path::Display<'_>)
;
// ---------------------------------------------------------------- workspace
/// the settings of the formatter, as far as they matter here
pub struct FormatSettings { pub indent_style: settings::IndentStyle, pub indent_width: settings::IndentWidth, pub line_width: settings::LineWidth, pub rest: Rest }
#[verifier::external_body]
pub struct Rest { x: u8 }
pub mod settings {
    use super::*;
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct IndentStyle { x: u8 }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct IndentWidth { x: u8 }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct LineWidth { x: u16 }
}
pub mod workspace { pub mod settings { pub use super::super::{FormatSettings, Settings}; } }
pub use code::Settings;
//@@ include inc/found.rs
pub mod axu {
    use super::*;
    pub broadcast axiom fn axiom_as_ref_str(s: &str)
        ensures comps(#[trigger] as_ref_of::<&str, Path>(&s)) == of_str(s@);
}
pub uninterp spec fn names_config(p: Seq<int>) -> bool;
#[verifier::external_body]
pub fn is_air_toml<P: AsRef<Path>>(path: P) -> (r: bool)
    ensures r == names_config(comps(as_ref_of::<P, Path>(&path))),
{ unimplemented!() }
use code::{PathItem, PathResolver, DiscoveredSettings, SettingsResolver, WorkspaceSettingsResolver, WorkspaceSettings, GlobalSettings, FileSettings, FileFormatSettings, SyncFileSettingsParams};
pub struct WorkspaceFolder { pub uri: Url, pub name: String }
pub mod lsp_types {
    use super::*;
    pub use super::WorkspaceFolder;
    pub struct WorkspaceFoldersChangeEvent { pub added: Vec<WorkspaceFolder>, pub removed: Vec<WorkspaceFolder> }
    pub struct DidChangeWorkspaceFoldersParams { pub event: WorkspaceFoldersChangeEvent }
    pub struct FileChangeType { pub x: i32 }
    pub struct FileEvent { pub uri: Url, pub typ: FileChangeType }
    pub struct DidChangeWatchedFilesParams { pub changes: Vec<FileEvent> }
}
pub use lsp_types::{DidChangeWorkspaceFoldersParams, DidChangeWatchedFilesParams};
/// the server's state, as far as it matters here
pub struct LspState { pub workspace_settings_resolver: WorkspaceSettingsResolver, pub settings: GlobalSettings, pub client: Client }
#[verifier::external_body]
pub struct Client { x: u8 }
/// what may be told to the client
pub uninterp spec fn may_tell<N>(c: Client, n: N) -> bool;
impl Client {
    #[verifier::external_body]
    pub async fn send_notification<N>(&self, params: N)
        requires may_tell(*self, params),
    { unimplemented!() }
}
/// std's iterator over a list of URLs
#[verifier::external_body]
pub struct Urls { x: Vec<Url> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Chosen<T> { x: Vec<T> }
impl Urls {
    pub uninterp spec fn view(&self) -> Seq<Url>;
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Urls)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<T, F: FnMut(Url) -> Option<T>>(self, f: F) -> (r: Chosen<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|o: Seq<Option<T>>| #[trigger] somes(o) == r@ && o.len() == self@.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> call_ensures(f, (self@[i],), o[i]),
    { unimplemented!() }
}
impl<T> Chosen<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == self@,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct WorldState { x: u8 }
impl WorldState {
    /// the open documents
    pub uninterp spec fn uris(self) -> Seq<Url>;
    #[verifier::external_body]
    pub fn workspace_uris(&self) -> (r: Urls)
        ensures r@ == self.uris(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- specification
pub type Items = Seq<PathItem<SettingsResolver>>;
/// a folder's configurations
pub open spec fn good(v: SettingsResolver) -> bool { sorted(v.items@) && v.fallback == defaults() }
pub open spec fn all_good(s: Items) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> good(s[i].value) }
/// the state of the server between notifications
pub open spec fn wf(w: WorkspaceSettingsResolver) -> bool {
    let r = w.path_to_settings_resolver;
    sorted(r.items@) && r.fallback.items@.len() == 0 && r.fallback.fallback == defaults() && all_good(r.items@)
}
pub proof fn lemma_added_good(a: Items, b: Items, k: Seq<int>, v: SettingsResolver, r: Option<SettingsResolver>)
    requires all_good(a), added(a, b, k, v, r), good(v), sorted(b),
    ensures all_good(b),
{
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies good(b[i].value) by {
        assert(has(b, bcomps(b[i].path), b[i].value));
        if bcomps(b[i].path) == k {
            let j = choose|j: int| 0 <= j < b.len() && bcomps(#[trigger] b[j].path) == k && b[j].value == v;
            lemma_eq(k, k);
            assert(i == j);
        } else {
            assert(has(a, bcomps(b[i].path), b[i].value));
        }
    }
}
pub proof fn lemma_removed_good(a: Items, b: Items, k: Seq<int>, r: Option<SettingsResolver>)
    requires all_good(a), removed(a, b, k, r),
    ensures all_good(b),
{
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies good(b[i].value) by {
        assert(has(b, bcomps(b[i].path), b[i].value));
        assert(has(a, bcomps(b[i].path), b[i].value));
    }
}
pub proof fn lemma_additions(a: Items)
    requires all_good(a),
    ensures forall|b: Items, k: Seq<int>, v: SettingsResolver, r: Option<SettingsResolver>| #[trigger] added(a, b, k, v, r) && good(v) && sorted(b) ==> all_good(b),
{
    assert forall|b: Items, k: Seq<int>, v: SettingsResolver, r: Option<SettingsResolver>| #[trigger] added(a, b, k, v, r) && good(v) && sorted(b) implies all_good(b) by { lemma_added_good(a, b, k, v, r); }
}
pub proof fn lemma_removals(a: Items)
    requires all_good(a),
    ensures forall|b: Items, k: Seq<int>, r: Option<SettingsResolver>| #[trigger] removed(a, b, k, r) ==> all_good(b),
{
    assert forall|b: Items, k: Seq<int>, r: Option<SettingsResolver>| #[trigger] removed(a, b, k, r) implies all_good(b) by { lemma_removed_good(a, b, k, r); }
}
/// the closest configuration of the closest folder around path p
pub open spec fn governing(s: Items, p: Seq<int>, r: Option<Settings>) -> bool {
    exists|f: Option<&PathItem<SettingsResolver>>| #[trigger] closest(s, p, f) && match f {
        None => r is None,
        Some(x) => exists|o: Option<&PathItem<Settings>>| #[trigger] closest(x.value.items@, p, o) && r == taken(o),
    }
}
pub open spec fn taken(o: Option<&PathItem<Settings>>) -> Option<Settings> { match o { Some(y) => Some(y.value), None => None } }
pub proof fn lemma_governing(s: Items, p: Seq<int>)
    ensures
        closest(s, p, None) ==> governing(s, p, None),
        forall|x: &PathItem<SettingsResolver>, o: Option<&PathItem<Settings>>| #![trigger closest(s, p, Some(x)), closest(x.value.items@, p, o)]
            closest(s, p, Some(x)) && closest(x.value.items@, p, o) ==> governing(s, p, taken(o)),
{
}
pub open spec fn answers(r: WorkspaceSettings, o: Option<Settings>) -> bool {
    match o { Some(s) => r matches WorkspaceSettings::Toml(x) && *x == s, None => r matches WorkspaceSettings::Fallback(x) && *x == defaults() }
}
/// the path whose settings a document has
pub open spec fn place(s: Items, u: Url) -> Option<Seq<int>> {
    if scheme(u) == "file"@ && file_path(u) is Some { file_path(u) }
    else if scheme(u) == "untitled"@ && s.len() == 1 { Some(bcomps(s[0].path) + of_str("untitled"@)) }
    else { None }
}
pub open spec fn folder(u: Url) -> Option<Seq<int>> { if scheme(u) == "file"@ { file_path(u) } else { None } }
/// a folder with what is found for it
pub open spec fn fresh(x: SettingsResolver, p: Seq<int>) -> bool {
    &&& good(x)
    &&& found(seq![p]) is None ==> x.items@.len() == 0
    &&& forall|v: Seq<DiscoveredSettings>| found(seq![p]) == Some(v) ==> #[trigger] holds(x.items@, v, v.len() as int)
}
/// what opening a folder does
pub open spec fn opened(a: Items, b: Items, u: Url) -> bool {
    &&& folder(u) is None ==> a == b
    &&& forall|p: Seq<int>| folder(u) == Some(p) ==> exists|x: SettingsResolver, old: Option<SettingsResolver>| #[trigger] added(a, b, p, x, old) && fresh(x, p)
}
pub open spec fn all_opened(a: Items, b: Items, v: Seq<WorkspaceFolder>, n: int) -> bool
    decreases n,
{
    if n <= 0 { a == b } else { exists|m: Items| #[trigger] opened(m, b, v[n - 1].uri) && all_opened(a, m, v, n - 1) }
}
pub proof fn lemma_opened(a: Items, m: Items, v: Seq<WorkspaceFolder>, n: int)
    requires 0 <= n < v.len(), all_opened(a, m, v, n),
    ensures forall|b: Items| #[trigger] opened(m, b, v[n].uri) ==> all_opened(a, b, v, n + 1),
{
    assert forall|b: Items| #[trigger] opened(m, b, v[n].uri) implies all_opened(a, b, v, n + 1) by {
        let k = n + 1;
        assert(opened(m, b, v[k - 1].uri));
        assert(all_opened(a, m, v, k - 1));
    }
}
/// what closing a folder does
pub open spec fn closed(a: Items, b: Items, u: Url) -> bool {
    &&& folder(u) is None ==> a == b
    &&& forall|p: Seq<int>| folder(u) == Some(p) ==> exists|old: Option<SettingsResolver>| #[trigger] removed(a, b, p, old)
}

pub open spec fn all_closed(a: Items, b: Items, v: Seq<WorkspaceFolder>, n: int) -> bool
    decreases n,
{
    if n <= 0 { a == b } else { exists|m: Items| #[trigger] closed(m, b, v[n - 1].uri) && all_closed(a, m, v, n - 1) }
}
pub proof fn lemma_closed(a: Items, m: Items, v: Seq<WorkspaceFolder>, n: int)
    requires 0 <= n < v.len(), all_closed(a, m, v, n),
    ensures forall|b: Items| #[trigger] closed(m, b, v[n].uri) ==> all_closed(a, b, v, n + 1),
{
    assert forall|b: Items| #[trigger] closed(m, b, v[n].uri) implies all_closed(a, b, v, n + 1) by {
        let k = n + 1;
        assert(closed(m, b, v[k - 1].uri));
        assert(all_closed(a, m, v, k - 1));
    }
}
/// what a change of a configuration around path p does to a folder
pub open spec fn reread(x: PathItem<SettingsResolver>, y: PathItem<SettingsResolver>) -> bool {
    y.path == x.path && fresh(y.value, bcomps(x.path))
}
/// folders that a configuration file at p can govern: those around it and those below its directory
pub open spec fn touches(x: PathItem<SettingsResolver>, p: Seq<int>) -> bool {
    prefix(bcomps(x.path), p) || (up(p) is Some && prefix(up(p)->0, bcomps(x.path)))
}
pub open spec fn reloaded(a: Items, b: Items, p: Seq<int>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger b[i]] #![trigger a[i]] 0 <= i < a.len() ==>
        if touches(a[i], p) { reread(a[i], b[i]) } else { b[i] == a[i] }
}
/// what the report of a changed file does
pub open spec fn reported(a: Items, b: Items, u: Url) -> bool {
    &&& folder(u) is None ==> a == b
    &&& forall|p: Seq<int>| folder(u) == Some(p) ==> if names_config(p) { reloaded(a, b, p) } else { a == b }
}
pub open spec fn all_reported(a: Items, b: Items, v: Seq<lsp_types::FileEvent>, n: int) -> bool
    decreases n,
{
    if n <= 0 { a == b } else { exists|m: Items| #[trigger] reported(m, b, v[n - 1].uri) && all_reported(a, m, v, n - 1) }
}
pub proof fn lemma_reported(a: Items, m: Items, v: Seq<lsp_types::FileEvent>, n: int)
    requires 0 <= n < v.len(), all_reported(a, m, v, n),
    ensures forall|b: Items| #[trigger] reported(m, b, v[n].uri) ==> all_reported(a, b, v, n + 1),
{
    assert forall|b: Items| #[trigger] reported(m, b, v[n].uri) implies all_reported(a, b, v, n + 1) by {
        let k = n + 1;
        assert(reported(m, b, v[k - 1].uri));
        assert(all_reported(a, m, v, k - 1));
    }
}
/// what the client is told about one document
pub open spec fn told(w: WorkspaceSettingsResolver, u: Url, r: Option<FileSettings>) -> bool {
    let s = w.path_to_settings_resolver.items@;
    &&& place(s, u) is None ==> r is None
    &&& forall|p: Seq<int>| place(s, u) == Some(p) ==> exists|o: Option<Settings>| #[trigger] governing(s, p, o) && match o {
        None => r is None,
        Some(x) => r matches Some(f) && f.url@ == url_text(u) && f.format.indent_style == x.format.indent_style
            && f.format.indent_width == x.format.indent_width && f.format.line_width == x.format.line_width,
    }
}
/// and about several
pub open spec fn all_told(w: WorkspaceSettingsResolver, v: Seq<Url>, o: Seq<Option<FileSettings>>, r: Seq<FileSettings>) -> bool {
    somes(o) == r && o.len() == v.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> told(w, v[i], o[i])
}

// ---------------------------------------------------------------- the code
pub mod code {
use super::*;
broadcast use {lemma_rev, ax::axiom_as_ref_path, axw::axiom_str_ext, axu::axiom_as_ref_str, axw::axiom_as_ref_ref, axw::axiom_as_ref_pathbuf, axw::axiom_into};
//@@ source crates/workspace/src/resolve.rs
//@@ item struct PathResolver
//@@   public
//@@ end
//@@ item struct PathItem
//@@   public
//@@ end
//@@ impl PathItem
//@@ assume resolve PathItem::path
//@@ end
//@@ assume resolve PathItem::value
//@@ end
//@@ assume resolve PathItem::value_mut
//@@ end
//@@ endimpl
//@@ impl PathResolver
//@@ assume resolve PathResolver::new
//@@ end
//@@ assume resolve PathResolver::fallback
//@@ end
//@@ assume resolve PathResolver::add
//@@ end
//@@ assume resolve PathResolver::remove
//@@ end
//@@ assume resolve PathResolver::items
//@@ end
//@@ assume resolve PathResolver::items_mut
//@@ end
//@@ assume resolve PathResolver::len
//@@ end
//@@ assume resolve PathResolver::clear
//@@ end
//@@ assume resolve PathResolver::resolve
//@@ end
//@@ endimpl
//@@ source crates/workspace/src/discovery.rs
//@@ item struct DiscoveredSettings
//@@   public
//@@ end
//@@ source crates/lsp/src/workspaces.rs
//@@ item type SettingsResolver
//@@   public
//@@ end
//@@ item struct WorkspaceSettingsResolver
//@@   public
//@@ end
//@@ item enum WorkspaceSettings
//@@   public
//@@ end
//@@ impl WorkspaceSettingsResolver
//@@ item fn WorkspaceSettingsResolver::from_workspace_folders
//@@   ret r
//@@   public
//@@   rewrite `for workspace_folder in workspace_folders` => `for workspace_folder in it: workspace_folders`
//@@ + spec
    ensures wf(r), all_opened(Seq::empty(), r.path_to_settings_resolver.items@, workspace_folders@, workspace_folders@.len() as int),
//@@ + body
    let ghost v = workspace_folders@;
//@@ + after `let mut resolver = Self { path_to_settings_resolver, };`
    proof { assert(resolver.path_to_settings_resolver.items@ =~= Seq::empty()); }
//@@ + loop 1
    invariant wf(resolver), it.seq() == v, all_opened(Seq::empty(), resolver.path_to_settings_resolver.items@, v, it.index@),
//@@ + loopbody 1
    proof { lemma_opened(Seq::empty(), resolver.path_to_settings_resolver.items@, v, it.index@); }
//@@ end
//@@ item fn WorkspaceSettingsResolver::open_workspace_folder
//@@   bare 1
//@@   public
//@@   rewrite `in discovered_settings` => `in it: discovered_settings`
//@@ + spec
    requires wf(*old(self)),
    ensures wf(*final(self)), opened(old(self).path_to_settings_resolver.items@, final(self).path_to_settings_resolver.items@, *url),
//@@ + body
    proof { lemma_additions(self.path_to_settings_resolver.items@); }
//@@ + loop 1
    invariant
        sorted(settings_resolver.items@), settings_resolver.fallback == defaults(),
        found(seq![bcomps(path)]) is None ==> it.seq().len() == 0, found(seq![bcomps(path)]) is Some ==> found(seq![bcomps(path)]) == Some(it.seq()),
        holds(settings_resolver.items@, it.seq(), it.index@),
//@@ + loopbody 1
    proof { lemma_holds(settings_resolver.items@, it.seq(), it.index@); }
//@@ end
//@@ item fn WorkspaceSettingsResolver::close_workspace_folder
//@@   public
//@@ + spec
    requires wf(*old(self)),
    ensures wf(*final(self)), closed(old(self).path_to_settings_resolver.items@, final(self).path_to_settings_resolver.items@, *url),
//@@ + body
    proof { lemma_removals(self.path_to_settings_resolver.items@); }
//@@ end
//@@ item fn WorkspaceSettingsResolver::reload_workspaces_matched_by_url
//@@   ret r
//@@   public
//@@   rewrite `for workspace_match in self.path_to_settings_resolver.items_mut()` => `let mut iter = self.path_to_settings_resolver.items_mut().iter_mut(); let ghost all = iter.remaining(); let ghost mut n: int = 0; while let Some(workspace_match) = iter.next()`
//@@   rewrite `in discovered_settings` => `in it: discovered_settings`
//@@ + spec
    requires wf(*old(self)),
    ensures
        wf(*final(self)),
        folder(*url) is None ==> !r && *final(self) == *old(self),
        forall|p: Seq<int>| folder(*url) == Some(p) && !#[trigger] names_config(p) ==> !r && *final(self) == *old(self),
        reported(old(self).path_to_settings_resolver.items@, final(self).path_to_settings_resolver.items@, *url),
        forall|p: Seq<int>| folder(*url) == Some(p) && #[trigger] names_config(p) ==>
            reloaded(old(self).path_to_settings_resolver.items@, final(self).path_to_settings_resolver.items@, p)
            && (r <==> exists|i: int| 0 <= i < old(self).path_to_settings_resolver.items@.len() && touches(#[trigger] old(self).path_to_settings_resolver.items@[i], p)),
//@@ + body
    let ghost a = self.path_to_settings_resolver.items@;
//@@ + closure 1 `|directory|`
|directory: &Path| -> (b: bool)
    ensures b == prefix(comps(directory), comps(workspace_path))
//@@ + loop 1
    invariant
        iter.obeys_prophetic_iter_laws(), 0 <= n <= all.len(), iter.remaining() == all.skip(n), iter.decrease() is Some,
        all.len() == a.len(), all_good(a),
        directory is Some ==> up(bcomps(path)) == Some(comps(directory->0)), directory is None ==> up(bcomps(path)) is None,
        forall|j: int| #![trigger all[j]] #![trigger a[j]] 0 <= j < all.len() ==> *all[j] == a[j],
        forall|j: int| #![trigger all[j]] #![trigger a[j]] 0 <= j < n ==> if touches(a[j], bcomps(path)) { reread(a[j], *final(all[j])) } else { *final(all[j]) == a[j] },
        changed <==> exists|j: int| 0 <= j < n && touches(#[trigger] a[j], bcomps(path)),
    ensures n == all.len(),
    decreases iter.decrease()->0,
//@@ + loopbody 1
    let ghost x = *workspace_match;
    proof { assert(x == *all[n]); assert(x == a[n]); n = n + 1; }
//@@ + loop 2
    invariant
        sorted(workspace_settings_resolver.items@), workspace_settings_resolver.fallback == defaults(), found(seq![bcomps(x.path)]) == Some(it.seq()),
        holds(workspace_settings_resolver.items@, it.seq(), it.index@),
//@@ + loopafter 1
    proof {
        let (b, p) = (self.path_to_settings_resolver.items@, bcomps(path));
        assert forall|i: int| #![trigger b[i]] #![trigger a[i]] 0 <= i < a.len() implies
            if touches(a[i], p) { reread(a[i], b[i]) } else { b[i] == a[i] } by {
            assert(b[i] == *final(all[i]));
        }
        assert(reloaded(a, b, p));
    }
//@@ + loopbody 2
    proof { lemma_holds(workspace_settings_resolver.items@, it.seq(), it.index@); }
//@@ end
//@@ item fn WorkspaceSettingsResolver::settings_for_url
//@@   ret r
//@@   public
//@@ + spec
    requires wf(*self),
    ensures
        place(self.path_to_settings_resolver.items@, *url) is None ==> answers(r, None),
        forall|p: Seq<int>| place(self.path_to_settings_resolver.items@, *url) == Some(p) ==>
            exists|o: Option<Settings>| #[trigger] governing(self.path_to_settings_resolver.items@, p, o) && answers(r, o),
//@@ end
//@@ item fn WorkspaceSettingsResolver::settings_for_path
//@@   ret r
//@@   public
//@@ + spec
    requires wf(*self),
    ensures exists|o: Option<Settings>| #[trigger] governing(self.path_to_settings_resolver.items@, comps(path), o) && answers(r, o),
//@@ + body
    proof { lemma_governing(self.path_to_settings_resolver.items@, comps(path)); }
//@@ + closure 1 `|resolution|`
|resolution: &PathItem<SettingsResolver>| -> (o: Option<&PathItem<Settings>>)
    requires sorted(resolution.value.items@),
    ensures closest(resolution.value.items@, comps(path), o)
//@@ + closure 2 `||`
|| -> (x: WorkspaceSettings<'_>)
    ensures x == WorkspaceSettings::Fallback(&self.path_to_settings_resolver.fallback.fallback)
//@@ + closure 3 `|resolution|`
|resolution: &PathItem<Settings>| -> (x: WorkspaceSettings<'_>)
    ensures x == WorkspaceSettings::Toml(&resolution.value)
//@@ end
//@@ item fn WorkspaceSettingsResolver::url_to_path
//@@   ret r
//@@   public
//@@ + spec
    ensures match r {
        Ok(Some(p)) => folder(*url) == Some(bcomps(p)),
        Ok(None) => scheme(*url) != "file"@,
        Err(_) => folder(*url) is None,
    },
//@@ + closure 1 `|()|`
|p1_in: ()| -> (e: anyhow::Error)
//@@ end
//@@ endimpl
//@@ source crates/workspace/src/settings.rs
//@@ item struct Settings
//@@   public
//@@ end
//@@ source crates/lsp/src/notifications/sync_file_settings.rs
//@@ item struct SyncFileSettingsParams
//@@   public
//@@ end
//@@ item struct FileSettings
//@@   public
//@@ end
//@@ item struct FileFormatSettings
//@@   public
//@@ end
//@@ impl FileFormatSettings
//@@ item fn FileFormatSettings::from_format_settings
//@@   ret r
//@@   public
//@@ + spec
    ensures r.indent_style == settings.indent_style, r.indent_width == settings.indent_width, r.line_width == settings.line_width,
//@@ end
//@@ endimpl
//@@ impl LspState
//@@ item fn LspState::sync_file_settings
//@@   public
//@@   rewrite `urls: Vec<Url>` => `urls: Urls`
//@@ + body
    let ghost us = urls@;
//@@ + before `self.client`
    proof { assert(exists|o: Seq<Option<FileSettings>>| #![trigger somes(o)] all_told(self.workspace_settings_resolver, us, o, params.file_settings@)); }
//@@ + closure 1 `|url|`
|url: Url| -> (o: Option<FileSettings>)
    ensures told(self.workspace_settings_resolver, url, o)
//@@ + spec
    requires
        wf(self.workspace_settings_resolver),
        self.settings.sync_file_settings_with_client ==> forall|p: SyncFileSettingsParams|
            (exists|o: Seq<Option<FileSettings>>| #![trigger somes(o)] all_told(self.workspace_settings_resolver, urls@, o, p.file_settings@)) ==> #[trigger] may_tell(self.client, p),
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/settings.rs
//@@ item struct GlobalSettings
//@@   public
//@@ end
//@@ source crates/lsp/src/main_loop.rs
//@@ impl LspState
//@@ item fn LspState::workspace_document_settings
//@@   ret r
//@@   public
//@@ + spec
    requires wf(self.workspace_settings_resolver),
    ensures
        place(self.workspace_settings_resolver.path_to_settings_resolver.items@, *url) is None ==> answers(r, None),
        forall|p: Seq<int>| place(self.workspace_settings_resolver.path_to_settings_resolver.items@, *url) == Some(p) ==>
            exists|o: Option<Settings>| #[trigger] governing(self.workspace_settings_resolver.path_to_settings_resolver.items@, p, o) && answers(r, o),
//@@ end
//@@ item fn LspState::open_workspace_folder
//@@   bare 1
//@@   public
//@@ + spec
    requires wf(old(self).workspace_settings_resolver),
    ensures
        wf(final(self).workspace_settings_resolver),
        opened(old(self).workspace_settings_resolver.path_to_settings_resolver.items@, final(self).workspace_settings_resolver.path_to_settings_resolver.items@, *url),
//@@ end
//@@ item fn LspState::close_workspace_folder
//@@   public
//@@ + spec
    requires wf(old(self).workspace_settings_resolver),
    ensures
        wf(final(self).workspace_settings_resolver),
        closed(old(self).workspace_settings_resolver.path_to_settings_resolver.items@, final(self).workspace_settings_resolver.path_to_settings_resolver.items@, *url),
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/handlers_state.rs
//@@ item fn did_change_workspace_folders
//@@   ret r
//@@   public
//@@   rewrite `in params.event.added` => `in it: params.event.added`
//@@   rewrite `in params.event.removed` => `in it: params.event.removed`
//@@ + spec
    requires wf(old(lsp_state).workspace_settings_resolver),
    ensures
        wf(final(lsp_state).workspace_settings_resolver),
        r is Ok,
        exists|m: Items| #[trigger] all_opened(old(lsp_state).workspace_settings_resolver.path_to_settings_resolver.items@, m, params.event.added@, params.event.added@.len() as int)
            && all_closed(m, final(lsp_state).workspace_settings_resolver.path_to_settings_resolver.items@, params.event.removed@, params.event.removed@.len() as int),
//@@ + body
    let ghost (v, w) = (params.event.added@, params.event.removed@);
    let ghost a = lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@;
//@@ + loop 1
    invariant
        it.seq() == v, params.event.removed@ == w, wf(lsp_state.workspace_settings_resolver),
        all_opened(a, lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@, v, it.index@),
//@@ + loopbody 1
    proof { lemma_opened(a, lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@, v, it.index@); }
//@@ + loopafter 1
    let ghost m = lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@;
//@@ + loop 2
    invariant
        it.seq() == w, wf(lsp_state.workspace_settings_resolver),
        all_closed(m, lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@, w, it.index@),
//@@ + loopbody 2
    proof { lemma_closed(m, lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@, w, it.index@); }
//@@ end
//@@ item fn did_change_watched_files
//@@   ret r
//@@   public
//@@   rewrite `in &params.changes` => `in it: params.changes.iter()`
//@@ + spec
    requires
        wf(old(lsp_state).workspace_settings_resolver),
        old(lsp_state).settings.sync_file_settings_with_client ==> forall|w: WorkspaceSettingsResolver, p: SyncFileSettingsParams| #![trigger may_tell(old(lsp_state).client, p), wf(w)]
            wf(w) && all_reported(old(lsp_state).workspace_settings_resolver.path_to_settings_resolver.items@, w.path_to_settings_resolver.items@, params.changes@, params.changes@.len() as int)
            && (exists|o: Seq<Option<FileSettings>>| #![trigger somes(o)] all_told(w, state.uris(), o, p.file_settings@)) ==> may_tell(old(lsp_state).client, p),
    ensures
        wf(final(lsp_state).workspace_settings_resolver),
        r is Ok,
        all_reported(old(lsp_state).workspace_settings_resolver.path_to_settings_resolver.items@, final(lsp_state).workspace_settings_resolver.path_to_settings_resolver.items@, params.changes@, params.changes@.len() as int),
//@@ + body
    let ghost a = lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@;
    let ghost v = params.changes@;
//@@ + loop 1
    invariant
        it.seq().len() == v.len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < v.len() ==> *it.seq()[i] == v[i],
        wf(lsp_state.workspace_settings_resolver), lsp_state.settings == old(lsp_state).settings, lsp_state.client == old(lsp_state).client,
        all_reported(a, lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@, v, it.index@),
//@@ + loopbody 1
    proof { assert(*change == v[it.index@]); lemma_reported(a, lsp_state.workspace_settings_resolver.path_to_settings_resolver.items@, v, it.index@); }
//@@ end
}

fn main() {}
} // verus!
