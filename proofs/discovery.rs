// Contracts for crates/workspace/src/discovery.rs and crates/lsp/src/file_patterns.rs (properties W07, W08).
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::path::{Path, PathBuf};

/// logging has no effect: its arguments are not evaluated here
pub mod tracing {
    macro_rules! trace { ($($t:tt)*) => { () } }
    pub(crate) use trace;
}

verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(std::path::Path);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFileType(std::fs::FileType);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExMutex<T: ?Sized>(std::sync::Mutex<T>);

pub uninterp spec fn as_ref_of<A: core::marker::PointeeSized, B: core::marker::PointeeSized>(a: &A) -> &B;
pub uninterp spec fn ft_dir(f: std::fs::FileType) -> bool;

#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    fn as_ref(&self) -> (r: &T)
        ensures r == as_ref_of::<Self, T>(self);
}

pub assume_specification[ std::fs::FileType::is_dir ](f: &std::fs::FileType) -> (r: bool)
    ensures r == ft_dir(*f),
;
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> call_requires(f, (x,)),
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => r },
;

// ---------------------------------------------------------------- assumed contracts: the ignore crate
pub mod ignore {
    use super::*;
    #[verifier::external_body]
    pub struct Error { x: u8 }
    #[verifier::external_body]
    pub struct DirEntry { x: u8 }
    pub enum WalkState { Continue, Skip, Quit }

    pub trait ParallelVisitor {
        fn visit(&mut self, result: std::result::Result<DirEntry, Error>) -> WalkState;
    }

    pub uninterp spec fn entry_path(e: DirEntry) -> &'static Path;
    pub uninterp spec fn entry_path_buf(e: DirEntry) -> PathBuf;
    pub uninterp spec fn entry_depth(e: DirEntry) -> usize;
    pub uninterp spec fn entry_file_type(e: DirEntry) -> Option<std::fs::FileType>;

    impl DirEntry {
        #[verifier::external_body]
        pub fn path(&self) -> (r: &Path)
            ensures r == entry_path(*self),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn into_path(self) -> (r: PathBuf)
            ensures r == entry_path_buf(self),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn depth(&self) -> (r: usize)
            ensures r == entry_depth(*self),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn file_type(&self) -> (r: Option<std::fs::FileType>)
            ensures r == entry_file_type(*self),
        { unimplemented!() }
    }
    pub mod gitignore {
        use super::*;
        #[verifier::external_body]
        pub struct Glob { x: u8 }
    }
}

// ---------------------------------------------------------------- callees, by their contracts
use ignore::DirEntry;
use ignore::gitignore::Glob;

/// the contracts proved in unit file_patterns
macro_rules! patterns {
    ($T:ident, $m:ident, $a:ident) => {
        verus! {
        #[verifier::external_body]
        pub struct $T { x: u8 }
        pub uninterp spec fn $m<'a>(e: &'a $T, p: &Path, dir: bool) -> Option<&'a Glob>;
        pub uninterp spec fn $a<'a>(e: &'a $T, p: &Path, dir: bool) -> Option<&'a Glob>;
        impl $T {
            #[verifier::external_body]
            pub fn matched<P: AsRef<Path>>(&self, path: P, is_directory: bool) -> (r: Option<&Glob>)
                ensures r == $m(self, as_ref_of::<P, Path>(&path), is_directory),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn matched_path_or_any_parents<P: AsRef<Path>>(&self, path: P, is_directory: bool) -> (r: Option<&Glob>)
                ensures r == $a(self, as_ref_of::<P, Path>(&path), is_directory),
            { unimplemented!() }
        }
        }
    };
}
patterns!(ExcludePatterns, ex_self, ex_any);
patterns!(DefaultExcludePatterns, dx_self, dx_any);
patterns!(DefaultIncludePatterns, di_self, di_any);

macro_rules! opaque { ($($T:ident)*) => { verus! { $( #[verifier::external_body] pub struct $T { x: u8 } )* } } }
opaque!(IndentStyle IndentWidth LineEnding LineWidth PersistentLineBreaks AssignmentStyle Skip Table);

pub mod resolve {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct PathResolver<T> { x: Vec<T> }
    /// the value of the closest ancestor, or the fallback (contract proved in unit resolve)
    pub uninterp spec fn resolved<T>(r: &PathResolver<T>, p: &Path) -> &'static T;
    impl<T> PathResolver<T> {
        #[verifier::external_body]
        pub fn resolve_or_fallback<P: AsRef<Path>>(&self, path: P) -> (r: &T)
            ensures r == resolved(self, as_ref_of::<P, Path>(&path)),
        { unimplemented!() }
    }
}
use resolve::PathResolver;

pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_as_ref_path(p: &Path)
        ensures #[trigger] as_ref_of::<&Path, Path>(&p) == p;
    pub broadcast axiom fn axiom_as_ref_pathref(p: &Path)
        ensures #[trigger] as_ref_of::<Path, Path>(p) == p;
    /// std: a String equals a &str when their characters are the same
    pub axiom fn axiom_string_obeys()
        ensures <String as PartialEqSpec<&'static str>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_string_eq(a: String, b: &'static str)
        ensures #[trigger] <String as PartialEqSpec<&'static str>>::eq_spec(&a, &b) == (a@ == b@);
    pub broadcast axiom fn axiom_as_ref_ref<A>(p: &A)
        ensures #[trigger] as_ref_of::<&A, Path>(&p) == as_ref_of::<A, Path>(p);
}

// ---------------------------------------------------------------- specification
/// a file or directory found by the walk is left out
pub open spec fn out_self(s: FormatSettings, p: &Path, dir: bool) -> bool {
    (s.exclude matches Some(e) && ex_self(&e, p, dir) is Some)
        || (s.default_exclude matches Some(e) && dx_self(&e, p, dir) is Some)
}
/// a file or directory named by the user (or opened in the editor) is left out
pub open spec fn out_any(s: FormatSettings, p: &Path, dir: bool) -> bool {
    (s.exclude matches Some(e) && ex_any(&e, p, dir) is Some)
        || (s.default_exclude matches Some(e) && dx_any(&e, p, dir) is Some)
}
pub open spec fn included(s: FormatSettings, p: &Path) -> bool {
    s.default_include matches Some(e) && di_self(&e, p, false) is Some
}
use code::{FormatSettings, Settings, Exclude, Include};

pub open spec fn entry_dir(e: DirEntry) -> bool {
    match ignore::entry_file_type(e) { Some(f) => ft_dir(f), None => true }
}
/// the decision on one entry of the walk
pub open spec fn is_out(s: FormatSettings, x: Exclude, e: DirEntry) -> bool {
    match x {
        Exclude::Nothing => false,
        Exclude::Matched => if ignore::entry_depth(e) == 0 { out_any(s, ignore::entry_path(e), entry_dir(e)) } else { out_self(s, ignore::entry_path(e), entry_dir(e)) },
    }
}
pub open spec fn is_found(s: FormatSettings, x: Exclude, i: Include, e: DirEntry) -> bool {
    !is_out(s, x, e) && !entry_dir(e) && (i is Everything || included(s, ignore::entry_path(e)))
}

pub mod code {
use super::*;
broadcast use {ax::axiom_as_ref_path, ax::axiom_as_ref_pathref, ax::axiom_as_ref_ref};

//@@ source crates/workspace/src/settings.rs
//@@ item struct Settings
//@@   public
//@@ end
//@@ item struct FormatSettings
//@@   public
//@@ end
//@@ source crates/workspace/src/discovery.rs
//@@ item type DiscoveredFiles
//@@   public
//@@ end
//@@ item enum Mode
//@@   public
//@@ end
//@@ item enum Exclude
//@@   public
//@@ end
//@@ item enum Include
//@@   public
//@@ end
//@@ item struct FilesState
//@@   public
//@@ end
//@@ item struct FilesVisitor
//@@   public
//@@ end
//@@ item fn any_exclude_matched_path
//@@   ret r
//@@   closures 2
//@@ + spec
    ensures r is Some <==> (exclude matches Some(e) && ex_self(e, as_ref_of::<P, Path>(&path), is_directory) is Some)
            || (default_exclude matches Some(e) && dx_self(e, as_ref_of::<P, Path>(&path), is_directory) is Some),
//@@ + closure 1 `|exclude|`
|exclude: &'patterns ExcludePatterns| -> (r: Option<&'patterns Glob>)
    ensures r == ex_self(exclude, path, is_directory)
//@@ + closure 2 `|default_exclude|`
|default_exclude: &'patterns DefaultExcludePatterns| -> (r: Option<&'patterns Glob>)
    ensures r == dx_self(default_exclude, path, is_directory)
//@@ end
//@@ item fn any_exclude_matched_path_or_any_parents
//@@   ret r
//@@   closures 2
//@@ + spec
    ensures r is Some <==> (exclude matches Some(e) && ex_any(e, as_ref_of::<P, Path>(&path), is_directory) is Some)
            || (default_exclude matches Some(e) && dx_any(e, as_ref_of::<P, Path>(&path), is_directory) is Some),
//@@ + closure 1 `|exclude|`
|exclude: &'patterns ExcludePatterns| -> (r: Option<&'patterns Glob>)
    ensures r == ex_any(exclude, path, is_directory)
//@@ + closure 2 `|default_exclude|`
|default_exclude: &'patterns DefaultExcludePatterns| -> (r: Option<&'patterns Glob>)
    ensures r == dx_any(default_exclude, path, is_directory)
//@@ end
//@@ item fn any_include_matched_path
//@@   ret r
//@@   closures 1
//@@ + spec
    ensures r is Some <==> (default_include matches Some(e) && di_self(e, as_ref_of::<P, Path>(&path), false) is Some),
//@@ + closure 1 `|default_include|`
|default_include: &DefaultIncludePatterns| -> (r: Option<&Glob>)
    ensures r == di_self(default_include, path, IS_DIRECTORY)
//@@ end

//@@ impl FilesVisitor
//@@ item fn FilesVisitor::visit_format
//@@   ret r
//@@   closures 1
//@@ + spec
    ensures
        final(self).state == old(self).state,
        ({
            let st = *old(self).state;
            let s = resolve::resolved(st.resolver, ignore::entry_path(entry)).format;
            &&& (r is Skip <==> is_out(s, st.exclude, entry)) && (r is Continue <==> !is_out(s, st.exclude, entry))
            &&& final(self).files@ == (if is_found(s, st.exclude, st.include, entry) { old(self).files@.push(Ok(ignore::entry_path_buf(entry))) } else { old(self).files@ })
        }),
//@@ + closure 1 `|ft|`
|ft: std::fs::FileType| -> (r: bool)
    ensures r == ft_dir(ft)
//@@ end
//@@ endimpl
//@@ impl FilesVisitor ParallelVisitor
//@@ item fn FilesVisitor<ParallelVisitor>::visit
//@@   ret r
//@@ + spec
    ensures
        final(self).state == old(self).state,
        match result {
            Err(e) => r is Continue && final(self).files@ == old(self).files@.push(Err(e)),
            Ok(entry) => {
                let st = *old(self).state;
                let s = resolve::resolved(st.resolver, ignore::entry_path(entry)).format;
                &&& (r is Skip <==> is_out(s, st.exclude, entry)) && (r is Continue <==> !is_out(s, st.exclude, entry))
                &&& final(self).files@ == (if is_found(s, st.exclude, st.include, entry) { old(self).files@.push(Ok(ignore::entry_path_buf(entry))) } else { old(self).files@ })
            },
        },
//@@ end
//@@ endimpl
}

/// the server
pub mod workspace { pub mod discovery { pub use crate::code::*; } }
pub mod lsp {
use super::*;
broadcast use {ax::axiom_string_eq, ax::axiom_as_ref_path, ax::axiom_as_ref_pathref, ax::axiom_as_ref_ref};
//@@ source crates/lsp/src/file_patterns.rs
//@@ item fn is_document_excluded_from_formatting
//@@   ret r
//@@ + spec
    ensures r == (out_any(*format_settings, path, false) || !(included(*format_settings, path) || language_id@ == "r"@)),
//@@ end
//@@ item fn is_document_excluded
//@@   ret r
//@@ + spec
    ensures r == (
        (exclude matches Some(e) && ex_any(e, path, false) is Some)
        || (default_exclude matches Some(e) && dx_any(e, path, false) is Some)
        || !((default_include matches Some(e) && di_self(e, path, false) is Some) || language_id@ == "r"@)),
//@@ + body
    proof { ax::axiom_string_obeys(); }
//@@ end
}

fn main() {}
} // verus!
