// Contracts for crates/workspace/src/file_patterns.rs and settings/exclude_patterns.rs (property W03).
#![feature(allocator_api, sized_hierarchy, pattern)]
#![allow(unused_imports, non_snake_case, dead_code)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::path::{Path, PathBuf};
verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(std::path::Path);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);

/// the components of a path
pub uninterp spec fn comps(p: &Path) -> Seq<int>;
pub uninterp spec fn bcomps(p: PathBuf) -> Seq<int>;
pub uninterp spec fn has_parent(p: &Path) -> bool;
pub uninterp spec fn parent_of(p: &Path) -> &Path;
pub uninterp spec fn as_ref_of<A: core::marker::PointeeSized, B: core::marker::PointeeSized>(a: &A) -> &B;

#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    fn as_ref(&self) -> (r: &T)
        ensures r == as_ref_of::<Self, T>(self);
}

pub assume_specification[ Path::parent ](p: &Path) -> (r: Option<&Path>)
    ensures match r { Some(q) => has_parent(p) && q == parent_of(p), None => !has_parent(p) },
;
pub assume_specification[ PathBuf::new ]() -> (r: PathBuf)
    ensures bcomps(r).len() == 0,
;

// ---------------------------------------------------------------- assumed contracts: the ignore crate
pub mod ignore {
    use super::*;
    #[verifier::external_body]
    pub struct Error { x: u8 }

    pub enum Match<T> { None, Ignore(T), Whitelist(T) }

    pub mod gitignore {
        use super::*;

        #[verifier::external_body]
        pub struct Glob { x: u8 }
        #[verifier::external_body]
        pub struct Gitignore { x: u8 }
        #[verifier::external_body]
        pub struct GitignoreBuilder { x: u8 }

        /// the pattern lines a matcher was built from, and its root
        pub uninterp spec fn lines_of(g: Gitignore) -> Seq<Seq<char>>;
        pub uninterp spec fn root_of(g: Gitignore) -> Seq<int>;
        pub uninterp spec fn blines_of(g: GitignoreBuilder) -> Seq<Seq<char>>;
        pub uninterp spec fn broot_of(g: GitignoreBuilder) -> Seq<int>;
        /// the last pattern line that matches this very path, if any
        pub uninterp spec fn self_match<'a>(g: &'a Gitignore, p: &Path, dir: bool) -> Match<&'a Glob>;
        /// ... or else its closest parent that matches (the library's own walk)
        pub uninterp spec fn any_match<'a>(g: &'a Gitignore, p: &Path, dir: bool) -> Match<&'a Glob>;

        impl Gitignore {
            #[verifier::external_body]
            pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> (r: Match<&Glob>)
                ensures r == self_match(self, as_ref_of::<P, Path>(&path), is_dir),
            { unimplemented!() }

            #[verifier::external_body]
            pub fn matched_path_or_any_parents<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> (r: Match<&Glob>)
                ensures r == any_match(self, as_ref_of::<P, Path>(&path), is_dir),
            { unimplemented!() }
        }

        impl GitignoreBuilder {
            #[verifier::external_body]
            pub fn new<P: AsRef<Path>>(root: P) -> (r: GitignoreBuilder)
                ensures blines_of(r).len() == 0, broot_of(r) == comps(as_ref_of::<P, Path>(&root)),
            { unimplemented!() }

            #[verifier::external_body]
            pub fn add_line(&mut self, from: Option<PathBuf>, line: &str) -> (r: Result<u8, Error>)
                ensures
                    simple(line@) ==> r is Ok,
                    r is Ok ==> blines_of(*final(self)) == blines_of(*old(self)).push(line@) && broot_of(*final(self)) == broot_of(*old(self)),
            { unimplemented!() }

            #[verifier::external_body]
            pub fn build(&self) -> (r: Result<Gitignore, Error>)
                ensures
                    all_simple(blines_of(*self)) ==> r is Ok,
                    r matches Ok(g) ==> lines_of(g) == blines_of(*self) && root_of(g) == broot_of(*self),
            { unimplemented!() }
        }
    }
}

pub mod anyhow {
    use super::*;
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    impl core::fmt::Debug for Error {
        #[verifier::external_body]
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
    }
    impl From<ignore::Error> for Error {
        #[verifier::external_body]
        fn from(e: ignore::Error) -> Error { unimplemented!() }
    }
}

pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_as_ref_path(p: &Path)
        ensures #[trigger] as_ref_of::<&Path, Path>(&p) == p;
    pub broadcast axiom fn axiom_as_ref_pathref(p: &Path)
        ensures #[trigger] as_ref_of::<Path, Path>(p) == p;
    /// a parent is shorter
    pub broadcast axiom fn axiom_parent(p: &Path)
        ensures has_parent(p) ==> comps(#[trigger] parent_of(p)).len() < comps(p).len();
    pub broadcast axiom fn axiom_as_ref_pathbuf(p: PathBuf)
        ensures comps(#[trigger] as_ref_of::<PathBuf, Path>(&p)) == bcomps(p);
}

// ---------------------------------------------------------------- specification
use ignore::gitignore::{Gitignore, GitignoreBuilder, Glob, self_match, any_match, lines_of, root_of, blines_of, broot_of};
use ignore::Match;

pub open spec fn strs(v: Seq<&str>) -> Seq<Seq<char>> { v.map(|i, s: &str| s@) }

/// a whitelisted path counts as not matched
pub open spec fn ignored<'a>(m: Match<&'a Glob>) -> Option<&'a Glob> {
    match m { Match::Ignore(g) => Some(g), _ => None }
}

/// the glob that matches the path itself, or else the closest parent directory's
pub open spec fn walk<'a>(g: &'a Gitignore, p: &Path, dir: bool) -> Option<&'a Glob>
    decreases comps(p).len(),
{
    match ignored(self_match(g, p, dir)) {
        Some(x) => Some(x),
        None => if has_parent(p) && comps(parent_of(p)).len() < comps(p).len() { walk(g, parent_of(p), true) } else { None },
    }
}

// ---------------------------------------------------------------- what simple patterns mean
/// `*` is any run of characters, `[ab]` one of two, anything else itself
pub open spec fn glob(p: Seq<char>, n: Seq<char>) -> bool
    decreases p.len() + n.len(),
{
    if p.len() == 0 {
        n.len() == 0
    } else if p[0] == '*' {
        glob(p.skip(1), n) || (n.len() > 0 && glob(p, n.skip(1)))
    } else if p[0] == '[' && p.len() >= 4 {
        n.len() > 0 && (n[0] == p[1] || n[0] == p[2]) && glob(p.skip(4), n.skip(1))
    } else {
        n.len() > 0 && n[0] == p[0] && glob(p.skip(1), n.skip(1))
    }
}
/// nothing else that gitignore's globs give a meaning
pub open spec fn simple_glob(p: Seq<char>) -> bool
    decreases p.len(),
{
    if p.len() == 0 {
        true
    } else if p[0] == '[' {
        p.len() >= 4 && p[3] == ']' && p[1] != '!' && p[1] != '^' && p[1] != '-' && p[1] != ']' && p[2] != '-' && p[2] != ']' && simple_glob(p.skip(4))
    } else {
        p[0] != '?' && p[0] != '\\' && p[0] != '{' && p[0] != '}' && p[0] != ']' && p[0] != '/' && p[0] != ' '
            && (p[0] == '*' && p.len() > 1 ==> p[1] != '*') && simple_glob(p.skip(1))
    }
}
pub open spec fn for_dirs(l: Seq<char>) -> bool { l.len() > 3 && l.last() == '/' }
pub open spec fn name_part(l: Seq<char>) -> Seq<char> { if for_dirs(l) { l.subrange(3, l.len() - 1) } else { l.skip(3) } }
/// `**/NAME`, or `**/NAME/` for directories only
pub open spec fn simple(l: Seq<char>) -> bool {
    l.len() > 3 && l[0] == '*' && l[1] == '*' && l[2] == '/' && name_part(l).len() > 0 && simple_glob(name_part(l))
}
pub open spec fn all_simple(ls: Seq<Seq<char>>) -> bool { forall|i| 0 <= i < ls.len() ==> simple(#[trigger] ls[i]) }
/// does the line take a path at any depth whose last component is this name?
pub open spec fn takes(l: Seq<char>, n: Seq<char>, dir: bool) -> bool {
    (for_dirs(l) ==> dir) && glob(name_part(l), n)
}
pub open spec fn any_takes(ls: Seq<Seq<char>>, n: Seq<char>, dir: bool) -> bool { exists|i| 0 <= i < ls.len() && takes(#[trigger] ls[i], n, dir) }
/// the last component of a path, if it has one
pub uninterp spec fn last_name(p: &Path) -> Option<Seq<char>>;
pub mod ax_globs {
    use super::*;
    /// gitignore's meaning of such patterns, for a matcher without a root
    pub broadcast axiom fn axiom_simple(g: &Gitignore, p: &Path, dir: bool)
        requires root_of(*g).len() == 0, all_simple(lines_of(*g)),
        ensures
            ignored(#[trigger] self_match(g, p, dir)) is Some == (last_name(p) matches Some(n) && any_takes(lines_of(*g), n, dir));
}

// ---- the default patterns, as documented
pub open spec fn default_excludes(n: Seq<char>, dir: bool) -> bool {
    ||| dir && (n == ".git"@ || n == "renv"@ || n == "revdep"@)
    ||| n == "cpp11.R"@ || n == "RcppExports.R"@ || n == "extendr-wrappers.R"@
    ||| n.len() >= "import-standalone-"@.len() + ".R"@.len() && n.take("import-standalone-"@.len() as int) == "import-standalone-"@
        && n.skip(n.len() - ".R"@.len()) == ".R"@
}
pub open spec fn default_includes(n: Seq<char>) -> bool {
    n.len() >= 2 && n[n.len() - 2] == '.' && (n.last() == 'R' || n.last() == 'r')
}
pub open spec fn unmeant(c: char) -> bool {
    c != '*' && c != '[' && c != '?' && c != '\\' && c != '{' && c != '}' && c != ']' && c != '/' && c != ' '
}
pub open spec fn plain(p: Seq<char>) -> bool { forall|i| 0 <= i < p.len() ==> unmeant(#[trigger] p[i]) }
/// a plain beginning stands for itself
pub proof fn lemma_plain(a: Seq<char>, q: Seq<char>, n: Seq<char>)
    requires plain(a),
    ensures glob(a + q, n) == (n.len() >= a.len() && n.take(a.len() as int) == a && glob(q, n.skip(a.len() as int))),
        simple_glob(q) ==> simple_glob(a + q),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + q =~= q);
        assert(n.skip(0) =~= n);
        assert(n.take(0) =~= a);
    } else {
        let p = a + q;
        assert(p[0] == a[0]);
        assert(p.skip(1) =~= a.skip(1) + q);
        assert(unmeant(a[0]));
        assert forall|i| 0 <= i < a.skip(1).len() implies unmeant(#[trigger] a.skip(1)[i]) by { assert(a.skip(1)[i] == a[i + 1]); }
        if n.len() > 0 {
            lemma_plain(a.skip(1), q, n.skip(1));
            if n.len() >= a.len() {
                assert(n.skip(1).skip(a.len() - 1) =~= n.skip(a.len() as int));
                if n[0] == a[0] && n.skip(1).take(a.len() - 1) == a.skip(1) {
                    assert forall|k| 0 <= k < a.len() implies n[k] == a[k] by {
                        if k > 0 { assert(n[k] == n.skip(1).take(a.len() - 1)[k - 1]); assert(a[k] == a.skip(1)[k - 1]); }
                    }
                    assert(n.take(a.len() as int) =~= a);
                }
                if n.take(a.len() as int) == a {
                    assert(n[0] == n.take(a.len() as int)[0]);
                    assert forall|k| 0 <= k < a.len() - 1 implies n.skip(1)[k] == a.skip(1)[k] by { assert(n[k + 1] == n.take(a.len() as int)[k + 1]); }
                    assert(n.skip(1).take(a.len() - 1) =~= a.skip(1));
                }
            }
        } else {
            lemma_plain(a.skip(1), q, n);
        }
    }
}
/// a star stands for any beginning
pub proof fn lemma_star(p: Seq<char>, n: Seq<char>)
    requires p.len() > 0, p[0] == '*',
    ensures glob(p, n) == (exists|k: int| 0 <= k <= n.len() && #[trigger] glob(p.skip(1), n.skip(k))),
    decreases n.len(),
{
    assert(n.skip(0) =~= n);
    assert(glob(p.skip(1), n.skip(0)) == glob(p.skip(1), n));
    if n.len() > 0 {
        lemma_star(p, n.skip(1));
        if glob(p, n.skip(1)) {
            let k = choose|k: int| 0 <= k <= n.skip(1).len() && #[trigger] glob(p.skip(1), n.skip(1).skip(k));
            assert(n.skip(1).skip(k) =~= n.skip(k + 1));
            assert(glob(p.skip(1), n.skip(k + 1)));
        }
        if exists|k: int| 0 <= k <= n.len() && #[trigger] glob(p.skip(1), n.skip(k)) {
            let k = choose|k: int| 0 <= k <= n.len() && #[trigger] glob(p.skip(1), n.skip(k));
            if k > 0 { assert(n.skip(1).skip(k - 1) =~= n.skip(k)); }
        }
    }
}
/// `**/NAME` and `**/NAME/` of a plain name
pub proof fn lemma_line(l: Seq<char>, a: Seq<char>, slash: bool)
    requires plain(a), a.len() > 0, a.last() != '/', l == seq!['*', '*', '/'] + a + (if slash { seq!['/'] } else { seq![] }),
    ensures simple(l), forall|n: Seq<char>, dir: bool| #[trigger] takes(l, n, dir) == ((slash ==> dir) && n == a),
{
    assert(l.last() == (if slash { '/' } else { a.last() }));
    assert(name_part(l) =~= a);
    lemma_plain(a, seq![], seq![]);
    assert(a + Seq::<char>::empty() =~= a);
    assert forall|n: Seq<char>, dir: bool| #[trigger] takes(l, n, dir) == ((slash ==> dir) && n == a) by {
        lemma_plain(a, seq![], n);
        if n.len() >= a.len() && n.skip(a.len() as int).len() == 0 { assert(n.take(a.len() as int) =~= n); }
        if n == a { assert(n.take(a.len() as int) =~= a); }
    }
}
pub proof fn lemma_git() ensures simple("**/.git/"@), forall|n: Seq<char>, dir: bool| #[trigger] takes("**/.git/"@, n, dir) == (dir && n == ".git"@)
{
    reveal_strlit("**/.git/"); reveal_strlit(".git");
    let a = seq!['.', 'g', 'i', 't'];
    assert(plain(a));
    assert(".git"@ =~= a);
    assert("**/.git/"@ =~= seq!['*', '*', '/'] + a + seq!['/']);
    lemma_line("**/.git/"@, a, true);
}
pub proof fn lemma_renv() ensures simple("**/renv/"@), forall|n: Seq<char>, dir: bool| #[trigger] takes("**/renv/"@, n, dir) == (dir && n == "renv"@)
{
    reveal_strlit("**/renv/"); reveal_strlit("renv");
    let a = seq!['r', 'e', 'n', 'v'];
    assert(plain(a));
    assert("renv"@ =~= a);
    assert("**/renv/"@ =~= seq!['*', '*', '/'] + a + seq!['/']);
    lemma_line("**/renv/"@, a, true);
}
pub proof fn lemma_revdep() ensures simple("**/revdep/"@), forall|n: Seq<char>, dir: bool| #[trigger] takes("**/revdep/"@, n, dir) == (dir && n == "revdep"@)
{
    reveal_strlit("**/revdep/"); reveal_strlit("revdep");
    let a = seq!['r', 'e', 'v', 'd', 'e', 'p'];
    assert(plain(a));
    assert("revdep"@ =~= a);
    assert("**/revdep/"@ =~= seq!['*', '*', '/'] + a + seq!['/']);
    lemma_line("**/revdep/"@, a, true);
}
pub proof fn lemma_cpp11() ensures simple("**/cpp11.R"@), forall|n: Seq<char>, dir: bool| #[trigger] takes("**/cpp11.R"@, n, dir) == (n == "cpp11.R"@)
{
    reveal_strlit("**/cpp11.R"); reveal_strlit("cpp11.R");
    let a = seq!['c', 'p', 'p', '1', '1', '.', 'R'];
    assert(plain(a));
    assert("cpp11.R"@ =~= a);
    assert("**/cpp11.R"@ =~= seq!['*', '*', '/'] + a + seq![]);
    lemma_line("**/cpp11.R"@, a, false);
}
pub proof fn lemma_rcpp() ensures simple("**/RcppExports.R"@), forall|n: Seq<char>, dir: bool| #[trigger] takes("**/RcppExports.R"@, n, dir) == (n == "RcppExports.R"@)
{
    reveal_strlit("**/RcppExports.R"); reveal_strlit("RcppExports.R");
    let a = seq!['R', 'c', 'p', 'p', 'E', 'x', 'p', 'o', 'r', 't', 's', '.', 'R'];
    assert(plain(a));
    assert("RcppExports.R"@ =~= a);
    assert("**/RcppExports.R"@ =~= seq!['*', '*', '/'] + a + seq![]);
    lemma_line("**/RcppExports.R"@, a, false);
}
pub proof fn lemma_extendr() ensures simple("**/extendr-wrappers.R"@), forall|n: Seq<char>, dir: bool| #[trigger] takes("**/extendr-wrappers.R"@, n, dir) == (n == "extendr-wrappers.R"@)
{
    reveal_strlit("**/extendr-wrappers.R"); reveal_strlit("extendr-wrappers.R");
    let a = seq!['e', 'x', 't', 'e', 'n', 'd', 'r', '-', 'w', 'r', 'a', 'p', 'p', 'e', 'r', 's', '.', 'R'];
    assert(plain(a));
    assert("extendr-wrappers.R"@ =~= a);
    assert("**/extendr-wrappers.R"@ =~= seq!['*', '*', '/'] + a + seq![]);
    lemma_line("**/extendr-wrappers.R"@, a, false);
}
pub open spec fn standalone(n: Seq<char>) -> bool {
    n.len() >= "import-standalone-"@.len() + ".R"@.len() && n.take("import-standalone-"@.len() as int) == "import-standalone-"@
        && n.skip(n.len() - ".R"@.len()) == ".R"@
}
pub proof fn lemma_standalone() ensures simple("**/import-standalone-*.R"@), forall|n: Seq<char>, dir: bool| #[trigger] takes("**/import-standalone-*.R"@, n, dir) == standalone(n)
{
    reveal_strlit("**/import-standalone-*.R"); reveal_strlit("import-standalone-"); reveal_strlit(".R");
    let l = "**/import-standalone-*.R"@;
    let a = seq!['i', 'm', 'p', 'o', 'r', 't', '-', 's', 't', 'a', 'n', 'd', 'a', 'l', 'o', 'n', 'e', '-'];
    let q = seq!['*', '.', 'R'];
    let e = seq!['.', 'R'];
    assert(plain(a));
    assert(plain(e));
    assert("import-standalone-"@ =~= a);
    assert(".R"@ =~= e);
    assert(name_part(l) =~= a + q);
    assert(q.skip(1) =~= e);
    lemma_plain(e, seq![], seq![]);
    assert(e + Seq::<char>::empty() =~= e);
    assert(simple_glob(q));
    lemma_plain(a, q, seq![]);
    assert(simple(l));
    assert forall|n: Seq<char>, dir: bool| #[trigger] takes(l, n, dir) == standalone(n) by {
        lemma_plain(a, q, n);
        if n.len() >= a.len() {
            let m = n.skip(a.len() as int);
            lemma_star(q, m);
            assert forall|k: int| 0 <= k <= m.len() implies #[trigger] glob(e, m.skip(k)) == (m.skip(k) == e) by {
                lemma_plain(e, seq![], m.skip(k));
                let w = m.skip(k);
                if w.len() >= 2 && w.skip(2).len() == 0 { assert(w.take(2) =~= w); }
                if w == e { assert(w.take(2) =~= e); }
            }
            if m.len() >= 2 {
                assert(m.skip(m.len() - 2) =~= n.skip(n.len() - 2));
                if n.skip(n.len() - 2) == e { assert(glob(e, m.skip(m.len() - 2))); }
            }
            if exists|k: int| 0 <= k <= m.len() && #[trigger] glob(q.skip(1), m.skip(k)) {
                let k = choose|k: int| 0 <= k <= m.len() && #[trigger] glob(q.skip(1), m.skip(k));
                assert(m.skip(k).len() == 2);
                assert(k == m.len() - 2);
            }
        }
    }
}
pub proof fn lemma_include() ensures simple("**/*.[Rr]"@), forall|n: Seq<char>, dir: bool| #[trigger] takes("**/*.[Rr]"@, n, dir) == default_includes(n)
{
    reveal_strlit("**/*.[Rr]");
    let l = "**/*.[Rr]"@;
    let q = seq!['*', '.', '[', 'R', 'r', ']'];
    assert(name_part(l) =~= q);
    assert(simple_glob(q)) by {
        assert(q.skip(1)[0] == '.');
        assert(q.skip(1).skip(1) =~= seq!['[', 'R', 'r', ']']);
        assert(seq!['[', 'R', 'r', ']'].skip(4) =~= seq![]);
        assert(simple_glob(q.skip(1).skip(1).skip(4)));
        assert(simple_glob(q.skip(1).skip(1)));
        assert(simple_glob(q.skip(1)));
    }
    assert forall|n: Seq<char>, dir: bool| #[trigger] takes(l, n, dir) == default_includes(n) by {
        lemma_star(q, n);
        assert forall|k: int| 0 <= k <= n.len() implies #[trigger] glob(q.skip(1), n.skip(k)) == (n.len() - k == 2 && n[k] == '.' && (n[k + 1] == 'R' || n[k + 1] == 'r')) by {
            let w = n.skip(k);
            let c = seq!['[', 'R', 'r', ']'];
            assert(q.skip(1).skip(1) =~= c);
            assert(glob(q.skip(1), w) == (w.len() > 0 && w[0] == '.' && glob(c, w.skip(1))));
            if w.len() > 0 {
                let v = w.skip(1);
                assert(c.skip(4) =~= seq![]);
                assert(glob(c, v) == (v.len() > 0 && (v[0] == 'R' || v[0] == 'r') && glob(c.skip(4), v.skip(1))));
                if v.len() > 0 { assert(glob(c.skip(4), v.skip(1)) == (v.skip(1).len() == 0)); }
            }
        }
        if default_includes(n) { assert(glob(q.skip(1), n.skip(n.len() - 2))); }
    }
}
pub open spec fn listed(ls: Seq<Seq<char>>) -> bool {
    &&& ls.contains("**/.git/"@) &&& ls.contains("**/renv/"@) &&& ls.contains("**/revdep/"@) &&& ls.contains("**/cpp11.R"@)
    &&& ls.contains("**/RcppExports.R"@) &&& ls.contains("**/extendr-wrappers.R"@) &&& ls.contains("**/import-standalone-*.R"@)
    &&& forall|i| 0 <= i < ls.len() ==> {
        ||| #[trigger] ls[i] == "**/.git/"@ ||| ls[i] == "**/renv/"@ ||| ls[i] == "**/revdep/"@ ||| ls[i] == "**/cpp11.R"@
        ||| ls[i] == "**/RcppExports.R"@ ||| ls[i] == "**/extendr-wrappers.R"@ ||| ls[i] == "**/import-standalone-*.R"@
    }
}
pub proof fn lemma_has(ls: Seq<Seq<char>>, l: Seq<char>, n: Seq<char>, dir: bool)
    requires ls.contains(l), takes(l, n, dir),
    ensures any_takes(ls, n, dir),
{
    let i = choose|i: int| 0 <= i < ls.len() && ls[i] == l;
    assert(takes(ls[i], n, dir));
}
pub proof fn lemma_listed(ls: Seq<Seq<char>>)
    requires listed(ls),
    ensures all_simple(ls), forall|n: Seq<char>, dir: bool| #[trigger] any_takes(ls, n, dir) == default_excludes(n, dir),
{
    lemma_git(); lemma_renv(); lemma_revdep(); lemma_cpp11(); lemma_rcpp(); lemma_extendr(); lemma_standalone();
    assert forall|n: Seq<char>, dir: bool| #[trigger] any_takes(ls, n, dir) == default_excludes(n, dir) by {
        if takes("**/.git/"@, n, dir) { lemma_has(ls, "**/.git/"@, n, dir); }
        if takes("**/renv/"@, n, dir) { lemma_has(ls, "**/renv/"@, n, dir); }
        if takes("**/revdep/"@, n, dir) { lemma_has(ls, "**/revdep/"@, n, dir); }
        if takes("**/cpp11.R"@, n, dir) { lemma_has(ls, "**/cpp11.R"@, n, dir); }
        if takes("**/RcppExports.R"@, n, dir) { lemma_has(ls, "**/RcppExports.R"@, n, dir); }
        if takes("**/extendr-wrappers.R"@, n, dir) { lemma_has(ls, "**/extendr-wrappers.R"@, n, dir); }
        if takes("**/import-standalone-*.R"@, n, dir) { lemma_has(ls, "**/import-standalone-*.R"@, n, dir); }
        if any_takes(ls, n, dir) {
            let i = choose|i: int| 0 <= i < ls.len() && takes(#[trigger] ls[i], n, dir);
            assert(takes(ls[i], n, dir));
        }
    }
}
/// the copies of a static list of texts
#[verifier::external_body]
pub fn each(s: &'static [&'static str]) -> (r: std::vec::IntoIter<&'static str>)
    ensures r.remaining() == s@, r.obeys_prophetic_iter_laws(), r.decrease() is Some,
{ unimplemented!() }

pub mod code {
use super::*;
broadcast use {ax::axiom_as_ref_path, ax::axiom_as_ref_pathref, ax::axiom_parent, ax::axiom_as_ref_pathbuf, ax_globs::axiom_simple};

//@@ source crates/workspace/src/file_patterns.rs
//@@ item struct FilePatterns
//@@   public
//@@ end
//@@ item struct DefaultFilePatterns
//@@   public
//@@ end
//@@ impl FilePatterns
//@@ item fn FilePatterns::try_from_iter
//@@   ret r
//@@   rewrite `I : IntoIterator < Item = & 'str str > ,` => `I: Iterator<Item = &'str str>,`
//@@   rewrite `for pattern in patterns` => `for pattern in it: patterns`
//@@ + spec
    requires patterns.obeys_prophetic_iter_laws(), patterns.decrease() is Some,
    ensures r matches Ok(f) ==> lines_of(f.matcher) == strs(patterns.remaining()) && root_of(f.matcher) == comps(as_ref_of::<P, Path>(&root)),
//@@ + loop 1 `for pattern in patterns`
    invariant
        it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
        it.seq() == patterns.remaining(),
        blines_of(builder) == strs(patterns.remaining().take(it.index@)),
        broot_of(builder) == comps(as_ref_of::<P, Path>(&root)),
//@@ + loopbody 1
    proof { assert(strs(patterns.remaining().take(it.index@ + 1)) =~= strs(patterns.remaining().take(it.index@)).push(pattern@)); }
//@@ + loopafter 1
    proof { assert(patterns.remaining().take(patterns.remaining().len() as int) =~= patterns.remaining()); }
//@@ end
//@@ item fn FilePatterns::matched
//@@   ret r
//@@ + spec
    ensures r == ignored(self_match(&self.matcher, as_ref_of::<P, Path>(&path), is_directory)),
//@@ end
//@@ item fn FilePatterns::matched_path_or_any_parents
//@@   ret r
//@@ + spec
    ensures r == ignored(any_match(&self.matcher, as_ref_of::<P, Path>(&path), is_directory)),
//@@ end
//@@ endimpl
//@@ impl DefaultFilePatterns
//@@ item fn DefaultFilePatterns::try_from_iter
//@@   ret r
//@@   rewrite `I : IntoIterator < Item = & 'str str > ,` => `I: Iterator<Item = &'str str>,`
//@@   rewrite `for pattern in patterns` => `for pattern in it: patterns`
//@@   rewrite `debug_assert ! ( pattern . starts_with ( "**/" ) ) ;` => ``
//@@ + spec
    requires patterns.obeys_prophetic_iter_laws(), patterns.decrease() is Some,
    ensures
        all_simple(strs(patterns.remaining())) ==> r is Ok,
        r matches Ok(f) ==> lines_of(f.matcher) == strs(patterns.remaining()) && root_of(f.matcher).len() == 0,
//@@ + loop 1 `for pattern in patterns`
    invariant
        it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
        it.seq() == patterns.remaining(),
        blines_of(builder) == strs(patterns.remaining().take(it.index@)),
        broot_of(builder).len() == 0,
//@@ + loopbody 1
    proof { assert(strs(patterns.remaining())[it.index@] == pattern@); assert(strs(patterns.remaining().take(it.index@ + 1)) =~= strs(patterns.remaining().take(it.index@)).push(pattern@)); }
//@@ + loopafter 1
    proof { assert(patterns.remaining().take(patterns.remaining().len() as int) =~= patterns.remaining()); }
//@@ end
//@@ item fn DefaultFilePatterns::matched
//@@   ret r
//@@ + spec
    ensures r == ignored(self_match(&self.matcher, as_ref_of::<P, Path>(&path), is_directory)),
//@@ end
//@@ item fn DefaultFilePatterns::matched_path_or_any_parents
//@@   ret r
//@@   attr #[verifier::loop_isolation(false)]
//@@ + spec
    ensures r == walk(&self.matcher, as_ref_of::<P, Path>(&path), is_directory),
//@@ + loop 1 `while let Some(parent) = path.parent()`
    invariant
        walk(&self.matcher, path0, is_directory) == (if has_parent(path) { walk(&self.matcher, parent_of(path), true) } else { None }),
    decreases comps(path).len(),
//@@ + after `let mut path = path.as_ref();`
    let ghost path0 = path;
//@@ end
//@@ endimpl

//@@ source crates/workspace/src/settings/exclude_patterns.rs
//@@ item struct ExcludePatterns
//@@   public
//@@ end
//@@ impl ExcludePatterns
//@@ item fn ExcludePatterns::try_from_iter
//@@   ret r
//@@   rewrite `I : IntoIterator < Item = & 'str str > ,` => `I: Iterator<Item = &'str str>,`
//@@ + spec
    requires patterns.obeys_prophetic_iter_laws(), patterns.decrease() is Some,
    ensures r matches Ok(f) ==> lines_of(f.0.matcher) == strs(patterns.remaining()) && root_of(f.0.matcher) == comps(as_ref_of::<P, Path>(&root)),
//@@ end
//@@ endimpl

//@@ source crates/workspace/src/settings/default_exclude_patterns.rs
//@@ rewrite* `DEFAULT_EXCLUDE_PATTERN_NAMES . iter ( ) . copied ( )` => `each(DEFAULT_EXCLUDE_PATTERN_NAMES())`
//@@ item static DEFAULT_EXCLUDE_PATTERN_NAMES
//@@   asfn
//@@   type &'static [&'static str]
//@@ + spec
    ensures
        all_simple(strs(r@)),
        forall|n: Seq<char>, dir: bool| #[trigger] any_takes(strs(r@), n, dir) == default_excludes(n, dir),
//@@ + tail
    proof {
        lemma_git(); lemma_renv(); lemma_revdep(); lemma_cpp11(); lemma_rcpp(); lemma_extendr(); lemma_standalone();
        let ls = strs(r@);
        assert(ls.len() == 7 ==> ls.contains(ls[0]) && ls.contains(ls[1]) && ls.contains(ls[2]) && ls.contains(ls[3]) && ls.contains(ls[4]) && ls.contains(ls[5]) && ls.contains(ls[6]));
        assert(listed(ls));
        lemma_listed(ls);
    }
//@@ end
//@@ item static DEFAULT_EXCLUDE_PATTERNS
//@@   lazy
//@@ + spec
    ensures excludes_by_default(r),
//@@ end

//@@ source crates/workspace/src/settings/default_include_patterns.rs
//@@ rewrite* `DEFAULT_INCLUDE_PATTERN_NAMES . iter ( ) . copied ( )` => `each(DEFAULT_INCLUDE_PATTERN_NAMES())`
//@@ item static DEFAULT_INCLUDE_PATTERN_NAMES
//@@   asfn
//@@   type &'static [&'static str]
//@@ + spec
    ensures
        all_simple(strs(r@)),
        forall|n: Seq<char>, dir: bool| #[trigger] any_takes(strs(r@), n, dir) == default_includes(n),
//@@ + tail
    proof {
        lemma_include();
        let ls = strs(r@);
        assert(ls.len() == 1 && ls[0] == "**/*.[Rr]"@);
        assert forall|n: Seq<char>, dir: bool| #[trigger] any_takes(ls, n, dir) == default_includes(n) by { assert(takes(ls[0], n, dir) == default_includes(n)); }
    }
//@@ end
//@@ item static DEFAULT_INCLUDE_PATTERNS
//@@   lazy
//@@ + spec
    ensures includes_by_default(r),
//@@ end

/// for every path: what the default patterns say of it, or of it and the directories it lies in
pub open spec fn excludes_by_default(f: DefaultFilePatterns) -> bool {
    forall|p: &Path, dir: bool| #[trigger] ignored(self_match(&f.matcher, p, dir)) is Some == (last_name(p) matches Some(n) && default_excludes(n, dir))
}
/// it, or a directory it lies in
pub open spec fn default_excluded(p: &Path, dir: bool) -> bool
    decreases comps(p).len(),
{
    ||| last_name(p) matches Some(n) && default_excludes(n, dir)
    ||| has_parent(p) && comps(parent_of(p)).len() < comps(p).len() && default_excluded(parent_of(p), true)
}
pub proof fn lemma_default_excluded(f: DefaultFilePatterns, p: &Path, dir: bool)
    requires excludes_by_default(f),
    ensures walk(&f.matcher, p, dir) is Some == default_excluded(p, dir),
    decreases comps(p).len(),
{
    assert(ignored(self_match(&f.matcher, p, dir)) is Some == (last_name(p) matches Some(n) && default_excludes(n, dir)));
    if has_parent(p) && comps(parent_of(p)).len() < comps(p).len() { lemma_default_excluded(f, parent_of(p), true); }
}
pub open spec fn includes_by_default(f: DefaultFilePatterns) -> bool {
    forall|p: &Path, dir: bool| #[trigger] ignored(self_match(&f.matcher, p, dir)) is Some == (last_name(p) matches Some(n) && default_includes(n))
}
}

fn main() {}
} // verus!
