// Contracts for crates/comments/src/directive.rs (properties D01, D02).
#![feature(pattern)]
#![allow(unused_imports, non_snake_case, dead_code)]
use vstd::prelude::*;
use std::str::pattern::Pattern;
verus! {
use code::{Directive, FormatDirective};

// ---------------------------------------------------------------- specification
//@@ include inc/directive_spec.rs
// ---------------------------------------------------------------- assumed contracts: std
#[verifier::external_trait_specification]
pub trait ExPattern: Sized {
    type ExternalTraitSpecificationFor: std::str::pattern::Pattern;
}

/// the characters a pattern stands for
pub uninterp spec fn pat<P>(p: P) -> Seq<char>;

pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_pat_char(c: char)
        ensures #[trigger] pat::<char>(c) == seq![c];
    pub broadcast axiom fn axiom_pat_str(s: &str)
        ensures #[trigger] pat::<&str>(s) == s@;
    /// a str is determined by its characters
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
        ensures #![trigger a@, b@] a@ == b@ ==> a == b;
    pub axiom fn axiom_blank()
        ensures !ws(':'), !ws('#');
}

pub assume_specification<'a, P: Pattern>[ str::strip_prefix ](s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures match r { Some(t) => starts(s@, pat(p)) && t@ == s@.skip(pat(p).len() as int), None => !starts(s@, pat(p)) },
;
pub open spec fn skip_all(s: Seq<char>, p: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if p.len() > 0 && starts(s, p) { skip_all(s.skip(p.len() as int), p) } else { s }
}
pub assume_specification<'a, P: Pattern>[ str::trim_start_matches ](s: &'a str, p: P) -> (r: &'a str)
    ensures r@ == skip_all(s@, pat(p)),
;
pub assume_specification<P: Pattern>[ str::starts_with ](s: &str, p: P) -> (r: bool)
    ensures r == starts(s@, pat(p)),
;
pub assume_specification[ str::trim_start ](s: &str) -> (r: &str)
    ensures r@ == skip_ws(s@),
;
pub assume_specification[ str::trim ](s: &str) -> (r: &str)
    ensures r@ == trimmed(s@),
;
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
pub assume_specification<'a, P: Pattern>[ str::split_once ](s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
    ensures
        match r {
            Some((a, b)) => at(s@, pat(p), a@.len() as int) && s@ == a@ + pat(p) + b@ && forall|j: int| 0 <= j < a@.len() ==> !at(s@, pat(p), j),
            None => forall|j: int| !at(s@, pat(p), j),
        },
;

//@@ include inc/str_eq.rs
// ---------------------------------------------------------------- lemmas
pub proof fn lemma_skip_hashes(s: Seq<char>)
    ensures skip_all(s, seq!['#']) == skip_hashes(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s.take(1) =~= seq![s[0]]);
        assert(seq!['#'][0] == '#' && seq![s[0]][0] == s[0]);
        lemma_skip_hashes(s.skip(1));
    }
}

// ---------------------------------------------------------------- the code
pub mod code {
use super::*;
broadcast use {str_eq::group_str_eq, ax::axiom_pat_char, ax::axiom_pat_str, ax::axiom_str_ext};
//@@ source crates/comments/src/directive.rs
//@@ item enum Directive
//@@ end
//@@ item enum FormatDirective
//@@ end
//@@ item fn trim_comment
//@@   ret r
//@@ + spec
    ensures
        match r { Some(t) => is_comment(text@) && t@ == payload(text@), None => !is_comment(text@) },
//@@ + body
    proof {
        let s = text@;
        if s.len() > 0 {
            assert(s.take(1) =~= seq![s[0]]);
            assert(seq!['#'][0] == '#' && seq![s[0]][0] == s[0]);
            lemma_skip_hashes(s.skip(1));
            lemma_skip_hashes(s);
        }
    }
//@@ end
//@@ item fn parse_format_directive
//@@   ret r
//@@ + spec
    ensures
        text@ == "skip"@ ==> r == Some(Directive::Format(FormatDirective::Skip)),
        text@ == "skip file"@ ==> r == Some(Directive::Format(FormatDirective::SkipFile)),
        text@ == "table"@ ==> r == Some(Directive::Format(FormatDirective::Table)),
        text@ != "skip"@ && text@ != "skip file"@ && text@ != "table"@ ==> r is None,
//@@ + body
    proof { reveal_strlit("skip"); reveal_strlit("skip file"); reveal_strlit("table"); }
//@@ end
//@@ item fn parse_comment_directive
//@@   ret r
//@@ + spec
    ensures r == directive_of(text@),
//@@ + body
    proof {
        reveal_strlit("fmt:");
        reveal_strlit("fmt");
        let p = payload(text@);
        // a colon at index 3 preceded by `fmt`, or no such
        assert forall|a: Seq<char>, b: Seq<char>| #![trigger a + seq![':'] + b]
            p == a + seq![':'] + b && (forall|j: int| 0 <= j < a.len() ==> !at(p, seq![':'], j)) implies
            (a == "fmt"@ <==> starts(p, "fmt:"@)) && (a == "fmt"@ ==> b =~= p.skip(4)) by {
            if a == "fmt"@ {
                assert(p.take(4) =~= "fmt:"@);
            }
            if starts(p, "fmt:"@) {
                assert(p[3] == ':') by { assert(p.take(4)[3] == p[3]); }
                assert(p.take(4)[0] == p[0] && p.take(4)[1] == p[1] && p.take(4)[2] == p[2]);
                assert(p.subrange(3, 4) =~= seq![':']);
                assert(at(p, seq![':'], 3));
                assert(a.len() <= 3);
                assert((a + seq![':'] + b)[a.len() as int] == ':');
                assert(a.len() == 3);
                assert(a =~= p.take(3));
                assert(a =~= "fmt"@);
            }
        }
        if starts(p, "fmt:"@) {
            assert(p.take(4)[3] == p[3]);
            assert(p.subrange(3, 4) =~= seq![':']);
            assert(at(p, seq![':'], 3));
            assert(at(p, pat::<char>(':'), 3));
        }
    }
//@@ end
//@@ item fn parse_special_skip_file
//@@   ret r
//@@ + spec
    ensures
        r == if is_comment(text@) && starts(payload(text@), "Generated by"@) { Some(Directive::Format(FormatDirective::SkipFile)) } else { None },
//@@ end
}

fn main() {}
} // verus!
