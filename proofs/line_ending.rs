// Contracts for crates/line_ending/src/lib.rs (properties L01, L02).
#![feature(allocator_api)]
#![allow(unused_imports, non_snake_case)]
use vstd::prelude::*;
use vstd::utf8::*;
use std::borrow::Cow;
verus! {

// ---------------------------------------------------------------- specification
pub open spec fn CRLF() -> Seq<u8> {
    seq![13u8, 10u8]
}

/// a CRLF pair starts at byte i
pub open spec fn crlf_at(s: Seq<u8>, i: int) -> bool {
    0 <= i && i + 1 < s.len() && s[i] == 13 && s[i + 1] == 10
}

/// `s` without the CR of each CRLF pair, everything else untouched
pub open spec fn strip(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 {
        s
    } else if crlf_at(s, 0) {
        strip(s.skip(1))
    } else {
        seq![s[0]] + strip(s.skip(1))
    }
}

pub open spec fn has_crlf(s: Seq<u8>) -> bool {
    exists|i: int| crlf_at(s, i)
}

//@@ include inc/endings.rs

/// the first line ends with CRLF
pub open spec fn first_nl(s: Seq<char>, i: int) -> bool {
    0 <= i < s.len() && s[i] == '\n' && forall|j: int| 0 <= j < i ==> s[j] != '\n'
}

pub open spec fn first_is_crlf(s: Seq<char>) -> bool {
    exists|i: int| #[trigger] first_nl(s, i) && i > 0 && s[i - 1] == '\r'
}

pub open spec fn first_nl_b(s: Seq<u8>, i: int) -> bool {
    0 <= i < s.len() && s[i] == 10 && forall|j: int| 0 <= j < i ==> s[j] != 10
}

// ------------------------------------------------- assumed contracts: memchr, std
pub mod memmem {
    use super::*;

    pub open spec fn at(h: Seq<u8>, n: Seq<u8>, i: int) -> bool {
        0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) == n
    }

    #[verifier::external_body]
    pub struct Finder<'n>(&'n [u8]);

    impl<'n> Finder<'n> {
        pub uninterp spec fn needle(&self) -> Seq<u8>;

        #[verifier::external_body]
        pub fn new(needle: &'n [u8]) -> (r: Self)
            ensures r.needle() == needle@,
        {
            Finder(needle)
        }

        #[verifier::external_body]
        pub fn find(&self, h: &[u8]) -> (r: Option<usize>)
            ensures
                match r {
                    Some(i) => at(h@, self.needle(), i as int) && forall|j: int| 0 <= j < i ==> !at(h@, self.needle(), j),
                    None => forall|j: int| !at(h@, self.needle(), j),
                },
        {
            unimplemented!()
        }
    }
}

pub mod memchr {
    use super::*;

    #[verifier::external_body]
    pub fn memchr(needle: u8, h: &[u8]) -> (r: Option<usize>)
        ensures
            match r {
                Some(i) => i < h@.len() && h@[i as int] == needle && forall|j: int| 0 <= j < i ==> h@[j] != needle,
                None => forall|j: int| 0 <= j < h@.len() ==> h@[j] != needle,
            },
    {
        unimplemented!()
    }
}

pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(s@),
;

pub assume_specification[ String::from_utf8_unchecked ](v: Vec<u8>) -> (r: String)
    requires valid_utf8(v@),
    ensures r@ == decode_utf8(v@),
;

pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::set_len ](v: &mut Vec<T, A>, new_len: usize)
    requires new_len <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(0, new_len as int),
;

// ---------------------------------------------------------------- lemmas
proof fn lemma_strip_prefix(s: Seq<u8>, k: int)
    requires
        0 <= k <= s.len(),
        forall|j: int| 0 <= j < k ==> !crlf_at(s, j),
    ensures
        strip(s) == s.take(k) + strip(s.skip(k)),
    decreases k,
{
    if k == 0 {
        assert(s.skip(0) =~= s);
        assert(s.take(0) + strip(s) =~= strip(s));
    } else {
        assert(!crlf_at(s, 0));
        assert forall|j: int| 0 <= j < k - 1 implies !crlf_at(s.skip(1), j) by {
            assert(!crlf_at(s, j + 1));
        }
        lemma_strip_prefix(s.skip(1), k - 1);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        assert(s.take(k) =~= seq![s[0]] + s.skip(1).take(k - 1));
        assert(strip(s) =~= s.take(k) + strip(s.skip(k)));
    }
}

/// everything the loop needs to know about the unprocessed rest `s`
proof fn lemma_rest(s: Seq<u8>)
    ensures
        forall|k: int|
            #![trigger s.skip(k)]
            0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> !crlf_at(s, j)) ==> strip(s) == s.take(k) + strip(s.skip(k)),
        forall|k: int|
            #![trigger s.skip(k)]
            0 <= k <= s.len() && crlf_at(s, k) ==> strip(s.skip(k)) == strip(s.skip(k + 1)),
        strip(s.skip(s.len() as int)) == Seq::<u8>::empty(),
        forall|i: int|
            #![trigger crlf_at(s, i)]
            crlf_at(s, i) == memmem::at(s, CRLF(), i),
        forall|i: int|
            #![trigger memmem::at(s, CRLF(), i)]
            crlf_at(s, i) == memmem::at(s, CRLF(), i),
{
    assert forall|k: int|
        #![trigger s.skip(k)]
        0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> !crlf_at(s, j)) implies strip(s) == s.take(k) + strip(s.skip(k)) by {
        lemma_strip_prefix(s, k);
    }
    assert forall|k: int|
        #![trigger s.skip(k)]
        0 <= k <= s.len() && crlf_at(s, k) implies strip(s.skip(k)) == strip(s.skip(k + 1)) by {
        assert(crlf_at(s.skip(k), 0));
        assert(s.skip(k).skip(1) =~= s.skip(k + 1));
    }
    assert forall|i: int| #![trigger crlf_at(s, i)] crlf_at(s, i) == memmem::at(s, CRLF(), i) by {
        if 0 <= i && i + 2 <= s.len() {
            let w = s.subrange(i, i + 2);
            assert(w[0] == s[i] && w[1] == s[i + 1]);
            if crlf_at(s, i) {
                assert(w =~= CRLF());
            }
        }
    }
}

/// one iteration: `a` is what the buffer ends up holding, `t` the tail before the
/// iteration (so `t.skip(g)` is the unprocessed input), [g, i) the chunk that moves
proof fn lemma_step(a: Seq<u8>, goal: Seq<u8>, p: int, f: Seq<u8>, t: Seq<u8>, g: int, i: int, f1: Seq<u8>)
    requires
        0 <= p,
        a.len() == p + f.len(),
        a.skip(p) == f,
        a.take(p) + strip(t.skip(g)) == goal,
        0 <= g <= i <= t.len(),
        f == t.subrange(g, i) + f1,
        forall|j: int| 0 <= j < i - g ==> !crlf_at(t.skip(g), j),
    ensures
        a.len() == p + (i - g) + f1.len(),
        a.skip(p + (i - g)) == f1,
        a.take(p + (i - g)) + strip(t.skip(i - g).skip(g)) == goal,
        crlf_at(t.skip(g), i - g) ==> a.take(p + (i - g)) + strip(t.skip(i - g).skip(g + 1)) == goal,
{
    let k = i - g;
    let r = t.skip(g);
    lemma_rest(r);
    assert(r.take(k) =~= t.subrange(g, i));
    assert(strip(r) == r.take(k) + strip(r.skip(k)));
    assert(t.skip(k).skip(g) =~= r.skip(k));
    assert(a.skip(p + k) =~= f.skip(k));
    assert(f.skip(k) =~= f1);
    assert(f.take(k) =~= t.subrange(g, i));
    assert(a.take(p + k) =~= a.take(p) + a.skip(p).take(k));
    assert(a.take(p + k) + strip(r.skip(k)) =~= a.take(p) + (r.take(k) + strip(r.skip(k))));
    if crlf_at(r, k) {
        assert(t.skip(k).skip(g + 1) =~= r.skip(k + 1));
        assert(r.skip(k).len() >= 0);
    }
}

//@@ include inc/utf8.rs

proof fn lemma_utf8_strip(c: Seq<char>)
    ensures
        strip(encode_utf8(c)) == encode_utf8(strip_c(c)),
        has_crlf(encode_utf8(c)) == has_crlf_c(c),
    decreases c.len(),
{
    let e = encode_utf8(c);
    if c.len() == 0 {
        assert(e.len() == 0);
    } else {
        let rest = c.skip(1);
        let w = encode_scalar(c[0] as u32);
        let er = encode_utf8(rest);
        lemma_utf8_cons(c);
        lemma_utf8_strip(rest);
        lemma_utf8_char(c[0]);
        if rest.len() > 0 {
            lemma_utf8_cons(rest);
            lemma_utf8_char(rest[0]);
        }
        let n = w.len() as int;
        assert(e.skip(n) =~= er);
        assert(e.take(n) =~= w);
        assert(crlf_at(e, 0) == crlf_at_c(c, 0));
        let sc = strip_c(rest);
        let cons = seq![c[0]] + sc;
        lemma_utf8_cons(cons);
        assert(cons.skip(1) =~= sc);
        assert(encode_utf8(cons) == w + encode_utf8(sc));
        if c[0] == '\r' {
            assert(strip(e) == if crlf_at(e, 0) { strip(er) } else { w + strip(er) });
        } else {
            assert forall|j: int| 0 <= j < n implies !crlf_at(e, j) by {
                assert(e[j] == w[j]);
                assert(w.contains(w[j]));
            }
            lemma_strip_prefix(e, n);
        }
        // existence
        if has_crlf_c(c) && !crlf_at_c(c, 0) {
            let i = choose|i: int| crlf_at_c(c, i);
            assert(crlf_at_c(rest, i - 1));
        }
        if has_crlf_c(rest) {
            let i = choose|i: int| crlf_at_c(rest, i);
            assert(crlf_at_c(c, i + 1));
        }
        if has_crlf(er) {
            let i = choose|i: int| crlf_at(er, i);
            assert(crlf_at(e, i + n));
        }
        if has_crlf(e) && !crlf_at(e, 0) {
            let i = choose|i: int| crlf_at(e, i);
            if i < n {
                assert(e[i] == w[i]);
                assert(w.contains(w[i]));
            }
            assert(crlf_at(er, i - n));
        }
    }
}

/// the first newline, in bytes and in characters
proof fn lemma_first(c: Seq<char>)
    ensures
        forall|b: int| #![trigger encode_utf8(c)[b]]
            first_nl_b(encode_utf8(c), b) ==> (first_is_crlf(c) <==> b > 0 && encode_utf8(c)[b - 1] == 13),
        (forall|b: int| 0 <= b < encode_utf8(c).len() ==> encode_utf8(c)[b] != 10) ==> !first_is_crlf(c),
    decreases c.len(),
{
    let e = encode_utf8(c);
    if c.len() > 0 {
        let rest = c.skip(1);
        let w = encode_scalar(c[0] as u32);
        let er = encode_utf8(rest);
        let n = w.len() as int;
        lemma_utf8_cons(c);
        lemma_utf8_char(c[0]);
        lemma_first(rest);
        assert(e =~= w + er);
        assert forall|j: int| 0 <= j < n implies w.contains(#[trigger] e[j]) && e[j] == w[j] by {}
        if c[0] == '\n' {
            assert(e[0] == 10);
            assert(first_nl(c, 0));
            assert forall|i: int| first_nl(c, i) implies i == 0 by {
                if i > 0 { assert(c[0] != '\n'); }
            }
        } else {
            if rest.len() > 0 {
                lemma_utf8_cons(rest);
                lemma_utf8_char(rest[0]);
            }
            // newline positions move by one character / n bytes
            assert forall|i: int| first_nl(c, i) implies i > 0 && first_nl(rest, i - 1) by {
                assert(i != 0);
                assert forall|j: int| 0 <= j < i - 1 implies rest[j] != '\n' by { assert(rest[j] == c[j + 1]); }
            }
            assert forall|i: int| first_nl(rest, i) implies first_nl(c, i + 1) by {
                assert forall|j: int| 0 <= j < i + 1 implies c[j] != '\n' by { if j > 0 { assert(c[j] == rest[j - 1]); } }
            }
            let fr = rest.len() > 0 && rest[0] == '\n';
            if fr { assert(first_nl(rest, 0)); assert(first_nl(c, 1)); assert(er[0] == 10); }
            assert(first_is_crlf(c) <==> (if fr { c[0] == '\r' } else { first_is_crlf(rest) })) by {
                if fr {
                    assert forall|i: int| first_nl(c, i) implies i == 1 by {
                        if i > 1 { assert(c[1] == rest[0]); }
                    }
                } else {
                    if first_is_crlf(c) {
                        let i = choose|i: int| #[trigger] first_nl(c, i) && i > 0 && c[i - 1] == '\r';
                        assert(first_nl(rest, i - 1));
                        assert(i - 1 > 0);
                        assert(rest[i - 2] == c[i - 1]);
                    }
                    if first_is_crlf(rest) {
                        let i = choose|i: int| #[trigger] first_nl(rest, i) && i > 0 && rest[i - 1] == '\r';
                        assert(first_nl(c, i + 1));
                        assert(c[i] == rest[i - 1]);
                    }
                }
            }
            assert forall|b: int| #![trigger e[b]] first_nl_b(e, b) implies (first_is_crlf(c) <==> b > 0 && e[b - 1] == 13) by {
                assert(b >= n);
                assert(er[b - n] == 10);
                assert forall|j: int| 0 <= j < b - n implies er[j] != 10 by { assert(er[j] == e[j + n]); }
                assert(first_nl_b(er, b - n));
                if fr {
                    assert(b - n == 0);
                    assert(e[n - 1] == w[n - 1]);
                } else {
                    if b - n == 0 { assert(er[0] == encode_scalar(rest[0] as u32)[0]); assert(false); }
                    assert(e[b - 1] == er[b - n - 1]);
                }
            }
            if forall|b: int| 0 <= b < e.len() ==> e[b] != 10 {
                assert forall|b: int| 0 <= b < er.len() implies er[b] != 10 by { assert(er[b] == e[b + n]); }
                if fr { assert(e[n] == er[0]); }
            }
        }
    }
}

/// an LF-only text is its own normal form
proof fn lemma_strip_lf_only(s: Seq<char>)
    ensures !has_crlf_c(s) ==> strip_c(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.skip(1);
        lemma_strip_lf_only(r);
        if !has_crlf_c(s) {
            assert forall|i: int| !crlf_at_c(r, i) by {
                assert(crlf_at_c(r, i) ==> crlf_at_c(s, i + 1));
            }
            assert(!crlf_at_c(s, 0));
            assert(seq![s[0]] + r =~= s);
        }
    }
}

/// what `normalize` needs about its input text
proof fn lemma_text(x: Seq<char>)
    ensures
        strip(encode_utf8(x)) == encode_utf8(strip_c(x)),
        has_crlf(encode_utf8(x)) == has_crlf_c(x),
        !has_crlf_c(x) ==> strip_c(x) == x,
        valid_utf8(encode_utf8(x)),
        valid_utf8(encode_utf8(strip_c(x))),
        decode_utf8(encode_utf8(x)) == x,
        decode_utf8(encode_utf8(strip_c(x))) == strip_c(x),
{
    broadcast use group_utf8_lib;
    lemma_utf8_strip(x);
    lemma_strip_lf_only(x);
}

pub open spec fn crcrlf_at(s: Seq<char>, j: int) -> bool {
    0 <= j && j + 2 < s.len() && s[j] == '\r' && s[j + 1] == '\r' && s[j + 2] == '\n'
}

/// the normal form is LF-only, unless the input holds a CR directly before a CRLF
proof fn lemma_normal_form_lf_only(s: Seq<char>)
    requires forall|j: int| !crcrlf_at(s, j),
    ensures
        !has_crlf_c(strip_c(s)),
        strip_c(strip_c(s)) == strip_c(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.skip(1);
        assert forall|j: int| !crcrlf_at(r, j) by {
            assert(crcrlf_at(r, j) ==> crcrlf_at(s, j + 1));
        }
        lemma_normal_form_lf_only(r);
        let t = strip_c(s);
        assert forall|i: int| !crlf_at_c(t, i) by {
            if crlf_at_c(t, i) {
                if crlf_at_c(s, 0) {
                    assert(crlf_at_c(strip_c(r), i));
                } else if i > 0 {
                    assert(crlf_at_c(strip_c(r), i - 1));
                } else {
                    assert(strip_c(r)[0] == '\n');
                    assert(r.len() > 0);
                    if crlf_at_c(r, 0) {
                        assert(crcrlf_at(s, 0));
                    } else {
                        assert(strip_c(r)[0] == r[0]);
                        assert(crlf_at_c(s, 0));
                    }
                }
            }
        }
    }
    lemma_strip_lf_only(strip_c(s));
}

// ---------------------------------------------------------------- the code
pub mod settings {
use super::*;
//@@ source crates/settings/src/line_ending.rs
//@@ item enum LineEnding
//@@ end
}

pub mod line_ending {
use super::*;
use super::settings::LineEnding;
//@@ source crates/line_ending/src/lib.rs
//@@ rewrite* `FINDER . find` => `FINDER().find`
//@@ item static FINDER
//@@   lazy
//@@   type memmem::Finder<'static>
//@@ + spec
    ensures r.needle() =~= CRLF(),
//@@ end
//@@ item fn infer
//@@   ret r
//@@ + spec
    ensures
        has_crlf_c(x@) ==> r is Crlf,
        !has_crlf_c(x@) ==> r is Lf,
//@@ + body
    proof {
        lemma_utf8_strip(x@);
        lemma_rest(encode_utf8(x@));
    }
//@@ end
//@@ item fn infer_first
//@@   ret r
//@@ + spec
    ensures
        first_is_crlf(x@) ==> r is Crlf,
        !first_is_crlf(x@) ==> r is Lf,
//@@ + body
    proof { lemma_first(x@); }
//@@ end
//@@ item fn normalize
//@@   ret r
//@@ + spec
    ensures r@ == strip_c(x@),
//@@ + preloop 1
    proof {
        lemma_text(x@);
        assert(after_borrow(buf)@.skip(0) =~= final(tail)@);
        assert(tail@.skip(0) =~= tail@);
        assert(after_borrow(buf)@.take(0) + strip(tail@) =~= strip(tail@));
    }
//@@ + loop 1 `loop`
    invariant
        valid_utf8(encode_utf8(x@)),
        decode_utf8(encode_utf8(x@)) == x@,
        has_crlf(encode_utf8(x@)) == has_crlf_c(x@),
        !has_crlf_c(x@) ==> strip_c(x@) == x@,
        gap_len <= tail@.len() <= encode_utf8(x@).len(),
        after_borrow(buf)@.len() == encode_utf8(x@).len() - tail@.len() + final(tail)@.len(),
        after_borrow(buf)@.skip(encode_utf8(x@).len() - tail@.len()) == final(tail)@,
        !crlf_seen ==> gap_len == 0 && after_borrow(buf)@ == final(tail)@ && tail@ == encode_utf8(x@),
        after_borrow(buf)@.take(encode_utf8(x@).len() - tail@.len()) + strip(tail@.skip(gap_len as int)) == strip(encode_utf8(x@)),
    ensures tail@.len() == gap_len,
    decreases tail@.len() - gap_len,
//@@ + loopafter 1
    proof {
        let n = encode_utf8(x@).len() - gap_len;
        assert(tail@.skip(gap_len as int) =~= Seq::<u8>::empty());
        assert(after_borrow(buf)@.take(n) + Seq::<u8>::empty() =~= after_borrow(buf)@.subrange(0, n));
    }
//@@ + loopbody 1
    let ghost t0 = tail@;
    let ghost f0 = final(tail)@;
    let ghost g0 = gap_len as int;
    proof {
        assert(tail@.len() == tail.len());
        assert(tail@.subrange(gap_len as int, tail@.len() as int) =~= tail@.skip(gap_len as int));
        lemma_rest(tail@.skip(gap_len as int));
    }
//@@ + after_stmt `tail = &mut tail`
    proof {
        assert(f0 =~= t0.subrange(g0, idx as int) + final(tail)@);
        assert(tail@ =~= t0.skip(idx - g0));
        lemma_step(after_borrow(buf)@, strip(encode_utf8(x@)), encode_utf8(x@).len() - t0.len(), f0, t0, g0, idx as int, final(tail)@);
    }
//@@ end
//@@ item fn normalize_ref
//@@   ret r
//@@ + spec
    ensures
        match r {
            Cow::Borrowed(b) => !has_crlf_c(x@) && b@ == strip_c(x@),
            Cow::Owned(o) => has_crlf_c(x@) && o@ == strip_c(x@),
        },
//@@ + body
    proof { lemma_strip_lf_only(x@); }
//@@ end
}

pub mod workspace {
use super::*;
use super::line_ending;
//@@ norewrites
//@@ source crates/workspace/src/settings/line_ending.rs
//@@ item enum LineEnding
//@@ end
//@@ impl LineEnding
//@@ item fn LineEnding::finalize
//@@   ret r
//@@   public
//@@   cfg target_os = "windows"
//@@   cfg not(target_os = "windows")
//@@ + spec
    ensures
        match self {
            LineEnding::Lf => r is Lf,
            LineEnding::Crlf => r is Crlf,
            LineEnding::Native => r is Lf,   // the checks run on Linux
            LineEnding::Auto => if first_is_crlf(source@) { r is Crlf } else { r is Lf },
        },
//@@ end
//@@ endimpl
}

fn main() {}
} // verus!
