// What lies between two tokens of a text, and the pieces (trivia) it is made of.
// Offsets are bytes of the text.
pub enum PieceKind { Token, Blank, Newline, Comment }
pub struct Piece { pub kind: PieceKind, pub s: int, pub e: int, pub trailing: bool }
/// a token or a comment of the source
pub struct Leaf { pub s: int, pub e: int, pub comment: bool }

/// a blank, or the semicolon that counts as one
pub open spec fn blank(b: u8) -> bool { b == 9 || b == 11 || b == 12 || b == 32 || b == 59 }
pub open spec fn nl(b: u8) -> bool { b == 10 || b == 13 }
pub open spec fn has_nl(b: Seq<u8>) -> bool { exists|i: int| 0 <= i < b.len() && nl(#[trigger] b[i]) }
pub open spec fn has_lf(b: Seq<u8>) -> bool { b.contains(10u8) }
pub open spec fn is_gap(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> blank(#[trigger] b[i]) || nl(b[i]) }
/// the length of the blanks b begins with
pub open spec fn blanks(b: Seq<u8>) -> int
    decreases b.len(),
{
    if b.len() > 0 && blank(b[0]) { 1 + blanks(b.skip(1)) } else { 0 }
}
/// the newline b begins with: CR LF, or one of them alone
pub open spec fn nl_len(b: Seq<u8>) -> int { if b.len() > 1 && b[0] == 13 && b[1] == 10 { 2 } else { 1 } }
/// runs of blanks and single newlines; the first run of blanks trails the token before it or not
pub open spec fn gap(b: Seq<u8>, at: int, trailing: bool) -> Seq<Piece>
    decreases b.len(),
    when is_gap(b)
    via gap_decreases
{
    if b.len() == 0 { seq![] }
    else if blank(b[0]) {
        let n = blanks(b);
        seq![Piece { kind: PieceKind::Blank, s: at, e: at + n, trailing }] + gap(b.skip(n), at + n, false)
    } else {
        let n = nl_len(b);
        seq![Piece { kind: PieceKind::Newline, s: at, e: at + n, trailing: false }] + gap(b.skip(n), at + n, false)
    }
}
#[via_fn]
proof fn gap_decreases(b: Seq<u8>, at: int, trailing: bool) { lemma_blanks(b); }
pub proof fn lemma_blanks(b: Seq<u8>)
    ensures
        0 <= blanks(b) <= b.len(),
        b.len() > 0 && blank(b[0]) ==> blanks(b) > 0,
        forall|i: int| 0 <= i < blanks(b) ==> blank(#[trigger] b[i]),
        blanks(b) < b.len() ==> !blank(b[blanks(b)]),
    decreases b.len(),
{
    if b.len() > 0 && blank(b[0]) {
        let r = b.skip(1);
        lemma_blanks(r);
        assert forall|i: int| 0 <= i < blanks(b) implies blank(#[trigger] b[i]) by { if i > 0 { assert(b[i] == r[i - 1]); } }
        if blanks(b) < b.len() { assert(b[blanks(b)] == r[blanks(r)]); }
    }
}
/// n is the length of the blanks
pub proof fn lemma_blanks_unique(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len(), forall|i: int| 0 <= i < n ==> blank(#[trigger] b[i]), n < b.len() ==> !blank(b[n]),
    ensures blanks(b) == n,
{
    lemma_blanks(b);
    if blanks(b) < n { assert(blank(b[blanks(b)])); }
    if n < blanks(b) { assert(blank(b[n])); }
}
/// after a token: blanks in front of a newline trail it, everything else leads what follows
pub open spec fn between(b: Seq<u8>, at: int, after: bool) -> Seq<Piece> { gap(b, at, after && has_nl(b)) }

pub struct St { pub pieces: Seq<Piece>, pub end: int, pub after: bool }
/// what a token or a comment adds; with `all` tokens are pieces too
pub open spec fn feed(t: Seq<u8>, st: St, l: Leaf, all: bool) -> St {
    let b = t.subrange(st.end, l.s);
    if !l.comment {
        let tok = if all { seq![Piece { kind: PieceKind::Token, s: l.s, e: l.e, trailing: false }] } else { seq![] };
        St { pieces: st.pieces + between(b, st.end, st.after) + tok, end: l.e, after: true }
    } else if has_lf(b) {
        // on a line of its own
        St { pieces: st.pieces + between(b, st.end, st.after) + seq![Piece { kind: PieceKind::Comment, s: l.s, e: l.e, trailing: false }], end: l.e, after: st.after }
    } else {
        // on the line of a token, if there is one
        let w = if b.len() > 0 { seq![Piece { kind: PieceKind::Blank, s: st.end, e: l.s, trailing: st.after }] } else { seq![] };
        St { pieces: st.pieces + w + seq![Piece { kind: PieceKind::Comment, s: l.s, e: l.e, trailing: st.after }], end: l.e, after: st.after }
    }
}
pub open spec fn run(t: Seq<u8>, st: St, x: Seq<Leaf>, all: bool) -> St
    decreases x.len(),
{
    if x.len() == 0 { st } else { feed(t, run(t, st, x.drop_last(), all), x.last(), all) }
}
/// the end of the text
pub open spec fn close(t: Seq<u8>, st: St) -> Seq<Piece> { st.pieces + gap(t.subrange(st.end, t.len() as int), st.end, false) }
pub open spec fn init() -> St { St { pieces: seq![], end: 0, after: false } }

pub open spec fn bnd(t: Seq<u8>, i: int) -> bool { 0 <= i <= t.len() && vstd::utf8::is_char_boundary(t, i) }
/// a leaf that may come next: only blanks and newlines lie in between
pub open spec fn fit(t: Seq<u8>, end: int, l: Leaf) -> bool {
    &&& end <= l.s <= l.e && t.len() <= u32::MAX
    &&& bnd(t, end) && bnd(t, l.s) && bnd(t, l.e)
    &&& is_gap(t.subrange(end, l.s))
}
pub open spec fn fits(t: Seq<u8>, end: int, x: Seq<Leaf>) -> bool
    decreases x.len(),
{
    x.len() > 0 ==> fits(t, end, x.drop_last()) && fit(t, end_of(end, x.drop_last()), x.last())
}
pub open spec fn end_of(end: int, x: Seq<Leaf>) -> int { if x.len() == 0 { end } else { x.last().e } }
pub proof fn lemma_run_end(t: Seq<u8>, st: St, x: Seq<Leaf>, all: bool)
    ensures run(t, st, x, all).end == end_of(st.end, x),
{
}
pub proof fn lemma_run_add(t: Seq<u8>, st: St, x: Seq<Leaf>, y: Seq<Leaf>, all: bool)
    ensures
        run(t, run(t, st, x, all), y, all) == run(t, st, x + y, all),
        end_of(end_of(st.end, x), y) == end_of(st.end, x + y),
    decreases y.len(),
{
    if y.len() == 0 { assert(x + y =~= x); } else {
        lemma_run_add(t, st, x, y.drop_last(), all);
        assert((x + y).drop_last() =~= x + y.drop_last());
        assert((x + y).last() == y.last());
    }
}
pub proof fn lemma_fits_add(t: Seq<u8>, end: int, x: Seq<Leaf>, y: Seq<Leaf>)
    ensures
        fits(t, end, x + y) == (fits(t, end, x) && fits(t, end_of(end, x), y)),
        end_of(end_of(end, x), y) == end_of(end, x + y),
    decreases y.len(),
{
    if y.len() == 0 { assert(x + y =~= x); } else {
        lemma_fits_add(t, end, x, y.drop_last());
        assert((x + y).drop_last() =~= x + y.drop_last());
        assert((x + y).last() == y.last());
    }
}
pub proof fn lemma_sub_gap(b: Seq<u8>, n: int)
    requires is_gap(b), 0 <= n <= b.len(),
    ensures is_gap(b.skip(n)),
{
    assert forall|i: int| 0 <= i < b.skip(n).len() implies blank(#[trigger] b.skip(n)[i]) || nl(b.skip(n)[i]) by { assert(b.skip(n)[i] == b[i + n]); }
}
/// the blanks come first
pub proof fn lemma_gap_first(b: Seq<u8>, at: int, trailing: bool)
    requires is_gap(b),
    ensures ({
        let n = blanks(b);
        gap(b, at, trailing) == (if n > 0 { seq![Piece { kind: PieceKind::Blank, s: at, e: at + n, trailing }] } else { seq![] }) + gap(b.skip(n), at + n, false)
    }),
{
    lemma_blanks(b);
    let n = blanks(b);
    lemma_sub_gap(b, n);
    if n == 0 {
        assert(b.skip(0) =~= b);
        assert(gap(b, at, trailing) =~= gap(b, at, false));
        assert(Seq::<Piece>::empty() + gap(b, at, false) =~= gap(b, at, false));
    }
}
/// one step of a gap that is not empty
pub proof fn lemma_gap_step(b: Seq<u8>, at: int)
    requires is_gap(b),
    ensures
        b.len() == 0 ==> gap(b, at, false) == Seq::<Piece>::empty(),
        b.len() > 0 && blank(b[0]) ==> gap(b, at, false) == seq![Piece { kind: PieceKind::Blank, s: at, e: at + blanks(b), trailing: false }] + gap(b.skip(blanks(b)), at + blanks(b), false),
        b.len() > 0 && !blank(b[0]) ==> gap(b, at, false) == seq![Piece { kind: PieceKind::Newline, s: at, e: at + nl_len(b), trailing: false }] + gap(b.skip(nl_len(b)), at + nl_len(b), false),
{
    if b.len() > 0 && blank(b[0]) { lemma_blanks(b); lemma_sub_gap(b, blanks(b)); }
}
pub proof fn lemma_run_few(t: Seq<u8>, st: St, l: Leaf, all: bool)
    ensures run(t, st, seq![], all) == st, run(t, st, seq![l], all) == feed(t, st, l, all),
{
    reveal_with_fuel(run, 3);
    assert(seq![l].drop_last() =~= Seq::<Leaf>::empty());
    assert(seq![l].last() == l);
}
pub proof fn lemma_cat<A>(s: Seq<A>, a: A)
    ensures s + seq![a] == s.push(a), s + Seq::<A>::empty() == s, Seq::<A>::empty() + s == s,
{
    assert(s + seq![a] =~= s.push(a));
    assert(s + Seq::<A>::empty() =~= s);
    assert(Seq::<A>::empty() + s =~= s);
}
