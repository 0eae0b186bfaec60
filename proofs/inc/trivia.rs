// What the pieces of a text mean (lemmas about inc/gaps.rs).
/// from a to b without a hole or an overlap
pub open spec fn covers(p: Seq<Piece>, a: int, b: int) -> bool
    decreases p.len(),
{
    if p.len() == 0 { a == b } else { p.last().s <= p.last().e && p.last().e == b && covers(p.drop_last(), a, p.last().s) }
}
/// a piece is what it is called
pub open spec fn honest(t: Seq<u8>, p: Piece) -> bool {
    &&& 0 <= p.s <= p.e <= t.len()
    &&& p.kind is Blank ==> p.s < p.e && (forall|i: int| p.s <= i < p.e ==> blank(#[trigger] t[i]) || t[i] == 13)
    &&& p.kind is Newline ==> !p.trailing && (p.e == p.s + 1 && nl(t[p.s]) || p.e == p.s + 2 && t[p.s] == 13 && t[p.s + 1] == 10)
    &&& p.kind is Token ==> !p.trailing
}
pub open spec fn all_honest(t: Seq<u8>, p: Seq<Piece>) -> bool
    decreases p.len(),
{
    p.len() > 0 ==> honest(t, p.last()) && all_honest(t, p.drop_last())
}
/// what trails a token is on its line: nothing stands between them that does not trail it too
pub open spec fn clings(p: Piece) -> bool { p.kind is Token || p.trailing }
pub open spec fn in_line(p: Seq<Piece>) -> bool
    decreases p.len(),
{
    p.len() > 0 ==> in_line(p.drop_last()) && (p.last().trailing ==> p.len() > 1 && clings(p[p.len() - 2]))
}
pub open spec fn no_token(p: Piece) -> bool { !(p.kind is Token) }
pub open spec fn told(p: Seq<Piece>) -> Seq<Piece>
    decreases p.len(),
{
    if p.len() == 0 { seq![] } else if no_token(p.last()) { told(p.drop_last()).push(p.last()) } else { told(p.drop_last()) }
}
/// the tokens and comments among the pieces
pub open spec fn leaf_of(p: Piece) -> Leaf { Leaf { s: p.s, e: p.e, comment: p.kind is Comment } }
pub open spec fn leaves_of(p: Seq<Piece>) -> Seq<Leaf>
    decreases p.len(),
{
    if p.len() == 0 { seq![] }
    else if p.last().kind is Token || p.last().kind is Comment { leaves_of(p.drop_last()).push(leaf_of(p.last())) }
    else { leaves_of(p.drop_last()) }
}
/// comments begin with `#` and end with their line
pub open spec fn tidy_leaf(t: Seq<u8>, l: Leaf) -> bool {
    l.comment ==> 0 <= l.s < l.e <= t.len() && t[l.s] == 35
        && (l.e == t.len() || t[l.e] == 10 || l.e + 1 < t.len() && t[l.e] == 13 && t[l.e + 1] == 10)
}
pub open spec fn tidy(t: Seq<u8>, x: Seq<Leaf>) -> bool { forall|i: int| 0 <= i < x.len() ==> tidy_leaf(t, #[trigger] x[i]) }

pub proof fn lemma_covers(p: Seq<Piece>, q: Seq<Piece>, a: int, b: int, c: int)
    requires covers(p, a, b), covers(q, b, c),
    ensures covers(p + q, a, c),
    decreases q.len(),
{
    if q.len() == 0 { assert(p + q =~= p); }
    else {
        lemma_covers(p, q.drop_last(), a, b, q.last().s);
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
    }
}
pub proof fn lemma_honest(t: Seq<u8>, p: Seq<Piece>, q: Seq<Piece>)
    requires all_honest(t, p), all_honest(t, q),
    ensures all_honest(t, p + q),
    decreases q.len(),
{
    if q.len() == 0 { assert(p + q =~= p); }
    else {
        lemma_honest(t, p, q.drop_last());
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
    }
}
/// only the first may trail what stands before
pub open spec fn lone(q: Seq<Piece>) -> bool { forall|i: int| 0 < i < q.len() ==> !(#[trigger] q[i]).trailing }
pub proof fn lemma_in_line(p: Seq<Piece>, q: Seq<Piece>)
    requires in_line(p), lone(q), q.len() > 0 && q[0].trailing ==> p.len() > 0 && clings(p.last()),
    ensures in_line(p + q),
    decreases q.len(),
{
    if q.len() == 0 { assert(p + q =~= p); }
    else {
        let h = q.drop_last();
        assert forall|i: int| 0 < i < h.len() implies !(#[trigger] h[i]).trailing by { assert(h[i] == q[i]); }
        lemma_in_line(p, h);
        assert((p + q).drop_last() =~= p + h);
        assert((p + q).last() == q.last());
        if q.len() == 1 && p.len() > 0 { assert((p + q)[p.len() - 1] == p.last()); }
    }
}
pub proof fn lemma_leaves(p: Seq<Piece>, q: Seq<Piece>)
    ensures leaves_of(p + q) == leaves_of(p) + leaves_of(q),
    decreases q.len(),
{
    if q.len() == 0 { assert(p + q =~= p); assert(leaves_of(p) + leaves_of(q) =~= leaves_of(p)); }
    else {
        lemma_leaves(p, q.drop_last());
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
        assert(leaves_of(p + q) =~= leaves_of(p) + leaves_of(q));
    }
}
pub proof fn lemma_told(p: Seq<Piece>, q: Seq<Piece>)
    ensures told(p + q) == told(p) + told(q),
    decreases q.len(),
{
    if q.len() == 0 { assert(p + q =~= p); assert(told(p) + told(q) =~= told(p)); }
    else {
        lemma_told(p, q.drop_last());
        assert((p + q).drop_last() =~= p + q.drop_last());
        assert((p + q).last() == q.last());
        assert(told(p + q) =~= told(p) + told(q));
    }
}
pub proof fn lemma_one(a: Piece)
    ensures
        no_token(a) ==> told(seq![a]) == seq![a],
        a.kind is Token ==> told(seq![a]) == Seq::<Piece>::empty(),
        (a.kind is Token || a.kind is Comment) ==> leaves_of(seq![a]) == seq![leaf_of(a)],
        !(a.kind is Token || a.kind is Comment) ==> leaves_of(seq![a]) == Seq::<Leaf>::empty(),
{
    let q = seq![a];
    assert(q.drop_last() =~= Seq::<Piece>::empty());
    reveal_with_fuel(told, 2);
    reveal_with_fuel(leaves_of, 2);
    assert(told(q) =~= if no_token(a) { seq![a] } else { seq![] });
    if a.kind is Token || a.kind is Comment { assert(leaves_of(q) =~= seq![leaf_of(a)]); }
}
pub proof fn lemma_one_piece(t: Seq<u8>, a: Piece)
    requires a.s <= a.e, honest(t, a),
    ensures covers(seq![a], a.s, a.e), all_honest(t, seq![a]), lone(seq![a]),
{
    let q = seq![a];
    assert(q.drop_last() =~= Seq::<Piece>::empty());
    reveal_with_fuel(covers, 2);
    reveal_with_fuel(all_honest, 2);
}
/// the pieces of a gap
pub proof fn lemma_gap(t: Seq<u8>, from: int, to: int, trailing: bool)
    requires 0 <= from <= to <= t.len(), is_gap(t.subrange(from, to)),
    ensures ({
        let p = gap(t.subrange(from, to), from, trailing);
        &&& covers(p, from, to)
        &&& all_honest(t, p)
        &&& told(p) == p && leaves_of(p) == Seq::<Leaf>::empty()
        &&& lone(p)
        &&& p.len() > 0 && p[0].trailing ==> trailing && from < to && blank(t[from])
    }),
    decreases to - from,
{
    let b = t.subrange(from, to);
    let p = gap(b, from, trailing);
    if b.len() == 0 {
    } else {
        lemma_blanks(b);
        let n = if blank(b[0]) { blanks(b) } else { nl_len(b) };
        lemma_sub_gap(b, n);
        assert(b.skip(n) =~= t.subrange(from + n, to));
        lemma_gap(t, from + n, to, false);
        let q = gap(b.skip(n), from + n, false);
        let a = if blank(b[0]) { Piece { kind: PieceKind::Blank, s: from, e: from + n, trailing } } else { Piece { kind: PieceKind::Newline, s: from, e: from + n, trailing: false } };
        assert(p == seq![a] + q);
        assert(b[0] == t[from]);
        if b.len() > 1 { assert(b[1] == t[from + 1]); }
        assert forall|i: int| a.s <= i < a.e && a.kind is Blank implies blank(#[trigger] t[i]) by { assert(blank(b[i - from])); }
        assert(honest(t, a));
        lemma_one_piece(t, a);
        lemma_one(a);
        lemma_covers(seq![a], q, from, from + n, to);
        lemma_honest(t, seq![a], q);
        lemma_told(seq![a], q);
        lemma_leaves(seq![a], q);
        assert(told(p) =~= p);
        assert(leaves_of(p) =~= Seq::<Leaf>::empty());
        assert forall|i: int| 0 < i < p.len() implies !(#[trigger] p[i]).trailing by { assert(p[i] == q[i - 1]); if i == 1 && q[0].trailing { assert(false); } }
    }
}
/// after a comment its line ends
pub open spec fn eol(t: Seq<u8>, i: int) -> bool { i == t.len() || t[i] == 10 || i + 1 < t.len() && t[i] == 13 && t[i + 1] == 10 }
/// what holds of the pieces so far
pub open spec fn sound(t: Seq<u8>, st: St, x: Seq<Leaf>) -> bool {
    &&& 0 <= st.end <= t.len()
    &&& covers(st.pieces, 0, st.end)
    &&& all_honest(t, st.pieces)
    &&& in_line(st.pieces)
    &&& leaves_of(st.pieces) == x
    &&& st.pieces.len() > 0 ==> st.pieces.last().kind is Token && st.after || st.pieces.last().kind is Comment && eol(t, st.end)
    &&& st.pieces.len() == 0 ==> !st.after
}
pub open spec fn comes(l: Leaf, c: Seq<u8>, after: bool) -> Piece {
    Piece { kind: if l.comment { PieceKind::Comment } else { PieceKind::Token }, s: l.s, e: l.e, trailing: l.comment && !has_lf(c) && after }
}
/// what stands between the pieces so far and a leaf
pub open spec fn inset(c: Seq<u8>, at: int, after: bool, comment: bool) -> Seq<Piece> {
    if comment && !has_lf(c) {
        if c.len() > 0 { seq![Piece { kind: PieceKind::Blank, s: at, e: at + c.len(), trailing: after }] } else { seq![] }
    } else { between(c, at, after) }
}
pub proof fn lemma_inset(t: Seq<u8>, from: int, to: int, after: bool, comment: bool)
    requires 0 <= from <= to <= t.len(), is_gap(t.subrange(from, to)),
    ensures ({
        let w = inset(t.subrange(from, to), from, after, comment);
        &&& covers(w, from, to) && all_honest(t, w) && lone(w)
        &&& leaves_of(w) == Seq::<Leaf>::empty() && told(w) == w
        &&& w.len() > 0 && w[0].trailing ==> after && (comment && !has_lf(t.subrange(from, to)) || from < to && blank(t[from]))
        &&& comment && !has_lf(t.subrange(from, to)) ==> w.len() == 0 && from == to || w.len() == 1 && w[0].trailing == after
    }),
{
    let b = t.subrange(from, to);
    if comment && !has_lf(b) {
        if b.len() > 0 {
            let c = Piece { kind: PieceKind::Blank, s: from, e: to, trailing: after };
            assert forall|i: int| c.s <= i < c.e implies blank(#[trigger] t[i]) || t[i] == 13 by { let y = b[i - from]; assert(y == t[i]); if y == 10 { assert(b.contains(10u8)); } assert(blank(y) || nl(y)); }
            lemma_one(c);
            lemma_one_piece(t, c);
        }
    } else {
        lemma_gap(t, from, to, after && has_nl(b));
    }
}
/// the line of a comment ends before another one begins
pub proof fn lemma_own_line(t: Seq<u8>, end: int, l: Leaf)
    requires fit(t, end, l), tidy_leaf(t, l), l.comment, eol(t, end), 0 <= end,
    ensures has_lf(t.subrange(end, l.s)),
{
    let b = t.subrange(end, l.s);
    assert(t[l.s] == 35);
    if b.len() == 0 { assert(l.s == end); assert(false); }
    assert(b[0] == t[end]);
    if b[0] == 13 {
        assert(t[end + 1] == 10);
        if b.len() == 1 { assert(l.s == end + 1); assert(false); }
        assert(b[1] == t[end + 1]);
        assert(b[1] == 10);
    } else { assert(b[0] == 10); }
}
pub proof fn lemma_feed_is(t: Seq<u8>, st: St, l: Leaf)
    requires st.end <= l.s <= t.len(), 0 <= st.end,
    ensures feed(t, st, l, true).pieces == (st.pieces + inset(t.subrange(st.end, l.s), st.end, st.after, l.comment)) + seq![comes(l, t.subrange(st.end, l.s), st.after)],
{
}
pub proof fn lemma_feed(t: Seq<u8>, st: St, x: Seq<Leaf>, l: Leaf)
    requires sound(t, st, x), fit(t, st.end, l), tidy_leaf(t, l),
    ensures sound(t, feed(t, st, l, true), x.push(l)),
{
    let b = t.subrange(st.end, l.s);
    let w = inset(b, st.end, st.after, l.comment);
    let a = comes(l, b, st.after);
    lemma_inset(t, st.end, l.s, st.after, l.comment);
    lemma_feed_is(t, st, l);
    let m = st.pieces + w;
    if l.comment && eol(t, st.end) { lemma_own_line(t, st.end, l); }
    assert(w.len() > 0 && w[0].trailing ==> st.pieces.len() > 0 && clings(st.pieces.last()));
    lemma_covers(st.pieces, w, 0, st.end, l.s);
    lemma_honest(t, st.pieces, w);
    lemma_in_line(st.pieces, w);
    lemma_leaves(st.pieces, w);
    assert(leaves_of(m) =~= x);
    assert(a.trailing ==> m.len() > 0 && clings(m.last())) by {
        if w.len() > 0 { assert(m.last() == w.last()); } else { assert(m =~= st.pieces); }
    }
    lemma_one(a);
    assert(honest(t, a));
    lemma_one_piece(t, a);
    lemma_covers(m, seq![a], 0, l.s, l.e);
    lemma_honest(t, m, seq![a]);
    lemma_in_line(m, seq![a]);
    lemma_leaves(m, seq![a]);
    let f = feed(t, st, l, true);
    assert(leaf_of(a) == l);
    assert(leaves_of(f.pieces) =~= x.push(l));
    assert(f.pieces.last() == a);
}
pub proof fn lemma_run(t: Seq<u8>, x: Seq<Leaf>)
    requires fits(t, 0, x), tidy(t, x),
    ensures sound(t, run(t, init(), x, true), x), run(t, init(), x, true).end == end_of(0, x),
    decreases x.len(),
{
    if x.len() == 0 {
        assert(leaves_of(Seq::<Piece>::empty()) =~= x);
    } else {
        assert forall|i: int| 0 <= i < x.drop_last().len() implies tidy_leaf(t, #[trigger] x.drop_last()[i]) by { assert(x.drop_last()[i] == x[i]); }
        lemma_run(t, x.drop_last());
        lemma_feed(t, run(t, init(), x.drop_last(), true), x.drop_last(), x.last());
        assert(x.drop_last().push(x.last()) =~= x);
    }
}
/// the trivia are the pieces that are not tokens
pub proof fn lemma_same(t: Seq<u8>, x: Seq<Leaf>)
    requires fits(t, 0, x),
    ensures ({
        let a = run(t, init(), x, true);
        let b = run(t, init(), x, false);
        a.end == b.end && a.after == b.after && a.end == end_of(0, x) && b.pieces == told(a.pieces)
    }),
    decreases x.len(),
{
    if x.len() > 0 {
        lemma_same(t, x.drop_last());
        let a = run(t, init(), x.drop_last(), true);
        let l = x.last();
        let c = t.subrange(a.end, l.s);
        lemma_gap(t, a.end, l.s, a.after && has_nl(c));
        let g = between(c, a.end, a.after);
        let tok = Piece { kind: PieceKind::Token, s: l.s, e: l.e, trailing: false };
        if !l.comment {
            lemma_told(a.pieces, g); lemma_told(a.pieces + g, seq![tok]); lemma_one(tok);
            assert(told(a.pieces) + g + Seq::<Piece>::empty() =~= told(a.pieces) + g);
        } else if has_lf(c) {
            let m = Piece { kind: PieceKind::Comment, s: l.s, e: l.e, trailing: false };
            lemma_told(a.pieces, g); lemma_told(a.pieces + g, seq![m]); lemma_one(m);
        } else {
            let m = Piece { kind: PieceKind::Comment, s: l.s, e: l.e, trailing: a.after };
            let bl = Piece { kind: PieceKind::Blank, s: a.end, e: l.s, trailing: a.after };
            let w = if c.len() > 0 { seq![bl] } else { seq![] };
            lemma_one(bl); lemma_one(m);
            assert(told(Seq::<Piece>::empty()) == Seq::<Piece>::empty());
            lemma_told(a.pieces, w); lemma_told(a.pieces + w, seq![m]);
        }
    }
}
/// R01: the tokens and the trivia are the text, each token and comment once and in its place
pub proof fn theorem_nothing_lost(t: Seq<u8>, x: Seq<Leaf>)
    requires fits(t, 0, x), tidy(t, x), end_of(0, x) <= t.len(), is_gap(t.subrange(end_of(0, x), t.len() as int)),
    ensures ({
        let all = close(t, run(t, init(), x, true));
        &&& covers(all, 0, t.len() as int)
        &&& all_honest(t, all)
        &&& in_line(all)
        &&& leaves_of(all) == x
        &&& told(all) == close(t, run(t, init(), x, false))
    }),
{
    lemma_run(t, x);
    lemma_same(t, x);
    let a = run(t, init(), x, true);
    lemma_gap(t, a.end, t.len() as int, false);
    let g = gap(t.subrange(a.end, t.len() as int), a.end, false);
    lemma_covers(a.pieces, g, 0, a.end, t.len() as int);
    lemma_honest(t, a.pieces, g);
    lemma_in_line(a.pieces, g);
    lemma_leaves(a.pieces, g);
    lemma_told(a.pieces, g);
    assert(leaves_of(a.pieces + g) =~= x);
}
