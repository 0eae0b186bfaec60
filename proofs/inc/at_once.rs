// ---------------------------------------------------------------- specification: edits made at once
pub struct Ge { pub s: int, pub e: int, pub x: Seq<u8> }
pub open spec fn at_once(t: Seq<u8>, v: Seq<Ge>) -> Seq<u8>
    decreases v.len(),
{
    if v.len() == 0 { t } else { at_once(t.take(v.last().s), v.drop_last()) + v.last().x + t.skip(v.last().e) }
}
pub open spec fn ge(t: Seq<u8>, enc: PositionEncoding, e: lsp_types::TextEdit) -> Ge {
    Ge { s: pos(t, enc, e.range.start)->Some_0, e: pos(t, enc, e.range.end)->Some_0, x: bytes(strip_c(e.new_text@)) }
}
pub open spec fn ges(t: Seq<u8>, enc: PositionEncoding, v: Seq<lsp_types::TextEdit>) -> Seq<Ge> { v.map(|i: int, e: lsp_types::TextEdit| ge(t, enc, e)) }
/// edits in order that do not overlap
pub open spec fn separate(t: Seq<u8>, enc: PositionEncoding, v: Seq<lsp_types::TextEdit>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> sound(t, enc, v[i].range)
    &&& forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> ge(t, enc, v[i]).e <= ge(t, enc, v[j]).s
}
pub open spec fn xlen(v: Seq<lsp_types::TextEdit>) -> int
    decreases v.len(),
{ if v.len() == 0 { 0 } else { xlen(v.drop_last()) + bytes(strip_c(v.last().new_text@)).len() } }
pub open spec fn changes_of(v: Seq<lsp_types::TextEdit>) -> Seq<Change> { v.map(|i: int, e: lsp_types::TextEdit| Change { range: Some(e.range), range_length: None, text: e.new_text }) }

/// a position in the common beginning of two texts is the same offset in both
pub proof fn lemma_pos_common(t: Seq<u8>, u: Seq<u8>, enc: PositionEncoding, m: int, p: lsp_types::Position)
    requires 0 <= m <= t.len(), m <= u.len(), t.take(m) == u.take(m), bnd(u, m), bnd(t, m), pos(t, enc, p) is Some, in_line(t, p.line as int, pos(t, enc, p)->Some_0), pos(t, enc, p)->Some_0 <= m,
    ensures pos(u, enc, p) == pos(t, enc, p), in_line(u, p.line as int, pos(t, enc, p)->Some_0),
{
    let o = pos(t, enc, p)->Some_0;
    let k = p.line as int;
    lemma_in_line(t, k, o);
    assert(t.take(o) =~= t.take(m).take(o) && u.take(o) =~= u.take(m).take(o));
    lemma_lines_agree(t, u, o, k);
    let ls = line_start(t, k)->Some_0;
    lemma_line_start(t, k);
    lemma_next_nl(t, ls);
    lemma_next_nl(u, ls);
    lemma_next_nl_agree(t, u, o, ls);
    assert(bnd(u, o)) by { if 0 < o < m { assert(t.take(m)[o] == t[o] && u.take(m)[o] == u[o]); } }
    if let PositionEncoding::Wide(w) = enc {
        let (a, b) = (line_text(t, k), line_text(u, k));
        let c = narrow(a, w, p.character as int);
        assert(o == ls + c);
        assert(a.take(c) =~= b.take(c)) by {
            assert forall|j: int| 0 <= j < c implies a[j] == b[j] by { assert(t.take(o)[ls + j] == t[ls + j] && u.take(o)[ls + j] == u[ls + j]); }
        }
        assert(bnd(a, c)) by { if 0 < c < a.len() { assert(a[c] == t[o]); } }
        assert(bnd(b, c)) by { if 0 < c < b.len() { assert(b[c] == u[o]); } }
        axiom_narrow(a, b, w, p.character as int);
    }
}
pub proof fn lemma_at_once_tail(t: Seq<u8>, y: Seq<u8>, v: Seq<Ge>)
    requires forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> 0 <= v[i].s <= v[i].e <= t.len(),
    ensures at_once(t + y, v) == at_once(t, v) + y,
{
    if v.len() > 0 {
        let l = v.last();
        assert(l == v[v.len() - 1]);
        assert((t + y).take(l.s) =~= t.take(l.s));
        assert((t + y).skip(l.e) =~= t.skip(l.e) + y);
        assert(at_once(t + y, v) =~= at_once(t, v) + y);
    }
}
/// the last edit, made on a text that still begins as the original
pub proof fn lemma_reverse_step(t: Seq<u8>, u: Seq<u8>, enc: PositionEncoding, l: lsp_types::TextEdit, m: int)
    requires
        sound(t, enc, l.range), 0 <= m <= t.len(), m <= u.len(), t.take(m) == u.take(m), bnd(u, m), bnd(t, m), ge(t, enc, l).e <= m, u.len() <= u32::MAX,
    ensures ({
        let g = ge(t, enc, l);
        let u2 = splice(u, g.s, g.e, g.x);
        &&& 0 <= g.s <= g.e <= m
        &&& run(u, enc, seq![Change { range: Some(l.range), range_length: None, text: l.new_text }]) == Some(u2)
        &&& u2.take(g.s) == t.take(g.s) && bnd(u2, g.s) && bnd(t, g.s) && u2.len() <= u.len() + g.x.len()
        &&& u2 == u.take(g.s) + (g.x + u.skip(g.e)) && u2.len() >= g.s
    }),
{
    let g = ge(t, enc, l);
    let c = Change { range: Some(l.range), range_length: None, text: l.new_text };
    lemma_in_line(t, l.range.start.line as int, g.s);
    lemma_in_line(t, l.range.end.line as int, g.e);
    lemma_pos_common(t, u, enc, m, l.range.start);
    lemma_pos_common(t, u, enc, m, l.range.end);
    let u2 = splice(u, g.s, g.e, g.x);
    assert(seq![c].drop_last() =~= Seq::<Change>::empty());
    assert(run(u, enc, seq![c].drop_last()) == Some(u));
    assert(run(u, enc, seq![c]) == step(u, enc, c));
    assert(u2.take(g.s) =~= t.take(g.s)) by {
        assert forall|j: int| 0 <= j < g.s implies u2[j] == t[j] by { assert(u.take(m)[j] == u[j] && t.take(m)[j] == t[j]); }
    }
    assert(bnd(u2, g.s)) by {
        if g.x.len() > 0 { lemma_first_byte(strip_c(l.new_text@)); assert(u2[g.s] == g.x[0]); }
        else if g.s < u2.len() { assert(u2[g.s] == u[g.e]); }
    }
    assert(u2 =~= u.take(g.s) + (g.x + u.skip(g.e)));
}
pub proof fn lemma_separate_prefix(t: Seq<u8>, enc: PositionEncoding, v: Seq<lsp_types::TextEdit>)
    requires separate(t, enc, v), v.len() > 0,
    ensures
        separate(t, enc, v.drop_last()), sound(t, enc, v.last().range), ges(t, enc, v).drop_last() == ges(t, enc, v.drop_last()), ges(t, enc, v).last() == ge(t, enc, v.last()),
        forall|i: int| #![trigger v.drop_last()[i]] 0 <= i < v.len() - 1 ==> ge(t, enc, v.drop_last()[i]).e <= ge(t, enc, v.last()).s,
        forall|i: int| #![trigger ges(t, enc, v.drop_last())[i]] 0 <= i < v.len() - 1 ==> 0 <= ges(t, enc, v.drop_last())[i].s <= ges(t, enc, v.drop_last())[i].e <= ge(t, enc, v.last()).s,
{
    let d = v.drop_last();
    let l = v.last();
    assert(l == v[v.len() - 1]);
    assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies sound(t, enc, d[i].range) && ge(t, enc, d[i]).e <= ge(t, enc, l).s by { assert(d[i] == v[i]); }
    assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies ge(t, enc, d[i]).e <= ge(t, enc, d[j]).s by { assert(d[i] == v[i] && d[j] == v[j]); }
    assert(ges(t, enc, v).drop_last() =~= ges(t, enc, d));
    assert forall|i: int| #![trigger ges(t, enc, d)[i]] 0 <= i < d.len() implies 0 <= ges(t, enc, d)[i].s <= ges(t, enc, d)[i].e <= ge(t, enc, l).s by {
        assert(sound(t, enc, d[i].range));
        lemma_in_line(t, d[i].range.start.line as int, ge(t, enc, d[i]).s);
    }
}
/// the edits v in reverse order, one after the other, are v at once
pub proof fn lemma_reverse(t: Seq<u8>, u: Seq<u8>, enc: PositionEncoding, v: Seq<lsp_types::TextEdit>, m: int)
    requires
        separate(t, enc, v), 0 <= m <= t.len(), m <= u.len(), t.take(m) == u.take(m), bnd(u, m), bnd(t, m),
        forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> ge(t, enc, v[i]).e <= m,
        u.len() + xlen(v) <= u32::MAX,
    ensures run(u, enc, changes_of(v.reverse())) == Some(at_once(u, ges(t, enc, v))),
    decreases v.len(),
{
    let w = changes_of(v.reverse());
    if v.len() > 0 {
        let l = v.last();
        let d = v.drop_last();
        assert(l == v[v.len() - 1]);
        let g = ge(t, enc, l);
        let c = Change { range: Some(l.range), range_length: None, text: l.new_text };
        let u2 = splice(u, g.s, g.e, g.x);
        assert(w =~= seq![c] + changes_of(d.reverse()));
        lemma_xlen(d);
        lemma_separate_prefix(t, enc, v);
        lemma_reverse_step(t, u, enc, l, m);
        lemma_run_concat(u, enc, seq![c], changes_of(d.reverse()));
        lemma_reverse(t, u2, enc, d, g.s);
        let gd = ges(t, enc, d);
        lemma_at_once_tail(u.take(g.s), g.x + u.skip(g.e), gd);
        assert(at_once(u.take(g.s), gd) + (g.x + u.skip(g.e)) =~= at_once(u.take(g.s), gd) + g.x + u.skip(g.e));
    } else {
        assert(w =~= Seq::<Change>::empty());
    }
}
pub proof fn lemma_xlen(v: Seq<lsp_types::TextEdit>)
    ensures xlen(v) >= 0,
    decreases v.len(),
{ if v.len() > 0 { lemma_xlen(v.drop_last()); } }
