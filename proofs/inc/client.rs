/// the text with the given line endings
pub open spec fn le(e: LineEnding, t: Seq<u8>) -> Seq<u8> { match e { LineEnding::Lf => t, LineEnding::Crlf => cr(t) } }
pub open spec fn lec(e: LineEnding, t: Seq<char>) -> Seq<char> { match e { LineEnding::Lf => t, LineEnding::Crlf => crc(t) } }
pub open spec fn leo(e: LineEnding, t: Seq<u8>, o: int) -> int { match e { LineEnding::Lf => o, LineEnding::Crlf => off(t, o) } }
/// a position of the server's text is the same position of the client's text
pub proof fn lemma_client_pos(t: Seq<u8>, e: LineEnding, enc: PositionEncoding, p: lsp_types::Position)
    requires pos(t, enc, p) is Some, in_line(t, p.line as int, pos(t, enc, p)->Some_0),
    ensures pos(le(e, t), enc, p) == Some(leo(e, t, pos(t, enc, p)->Some_0)), in_line(le(e, t), p.line as int, leo(e, t, pos(t, enc, p)->Some_0)),
{
    if e is Crlf {
        let o = pos(t, enc, p)->Some_0;
        let k = p.line as int;
        let s = line_start(t, k)->Some_0;
        let c = cr(t);
        lemma_in_line(t, k, o);
        lemma_line_start(t, k);
        lemma_next_nl(t, s);
        lemma_cr_line(t, k);
        lemma_cr_next_nl(t, s);
        lemma_cr_bnd(t, o);
        lemma_off_mono(t, 0, s);
        lemma_line_start(c, k);
        lemma_next_nl(c, off(t, s));
        let j = next_nl(t, s);
        assert(off(t, o) == off(t, s) + (o - s));
        if let PositionEncoding::Wide(w) = enc {
            let (a, b) = (line_text(t, k), line_text(c, k));
            let n = narrow(a, w, p.character as int);
            assert(o == s + n);
            assert(a.take(n) =~= b.take(n)) by {
                assert forall|i: int| 0 <= i < n implies a[i] == b[i] by { assert(t[s + i] == c[off(t, s) + ((s + i) - s)]); }
            }
            assert(bnd(a, n)) by { if 0 < n < a.len() { assert(a[n] == t[o]); } }
            assert(bnd(b, n)) by { if 0 < n < b.len() { assert(b[n] == c[off(t, o)]); } }
            axiom_narrow(a, b, w, p.character as int);
        }
    }
}
pub proof fn lemma_cr_at_once(t: Seq<u8>, v: Seq<Ge>)
    requires
        forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> 0 <= v[i].s <= v[i].e <= t.len(),
        forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> v[i].e <= v[j].s,
    ensures cr(at_once(t, v)) == at_once(cr(t), v.map(|i: int, g: Ge| Ge { s: off(t, g.s), e: off(t, g.e), x: cr(g.x) })),
    decreases v.len(),
{
    let f = |i: int, g: Ge| Ge { s: off(t, g.s), e: off(t, g.e), x: cr(g.x) };
    let w = v.map(f);
    if v.len() > 0 {
        let l = v.last();
        assert(l == v[v.len() - 1]);
        let d = v.drop_last();
        let u = t.take(l.s);
        assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies 0 <= d[i].s <= d[i].e <= u.len() by { assert(d[i] == v[i]); }
        assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies d[i].e <= d[j].s by { assert(d[i] == v[i] && d[j] == v[j]); }
        lemma_cr_at_once(u, d);
        let g = |i: int, g: Ge| Ge { s: off(u, g.s), e: off(u, g.e), x: cr(g.x) };
        assert(d.map(g) =~= w.drop_last()) by {
            assert forall|i: int| 0 <= i < d.len() implies d.map(g)[i] == w.drop_last()[i] by {
                assert(d[i] == v[i]);
                assert(u.take(d[i].s) =~= t.take(d[i].s) && u.take(d[i].e) =~= t.take(d[i].e));
            }
        }
        lemma_off_mono(t, 0, l.s);
        lemma_off_mono(t, l.s, l.e);
        lemma_cr_concat(at_once(u, d), l.x);
        lemma_cr_concat(at_once(u, d) + l.x, t.skip(l.e));
        assert(cr(t).take(w.last().s) == cr(u));
        assert(cr(t).skip(w.last().e) == cr(t.skip(l.e)));
    } else { assert(w =~= Seq::<Ge>::empty()); }
}
/// what the client makes of a list of edits: all at once, on its own text
pub open spec fn raw(t: Seq<u8>, enc: PositionEncoding, e: lsp_types::TextEdit) -> Ge {
    Ge { s: pos(t, enc, e.range.start)->Some_0, e: pos(t, enc, e.range.end)->Some_0, x: bytes(e.new_text@) }
}
pub open spec fn client(t: Seq<u8>, enc: PositionEncoding, v: Seq<lsp_types::TextEdit>) -> Seq<u8> { at_once(t, v.map(|i: int, e: lsp_types::TextEdit| raw(t, enc, e))) }
pub open spec fn plain(i: Indel) -> Ge { Ge { s: i.delete.s(), e: i.delete.e(), x: ins(i) } }
pub open spec fn plains(v: Seq<Indel>) -> Seq<Ge> { v.map(|i: int, x: Indel| plain(x)) }
pub proof fn lemma_applied_at_once(t: Seq<u8>, v: Seq<Indel>)
    ensures applied(t, v) == at_once(t, plains(v)),
    decreases v.len(),
{
    if v.len() > 0 {
        assert(plains(v).drop_last() =~= plains(v.drop_last()));
        lemma_applied_at_once(t.take(v.last().delete.s()), v.drop_last());
    }
}
/// one edit for the client says what one edit of the server's text says
pub open spec fn says(t: Seq<u8>, enc: PositionEncoding, e: LineEnding, i: Indel, x: lsp_types::TextEdit) -> bool {
    &&& sound(t, enc, x.range) && pos(t, enc, x.range.start) == Some(i.delete.s()) && pos(t, enc, x.range.end) == Some(i.delete.e())
    &&& x.new_text@ == lec(e, i.insert@)
}
pub open spec fn all_say(t: Seq<u8>, enc: PositionEncoding, e: LineEnding, v: Seq<Indel>, x: Seq<lsp_types::TextEdit>) -> bool {
    x.len() == v.len() && forall|i: int| #![trigger v[i]] #![trigger x[i]] 0 <= i < v.len() ==> says(t, enc, e, v[i], x[i])
}
/// the client ends up with the new text, in its own line endings
pub proof fn lemma_client(t: Seq<u8>, enc: PositionEncoding, e: LineEnding, v: Seq<Indel>, x: Seq<lsp_types::TextEdit>)
    requires wf(v), fits(t, v), all_say(t, enc, e, v, x),
    ensures separate(le(e, t), enc, x), client(le(e, t), enc, x) == le(e, applied(t, v)), separate(t, enc, x),
{
    broadcast use text_size::axiom_range;
    let d = le(e, t);
    lemma_applied_at_once(t, v);
    let p = plains(v);
    let f = |i: int, g: Ge| Ge { s: off(t, g.s), e: off(t, g.e), x: cr(g.x) };
    let y = x.map(|i: int, e: lsp_types::TextEdit| raw(d, enc, e));
    assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies sound(d, enc, x[i].range) && raw(d, enc, x[i]).s == leo(e, t, v[i].delete.s()) && raw(d, enc, x[i]).e == leo(e, t, v[i].delete.e())
        && raw(d, enc, x[i]).x == le(e, ins(v[i])) && sound(t, enc, x[i].range) by {
        assert(says(t, enc, e, v[i], x[i]));
        lemma_crc(v[i].insert@);
        lemma_client_pos(t, e, enc, x[i].range.start);
        lemma_client_pos(t, e, enc, x[i].range.end);
        lemma_off_mono(t, v[i].delete.s(), v[i].delete.e());
    }
    assert forall|i: int, j: int| #![trigger x[i], x[j]] 0 <= i < j < x.len() implies ge(d, enc, x[i]).e <= ge(d, enc, x[j]).s && ge(t, enc, x[i]).e <= ge(t, enc, x[j]).s by {
        assert(v[i].delete.e() <= v[j].delete.s());
        assert(says(t, enc, e, v[i], x[i]) && says(t, enc, e, v[j], x[j]));
        assert(raw(d, enc, x[i]).e == leo(e, t, v[i].delete.e()) && raw(d, enc, x[j]).s == leo(e, t, v[j].delete.s()));
        lemma_off_mono(t, v[i].delete.e(), v[j].delete.s());
    }
    match e {
        LineEnding::Lf => {
            assert(y =~= p) by { assert forall|i: int| 0 <= i < y.len() implies y[i] == p[i] by { assert(says(t, enc, e, v[i], x[i])); assert(raw(d, enc, x[i]).s == v[i].delete.s()); } }
        },
        LineEnding::Crlf => {
            assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies 0 <= p[i].s <= p[i].e <= t.len() by { assert(v[i].delete.e() <= t.len()); }
            assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() implies p[i].e <= p[j].s by { assert(v[i].delete.e() <= v[j].delete.s()); }
            lemma_cr_at_once(t, p);
            assert(y =~= p.map(f)) by { assert forall|i: int| 0 <= i < y.len() implies y[i] == p.map(f)[i] by { assert(says(t, enc, e, v[i], x[i])); assert(raw(d, enc, x[i]).s == off(t, v[i].delete.s())); } }
        },
    }
}
/// inserted texts that the server's normalisation leaves alone
pub open spec fn clean(e: LineEnding, v: Seq<Indel>) -> bool { e is Lf ==> forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> strip_c(v[i].insert@) == v[i].insert@ }
/// the same edits from the bottom up, one after the other, on the server's text
pub proof fn lemma_server(t: Seq<u8>, enc: PositionEncoding, e: LineEnding, v: Seq<Indel>, x: Seq<lsp_types::TextEdit>)
    requires wf(v), fits(t, v), all_say(t, enc, e, v, x), clean(e, v), t.len() + ins_total(v) <= u32::MAX,
    ensures run(t, enc, changes_of(x.reverse())) == Some(applied(t, v)),
{
    lemma_client(t, enc, e, v, x);
    lemma_applied_at_once(t, v);
    assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies ge(t, enc, x[i]) == plain(v[i]) && ge(t, enc, x[i]).e <= t.len() by {
        assert(says(t, enc, e, v[i], x[i]));
        lemma_crc(v[i].insert@);
    }
    assert(ges(t, enc, x) =~= plains(v));
    lemma_xlen_total(t, enc, e, v, x);
    assert(t.take(t.len() as int) =~= t);
    lemma_reverse(t, t, enc, x, t.len() as int);
}
pub proof fn lemma_xlen_total(t: Seq<u8>, enc: PositionEncoding, e: LineEnding, v: Seq<Indel>, x: Seq<lsp_types::TextEdit>)
    requires all_say(t, enc, e, v, x), clean(e, v),
    ensures xlen(x) == ins_total(v),
    decreases v.len(),
{
    if v.len() > 0 {
        assert(says(t, enc, e, v[v.len() - 1], x[v.len() - 1]));
        lemma_crc(v.last().insert@);
        let (a, b) = (v.drop_last(), x.drop_last());
        assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() implies says(t, enc, e, a[i], b[i]) by { assert(a[i] == v[i] && b[i] == x[i]); }
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() && e is Lf implies strip_c(a[i].insert@) == a[i].insert@ by { assert(a[i] == v[i]); }
        lemma_xlen_total(t, enc, e, a, b);
    }
}
