// ---------------------------------------------------------------- a text with some CRLF line endings
/// the line feeds marked in m become CRLF
pub open spec fn mx(t: Seq<u8>, m: Seq<bool>) -> Seq<u8>
    decreases t.len(),
{ if t.len() == 0 { t } else { mx(t.drop_last(), m.drop_last()) + (if t.last() == 10 && m.last() { seq![13u8, 10u8] } else { seq![t.last()] }) } }
/// where offset o of t lies in mx(t, m)
pub open spec fn moff(t: Seq<u8>, m: Seq<bool>, o: int) -> int { mx(t.take(o), m.take(o)).len() as int }
/// c is t apart from carriage returns in front of line feeds
pub open spec fn mirrors(c: Seq<u8>, t: Seq<u8>) -> bool { exists|m: Seq<bool>| m.len() == t.len() && c == #[trigger] mx(t, m) }
pub proof fn lemma_mx_concat(a: Seq<u8>, ma: Seq<bool>, b: Seq<u8>, mb: Seq<bool>)
    requires a.len() == ma.len(), b.len() == mb.len(),
    ensures mx(a + b, ma + mb) == mx(a, ma) + mx(b, mb),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(ma + mb =~= ma); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((ma + mb).drop_last() =~= ma + mb.drop_last());
        lemma_mx_concat(a, ma, b.drop_last(), mb.drop_last());
        assert(mx(a + b, ma + mb) =~= mx(a, ma) + mx(b, mb));
    }
}
pub proof fn lemma_mx_at(t: Seq<u8>, m: Seq<bool>, i: int)
    requires 0 <= i < t.len(), t.len() == m.len(),
    ensures
        moff(t, m, i) >= 0, moff(t, m, i + 1) <= mx(t, m).len(),
        t[i] == 10 && m[i] ==> moff(t, m, i + 1) == moff(t, m, i) + 2 && mx(t, m)[moff(t, m, i)] == 13 && mx(t, m)[moff(t, m, i) + 1] == 10,
        !(t[i] == 10 && m[i]) ==> moff(t, m, i + 1) == moff(t, m, i) + 1 && mx(t, m)[moff(t, m, i)] == t[i],
{
    assert(t.take(i + 1).drop_last() =~= t.take(i));
    assert(m.take(i + 1).drop_last() =~= m.take(i));
    assert(t =~= t.take(i + 1) + t.skip(i + 1));
    assert(m =~= m.take(i + 1) + m.skip(i + 1));
    lemma_mx_concat(t.take(i + 1), m.take(i + 1), t.skip(i + 1), m.skip(i + 1));
    assert(mx(t.take(i + 1), m.take(i + 1)) == mx(t.take(i), m.take(i)) + (if t[i] == 10 && m[i] { seq![13u8, 10u8] } else { seq![t[i]] }));
}
pub proof fn lemma_moff_mono(t: Seq<u8>, m: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), t.len() == m.len(),
    ensures 0 <= moff(t, m, a) <= moff(t, m, b) <= mx(t, m).len(),
        mx(t, m).take(moff(t, m, b)) == mx(t.take(b), m.take(b)), mx(t, m).skip(moff(t, m, b)) == mx(t.skip(b), m.skip(b)),
        mx(t, m).take(moff(t, m, a)) == mx(t.take(a), m.take(a)),
{
    lemma_moff_cut(t, m, a);
    lemma_moff_cut(t, m, b);
    assert(t.take(b) =~= t.take(a) + t.subrange(a, b));
    assert(m.take(b) =~= m.take(a) + m.subrange(a, b));
    lemma_mx_concat(t.take(a), m.take(a), t.subrange(a, b), m.subrange(a, b));
}
pub proof fn lemma_moff_cut(t: Seq<u8>, m: Seq<bool>, b: int)
    requires 0 <= b <= t.len(), t.len() == m.len(),
    ensures 0 <= moff(t, m, b) <= mx(t, m).len(), mx(t, m).take(moff(t, m, b)) == mx(t.take(b), m.take(b)), mx(t, m).skip(moff(t, m, b)) == mx(t.skip(b), m.skip(b)),
{
    assert(t =~= t.take(b) + t.skip(b));
    assert(m =~= m.take(b) + m.skip(b));
    lemma_mx_concat(t.take(b), m.take(b), t.skip(b), m.skip(b));
    assert(mx(t, m).take(moff(t, m, b)) =~= mx(t.take(b), m.take(b)));
    assert(mx(t, m).skip(moff(t, m, b)) =~= mx(t.skip(b), m.skip(b)));
}
pub proof fn lemma_moff_start(t: Seq<u8>, m: Seq<bool>)
    requires t.len() == m.len(),
    ensures moff(t, m, 0) == 0, moff(t, m, t.len() as int) == mx(t, m).len(),
{ assert(t.take(0) =~= Seq::<u8>::empty()); assert(t.take(t.len() as int) =~= t); assert(m.take(m.len() as int) =~= m); }
/// the line around i
pub proof fn lemma_mx_next_nl(t: Seq<u8>, m: Seq<bool>, i: int)
    requires 0 <= i <= t.len(), t.len() == m.len(),
    ensures
        next_nl(mx(t, m), moff(t, m, i)) == moff(t, m, next_nl(t, i)) + (if next_nl(t, i) < t.len() && m[next_nl(t, i)] { 1int } else { 0 }),
        moff(t, m, next_nl(t, i)) == moff(t, m, i) + (next_nl(t, i) - i),
        forall|j: int| #![trigger moff(t, m, j)] i <= j <= next_nl(t, i) ==> moff(t, m, j) == moff(t, m, i) + (j - i),
        forall|j: int| #![trigger t[j]] i <= j < next_nl(t, i) ==> t[j] == mx(t, m)[moff(t, m, i) + (j - i)],
    decreases t.len() - i,
{
    lemma_moff_start(t, m);
    if i < t.len() {
        lemma_mx_at(t, m, i);
        if t[i] == 10 {
            assert(next_nl(t, i) == i);
            let c = mx(t, m);
            let o = moff(t, m, i);
            if m[i] { assert(next_nl(c, o) == next_nl(c, o + 1) && next_nl(c, o + 1) == o + 1); } else { assert(next_nl(c, o) == o); }
        } else {
            lemma_mx_next_nl(t, m, i + 1);
            lemma_next_nl(t, i + 1);
            assert(next_nl(t, i) == next_nl(t, i + 1));
            assert forall|j: int| #![trigger moff(t, m, j)] i <= j <= next_nl(t, i) implies moff(t, m, j) == moff(t, m, i) + (j - i) by { if j > i { assert(moff(t, m, j) == moff(t, m, i + 1) + (j - (i + 1))); } }
            assert forall|j: int| #![trigger t[j]] i <= j < next_nl(t, i) implies t[j] == mx(t, m)[moff(t, m, i) + (j - i)] by { if j > i { assert(t[j] == mx(t, m)[moff(t, m, i + 1) + (j - (i + 1))]); } }
        }
    } else {
        assert(next_nl(t, i) == t.len());
    }
}
pub proof fn lemma_mx_line(t: Seq<u8>, m: Seq<bool>, k: int)
    requires t.len() == m.len(),
    ensures
        line_start(t, k) is None ==> line_start(mx(t, m), k) is None,
        line_start(t, k) matches Some(s) ==> line_start(mx(t, m), k) == Some(moff(t, m, s)),
    decreases k,
{
    lemma_moff_start(t, m);
    if k > 0 {
        lemma_mx_line(t, m, k - 1);
        if let Some(s) = line_start(t, k - 1) {
            lemma_line_start(t, k - 1);
            lemma_next_nl(t, s);
            lemma_mx_next_nl(t, m, s);
            if next_nl(t, s) < t.len() { lemma_mx_at(t, m, next_nl(t, s)); }
        }
    }
}
pub proof fn lemma_mx_bnd(t: Seq<u8>, m: Seq<bool>, o: int)
    requires bnd(t, o), 0 <= o <= t.len(), t.len() == m.len(),
    ensures bnd(mx(t, m), moff(t, m, o)), 0 <= moff(t, m, o) <= mx(t, m).len(),
{
    lemma_moff_start(t, m);
    lemma_moff_cut(t, m, o);
    if o < t.len() { lemma_mx_at(t, m, o); }
}
/// a position in the server's text is the same position in the client's
pub proof fn lemma_mx_pos(t: Seq<u8>, m: Seq<bool>, enc: PositionEncoding, p: lsp_types::Position)
    requires pos(t, enc, p) is Some, in_line(t, p.line as int, pos(t, enc, p)->Some_0), t.len() == m.len(),
    ensures pos(mx(t, m), enc, p) == Some(moff(t, m, pos(t, enc, p)->Some_0)),
{
    let o = pos(t, enc, p)->Some_0;
    let k = p.line as int;
    let s = line_start(t, k)->Some_0;
    let c = mx(t, m);
    lemma_in_line(t, k, o);
    lemma_line_start(t, k);
    lemma_next_nl(t, s);
    lemma_mx_line(t, m, k);
    lemma_mx_next_nl(t, m, s);
    lemma_mx_bnd(t, m, o);
    lemma_moff_mono(t, m, 0, s);
    lemma_line_start(c, k);
    lemma_next_nl(c, moff(t, m, s));
    assert(moff(t, m, o) == moff(t, m, s) + (o - s));
    if let PositionEncoding::Wide(w) = enc {
        let (a, b) = (line_text(t, k), line_text(c, k));
        let n = narrow(a, w, p.character as int);
        assert(o == s + n);
        assert(a.take(n) =~= b.take(n)) by {
            assert forall|i: int| 0 <= i < n implies a[i] == b[i] by { assert(t[s + i] == c[moff(t, m, s) + ((s + i) - s)]); }
        }
        assert(bnd(a, n)) by { if 0 < n < a.len() { assert(a[n] == t[o]); } }
        assert(bnd(b, n)) by { if 0 < n < b.len() { assert(b[n] == c[moff(t, m, o)]); } }
        axiom_narrow(a, b, w, p.character as int);
    }
}
/// every text mirrors itself without the CR of CRLF
pub proof fn lemma_strip_mirrors(s: Seq<char>)
    ensures mirrors(bytes(s), bytes(strip_c(s))),
    decreases s.len(),
{
    lemma_bytes_empty();
    if s.len() == 0 {
        let m = Seq::<bool>::empty();
        assert(bytes(s) == mx(bytes(strip_c(s)), m));
    } else {
        let r = s.skip(1);
        lemma_utf8_char(s[0]);
        lemma_utf8_cons(s);
        let w = encode_scalar(s[0] as u32);
        if crlf_at_c(s, 0) {
            let q = r.skip(1);
            lemma_strip_mirrors(q);
            lemma_utf8_char('\n');
            lemma_utf8_cons(r);
            assert(!crlf_at_c(r, 0));
            assert(r[0] == '\n');
            assert(strip_c(r) == seq![r[0]] + strip_c(q));
            assert(strip_c(s) == strip_c(r));
            let z = bytes(strip_c(q));
            let m = choose|m: Seq<bool>| m.len() == z.len() && bytes(q) == #[trigger] mx(z, m);
            encode_utf8_concat(seq!['\n'], strip_c(q));
            lemma_one('\n');
            lemma_mx_concat(seq![10u8], seq![true], z, m);
            lemma_mx_one(10u8, true);
            let v = seq![true] + m;
            assert(bytes(s) =~= seq![13u8] + (seq![10u8] + bytes(q)));
            assert(bytes(s) =~= mx(bytes(strip_c(s)), v));
        } else {
            lemma_strip_mirrors(r);
            let z = bytes(strip_c(r));
            let m = choose|m: Seq<bool>| m.len() == z.len() && bytes(r) == #[trigger] mx(z, m);
            let f = Seq::new(w.len(), |i: int| false);
            encode_utf8_concat(seq![s[0]], strip_c(r));
            lemma_one(s[0]);
            lemma_mx_concat(w, f, z, m);
            lemma_mx_plain(w, f);
            let v = f + m;
            assert(bytes(s) =~= mx(bytes(strip_c(s)), v));
        }
    }
}
pub proof fn lemma_one(c: char)
    ensures bytes(seq![c]) == encode_scalar(c as u32),
{
    lemma_bytes_empty();
    lemma_utf8_cons(seq![c]);
    assert(seq![c].skip(1) =~= Seq::<char>::empty());
    assert(bytes(seq![c]) =~= encode_scalar(c as u32));
}
pub proof fn lemma_mx_one(b: u8, x: bool)
    ensures mx(seq![b], seq![x]) == (if b == 10 && x { seq![13u8, 10u8] } else { seq![b] }),
{
    assert(seq![b].drop_last() =~= Seq::<u8>::empty());
    assert(mx(Seq::<u8>::empty(), seq![x].drop_last()) =~= Seq::<u8>::empty());
    assert(seq![b].last() == b && seq![x].last() == x);
    assert(mx(seq![b], seq![x]) =~= (if b == 10 && x { seq![13u8, 10u8] } else { seq![b] }));
}
pub proof fn lemma_mx_plain(t: Seq<u8>, m: Seq<bool>)
    requires t.len() == m.len(), forall|i: int| 0 <= i < m.len() ==> !m[i],
    ensures mx(t, m) == t,
    decreases t.len(),
{
    if t.len() > 0 {
        let d = m.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !d[i] by { assert(!m[i]); }
        lemma_mx_plain(t.drop_last(), d);
        assert(!m[m.len() - 1]);
        assert(mx(t, m) =~= t);
    }
}
pub proof fn lemma_mirrors_self(t: Seq<u8>)
    ensures mirrors(t, t),
{
    let m = Seq::new(t.len(), |i: int| false);
    lemma_mx_plain(t, m);
    assert(t == mx(t, m));
}
/// what the client does to its own text
pub open spec fn client_step(c: Seq<u8>, enc: PositionEncoding, x: Change) -> Seq<u8> {
    match x.range {
        None => bytes(x.text@),
        Some(r) => splice(c, pos(c, enc, r.start)->Some_0, pos(c, enc, r.end)->Some_0, bytes(x.text@)),
    }
}
pub open spec fn client_run(c: Seq<u8>, enc: PositionEncoding, v: Seq<Change>) -> Seq<u8>
    decreases v.len(),
{ if v.len() == 0 { c } else { client_step(client_run(c, enc, v.drop_last()), enc, v.last()) } }
/// one change keeps the two texts in step
pub proof fn lemma_mirror_step(c: Seq<u8>, t: Seq<u8>, enc: PositionEncoding, x: Change)
    requires mirrors(c, t), step(t, enc, x) is Some,
    ensures mirrors(client_step(c, enc, x), step(t, enc, x)->Some_0),
{
    lemma_strip_mirrors(x.text@);
    if let Some(r) = x.range {
        let m = choose|m: Seq<bool>| m.len() == t.len() && c == #[trigger] mx(t, m);
        let z = bytes(strip_c(x.text@));
        let n = choose|m: Seq<bool>| m.len() == z.len() && bytes(x.text@) == #[trigger] mx(z, m);
        let s = pos(t, enc, r.start)->Some_0;
        let e = pos(t, enc, r.end)->Some_0;
        lemma_in_line(t, r.start.line as int, s);
        lemma_in_line(t, r.end.line as int, e);
        lemma_mx_pos(t, m, enc, r.start);
        lemma_mx_pos(t, m, enc, r.end);
        lemma_moff_mono(t, m, s, e);
        lemma_mx_concat(t.take(s), m.take(s), z, n);
        lemma_mx_concat(t.take(s) + z, m.take(s) + n, t.skip(e), m.skip(e));
        let u = splice(t, s, e, z);
        let v = m.take(s) + n + m.skip(e);
        assert(u =~= t.take(s) + z + t.skip(e));
        assert(client_step(c, enc, x) =~= c.take(moff(t, m, s)) + bytes(x.text@) + c.skip(moff(t, m, e)));
        assert(client_step(c, enc, x) == mx(u, v));
    }
}
pub proof fn lemma_mirror_run(c: Seq<u8>, t: Seq<u8>, enc: PositionEncoding, v: Seq<Change>)
    requires mirrors(c, t), run(t, enc, v) is Some,
    ensures mirrors(client_run(c, enc, v), run(t, enc, v)->Some_0),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_mirror_run(c, t, enc, v.drop_last());
        lemma_mirror_step(client_run(c, enc, v.drop_last()), run(t, enc, v.drop_last())->Some_0, enc, v.last());
    }
}
