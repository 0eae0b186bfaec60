// ---------------------------------------------------------------- a text with CRLF line endings
/// every line feed becomes CRLF
pub open spec fn cr(t: Seq<u8>) -> Seq<u8>
    decreases t.len(),
{ if t.len() == 0 { t } else { cr(t.drop_last()) + (if t.last() == 10 { seq![13u8, 10u8] } else { seq![t.last()] }) } }
/// where offset o of t lies in cr(t)
pub open spec fn off(t: Seq<u8>, o: int) -> int { cr(t.take(o)).len() as int }
pub proof fn lemma_cr_concat(a: Seq<u8>, b: Seq<u8>)
    ensures cr(a + b) == cr(a) + cr(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_cr_concat(a, b.drop_last());
        assert(cr(a + b) =~= cr(a) + cr(b));
    }
}
/// one byte of t in cr(t)
pub proof fn lemma_cr_at(t: Seq<u8>, i: int)
    requires 0 <= i < t.len(),
    ensures
        off(t, i) >= 0, off(t, i + 1) <= cr(t).len(),
        t[i] == 10 ==> off(t, i + 1) == off(t, i) + 2 && cr(t)[off(t, i)] == 13 && cr(t)[off(t, i) + 1] == 10,
        t[i] != 10 ==> off(t, i + 1) == off(t, i) + 1 && cr(t)[off(t, i)] == t[i],
{
    assert(t.take(i + 1).drop_last() =~= t.take(i));
    assert(t =~= t.take(i + 1) + t.skip(i + 1));
    lemma_cr_concat(t.take(i + 1), t.skip(i + 1));
    assert(cr(t.take(i + 1)) == cr(t.take(i)) + (if t[i] == 10 { seq![13u8, 10u8] } else { seq![t[i]] }));
}
pub proof fn lemma_off_mono(t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len(),
    ensures 0 <= off(t, a) <= off(t, b) <= cr(t).len(), cr(t).take(off(t, b)) == cr(t.take(b)), cr(t).skip(off(t, b)) == cr(t.skip(b)),
{
    assert(t.take(b) =~= t.take(a) + t.subrange(a, b));
    lemma_cr_concat(t.take(a), t.subrange(a, b));
    assert(t =~= t.take(b) + t.skip(b));
    lemma_cr_concat(t.take(b), t.skip(b));
    assert(cr(t).take(off(t, b)) =~= cr(t.take(b)));
    assert(cr(t).skip(off(t, b)) =~= cr(t.skip(b)));
}
pub proof fn lemma_off_start(t: Seq<u8>)
    ensures off(t, 0) == 0, off(t, t.len() as int) == cr(t).len(),
{ assert(t.take(0) =~= Seq::<u8>::empty()); assert(t.take(t.len() as int) =~= t); }
/// the line around i
pub proof fn lemma_cr_next_nl(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len(),
    ensures
        next_nl(cr(t), off(t, i)) == off(t, next_nl(t, i)) + (if next_nl(t, i) < t.len() { 1int } else { 0 }),
        off(t, next_nl(t, i)) == off(t, i) + (next_nl(t, i) - i),
        forall|j: int| #![trigger off(t, j)] i <= j <= next_nl(t, i) ==> off(t, j) == off(t, i) + (j - i),
        forall|j: int| #![trigger t[j]] i <= j < next_nl(t, i) ==> t[j] == cr(t)[off(t, i) + (j - i)],
    decreases t.len() - i,
{
    lemma_off_start(t);
    if i < t.len() {
        lemma_cr_at(t, i);
        if t[i] == 10 {
            assert(next_nl(t, i) == i);
            let c = cr(t);
            let o = off(t, i);
            assert(next_nl(c, o) == next_nl(c, o + 1) && next_nl(c, o + 1) == o + 1);
        } else {
            lemma_cr_next_nl(t, i + 1);
            lemma_next_nl(t, i + 1);
            assert(next_nl(t, i) == next_nl(t, i + 1));
            assert forall|j: int| #![trigger off(t, j)] i <= j <= next_nl(t, i) implies off(t, j) == off(t, i) + (j - i) by { if j > i { assert(off(t, j) == off(t, i + 1) + (j - (i + 1))); } }
            assert forall|j: int| #![trigger t[j]] i <= j < next_nl(t, i) implies t[j] == cr(t)[off(t, i) + (j - i)] by { if j > i { assert(t[j] == cr(t)[off(t, i + 1) + (j - (i + 1))]); } }
        }
    } else {
        assert(next_nl(t, i) == t.len());
    }
}
pub proof fn lemma_cr_line(t: Seq<u8>, k: int)
    ensures
        line_start(t, k) is None ==> line_start(cr(t), k) is None,
        line_start(t, k) matches Some(s) ==> line_start(cr(t), k) == Some(off(t, s)),
    decreases k,
{
    lemma_off_start(t);
    if k > 0 {
        lemma_cr_line(t, k - 1);
        if let Some(s) = line_start(t, k - 1) {
            lemma_line_start(t, k - 1);
            lemma_next_nl(t, s);
            lemma_cr_next_nl(t, s);
            if next_nl(t, s) < t.len() { lemma_cr_at(t, next_nl(t, s)); }
        }
    }
}
pub proof fn lemma_cr_bnd(t: Seq<u8>, o: int)
    requires bnd(t, o), 0 <= o <= t.len(),
    ensures bnd(cr(t), off(t, o)), 0 <= off(t, o) <= cr(t).len(),
{
    lemma_off_start(t);
    lemma_off_mono(t, 0, o);
    if o < t.len() { lemma_cr_at(t, o); }
}
pub proof fn lemma_cr_none(w: Seq<u8>)
    requires !w.contains(10u8),
    ensures cr(w) == w,
    decreases w.len(),
{
    if w.len() > 0 {
        let d = w.drop_last();
        assert(w[w.len() - 1] != 10) by { assert(w.contains(w[w.len() - 1])); }
        assert(!d.contains(10u8)) by { if d.contains(10u8) { let i = choose|i: int| 0 <= i < d.len() && d[i] == 10u8; assert(w[i] == 10u8); } }
        lemma_cr_none(d);
        assert(cr(w) =~= w);
    }
}
/// the same on characters
pub open spec fn crc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { s } else { (if s[0] == '\n' { seq!['\r', '\n'] } else { seq![s[0]] }) + crc(s.skip(1)) } }
pub proof fn lemma_crc(s: Seq<char>)
    ensures bytes(crc(s)) == cr(bytes(s)), strip_c(crc(s)) == s, s.len() > 0 ==> crc(s).len() > 0 && crc(s)[0] != '\n',
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.skip(1);
        let w = encode_scalar(s[0] as u32);
        lemma_crc(r);
        lemma_utf8_char(s[0]);
        lemma_utf8_cons(s);
        lemma_cr_concat(w, bytes(r));
        let h = if s[0] == '\n' { seq!['\r', '\n'] } else { seq![s[0]] };
        encode_utf8_concat(h, crc(r));
        assert(crc(s) == h + crc(r));
        let e = Seq::<char>::empty();
        lemma_bytes_empty();
        if s[0] == '\n' {
            lemma_utf8_char('\r');
            lemma_utf8_cons(h);
            assert(h.skip(1) =~= seq!['\n']);
            lemma_utf8_cons(seq!['\n']);
            assert(seq!['\n'].skip(1) =~= e);
            assert(bytes(h) =~= seq![13u8, 10u8]);
            assert(w =~= seq![10u8]);
            assert(w.drop_last() =~= Seq::<u8>::empty());
            assert(w.last() == 10u8);
            assert(cr(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
            assert(cr(w) =~= seq![13u8, 10u8]);
            assert(crc(s).skip(1) =~= seq!['\n'] + crc(r));
            assert((seq!['\n'] + crc(r)).skip(1) =~= crc(r));
            assert(crc(s)[0] == '\r' && crc(s)[1] == '\n');
            assert(crlf_at_c(crc(s), 0));
            assert(!crlf_at_c(seq!['\n'] + crc(r), 0));
            assert(strip_c(crc(s)) == strip_c(seq!['\n'] + crc(r)));
            assert((seq!['\n'] + crc(r))[0] == '\n');
            assert(strip_c(seq!['\n'] + crc(r)) == seq!['\n'] + strip_c(crc(r)));
            assert(strip_c(crc(s)) =~= seq!['\n'] + r);
        } else {
            lemma_cr_none(w);
            lemma_utf8_cons(h);
            assert(h.skip(1) =~= e);
            assert(bytes(h) =~= w);
            assert(crc(s).skip(1) =~= crc(r));
            assert(!crlf_at_c(crc(s), 0)) by { if r.len() > 0 { assert(crc(s)[1] == crc(r)[0]); } else { assert(crc(s).len() == 1); } }
            assert(strip_c(crc(s)) =~= seq![s[0]] + r);
        }
        assert(seq![s[0]] + r =~= s);
    }
}
