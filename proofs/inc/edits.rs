// edits of a text: byte positions, simultaneous replacement
// ---------------------------------------------------------------- assumed contracts: std
/// byte i starts a character (or is an end of the text)
pub open spec fn bnd(t: Seq<u8>, i: int) -> bool {
    i == 0 || i == t.len() || (0 < i < t.len() && !(0x80 <= t[i] < 0xC0))
}
pub open spec fn splice(t: Seq<u8>, s: int, e: int, x: Seq<u8>) -> Seq<u8> { t.take(s) + x + t.skip(e) }

/// String::replace_range with a Range<usize>
pub trait SpliceStr {
    spec fn text(&self) -> Seq<char>;
    fn splice_str(&mut self, r: core::ops::Range<usize>, x: &str)
        requires
            r.start <= r.end <= bytes(old(self).text()).len(),
            bnd(bytes(old(self).text()), r.start as int), bnd(bytes(old(self).text()), r.end as int),
        ensures
            bytes(final(self).text()) == splice(bytes(old(self).text()), r.start as int, r.end as int, bytes(x@)),
            // the start of the inserted text is a character boundary
            bnd(bytes(final(self).text()), r.start as int);
}
impl SpliceStr for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn splice_str(&mut self, r: core::ops::Range<usize>, x: &str)
    { self.replace_range(r, x) }
}
pub assume_specification[ String::reserve ](s: &mut String, n: usize)
    ensures final(s)@ == old(s)@,
;

pub assume_specification<T: core::cmp::Ord>[ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) is Greater { a } else { b }),
;

// ---------------------------------------------------------------- specification
pub open spec fn ins(i: Indel) -> Seq<u8> { bytes(i.insert@) }

/// sorted and disjoint
pub open spec fn wf(v: Seq<Indel>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].delete.s() <= v[i].delete.e()
    &&& forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> v[i].delete.e() <= v[j].delete.s()
}
/// the edits fit the text
pub open spec fn fits(t: Seq<u8>, v: Seq<Indel>) -> bool {
    forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].delete.e() <= t.len() && bnd(t, v[i].delete.s()) && bnd(t, v[i].delete.e())
}
/// the text with every edit made at once: what is between the deleted ranges is kept, every
/// deleted range is replaced by its own insertion
pub open spec fn applied(t: Seq<u8>, v: Seq<Indel>) -> Seq<u8>
    decreases v.len(),
{
    if v.len() == 0 { t } else {
        let l = v.last();
        applied(t.take(l.delete.s()), v.drop_last()) + ins(l) + t.skip(l.delete.e())
    }
}
/// one edit after the other, the last one first
pub open spec fn back_to_front(t: Seq<u8>, v: Seq<Indel>) -> Seq<u8>
    decreases v.len(),
{
    if v.len() == 0 { t } else {
        let l = v.last();
        back_to_front(splice(t, l.delete.s(), l.delete.e(), ins(l)), v.drop_last())
    }
}
pub open spec fn all_before(v: Seq<Indel>, n: int) -> bool {
    forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].delete.e() <= n
}
pub proof fn lemma_tail(x: Seq<u8>, y: Seq<u8>, v: Seq<Indel>)
    requires wf(v), all_before(v, x.len() as int),
    ensures back_to_front(x + y, v) == back_to_front(x, v) + y,
    decreases v.len(),
{
    broadcast use text_size::axiom_range;
    if v.len() > 0 {
        let l = v.last();
        let d = v.drop_last();
        let (s, e) = (l.delete.s(), l.delete.e());
        assert(v[v.len() - 1] == l);
        assert((x + y).take(s) =~= x.take(s));
        assert((x + y).skip(e) =~= x.skip(e) + y);
        assert(splice(x + y, s, e, ins(l)) =~= splice(x, s, e, ins(l)) + y);
        assert(wf(d)) by { assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].delete.s() <= d[i].delete.e() by { assert(d[i] == v[i]); } 
            assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies d[i].delete.e() <= d[j].delete.s() by { assert(d[i] == v[i] && d[j] == v[j]); } }
        assert(all_before(d, splice(x, s, e, ins(l)).len() as int)) by {
            assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].delete.e() <= splice(x, s, e, ins(l)).len() by { assert(d[i] == v[i]); }
        }
        lemma_tail(splice(x, s, e, ins(l)), y, d);
    }
}
pub proof fn lemma_wf_prefix(v: Seq<Indel>, n: int)
    requires wf(v), 0 <= n <= v.len(),
    ensures wf(v.take(n)),
{
    let d = v.take(n);
    assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].delete.s() <= d[i].delete.e() by { assert(d[i] == v[i]); }
    assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies d[i].delete.e() <= d[j].delete.s() by { assert(d[i] == v[i] && d[j] == v[j]); }
}
/// making the edits from the back is making them all at once
pub proof fn lemma_at_once(t: Seq<u8>, v: Seq<Indel>)
    requires wf(v), all_before(v, t.len() as int),
    ensures back_to_front(t, v) == applied(t, v),
    decreases v.len(),
{
    if v.len() > 0 {
        let l = v.last();
        let d = v.drop_last();
        let (s, e) = (l.delete.s(), l.delete.e());
        assert(v[v.len() - 1] == l);
        assert(d =~= v.take(v.len() - 1));
        lemma_wf_prefix(v, v.len() - 1);
        assert(splice(t, s, e, ins(l)) =~= t.take(s) + (ins(l) + t.skip(e)));
        assert(all_before(d, s)) by { assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].delete.e() <= s by { assert(d[i] == v[i]); } }
        lemma_tail(t.take(s), ins(l) + t.skip(e), d);
        lemma_at_once(t.take(s), d);
        assert(applied(t.take(s), d) + (ins(l) + t.skip(e)) =~= applied(t.take(s), d) + ins(l) + t.skip(e));
    }
}
pub open spec fn ins_total(v: Seq<Indel>) -> int
    decreases v.len(),
{ if v.len() == 0 { 0 } else { ins_total(v.drop_last()) + ins(v.last()).len() } }
pub open spec fn del_total(v: Seq<Indel>) -> int
    decreases v.len(),
{ if v.len() == 0 { 0 } else { del_total(v.drop_last()) + (v.last().delete.e() - v.last().delete.s()) } }

/// sizes: what is deleted never exceeds what there is
pub proof fn lemma_sizes(t: Seq<u8>, v: Seq<Indel>)
    requires wf(v), all_before(v, t.len() as int),
    ensures applied(t, v).len() == t.len() + ins_total(v) - del_total(v), 0 <= del_total(v) <= t.len(), ins_total(v) >= 0,
        v.len() > 0 ==> del_total(v) <= v.last().delete.e(),
    decreases v.len(),
{
    broadcast use text_size::axiom_range;
    if v.len() > 0 {
        let l = v.last();
        let d = v.drop_last();
        let (s, e) = (l.delete.s(), l.delete.e());
        assert(v[v.len() - 1] == l);
        assert(d =~= v.take(v.len() - 1));
        lemma_wf_prefix(v, v.len() - 1);
        assert(all_before(d, s)) by { assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].delete.e() <= s by { assert(d[i] == v[i]); } }
        lemma_sizes(t.take(s), d);
    }
}
pub proof fn lemma_totals_mono(v: Seq<Indel>, n: int)
    requires 0 <= n <= v.len(),
    ensures ins_total(v.take(n)) <= ins_total(v),
    decreases v.len(),
{
    if n < v.len() {
        assert(v.drop_last().take(n) =~= v.take(n));
        lemma_totals_mono(v.drop_last(), n);
    } else {
        assert(v.take(n) =~= v);
    }
}
pub proof fn lemma_bytes_empty()
    ensures bytes(Seq::<char>::empty()) == Seq::<u8>::empty(),
{
    encode_utf8_concat(Seq::<char>::empty(), Seq::<char>::empty());
    assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty());
    assert(bytes(Seq::<char>::empty()).len() == 0);
    assert(bytes(Seq::<char>::empty()) =~= Seq::<u8>::empty());
}
/// no character starts with a continuation byte
pub proof fn lemma_first_byte(b: Seq<char>)
    requires bytes(b).len() > 0,
    ensures !(0x80 <= bytes(b)[0] < 0xC0),
{
    let w = encode_utf8(b);
    encode_utf8_valid_utf8(b);
    is_char_boundary_start_end_of_seq(w);
    is_char_boundary_iff_not_is_continuation_byte(w, 0);
    assert(!is_continuation_byte(w[0]));
    let x = w[0];
    assert((x & 0xC0) == 0x80 <==> 0x80 <= x < 0xC0) by (bit_vector);
}
pub proof fn lemma_bnd_concat(a: Seq<char>, b: Seq<char>)
    ensures
        bytes(a + b) == bytes(a) + bytes(b),
        bnd(bytes(a + b), bytes(a).len() as int),
        forall|i: int| #![trigger bnd(bytes(a), i)] bnd(bytes(a), i) ==> bnd(bytes(a + b), i),
{
    encode_utf8_concat(a, b);
    let w = bytes(a) + bytes(b);
    if bytes(b).len() > 0 { lemma_first_byte(b); assert(w[bytes(a).len() as int] == bytes(b)[0]); }
    assert forall|i: int| #![trigger bnd(bytes(a), i)] bnd(bytes(a), i) implies bnd(bytes(a + b), i) by {
        if 0 < i < bytes(a).len() { assert(w[i] == bytes(a)[i]); }
    }
}
pub proof fn lemma_applied_tail(t: Seq<u8>, y: Seq<u8>, v: Seq<Indel>)
    requires wf(v), all_before(v, t.len() as int),
    ensures applied(t + y, v) == applied(t, v) + y,
{
    assert(all_before(v, (t + y).len() as int));
    lemma_at_once(t, v);
    lemma_at_once(t + y, v);
    lemma_tail(t, y, v);
}
pub proof fn lemma_wf_tail(v: Seq<Indel>)
    requires wf(v), v.len() > 0,
    ensures wf(v.drop_last()), all_before(v.drop_last(), v.last().delete.s()), all_before(v, v.last().delete.e()),
{
    broadcast use text_size::axiom_range;
    let d = v.drop_last();
    assert(d =~= v.take(v.len() - 1));
    lemma_wf_prefix(v, v.len() - 1);
    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i].delete.e() <= v.last().delete.e() by { assert(v.last() == v[v.len() - 1]); if i < v.len() - 1 { assert(v[i].delete.e() <= v[v.len() - 1].delete.s()); } }
    assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies d[i].delete.e() <= v.last().delete.s() by { assert(d[i] == v[i] && v.last() == v[v.len() - 1]); }
}
