// ---------------------------------------------------------------- specification: positions
/// the offset of a position
pub open spec fn col_of(t: Seq<u8>, enc: PositionEncoding, p: lsp_types::Position) -> int {
    match enc { PositionEncoding::Utf8 => p.character as int, PositionEncoding::Wide(w) => narrow(line_text(t, p.line as int), w, p.character as int) }
}
pub open spec fn pos(t: Seq<u8>, enc: PositionEncoding, p: lsp_types::Position) -> Option<int> {
    match line_start(t, p.line as int) { Some(s) => Some(s + col_of(t, enc, p)), None => None }
}
/// offsets fit the machine's offsets
pub open spec fn fits_u32(t: Seq<u8>, enc: PositionEncoding, p: lsp_types::Position) -> bool {
    pos(t, enc, p) matches Some(o) ==> o <= u32::MAX
}

// ---------------------------------------------------------------- specification: changes
/// the text after one change
pub open spec fn step(t: Seq<u8>, enc: PositionEncoding, c: Change) -> Option<Seq<u8>> {
    match c.range {
        None => Some(bytes(strip_c(c.text@))),
        Some(r) => match (pos(t, enc, r.start), pos(t, enc, r.end)) {
            (Some(s), Some(e)) => if sound(t, enc, r) { Some(splice(t, s, e, bytes(strip_c(c.text@)))) } else { None },
            _ => None,
        },
    }
}
/// an offset within line k, between two characters
pub open spec fn in_line(t: Seq<u8>, k: int, o: int) -> bool {
    line_start(t, k) is Some && line_start(t, k)->Some_0 <= o <= next_nl(t, line_start(t, k)->Some_0) && bnd(t, o)
}
/// the range of a change lies in the text
pub open spec fn sound(t: Seq<u8>, enc: PositionEncoding, r: lsp_types::Range) -> bool {
    match (pos(t, enc, r.start), pos(t, enc, r.end)) {
        (Some(s), Some(e)) => s <= e && r.start.line <= r.end.line && in_line(t, r.start.line as int, s) && in_line(t, r.end.line as int, e),
        _ => false,
    }
}
/// all changes, one after the other
pub open spec fn run(t: Seq<u8>, enc: PositionEncoding, v: Seq<Change>) -> Option<Seq<u8>>
    decreases v.len(),
{
    if v.len() == 0 { Some(t) } else {
        match run(t, enc, v.drop_last()) { None => None, Some(u) => if u.len() <= u32::MAX { step(u, enc, v.last()) } else { None } }
    }
}
pub proof fn lemma_run_prefix(t: Seq<u8>, enc: PositionEncoding, v: Seq<Change>, n: int)
    requires run(t, enc, v) is Some, 0 <= n <= v.len(),
    ensures run(t, enc, v.take(n)) is Some, n < v.len() ==> run(t, enc, v.take(n))->Some_0.len() <= u32::MAX && step(run(t, enc, v.take(n))->Some_0, enc, v[n]) is Some
        && run(t, enc, v.take(n + 1)) == step(run(t, enc, v.take(n))->Some_0, enc, v[n]),
    decreases v.len(),
{
    if n < v.len() {
        if n < v.len() - 1 {
            lemma_run_prefix(t, enc, v.drop_last(), n);
            assert(v.drop_last().take(n) =~= v.take(n));
            assert(v.drop_last().take(n + 1) =~= v.take(n + 1));
        } else {
            assert(v.drop_last() =~= v.take(n));
            assert(v =~= v.take(n + 1));
        }
    } else { assert(v.take(n) =~= v); }
}
pub proof fn lemma_run_concat(t: Seq<u8>, enc: PositionEncoding, a: Seq<Change>, b: Seq<Change>)
    requires run(t, enc, a) is Some,
    ensures run(t, enc, a + b) == run(run(t, enc, a)->Some_0, enc, b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_run_concat(t, enc, a, b.drop_last());
    }
}
/// the two texts have the same lines in front of line n
pub open spec fn same_lines(a: Seq<u8>, b: Seq<u8>, n: int) -> bool {
    forall|k: int| #![trigger line_start(a, k)] #![trigger line_start(b, k)] 0 <= k < n ==> line_start(a, k) == line_start(b, k) && line_text(a, k) == line_text(b, k)
}
pub proof fn lemma_next_nl(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= next_nl(t, i) <= t.len(), next_nl(t, i) < t.len() ==> t[next_nl(t, i)] == 10,
        forall|j: int| #![trigger t[j]] i <= j < next_nl(t, i) ==> t[j] != 10,
    decreases t.len() - i,
{ if i < t.len() && t[i] != 10 { lemma_next_nl(t, i + 1); } }
pub proof fn lemma_line_start(t: Seq<u8>, k: int)
    ensures line_start(t, k) matches Some(s) ==> 0 <= s <= t.len(),
        k > 0 && line_start(t, k) is Some ==> line_start(t, k - 1) is Some && line_start(t, k)->Some_0 == next_nl(t, line_start(t, k - 1)->Some_0) + 1,
    decreases k,
{
    if k > 0 {
        lemma_line_start(t, k - 1);
        if let Some(s) = line_start(t, k - 1) { lemma_next_nl(t, s); }
    }
}
pub proof fn lemma_next_nl_agree(a: Seq<u8>, b: Seq<u8>, m: int, i: int)
    requires 0 <= i <= m <= a.len(), m <= b.len(), a.take(m) == b.take(m),
    ensures next_nl(a, i) < m ==> next_nl(b, i) == next_nl(a, i), next_nl(a, i) >= m ==> next_nl(b, i) >= m,
    decreases m - i,
{
    if i < m {
        assert(a[i] == a.take(m)[i] && b[i] == b.take(m)[i]);
        if a[i] != 10 { lemma_next_nl_agree(a, b, m, i + 1); }
    } else {
        lemma_next_nl(a, i);
        lemma_next_nl(b, i);
    }
}
/// texts with a common beginning have the lines common that lie in it
pub proof fn lemma_lines_agree(a: Seq<u8>, b: Seq<u8>, m: int, n: int)
    requires 0 <= m <= a.len(), m <= b.len(), a.take(m) == b.take(m), 0 <= n, line_start(a, n) is Some, line_start(a, n)->Some_0 <= m,
    ensures same_lines(a, b, n), line_start(b, n) == line_start(a, n),
    decreases n,
{
    lemma_line_start(a, n);
    if n > 0 {
        lemma_line_start(a, n - 1);
        let s = line_start(a, n - 1)->Some_0;
        lemma_next_nl(a, s);
        lemma_lines_agree(a, b, m, n - 1);
        lemma_next_nl_agree(a, b, m, s);
        assert(line_text(a, n - 1) =~= line_text(b, n - 1)) by {
            assert forall|j: int| s <= j < next_nl(a, s) implies a[j] == b[j] by { assert(a.take(m)[j] == a[j]); assert(b.take(m)[j] == b[j]); }
        }
    }
}
/// positions in front of line n are the same offsets
pub proof fn lemma_pos_agree(a: Seq<u8>, b: Seq<u8>, enc: PositionEncoding, n: int, p: lsp_types::Position)
    requires same_lines(a, b, n), p.line < n,
    ensures pos(a, enc, p) == pos(b, enc, p),
{ assert(line_start(a, p.line as int) == line_start(b, p.line as int)); }
/// a change leaves the lines in front of it as they were
pub proof fn lemma_step_lines(t: Seq<u8>, enc: PositionEncoding, r: lsp_types::Range, x: Seq<u8>)
    requires sound(t, enc, r),
    ensures same_lines(t, splice(t, pos(t, enc, r.start)->Some_0, pos(t, enc, r.end)->Some_0, x), r.start.line as int),
{
    let s = pos(t, enc, r.start)->Some_0;
    let u = splice(t, s, pos(t, enc, r.end)->Some_0, x);
    lemma_in_line(t, r.start.line as int, s);
    lemma_in_line(t, r.end.line as int, pos(t, enc, r.end)->Some_0);
    assert(u.take(s) =~= t.take(s));
    lemma_lines_agree(t, u, s, r.start.line as int);
}
pub proof fn lemma_in_line(t: Seq<u8>, k: int, o: int)
    requires in_line(t, k, o),
    ensures 0 <= o <= t.len(),
{ lemma_line_start(t, k); lemma_next_nl(t, line_start(t, k)->Some_0); }

/// a later offset lies in the same or a later line
pub proof fn lemma_lines_ordered(t: Seq<u8>, a: int, b: int, x: int, y: int)
    requires in_line(t, a, x), in_line(t, b, y), x <= y, 0 <= a, 0 <= b,
    ensures a <= b,
{
    if b < a {
        lemma_starts_behind(t, b, a);
        lemma_line_start(t, b);
        lemma_next_nl(t, line_start(t, b)->Some_0);
    }
}
pub proof fn lemma_starts_behind(t: Seq<u8>, b: int, a: int)
    requires 0 <= b < a, line_start(t, a) is Some,
    ensures line_start(t, b) is Some, line_start(t, a)->Some_0 > next_nl(t, line_start(t, b)->Some_0),
    decreases a - b,
{
    lemma_line_start(t, a);
    lemma_line_start(t, a - 1);
    if a - 1 > b {
        lemma_starts_behind(t, b, a - 1);
        lemma_next_nl(t, line_start(t, a - 1)->Some_0);
    }
}
