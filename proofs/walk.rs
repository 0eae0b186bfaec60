// Contracts for crates/air_r_parser/src/parse.rs (properties R01 and R02): how the syntax tree
// of tree-sitter becomes the events and the trivia the tree of air is built from.
#![feature(pattern)]
#![feature(slice_index_methods)]
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@@ include inc/text_size.rs
//@@ include inc/gaps.rs
//@@ include inc/trivia.rs
//@@ include inc/parsing.rs
//@@ include inc/pieces.rs
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Structural, Debug
//@@ end
//@@ include inc/nodes.rs
//@@ include inc/kinds.rs
//@@ include inc/shape.rs
//@@ include inc/str_eq.rs
/// tree_sitter: nodes are compared by what they are
impl<'a> PartialEq for tree_sitter::Node<'a> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool)
    { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for tree_sitter::Node<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
//@@ source crates/air_r_parser/src/treesitter.rs
//@@ item enum WalkEvent
//@@   derive Clone, Copy
//@@   public
//@@ end
//@@ item struct Preorder
//@@   public
//@@ end
//@@ include inc/cursor.rs
//@@ source crates/air_r_parser/src/parse.rs
//@@ item struct RParse
//@@   public
//@@ end
//@@ item struct RWalk
//@@   public
//@@ end
//@@ include inc/walks.rs
/// two strings with the same characters are the same
pub mod ax2 {
    use super::*;
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
}
/// assert_eq!
#[verifier::external_body]
pub fn same_event(a: WalkEvent<Node>, b: WalkEvent<Node>) -> (r: bool)
    ensures r == (a == b),
{ unimplemented!() }

// ---------------------------------------------------------------- lemmas
pub broadcast proof fn cat_nil(a: Out)
    ensures #[trigger] cat(a, nil()) == a,
{
    assert(cat(a, nil()).x =~= a.x && cat(a, nil()).e =~= a.e);
}
pub broadcast proof fn nil_cat(a: Out)
    ensures #[trigger] cat(nil(), a) == a,
{
    assert(cat(nil(), a).x =~= a.x && cat(nil(), a).e =~= a.e);
}
pub proof fn lemma_assoc(a: Out, b: Out, c: Out)
    ensures cat(cat(a, b), c) == cat(a, cat(b, c)),
{
    assert(cat(cat(a, b), c).x =~= cat(a, cat(b, c)).x && cat(cat(a, b), c).e =~= cat(a, cat(b, c)).e);
}
pub broadcast proof fn adds_then(w0: RWalk, w1: RWalk, w2: RWalk, a: Out, b: Out)
    requires #[trigger] adds(w0, w1, a), #[trigger] adds(w1, w2, b),
    ensures adds(w0, w2, cat(a, b)),
{
    reveal(adds);
    lemma_run_add(txt(w0), st(w0), a.x, b.x, false);
    assert(evs(w0) + a.e + b.e =~= evs(w0) + (a.e + b.e));
}
/// what is still to come fits the text
#[verifier::opaque]
pub open spec fn ready(w: RWalk, o: Out) -> bool { fits(txt(w), st(w).end, o.x) }
pub proof fn lemma_ready(w0: RWalk, w: RWalk, e: Out, o: Out, r: Out)
    requires adds(w0, w, e), ready(w0, cat(e, cat(o, r))),
    ensures ready(w, o), ready(w, cat(o, r)),
{
    reveal(ready); reveal(adds);
    lemma_run_end(txt(w0), st(w0), e.x, false);
    lemma_fits_add(txt(w0), st(w0).end, e.x, cat(o, r).x);
    lemma_fits_add(txt(w), st(w).end, o.x, r.x);
}
/// nothing but events
pub broadcast proof fn ready_after(w0: RWalk, w1: RWalk, o: Out, n: Out)
    requires #[trigger] adds(w0, w1, o), o.x.len() == 0, #[trigger] ready(w0, n),
    ensures ready(w1, n),
{
    reveal(ready); reveal(adds);
}
pub proof fn lemma_leaf(w: RWalk, o: Out)
    requires ready(w, o), o.x.len() == 1,
    ensures fit(txt(w), w.last_end.v(), o.x[0]), st(w).end == w.last_end.v(),
{
    reveal(ready);
    reveal_with_fuel(fits, 3);
    assert(o.x.drop_last() =~= Seq::<Leaf>::empty());
}
pub proof fn lemma_still(w: RWalk)
    ensures adds(w, w, nil()),
{
    reveal(adds);
    assert(evs(w) + nil().e =~= evs(w));
}
/// the first m children are the beginning
pub proof fn lemma_prefix(w: RWalk, n: Node, k: RSyntaxKind, m: int)
    requires ready(w, entered(n, k)), is_list(k), 0 <= m <= n.kids().len(),
    ensures ready(w, items(n, k, m)),
    decreases n.kids().len() - m,
{
    reveal(ready);
    if m == n.kids().len() {
        lemma_fits_add(txt(w), st(w).end, items(n, k, m).x, tail_out(n, k).x);
    } else {
        lemma_prefix(w, n, k, m + 1);
        let a = cat(items(n, k, m), pre(n, k, m));
        let b = cat(a, shape(n.kids()[m], eff(n, k, m)));
        lemma_fits_add(txt(w), st(w).end, b.x, post(n, k, m).x);
        lemma_fits_add(txt(w), st(w).end, a.x, shape(n.kids()[m], eff(n, k, m)).x);
        lemma_fits_add(txt(w), st(w).end, items(n, k, m).x, pre(n, k, m).x);
    }
}
/// the next child fits
pub proof fn lemma_child(w0: RWalk, w: RWalk, n: Node, k: RSyntaxKind, m: int)
    requires ready(w0, entered(n, k)), is_list(k), 0 <= m < n.kids().len(), adds(w0, w, items(n, k, m)),
    ensures ready(w, shape(n.kids()[m], eff(n, k, m))),
{
    lemma_prefix(w0, n, k, m + 1);
    let s = shape(n.kids()[m], eff(n, k, m));
    let p = pre(n, k, m);
    assert(p.x.len() == 0);
    assert(items(n, k, m + 1) == cat(cat(cat(items(n, k, m), p), s), post(n, k, m)));
    lemma_assoc(items(n, k, m), p, s);
    lemma_assoc(items(n, k, m), cat(p, s), post(n, k, m));
    lemma_assoc(p, s, post(n, k, m));
    lemma_ready(w0, w, items(n, k, m), p, cat(s, post(n, k, m)));
    reveal(ready);
    lemma_fits_add(txt(w), st(w).end, p.x, cat(s, post(n, k, m)).x);
    lemma_fits_add(txt(w), st(w).end, s.x, post(n, k, m).x);
    assert(cat(p, cat(s, post(n, k, m))).x =~= p.x + cat(s, post(n, k, m)).x);
}
pub open spec fn stop(n: Node) -> int { if is_simple(kd(n)) { 0 } else { n.kids().len() as int } }
/// what is still to come for a node after its first k children, and for a path of nodes
pub open spec fn rest_of(n: Node, k: int) -> Out { cat(from(n, k), left(n, kd(n))) }
pub open spec fn rest(p: Seq<Frame>) -> Out
    decreases p.len(),
{
    if p.len() == 0 { nil() } else { cat(rest_of(p.last().0, p.last().1), rest(p.drop_last())) }
}
pub open spec fn good_frame(f: Frame) -> bool {
    known_node(f.0) && wf(f.0, kd(f.0)) && 0 <= f.1 <= f.0.kids().len() && (f.1 < f.0.kids().len() ==> is_simple(kd(f.0)))
}
/// a path down from `top`; only the top may be the root
pub open spec fn good(p: Seq<Frame>, top: Node) -> bool {
    &&& forall|j: int| 0 <= j < p.len() ==> good_frame(#[trigger] p[j])
    &&& p.len() > 0 ==> p[0].0 == top
    &&& forall|j: int| 0 < j < p.len() ==> (#[trigger] p[j]).0.height() < top.height() && kd(p[j].0) != RSyntaxKind::R_ROOT
}
pub proof fn lemma_frames<'a>(b: Seq<Frame<'a>>, p: Seq<Frame<'a>>, f: Frame<'a>)
    ensures
        p.len() > 0 ==> (b + p).last() == p.last() && (b + p).drop_last() == b + p.drop_last() && (b + p).len() > 0,
        (b + p).push(f) == b + p.push(f),
        p.push(f).drop_last() == p, p.push(f).last() == f,
{
    if p.len() > 0 { assert((b + p).drop_last() =~= b + p.drop_last()); }
    assert((b + p).push(f) =~= b + p.push(f));
    assert(p.push(f).drop_last() =~= p);
}
/// into the next child of the innermost node
pub proof fn lemma_into<'a>(p: Seq<Frame<'a>>, top: Node<'a>)
    requires good(p, top), p.len() > 0, p.last().1 < p.last().0.kids().len(),
    ensures ({
        let (m, j) = p.last();
        let n = m.kids()[j];
        let q = p.drop_last().push((m, j + 1)).push((n, stop(n)));
        &&& good(q, top) && q.len() > 0
        &&& kd(n) != RSyntaxKind::R_ROOT
        &&& rest(p) == cat(entered(n, kd(n)), rest(q))
    }),
{
    broadcast use {cat_nil, nil_cat};
    let (m, j) = p.last();
    let n = m.kids()[j];
    let d = p.drop_last();
    let d1 = d.push((m, j + 1));
    let q = d1.push((n, stop(n)));
    assert(good_frame(p[p.len() - 1]));
    assert(is_simple(kd(m)));
    assert(wf(m.kids()[j], eff(m, kd(m), j)) && child(m, kd(m), j));
    tree_sitter::axiom_height(m, j);
    assert(d1.drop_last() =~= d); assert(q.drop_last() =~= d1);
    assert forall|i: int| 0 <= i < q.len() implies good_frame(#[trigger] q[i]) by { if i < d.len() { assert(q[i] == p[i]); } }
    assert forall|i: int| 0 < i < q.len() implies (#[trigger] q[i]).0.height() < top.height() && kd(q[i].0) != RSyntaxKind::R_ROOT by {
        if i < d.len() { assert(q[i] == p[i]); } else { assert(p[p.len() - 1] == p.last()); }
    }
    let r = rest(d);
    let s = shape(n, kd(n));
    // rest(p) = (s + from(j + 1)) + left(m) + r
    lemma_assoc(s, from(m, j + 1), left(m, kd(m)));
    lemma_assoc(s, rest_of(m, j + 1), r);
    assert(rest(d1) == cat(rest_of(m, j + 1), r));
    assert(rest(p) == cat(s, rest(d1)));
    assert(rest(q) == cat(rest_of(n, stop(n)), rest(d1)));
    let b = rest_of(n, stop(n));
    assert(s == cat(entered(n, kd(n)), b));
    lemma_assoc(entered(n, kd(n)), b, rest(d1));
}
/// back from the innermost node
pub proof fn lemma_back<'a>(p: Seq<Frame<'a>>, top: Node<'a>)
    requires good(p, top), p.len() > 0, !(p.last().1 < p.last().0.kids().len()),
    ensures
        good(p.drop_last(), top),
        rest(p) == cat(left(p.last().0, kd(p.last().0)), rest(p.drop_last())),
        p.last() == p[p.len() - 1],
{
    broadcast use {cat_nil, nil_cat};
    let d = p.drop_last();
    assert forall|i: int| 0 <= i < d.len() implies good_frame(#[trigger] d[i]) by { assert(d[i] == p[i]); }
    assert forall|i: int| 0 < i < d.len() implies (#[trigger] d[i]).0.height() < top.height() && kd(d[i].0) != RSyntaxKind::R_ROOT by { assert(d[i] == p[i]); }
    assert(good_frame(p[p.len() - 1]));
}
/// the beginning of a path
pub proof fn lemma_begin<'a>(n: Node<'a>)
    requires known_node(n), wf(n, kd(n)),
    ensures ({
        let p = seq![(n, stop(n))];
        good(p, n) && shape(n, kd(n)) == cat(entered(n, kd(n)), rest(p))
    }),
{
    broadcast use {cat_nil, nil_cat};
    let p = seq![(n, stop(n))];
    assert(p.drop_last() =~= Seq::<Frame>::empty());
    assert(rest(p.drop_last()) == nil());
    assert(rest(p) == rest_of(n, stop(n)));
}
/// how much is left to walk
pub mod sizes {
use super::*;
broadcast use tree_sitter::axiom_height;
pub open spec fn size(n: Node) -> nat
    decreases n.height(), 1int, 0int,
{
    2 + kids_size(n, 0)
}
pub open spec fn kids_size(n: Node, i: int) -> nat
    decreases n.height(), 0int, n.kids().len() - i,
{
    if i < 0 || i >= n.kids().len() { 0 } else { size(n.kids()[i]) + kids_size(n, i + 1) }
}
}
pub use sizes::*;
pub open spec fn weight(p: Seq<Frame>) -> nat
    decreases p.len(),
{
    if p.len() == 0 { 0 } else { 1 + kids_size(p.last().0, p.last().1) + weight(p.drop_last()) }
}
pub proof fn lemma_less<'a>(p: Seq<Frame<'a>>)
    requires p.len() > 0,
    ensures
        weight(p.drop_last()) < weight(p),
        0 <= p.last().1 < p.last().0.kids().len() ==> ({
            let (m, j) = p.last();
            let n = m.kids()[j];
            weight(p.drop_last().push((m, j + 1)).push((n, stop(n)))) < weight(p)
        }),
{
    let (m, j) = p.last();
    if 0 <= j < m.kids().len() {
        let n = m.kids()[j];
        let d1 = p.drop_last().push((m, j + 1));
        let q = d1.push((n, stop(n)));
        assert(d1.drop_last() =~= p.drop_last()); assert(q.drop_last() =~= d1);
        assert(weight(d1) == 1 + kids_size(m, j + 1) + weight(p.drop_last()));
        assert(kids_size(n, stop(n)) <= kids_size(n, 0));
        assert(q.last() == (n, stop(n)) && d1.last() == (m, j + 1));
        assert(weight(q) == 1 + kids_size(n, stop(n)) + weight(d1));
        assert(kids_size(m, j) == size(n) + kids_size(m, j + 1));
        assert(weight(p) == 1 + kids_size(m, j) + weight(p.drop_last()));
    }
}
pub proof fn lemma_less_first<'a>(n: Node<'a>)
    ensures weight(seq![(n, stop(n))]) < size(n),
{
    let p = seq![(n, stop(n))];
    assert(p.drop_last() =~= Seq::<Frame>::empty());
    assert(weight(p.drop_last()) == 0);
}
//@@ include inc/outcome.rs
pub proof fn lemma_token_ends(a: Seq<Ev>, b: Seq<Ev>)
    ensures token_ends(a + b) == token_ends(a) + token_ends(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(token_ends(a) + token_ends(b) =~= token_ends(a)); }
    else {
        lemma_token_ends(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(token_ends(a + b) =~= token_ends(a) + token_ends(b));
    }
}
pub proof fn lemma_leaf_ends(a: Seq<Leaf>, b: Seq<Leaf>)
    ensures leaf_ends(a + b) == leaf_ends(a) + leaf_ends(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(leaf_ends(a) + leaf_ends(b) =~= leaf_ends(a)); }
    else {
        lemma_leaf_ends(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(leaf_ends(a + b) =~= leaf_ends(a) + leaf_ends(b));
    }
}
pub broadcast proof fn lemma_agree(a: Out, b: Out)
    requires agree(a), agree(b),
    ensures #[trigger] agree(cat(a, b)),
{
    reveal(agree);
    lemma_token_ends(a.e, b.e);
    lemma_leaf_ends(a.x, b.x);
}
pub proof fn lemma_agree_one(n: Node, k: RSyntaxKind)
    ensures agree(nil()), agree(start(k)), agree(finish()), agree(token_out(n, k)), agree(comment_out(n)),
{
    reveal(agree);
    reveal_with_fuel(token_ends, 2);
    reveal_with_fuel(leaf_ends, 2);
    assert(start(k).e.drop_last() =~= Seq::<Ev>::empty());
    assert(finish().e.drop_last() =~= Seq::<Ev>::empty());
    assert(token_out(n, k).e.drop_last() =~= Seq::<Ev>::empty());
    assert(token_out(n, k).x.drop_last() =~= Seq::<Leaf>::empty());
    assert(comment_out(n).x.drop_last() =~= Seq::<Leaf>::empty());
}
pub proof fn lemma_agree_parts(n: Node, k: RSyntaxKind, i: int)
    ensures agree(pre(n, k, i)), agree(post(n, k, i)), agree(tail_out(n, k)), agree(open_out(k)), agree(left(n, k)), agree(nil()),
{
    broadcast use lemma_agree;
    lemma_agree_one(n, k);
    lemma_agree_one(n, literal(k));
    lemma_agree_one(n, RSyntaxKind::R_PARAMETER_DEFAULT);
    lemma_agree_one(n, RSyntaxKind::R_ELSE_CLAUSE);
    lemma_agree_one(n, RSyntaxKind::R_ARGUMENT_NAME_CLAUSE);
    lemma_agree_one(n, RSyntaxKind::R_ARGUMENT);
    lemma_agree_one(n, RSyntaxKind::R_PARAMETER_LIST);
    lemma_agree_one(n, RSyntaxKind::R_ARGUMENT_LIST);
    lemma_agree_one(n, RSyntaxKind::R_EXPRESSION_LIST);
    assert(agree(hole()));
}
pub proof fn lemma_agree_shape(n: Node, k: RSyntaxKind)
    ensures agree(shape(n, k)),
    decreases n.height(), 2int, 0int,
{
    broadcast use lemma_agree;
    lemma_agree_parts(n, k, 0);
    if is_list(k) { lemma_agree_items(n, k, n.kids().len() as int); }
    if is_simple(k) { lemma_agree_from(n, 0); }
}
pub proof fn lemma_agree_items(n: Node, k: RSyntaxKind, m: int)
    ensures agree(items(n, k, m)),
    decreases n.height(), 1int, m,
{
    broadcast use lemma_agree;
    lemma_agree_parts(n, k, m - 1);
    if 0 < m <= n.kids().len() {
        tree_sitter::axiom_height(n, m - 1);
        lemma_agree_items(n, k, m - 1);
        lemma_agree_shape(n.kids()[m - 1], eff(n, k, m - 1));
    }
}
pub proof fn lemma_agree_from(n: Node, i: int)
    ensures agree(from(n, i)),
    decreases n.height(), 1int, n.kids().len() - i,
{
    broadcast use lemma_agree;
    lemma_agree_parts(n, kd(n), 0);
    if 0 <= i < n.kids().len() {
        tree_sitter::axiom_height(n, i);
        lemma_agree_shape(n.kids()[i], kd(n.kids()[i]));
        lemma_agree_from(n, i + 1);
    }
}
/// R01
pub proof fn theorem_parsed(n: Node, t: Seq<u8>, r: Parsed)
    requires grammar(n, t), parsed(n, t, r),
    ensures whole(t, shape(n, kd(n)).x, r),
{
    let x = shape(n, kd(n)).x;
    lemma_agree_shape(n, kd(n));
    reveal(agree);
    lemma_run_end(t, init(), x, false);
    theorem_nothing_lost(t, x);
    let all = close(t, run(t, init(), x, true));
    assert(told(all) == pieces(r.1@));
}
/// at the beginning of a node
pub open spec fn at_node(i: Preorder, n: Node) -> bool {
    tied(i) && pos(i).fresh is None && pos(i).frames.len() > 0 && pos(i).frames.last() == (n, 0int)
}
/// in front of child k of p
pub open spec fn at_child(i: Preorder, p: Node, k: int) -> bool {
    tied(i) && pos(i).fresh is None && pos(i).frames.len() > 0 && pos(i).frames.last() == (p, k) && 0 <= k < p.kids().len()
}
pub open spec fn next_child<'a>(a: At<'a>) -> At<'a> {
    At { fresh: None, frames: a.frames.drop_last().push((a.frames.last().0, a.frames.last().1 + 1)) }
}
pub open spec fn upto<'a>(a: At<'a>, n: Node<'a>, m: int) -> At<'a> { At { fresh: None, frames: a.frames.drop_last().push((n, m)) } }
pub broadcast proof fn upto_facts<'a>(a: At<'a>, n: Node<'a>, m: int)
    ensures
        (#[trigger] upto(a, n, m)).frames.len() > 0,
        upto(a, n, m).frames.last() == (n, m),
        next_child(upto(a, n, m)) == upto(a, n, m + 1),
        m == n.kids().len() ==> a.frames.len() > 0 && a.frames.last().0 == n ==> upto(a, n, m) == skip(a),
        a.frames.len() > 0 && a.frames.last() == (n, m) && a.fresh is None ==> upto(a, n, m) == a,
{
    assert(a.frames.drop_last().push((n, m)).drop_last() =~= a.frames.drop_last());
    if a.frames.len() > 0 && a.frames.last() == (n, m) { assert(a.frames.drop_last().push((n, m)) =~= a.frames); }
}
/// the end of the root is the end of the text
pub open spec fn at_end(w: RWalk, n: Node) -> bool {
    bnd(txt(w), w.last_end.v()) && n.e() == txt(w).len() && bnd(txt(w), n.e()) && txt(w).len() <= u32::MAX
        && is_gap(txt(w).subrange(w.last_end.v(), n.e()))
}
pub open spec fn closed(w0: RWalk, w1: RWalk) -> bool {
    w1.text == w0.text && pieces(w1.parse.trivia@) == close(txt(w0), st(w0)) && evs(w1) == evs(w0) + cat(finish(), finish()).e
}
/// the tree of the whole text
#[verifier::opaque]
pub open spec fn rooted(w: RWalk, n: Node) -> bool {
    let x = shape(n, kd(n)).x;
    &&& known_node(n) && kd(n) == RSyntaxKind::R_ROOT && wf(n, kd(n)) && ready(w, shape(n, kd(n)))
    &&& st(w).end == 0 && n.e() == txt(w).len() && txt(w).len() <= u32::MAX
    &&& bnd(txt(w), end_of(0, x)) && bnd(txt(w), n.e()) && is_gap(txt(w).subrange(end_of(0, x), n.e()))
}
#[verifier::opaque]
pub open spec fn walked(w0: RWalk, w1: RWalk, n: Node) -> bool {
    let o = shape(n, kd(n));
    w1.text == w0.text && pieces(w1.parse.trivia@) == close(txt(w0), run(txt(w0), st(w0), o.x, false)) && evs(w1) == evs(w0) + o.e
}
pub proof fn lemma_closing(w0: RWalk, w: RWalk, n: Node, e: Out)
    requires rooted(w0, n), adds(w0, w, e), shape(n, kd(n)) == cat(e, cat(left(n, kd(n)), nil())),
    ensures
        at_end(w, n),
        forall|w1: RWalk| closed(w, w1) ==> #[trigger] walked(w0, w1, n),
{
    reveal(rooted); reveal(adds);
    let o = shape(n, kd(n));
    assert(left(n, kd(n)).x.len() == 0);
    assert(o.x =~= e.x);
    lemma_run_end(txt(w0), st(w0), e.x, false);
    assert forall|w1: RWalk| closed(w, w1) implies #[trigger] walked(w0, w1, n) by {
        reveal(walked);
        assert(evs(w0) + e.e + cat(finish(), finish()).e =~= evs(w0) + o.e);
    }
}
pub mod code {
use super::*;
broadcast use {ax2::axiom_str_ext, str_eq::group_str_eq, cat_nil, nil_cat, adds_then, ready_after, upto_facts};
//@@ source crates/air_r_parser/src/treesitter.rs
//@@ assume node_kinds node_syntax_kind
//@@ end
impl<'t> Node<'t> {
//@@ item fn Node<NodeTypeExt>::syntax_kind
//@@   public
//@@   ret r
//@@ + spec
    requires known(self.name()@),
    ensures r == kd(*self),
//@@ end
//@@ item fn Node<NodeTypeExt>::preorder
//@@   public
//@@   ret r
//@@ + spec
    ensures tied(r), pos(r) == (At { fresh: Some(*self), frames: seq![] }),
//@@ end
}
impl<'tree> Preorder<'tree> {
//@@ assume preorder Preorder::new
//@@ end
//@@ assume preorder Preorder::peek
//@@ end
//@@ assume preorder Preorder::peek_field_name
//@@ end
//@@ assume preorder Preorder::skip_subtree
//@@ end
//@@ assume preorder Preorder<Iterator>::next
//@@ end
}
//@@ source crates/air_r_parser/src/parse.rs
//@@ rewrite* `panic ! ( "Expected next `Leave` event to be for `node`." )` => `give_up::<()>()`
//@@ impl RWalk
//@@ assume gaps RWalk::new
//@@ end
//@@ assume gaps RWalk::handle_node_enter
//@@ end
//@@ assume gaps RWalk::handle_node_leave
//@@ end
//@@ assume gaps RWalk::handle_token
//@@ end
//@@ assume gaps RWalk::handle_comment_leave
//@@ end
//@@ assume gaps RWalk::handle_root_leave
//@@ end
//@@ item fn RWalk::handle_root_enter
//@@ + spec
    ensures adds(*old(self), *final(self), open_out(RSyntaxKind::R_ROOT)),
//@@ end
//@@ item fn RWalk::handle_value_enter
//@@ + spec
    ensures adds(*old(self), *final(self), start(kind)),
//@@ end
//@@ item fn RWalk::handle_value_leave
//@@ + spec
    requires ready(*old(self), token_out(node, literal_kind)),
    ensures adds(*old(self), *final(self), cat(token_out(node, literal_kind), finish())),
//@@ + body
    proof { lemma_leaf(*self, token_out(node, literal_kind)); }
//@@ end
//@@ item fn RWalk::walk_next
//@@ + spec
    requires
        at_child(*old(iter), pos(*old(iter)).frames.last().0, pos(*old(iter)).frames.last().1),
        ({
            let n = pos(*old(iter)).frames.last().0.kids()[pos(*old(iter)).frames.last().1];
            known_node(n) && kd(n) != RSyntaxKind::R_ROOT && wf(n, kd(n)) && ready(*old(self), shape(n, kd(n)))
        }),
    ensures
        tied(*final(iter)), pos(*final(iter)) == next_child(pos(*old(iter))),
        ({
            let n = pos(*old(iter)).frames.last().0.kids()[pos(*old(iter)).frames.last().1];
            adds(*old(self), *final(self), shape(n, kd(n)))
        }),
    decreases pos(*old(iter)).frames.last().0.kids()[pos(*old(iter)).frames.last().1].height(), 3int,
//@@ + preloop 1
    let ghost a0 = pos(*iter);
    let ghost base = next_child(a0).frames;
    let ghost whole = shape(end, kd(end));
    let ghost mut started = false;
    let ghost mut p: Seq<Frame> = seq![];
    let ghost mut e: Out = nil();
//@@ + loop 1
    invariant_except_break
        !started ==> pos(*iter) == a0 && *self == *old(self),
        started ==> p.len() > 0 && pos(*iter).frames == base + p && good(p, end) && adds(*old(self), *self, e) && cat(e, rest(p)) == whole,
    invariant
        a0 == pos(*old(iter)), base == next_child(a0).frames, whole == shape(end, kd(end)),
        end == a0.frames.last().0.kids()[a0.frames.last().1],
        at_child(*old(iter), a0.frames.last().0, a0.frames.last().1),
        known_node(end), kd(end) != RSyntaxKind::R_ROOT, wf(end, kd(end)), ready(*old(self), whole),
        tied(*iter), pos(*iter).fresh is None,
    ensures
        pos(*iter) == next_child(a0),
        adds(*old(self), *self, whole),
    decreases if started { weight(p) } else { size(end) },
//@@ + loopbody 1
    let ghost w = *self;
    let ghost q = p;
    let ghost e1 = e;
    proof {
        if started && p.len() > 0 { lemma_less(p); }
        lemma_less_first(end);
        if started { lemma_frames(base, p, p.last()); assert(good_frame(p[p.len() - 1])); }
        if !started {
            lemma_begin(end);
            p = seq![(end, stop(end))];
            e = entered(end, kd(end));
            lemma_still(*self);
            lemma_ready(*old(self), *self, nil(), e, rest(p));
            lemma_frames(base, Seq::<Frame>::empty(), (end, 0int));
            lemma_frames(base, Seq::<Frame>::empty(), (end, stop(end)));
            assert(base + Seq::<Frame>::empty() =~= base);
            assert(Seq::<Frame>::empty().push((end, stop(end))) =~= p);
        } else if p.last().1 < p.last().0.kids().len() {
            lemma_into(p, end);
            let (f, j) = p.last();
            let n = f.kids()[j];
            assert(wf(n, eff(f, kd(f), j)) && child(f, kd(f), j));
            p = q.drop_last().push((f, j + 1)).push((n, stop(n)));
            lemma_ready(*old(self), *self, e, entered(n, kd(n)), rest(p));
            lemma_assoc(e, entered(n, kd(n)), rest(p));
            e = cat(e, entered(n, kd(n)));
            lemma_frames(base, q.drop_last(), (f, j + 1));
            lemma_frames(base, q.drop_last().push((f, j + 1)), (n, 0int));
            lemma_frames(base, q.drop_last().push((f, j + 1)), (n, stop(n)));
        } else {
            lemma_back(p, end);
            let n = p.last().0;
            p = q.drop_last();
            lemma_ready(*old(self), *self, e, left(n, kd(n)), rest(p));
            lemma_assoc(e, left(n, kd(n)), rest(p));
            e = cat(e, left(n, kd(n)));
            if q.len() == 1 { assert(base + p =~= base); assert(n == q[0].0); }
        }
        started = true;
    }
//@@ end
//@@ item fn RWalk::walk
//@@ + spec
    requires
        tied(*old(iter)), pos(*old(iter)).fresh is Some, pos(*old(iter)).frames.len() == 0,
        rooted(*old(self), pos(*old(iter)).fresh->Some_0),
    ensures
        walked(*old(self), *final(self), pos(*old(iter)).fresh->Some_0),
    decreases pos(*old(iter)).fresh->Some_0.height(), 3int,
//@@ + body
    let ghost top = pos(*iter).fresh->Some_0;
    let ghost whole = shape(top, kd(top));
    let ghost mut started = false;
    let ghost mut p: Seq<Frame> = seq![];
    let ghost mut e: Out = nil();
//@@ + loop 1
    invariant
        top == pos(*old(iter)).fresh->Some_0, whole == shape(top, kd(top)), rooted(*old(self), top),
        tied(*iter),
        !started ==> pos(*iter).fresh == Some(top) && pos(*iter).frames.len() == 0 && *self == *old(self),
        started ==> pos(*iter).fresh is None && pos(*iter).frames == p && good(p, top),
        started && p.len() > 0 ==> adds(*old(self), *self, e) && cat(e, rest(p)) == whole,
        started && p.len() == 0 ==> walked(*old(self), *self, top),
    ensures
        walked(*old(self), *self, top),
    decreases if started { weight(p) } else { size(top) },
//@@ + loopbody 1
    let ghost w = *self;
    let ghost q = p;
    let ghost e1 = e;
    proof {
        reveal(rooted);
        if started && p.len() > 0 { lemma_less(p); }
        lemma_less_first(top);
        if started { lemma_frames(Seq::<Frame>::empty(), p, p.last()); assert(good_frame(p[p.len() - 1])); }
        if !started {
            lemma_begin(top);
            p = seq![(top, stop(top))];
            e = entered(top, kd(top));
            lemma_still(*self);
            lemma_ready(*old(self), *self, nil(), e, rest(p));
            assert(seq![(top, 0int)].drop_last().push((top, stop(top))) =~= p);
        } else if p.last().1 < p.last().0.kids().len() {
            lemma_into(p, top);
            let (f, j) = p.last();
            let n = f.kids()[j];
            assert(wf(n, eff(f, kd(f), j)) && child(f, kd(f), j));
            p = q.drop_last().push((f, j + 1)).push((n, stop(n)));
            lemma_ready(*old(self), *self, e, entered(n, kd(n)), rest(p));
            lemma_assoc(e, entered(n, kd(n)), rest(p));
            e = cat(e, entered(n, kd(n)));
            lemma_frames(q.drop_last().push((f, j + 1)), Seq::<Frame>::empty(), (n, 0int));
            lemma_frames(q.drop_last().push((f, j + 1)), Seq::<Frame>::empty(), (n, stop(n)));
            assert(q.drop_last().push((f, j + 1)).push((n, 0int)).drop_last() =~= q.drop_last().push((f, j + 1)));
        } else {
            lemma_back(p, top);
            let n = p.last().0;
            p = q.drop_last();
            lemma_ready(*old(self), *self, e, left(n, kd(n)), rest(p));
            lemma_assoc(e, left(n, kd(n)), rest(p));
            e = cat(e, left(n, kd(n)));
            if q.len() == 1 { assert(n == q[0].0); lemma_closing(*old(self), w, n, e1); }
            else { assert(q[q.len() - 1] == q.last()); }
        }
        started = true;
    }
//@@ end
//@@ item fn RWalk::handle_enter
//@@   rewrite `unreachable ! ( "{kind:?}" )` => `give_up::<()>()`
//@@ + spec
    requires
        at_node(*old(iter), node), kind == kd(node), known_node(node), wf(node, kind), ready(*old(self), entered(node, kind)),
    ensures
        tied(*final(iter)), pos(*final(iter)) == upto(pos(*old(iter)), node, stop(node)),
        adds(*old(self), *final(self), entered(node, kind)),
    decreases node.height(), 2int,
//@@ + body
    proof { lemma_still(*self); }
//@@ end
//@@ item fn RWalk::handle_leave
//@@   rewrite `unreachable ! ( "{kind:?}" )` => `give_up::<()>()`
//@@ + spec
    requires
        kind == kd(node), known_node(node), wf(node, kind),
        kind != RSyntaxKind::R_ROOT ==> ready(*old(self), left(node, kind)),
        kind == RSyntaxKind::R_ROOT ==> at_end(*old(self), node),
    ensures
        kind != RSyntaxKind::R_ROOT ==> adds(*old(self), *final(self), left(node, kind)),
        kind == RSyntaxKind::R_ROOT ==> closed(*old(self), *final(self)),
//@@ + body
    proof {
        if is_value(kind) { reveal(ready); assert(left(node, kind).x =~= token_out(node, literal(kind)).x); assert(ready(*self, token_out(node, literal(kind)))); }
        if is_token(kind) || kind == RSyntaxKind::COMMENT { lemma_leaf(*self, left(node, kind)); } }
//@@ end
//@@ item fn RWalk::handle_parameters_enter
//@@   rewrite `unreachable ! ( "{kind:?}" )` => `give_up::<()>()`
//@@ + spec
    requires
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_PARAMETERS), ready(*old(self), entered(node, RSyntaxKind::R_PARAMETERS)),
        
    ensures
        tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))),
        adds(*old(self), *final(self), entered(node, RSyntaxKind::R_PARAMETERS)),
    decreases node.height(), 1int,
//@@ + body
    let ghost mut m: int = 0;
//@@ + loop 1
    invariant
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_PARAMETERS), ready(*old(self), entered(node, RSyntaxKind::R_PARAMETERS)), 
        0 <= m <= node.kids().len(),
        tied(*iter), pos(*iter) == upto(pos(*old(iter)), node, m),
        adds(*old(self), *self, items(node, RSyntaxKind::R_PARAMETERS, m)),
        
    ensures m == node.kids().len(),
    decreases node.kids().len() - m,
//@@ + loopbody 1
    let ghost w = *self;
    proof {
        if m < node.kids().len() {
            assert(wf(node.kids()[m], eff(node, RSyntaxKind::R_PARAMETERS, m)) && child(node, RSyntaxKind::R_PARAMETERS, m));
            tree_sitter::axiom_height(node, m);
            lemma_child(*old(self), *self, node, RSyntaxKind::R_PARAMETERS, m);
            
        }
    }
//@@ + looptail 1
    proof {
        
        m = m + 1;
    }
//@@ end
//@@ item fn RWalk::handle_parameters_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ end
//@@ item fn RWalk::handle_parameter_enter
//@@ + spec
    requires
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_PARAMETER), ready(*old(self), entered(node, RSyntaxKind::R_PARAMETER)),
        
    ensures
        tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))),
        adds(*old(self), *final(self), entered(node, RSyntaxKind::R_PARAMETER)),
    decreases node.height(), 1int,
//@@ + body
    let ghost mut m: int = 0;
//@@ + loop 1
    invariant
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_PARAMETER), ready(*old(self), entered(node, RSyntaxKind::R_PARAMETER)), 
        0 <= m <= node.kids().len(),
        tied(*iter), pos(*iter) == upto(pos(*old(iter)), node, m),
        adds(*old(self), *self, items(node, RSyntaxKind::R_PARAMETER, m)),
        used_equal == seen(node, RSyntaxKind::EQUAL, m),
    ensures m == node.kids().len(),
    decreases node.kids().len() - m,
//@@ + loopbody 1
    let ghost w = *self;
    proof {
        if m < node.kids().len() {
            assert(wf(node.kids()[m], eff(node, RSyntaxKind::R_PARAMETER, m)) && child(node, RSyntaxKind::R_PARAMETER, m));
            tree_sitter::axiom_height(node, m);
            lemma_child(*old(self), *self, node, RSyntaxKind::R_PARAMETER, m);
            
        }
    }
//@@ + looptail 1
    proof {
        
        m = m + 1;
    }
//@@ end
//@@ item fn RWalk::handle_parameter_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ end
//@@ item fn RWalk::handle_if_statement_enter
//@@ + spec
    requires
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_IF_STATEMENT), ready(*old(self), entered(node, RSyntaxKind::R_IF_STATEMENT)),
        
    ensures
        tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))),
        adds(*old(self), *final(self), entered(node, RSyntaxKind::R_IF_STATEMENT)),
    decreases node.height(), 1int,
//@@ + body
    let ghost mut m: int = 0;
//@@ + loop 1
    invariant
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_IF_STATEMENT), ready(*old(self), entered(node, RSyntaxKind::R_IF_STATEMENT)), 
        0 <= m <= node.kids().len(),
        tied(*iter), pos(*iter) == upto(pos(*old(iter)), node, m),
        adds(*old(self), *self, items(node, RSyntaxKind::R_IF_STATEMENT, m)),
        used_else == seen(node, RSyntaxKind::ELSE_KW, m),
    ensures m == node.kids().len(),
    decreases node.kids().len() - m,
//@@ + loopbody 1
    let ghost w = *self;
    proof {
        if m < node.kids().len() {
            assert(wf(node.kids()[m], eff(node, RSyntaxKind::R_IF_STATEMENT, m)) && child(node, RSyntaxKind::R_IF_STATEMENT, m));
            tree_sitter::axiom_height(node, m);
            lemma_child(*old(self), *self, node, RSyntaxKind::R_IF_STATEMENT, m);
            
        }
    }
//@@ + looptail 1
    proof {
        
        m = m + 1;
    }
//@@ end
//@@ item fn RWalk::handle_if_statement_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ end
//@@ item fn RWalk::handle_braced_expressions_enter
//@@ + spec
    requires
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_BRACED_EXPRESSIONS), ready(*old(self), entered(node, RSyntaxKind::R_BRACED_EXPRESSIONS)),
        
    ensures
        tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))),
        adds(*old(self), *final(self), entered(node, RSyntaxKind::R_BRACED_EXPRESSIONS)),
    decreases node.height(), 1int,
//@@ + body
    let ghost mut m: int = 0;
//@@ + loop 1
    invariant
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_BRACED_EXPRESSIONS), ready(*old(self), entered(node, RSyntaxKind::R_BRACED_EXPRESSIONS)), 
        0 <= m <= node.kids().len(),
        tied(*iter), pos(*iter) == upto(pos(*old(iter)), node, m),
        adds(*old(self), *self, items(node, RSyntaxKind::R_BRACED_EXPRESSIONS, m)),
        
    ensures m == node.kids().len(),
    decreases node.kids().len() - m,
//@@ + loopbody 1
    let ghost w = *self;
    proof {
        if m < node.kids().len() {
            assert(wf(node.kids()[m], eff(node, RSyntaxKind::R_BRACED_EXPRESSIONS, m)) && child(node, RSyntaxKind::R_BRACED_EXPRESSIONS, m));
            tree_sitter::axiom_height(node, m);
            lemma_child(*old(self), *self, node, RSyntaxKind::R_BRACED_EXPRESSIONS, m);
            
        }
    }
//@@ + looptail 1
    proof {
        
        m = m + 1;
    }
//@@ end
//@@ item fn RWalk::handle_braced_expressions_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ end
//@@ item fn RWalk::handle_call_like_enter
//@@ + spec
    requires
        at_node(*old(iter), node), wf(node, kind), ready(*old(self), entered(node, kind)),
        is_call(kind), arguments_kind == args_of(kind),
    ensures
        tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))),
        adds(*old(self), *final(self), entered(node, kind)),
    decreases node.height(), 1int,
//@@ + body
    let ghost mut m: int = 0;
//@@ + loop 1
    invariant
        at_node(*old(iter), node), wf(node, kind), ready(*old(self), entered(node, kind)), is_call(kind), arguments_kind == args_of(kind),
        0 <= m <= node.kids().len(),
        tied(*iter), pos(*iter) == upto(pos(*old(iter)), node, m),
        adds(*old(self), *self, items(node, kind, m)),
        
    ensures m == node.kids().len(),
    decreases node.kids().len() - m,
//@@ + loopbody 1
    let ghost w = *self;
    proof {
        if m < node.kids().len() {
            assert(wf(node.kids()[m], eff(node, kind, m)) && child(node, kind, m));
            tree_sitter::axiom_height(node, m);
            lemma_child(*old(self), *self, node, kind, m);
            
        }
    }
//@@ + looptail 1
    proof {
        
        m = m + 1;
    }
//@@ end
//@@ item fn RWalk::handle_call_like_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ end
//@@ item fn RWalk::handle_arguments
//@@   rewrite `panic ! ( "Expected to `Enter` arguments" )` => `return give_up::<()>()`
//@@   rewrite `assert_eq ! ( event , WalkEvent :: Leave ( node ) , "Expected to `Leave` arguments" )` => `if !same_event(event, WalkEvent::Leave(node)) { give_up::<()>() }`
//@@ + spec
    requires
        is_args(kind),
        at_child(*old(iter), pos(*old(iter)).frames.last().0, pos(*old(iter)).frames.last().1),
        ({
            let n = pos(*old(iter)).frames.last().0.kids()[pos(*old(iter)).frames.last().1];
            wf(n, kind) && ready(*old(self), shape(n, kind))
        }),
    ensures
        tied(*final(iter)), pos(*final(iter)) == next_child(pos(*old(iter))),
        ({
            let n = pos(*old(iter)).frames.last().0.kids()[pos(*old(iter)).frames.last().1];
            adds(*old(self), *final(self), shape(n, kind))
        }),
    decreases pos(*old(iter)).frames.last().0.kids()[pos(*old(iter)).frames.last().1].height(), 2int,
//@@ + body
    proof {
        let a = pos(*iter);
        let (f, j) = a.frames.last();
        let n = f.kids()[j];
        let b = a.frames.drop_last().push((f, j + 1));
        lemma_frames(b, Seq::<Frame>::empty(), (n, 0int));
        lemma_frames(b, b, (n, 0int));
        lemma_frames(b, b, (n, n.kids().len() as int));
        lemma_still(*self);
        lemma_ready(*self, *self, nil(), entered(n, kind), finish());
    }
//@@ end
//@@ item fn RWalk::handle_arguments_enter
//@@   rewrite `unreachable ! ( "Found unexpected kind '{kind:?}'." )` => `give_up()`
//@@   rewrite `unreachable ! ( "Found {kind:?} in arguments" )` => `give_up::<()>()`
//@@ + spec
    requires
        at_node(*old(iter), node), wf(node, kind), ready(*old(self), entered(node, kind)),
        is_args(kind),
    ensures
        tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))),
        adds(*old(self), *final(self), entered(node, kind)),
    decreases node.height(), 1int,
//@@ + body
    let ghost mut m: int = 0;
//@@ + loop 1
    invariant
        at_node(*old(iter), node), wf(node, kind), ready(*old(self), entered(node, kind)), is_args(kind),
        0 <= m <= node.kids().len(),
        tied(*iter), pos(*iter) == upto(pos(*old(iter)), node, m),
        adds(*old(self), *self, items(node, kind, m)),
        last_kind == prior(node, m), open == opener(kind), close == closer(kind),
    ensures m == node.kids().len(),
    decreases node.kids().len() - m,
//@@ + loopbody 1
    let ghost w = *self;
    proof {
        if m < node.kids().len() {
            assert(wf(node.kids()[m], eff(node, kind, m)) && child(node, kind, m));
            tree_sitter::axiom_height(node, m);
            lemma_child(*old(self), *self, node, kind, m);
            
        }
    }
//@@ + looptail 1
    proof {
        lemma_assoc(items(node, kind, m), hole(), finish());
        m = m + 1;
    }
//@@ end
//@@ item fn RWalk::handle_arguments_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ end
//@@ item fn RWalk::handle_argument_enter
//@@ + spec
    requires
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_ARGUMENT), ready(*old(self), entered(node, RSyntaxKind::R_ARGUMENT)),
        
    ensures
        tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))),
        adds(*old(self), *final(self), entered(node, RSyntaxKind::R_ARGUMENT)),
    decreases node.height(), 1int,
//@@ + body
    let ghost mut m: int = 0;
//@@ + loop 1
    invariant
        at_node(*old(iter), node), wf(node, RSyntaxKind::R_ARGUMENT), ready(*old(self), entered(node, RSyntaxKind::R_ARGUMENT)), 
        0 <= m <= node.kids().len(),
        tied(*iter), pos(*iter) == upto(pos(*old(iter)), node, m),
        adds(*old(self), *self, items(node, RSyntaxKind::R_ARGUMENT, m)),
        seen_equal == seen(node, RSyntaxKind::EQUAL, m),
    ensures m == node.kids().len(),
    decreases node.kids().len() - m,
//@@ + loopbody 1
    let ghost w = *self;
    proof {
        if m < node.kids().len() {
            assert(wf(node.kids()[m], eff(node, RSyntaxKind::R_ARGUMENT, m)) && child(node, RSyntaxKind::R_ARGUMENT, m));
            tree_sitter::axiom_height(node, m);
            lemma_child(*old(self), *self, node, RSyntaxKind::R_ARGUMENT, m);
            
        }
    }
//@@ + looptail 1
    proof {
        
        m = m + 1;
    }
//@@ end
//@@ item fn RWalk::handle_argument_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ end
//@@ item fn RWalk::handle_hole_before_close
//@@ + spec
    ensures
        last_kind == RSyntaxKind::COMMA ==> adds(*old(self), *final(self), hole()),
        last_kind != RSyntaxKind::COMMA ==> *final(self) == *old(self),
//@@ end
//@@ item fn RWalk::handle_hole_before_comma
//@@ + spec
    ensures
        last_kind == RSyntaxKind::COMMA || last_kind == open ==> adds(*old(self), *final(self), hole()),
        !(last_kind == RSyntaxKind::COMMA || last_kind == open) ==> *final(self) == *old(self),
//@@ end
//@@ item fn RWalk::handle_integer_value_enter
//@@ + spec
    requires tied(*old(iter)), pos(*old(iter)).frames.len() > 0,
    ensures tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))), adds(*old(self), *final(self), start(RSyntaxKind::R_INTEGER_VALUE)),
//@@ end
//@@ item fn RWalk::handle_integer_value_leave
//@@ + spec
    requires ready(*old(self), token_out(node, literal(RSyntaxKind::R_INTEGER_VALUE))),
    ensures adds(*old(self), *final(self), cat(token_out(node, literal(RSyntaxKind::R_INTEGER_VALUE)), finish())),
//@@ end
//@@ item fn RWalk::handle_complex_value_enter
//@@ + spec
    requires tied(*old(iter)), pos(*old(iter)).frames.len() > 0,
    ensures tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))), adds(*old(self), *final(self), start(RSyntaxKind::R_COMPLEX_VALUE)),
//@@ end
//@@ item fn RWalk::handle_complex_value_leave
//@@ + spec
    requires ready(*old(self), token_out(node, literal(RSyntaxKind::R_COMPLEX_VALUE))),
    ensures adds(*old(self), *final(self), cat(token_out(node, literal(RSyntaxKind::R_COMPLEX_VALUE)), finish())),
//@@ end
//@@ item fn RWalk::handle_string_value_enter
//@@ + spec
    ensures adds(*old(self), *final(self), start(RSyntaxKind::R_STRING_VALUE)),
//@@ end
//@@ item fn RWalk::handle_string_value_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ end
//@@ item fn RWalk::handle_string_content_enter
//@@ + spec
    requires tied(*old(iter)), pos(*old(iter)).frames.len() > 0,
    ensures tied(*final(iter)), pos(*final(iter)) == skip(pos(*old(iter))), *final(self) == *old(self),
//@@ end
//@@ item fn RWalk::handle_string_content_leave
//@@ + spec
    requires ready(*old(self), token_out(node, RSyntaxKind::STRING_CONTENT)),
    ensures adds(*old(self), *final(self), token_out(node, RSyntaxKind::STRING_CONTENT)),
//@@ + body
    proof { lemma_leaf(*self, token_out(node, RSyntaxKind::STRING_CONTENT)); }
//@@ end
//@@ item fn RWalk::handle_comment_enter
//@@ + spec
    ensures *final(self) == *old(self),
//@@ end
//@@ endimpl
impl RParse {
//@@ assume gaps RParse::drain
//@@ end
}
//@@ item fn parse_from_treesitter
//@@   ret r
//@@ + spec
    requires
        text.spec_bytes().len() <= u32::MAX,
        !ast.root().has_err() ==> grammar(ast.root(), text.spec_bytes()),
    ensures
        ast.root().has_err() ==> failed(text.spec_bytes(), r),
        !ast.root().has_err() ==> parsed(ast.root(), text.spec_bytes(), r) && whole(text.spec_bytes(), shape(ast.root(), kd(ast.root())).x, r),
//@@ + body
    proof {
        reveal(rooted); reveal(walked); reveal(ready);
        let n = ast.root();
        let t = text.spec_bytes();
        if !n.has_err() { assert forall|r: Parsed| #[trigger] parsed(n, t, r) implies whole(t, shape(n, kd(n)).x, r) by { theorem_parsed(n, t, r); } }
    }
//@@ end
//@@ item fn parse_failure
//@@   ret r
//@@ + spec
    requires text.spec_bytes().len() <= u32::MAX,
    ensures failed(text.spec_bytes(), r),
//@@ end
}
}
fn main(){}
