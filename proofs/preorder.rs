// Contracts for crates/air_r_parser/src/treesitter.rs (property R02): the traversal of the
// syntax tree visits every node once, parents around their children, in document order, and
// every node kind of the grammar is given the syntax kind of its name.
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@@ include inc/nodes.rs
//@@ source crates/air_r_parser/src/treesitter.rs
//@@ item enum WalkEvent
//@@   derive Clone, Copy
//@@   public
//@@ end
pub proof fn lemma_shift<'a>(s: Seq<Frame<'a>>)
    ensures
        s.len() == 0 ==> shift(s) == Seq::<Frame<'a>>::empty(),
        s.len() > 0 ==> shift(s) == shift(s.drop_last()).push((s.last().0, s.last().1 + 1)),
{
    if s.len() == 0 { assert(shift(s) =~= Seq::<Frame<'a>>::empty()); }
    if s.len() > 0 { assert(shift(s) =~= shift(s.drop_last()).push((s.last().0, s.last().1 + 1))); }
}
pub proof fn lemma_push<'a>(s: Seq<Frame<'a>>, f: Frame<'a>)
    ensures s.push(f).last() == f, s.push(f).drop_last() == s, s.push(f).len() > 0,
{
    assert(s.push(f).drop_last() =~= s);
}
pub open spec fn enter<'a>(n: tree_sitter::Node<'a>) -> Option<WalkEvent<tree_sitter::Node<'a>>> { Some(WalkEvent::Enter(n)) }
pub open spec fn leave<'a>(n: tree_sitter::Node<'a>) -> Option<WalkEvent<tree_sitter::Node<'a>>> { Some(WalkEvent::Leave(n)) }
/// on to the first child
pub proof fn lemma_down<'a>(at: tree_sitter::Node<'a>, up: Seq<Frame<'a>>)
    requires tied_at(at, up, enter(at)),
    ensures
        at.kids().len() > 0 ==> tied_at(at.kids()[0], up.push((at, 0)), enter(at.kids()[0]))
            && pos_at(up.push((at, 0)), enter(at.kids()[0])) == step(pos_at(up, enter(at))),
        at.kids().len() == 0 ==> tied_at(at, up, leave(at)) && pos_at(up, leave(at)) == step(pos_at(up, enter(at))),
{
    reveal(tied_at); reveal(pos_at);
    lemma_shift(up);
    lemma_push(up, (at, 0));
    if up.len() == 0 { assert(seq![(at, 0int)] =~= Seq::<Frame<'a>>::empty().push((at, 0int))); }
    else {
        lemma_push(shift(up.drop_last()), up.last());
        assert(up.last().0.kids()[up.last().1] == at);
    }
}
/// on to the next sibling, or back to the parent
pub proof fn lemma_on<'a>(at: tree_sitter::Node<'a>, up: Seq<Frame<'a>>)
    requires tied_at(at, up, leave(at)),
    ensures
        up.len() == 0 ==> forall|u: Seq<Frame<'a>>, n: tree_sitter::Node<'a>| u.len() == 0 ==> #[trigger] tied_at(n, u, None) && pos_at(u, None) == step(pos_at(up, leave(at))),
        up.len() > 0 && up.last().1 + 1 < up.last().0.kids().len() ==> ({
            let n = up.last().0.kids()[up.last().1 + 1];
            let u = up.drop_last().push((up.last().0, up.last().1 + 1));
            tied_at(n, u, enter(n)) && pos_at(u, enter(n)) == step(pos_at(up, leave(at)))
        }),
        up.len() > 0 && !(up.last().1 + 1 < up.last().0.kids().len()) ==> tied_at(up.last().0, up.drop_last(), leave(up.last().0))
            && pos_at(up.drop_last(), leave(up.last().0)) == step(pos_at(up, leave(at))),
{
    reveal(tied_at); reveal(pos_at);
    lemma_shift(up);
    lemma_push(shift(up), (at, at.kids().len() as int));
    if up.len() > 0 {
        let f = (up.last().0, up.last().1 + 1);
        lemma_push(up.drop_last(), f);
        let u = up.drop_last().push(f);
        if f.1 < f.0.kids().len() {
            assert forall|j: int| 0 <= j < u.len() implies 0 <= (#[trigger] u[j]).1 < u[j].0.kids().len()
                && u[j].0.kids()[u[j].1] == (if j + 1 < u.len() { u[j + 1].0 } else { f.0.kids()[f.1] }) by { assert(up[j].1 >= 0); }
        } else {
            let v = up.drop_last();
            assert forall|j: int| 0 <= j < v.len() implies 0 <= (#[trigger] v[j]).1 < v[j].0.kids().len()
                && v[j].0.kids()[v[j].1] == (if j + 1 < v.len() { v[j + 1].0 } else { f.0 }) by { assert(up[j].1 >= 0); }
        }
    }
}
/// past the children
pub proof fn lemma_skip<'a>(at: tree_sitter::Node<'a>, up: Seq<Frame<'a>>)
    ensures
        tied_at(at, up, leave(at)) ==> pos_at(up, leave(at)) == skip(pos_at(up, leave(at))),
        tied_at(at, up, enter(at)) && up.len() > 0 ==> tied_at(up.last().0, up.drop_last(), leave(up.last().0))
            && pos_at(up.drop_last(), leave(up.last().0)) == skip(pos_at(up, enter(at))),
{
    reveal(tied_at); reveal(pos_at);
    lemma_push(shift(up), (at, at.kids().len() as int));
    if up.len() > 0 {
        lemma_push(shift(up.drop_last()), up.last());
        if tied_at(at, up, enter(at)) {
            let v = up.drop_last();
            assert forall|j: int| 0 <= j < v.len() implies 0 <= (#[trigger] v[j]).1 < v[j].0.kids().len()
                && v[j].0.kids()[v[j].1] == (if j + 1 < v.len() { v[j + 1].0 } else { up.last().0 }) by { assert(up[j].1 >= 0); }
        }
    }
}
pub mod code {
use super::*;
use super::tree_sitter::{Node, TreeCursor};
//@@ item struct Preorder
//@@   public
//@@ end
//@@ include inc/cursor.rs
impl<'tree> Preorder<'tree> {
//@@ item fn Preorder::new
//@@   ret r
//@@ + spec
    ensures tied(r), pos(r) == (At { fresh: Some(node), frames: seq![] }),
//@@ + body
    proof { reveal(tied); reveal(pos); reveal(tied_at); reveal(pos_at); }
//@@ end
//@@ item fn Preorder::peek
//@@   ret r
//@@ + spec
    requires tied(*self),
    ensures *r == upcoming(pos(*self)),
//@@ + body
    proof { reveal(tied); reveal(pos); reveal(tied_at); reveal(pos_at); }
//@@ end
//@@ item fn Preorder::peek_field_name
//@@   ret r
//@@ + spec
    requires tied(*self), pos(*self).frames.len() > 0, upcoming(pos(*self)) matches Some(WalkEvent::Enter(_)),
    ensures r == pos(*self).frames.last().0.field(pos(*self).frames.last().1),
//@@ + body
    proof { reveal(tied); reveal(pos); reveal(tied_at); reveal(pos_at); }
//@@ end
//@@ item fn Preorder::skip_subtree
//@@ + spec
    requires tied(*old(self)), pos(*old(self)).frames.len() > 0,
    ensures tied(*final(self)), pos(*final(self)) == skip(pos(*old(self))),
//@@ + body
    proof { reveal(tied); reveal(pos); reveal(tied_at); reveal(pos_at); }
//@@ + lifted 1 `fn skipped(&mut self, next: &WalkEvent<Node<'tree>>) -> (r: Option<WalkEvent<Node<'tree>>>)`
    let ghost at = self.cursor.at();
    let ghost up = self.cursor.up();
    proof { reveal(tied); reveal(pos); lemma_skip(at, up); assert(tied_at(at, up, Some(*next))); assert(*next == WalkEvent::Enter(at) || *next == WalkEvent::Leave(at)) by { reveal(tied_at); }
        if up.len() == 0 { reveal(pos_at); } }
--
    requires tied(Preorder { cursor: old(self).cursor, next: Some(*next) }), pos(Preorder { cursor: old(self).cursor, next: Some(*next) }).frames.len() > 0,
    ensures
        final(self).next == old(self).next,
        tied(Preorder { cursor: final(self).cursor, next: r }),
        pos(Preorder { cursor: final(self).cursor, next: r }) == skip(pos(Preorder { cursor: old(self).cursor, next: Some(*next) })),
//@@ end
//@@ item fn Preorder<Iterator>::next
//@@   ret r
//@@   rewrite `Self :: Item` => `WalkEvent<Node<'tree>>`
//@@ + spec
    requires tied(*old(self)),
    ensures
        r == upcoming(pos(*old(self))),
        tied(*final(self)),
        pos(*final(self)) == step(pos(*old(self))),
//@@ + body
    proof { reveal(tied); reveal(pos); reveal(tied_at); reveal(pos_at); }
//@@ + lifted 1 `fn advanced(&mut self, next: &WalkEvent<Node<'tree>>) -> (r: Option<WalkEvent<Node<'tree>>>)`
    let ghost at = self.cursor.at();
    let ghost up = self.cursor.up();
    proof { reveal(tied); reveal(pos); assert(tied_at(at, up, Some(*next))); assert(*next == WalkEvent::Enter(at) || *next == WalkEvent::Leave(at)) by { reveal(tied_at); }
        if *next == WalkEvent::Enter(at) { lemma_down(at, up); } else { lemma_on(at, up); } }
--
    requires tied(Preorder { cursor: old(self).cursor, next: Some(*next) }),
    ensures
        final(self).next == old(self).next,
        tied(Preorder { cursor: final(self).cursor, next: r }),
        pos(Preorder { cursor: final(self).cursor, next: r }) == step(pos(Preorder { cursor: old(self).cursor, next: Some(*next) })),
//@@ end
}
}
}
fn main(){}
