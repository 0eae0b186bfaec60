// tree_sitter: the syntax tree and a cursor into it
pub mod tree_sitter {
    use super::*;
    #[derive(Clone, Copy)]
    pub struct Node<'a> { pub id: usize, pub p: core::marker::PhantomData<&'a ()> }
    impl<'a> Node<'a> {
        /// where it starts and ends, in bytes
        pub uninterp spec fn s(self) -> int;
        pub uninterp spec fn e(self) -> int;
        /// what it is called in the grammar
        pub uninterp spec fn name(self) -> &'static str;
        pub uninterp spec fn kids(self) -> Seq<Node<'a>>;
        /// the field its i-th child fills
        pub uninterp spec fn field(self, i: int) -> Option<&'static str>;
        pub uninterp spec fn height(self) -> nat;
        #[verifier::external_body]
        pub fn start_byte(&self) -> (r: usize)
            ensures r == self.s(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn end_byte(&self) -> (r: usize)
            ensures r == self.e(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn kind(&self) -> (r: &'static str)
            ensures r == self.name(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn walk(&self) -> (r: TreeCursor<'a>)
            ensures r.at() == *self, r.up() == Seq::<(Node<'a>, int)>::empty(),
        { unimplemented!() }
    }
    /// a tree is finite
    pub broadcast axiom fn axiom_height<'a>(n: Node<'a>, i: int)
        requires 0 <= i < n.kids().len(),
        ensures #[trigger] n.kids()[i].height() < n.height();
    #[verifier::external_body]
    pub struct TreeCursor<'a> { p: core::marker::PhantomData<&'a ()> }
    impl<'a> TreeCursor<'a> {
        /// the node it points at
        pub uninterp spec fn at(&self) -> Node<'a>;
        /// the nodes above it, each with the index of the child that was taken
        pub uninterp spec fn up(&self) -> Seq<(Node<'a>, int)>;
        #[verifier::external_body]
        pub fn node(&self) -> (r: Node<'a>)
            ensures r == self.at(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn goto_first_child(&mut self) -> (r: bool)
            ensures
                r == (old(self).at().kids().len() > 0),
                r ==> final(self).at() == old(self).at().kids()[0] && final(self).up() == old(self).up().push((old(self).at(), 0)),
                !r ==> final(self).at() == old(self).at() && final(self).up() == old(self).up(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn goto_next_sibling(&mut self) -> (r: bool)
            ensures
                r == (old(self).up().len() > 0 && old(self).up().last().1 + 1 < old(self).up().last().0.kids().len()),
                r ==> final(self).at() == old(self).up().last().0.kids()[old(self).up().last().1 + 1]
                    && final(self).up() == old(self).up().drop_last().push((old(self).up().last().0, old(self).up().last().1 + 1)),
                !r ==> final(self).at() == old(self).at() && final(self).up() == old(self).up(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn goto_parent(&mut self) -> (r: bool)
            ensures
                r == (old(self).up().len() > 0),
                r ==> final(self).at() == old(self).up().last().0 && final(self).up() == old(self).up().drop_last(),
                !r ==> final(self).at() == old(self).at() && final(self).up() == old(self).up(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn field_name(&self) -> (r: Option<&'static str>)
            ensures self.up().len() > 0 ==> r == self.up().last().0.field(self.up().last().1),
        { unimplemented!() }
    }
}
pub use tree_sitter::TreeCursor;
/// a node that was entered, and how many of its children were
pub type Frame<'a> = (tree_sitter::Node<'a>, int);
/// where a traversal is: before the root (`fresh`), or inside `frames`

pub struct At<'a> { pub fresh: Option<tree_sitter::Node<'a>>, pub frames: Seq<Frame<'a>> }
pub open spec fn upcoming<'a>(p: At<'a>) -> Option<WalkEvent<tree_sitter::Node<'a>>> {
    if p.fresh is Some { Some(WalkEvent::Enter(p.fresh->Some_0)) }
    else if p.frames.len() == 0 { None }
    else {
        let (n, k) = p.frames.last();
        if k < n.kids().len() { Some(WalkEvent::Enter(n.kids()[k])) } else { Some(WalkEvent::Leave(n)) }
    }
}
/// one step of a traversal in document order, children before their parent is left
pub open spec fn step<'a>(p: At<'a>) -> At<'a> {
    if p.fresh is Some { At { fresh: None, frames: seq![(p.fresh->Some_0, 0)] } }
    else if p.frames.len() == 0 { p }
    else {
        let (n, k) = p.frames.last();
        if k < n.kids().len() { At { fresh: None, frames: p.frames.drop_last().push((n, k + 1)).push((n.kids()[k], 0)) } }
        else { At { fresh: None, frames: p.frames.drop_last() } }
    }
}
/// the children of the innermost node that are still to come are left out
pub open spec fn skip<'a>(p: At<'a>) -> At<'a> {
    At { fresh: None, frames: p.frames.drop_last().push((p.frames.last().0, p.frames.last().0.kids().len() as int)) }
}
/// the nodes above the upcoming one: one child more was entered
pub open spec fn shift<'a>(s: Seq<Frame<'a>>) -> Seq<Frame<'a>> { s.map_values(|f: Frame<'a>| (f.0, f.1 + 1)) }
#[verifier::opaque]
pub open spec fn tied_at<'a>(at: tree_sitter::Node<'a>, up: Seq<Frame<'a>>, next: Option<WalkEvent<tree_sitter::Node<'a>>>) -> bool {
    &&& next is Some ==> next->Some_0 == WalkEvent::Enter(at) || next->Some_0 == WalkEvent::Leave(at)
    &&& forall|j: int| 0 <= j < up.len() ==> 0 <= (#[trigger] up[j]).1 < up[j].0.kids().len()
            && up[j].0.kids()[up[j].1] == (if j + 1 < up.len() { up[j + 1].0 } else { at })
}
#[verifier::opaque]
pub open spec fn pos_at<'a>(up: Seq<Frame<'a>>, next: Option<WalkEvent<tree_sitter::Node<'a>>>) -> At<'a> {
    match next {
        None => At { fresh: None, frames: seq![] },
        Some(WalkEvent::Enter(n)) => if up.len() == 0 { At { fresh: Some(n), frames: seq![] } } else { At { fresh: None, frames: shift(up.drop_last()).push(up.last()) } },
        Some(WalkEvent::Leave(n)) => At { fresh: None, frames: shift(up).push((n, n.kids().len() as int)) },
    }
}
