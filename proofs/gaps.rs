// Contracts for crates/air_r_parser/src/parse.rs, the part that turns the text between tokens
// into trivia (property R01).
#![feature(pattern)]
#![feature(slice_index_methods)]
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@@ include inc/text_size.rs
//@@ include inc/gaps.rs
//@@ include inc/trivia.rs
//@@ include inc/parsing.rs
//@@ include inc/pieces.rs
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Debug
//@@ end
#[derive(Debug, PartialEq, Copy, Clone)]
pub enum WalkEvent<T> { Enter(T), Leave(T) }
//@@ include inc/nodes.rs
//@@ include inc/kinds.rs
//@@ include inc/shape.rs
pub mod code {
use super::*;
broadcast use {pieces_push, add_push, text_size::axiom_range, ax::axiom_contains_lf, vstd::std_specs::range::group_range_axioms};
//@@ source crates/air_r_parser/src/parse.rs
//@@ item struct RParse
//@@   public
//@@ end
//@@ item struct RWalk
//@@   public
//@@ end
//@@ include inc/walks.rs
impl RParse {
//@@ item fn RParse::new
//@@   ret r
//@@ + spec
    ensures r.events@.len() == 0, r.trivia@.len() == 0,
//@@ end
//@@ item fn RParse::push_event
//@@ + spec
    ensures final(self).events@ == old(self).events@.push(event), final(self).trivia@ == old(self).trivia@,
//@@ end
//@@ item fn RParse::push_trivia
//@@ + spec
    ensures final(self).trivia@ == old(self).trivia@.push(trivia), final(self).events@ == old(self).events@,
//@@ end
//@@ item fn RParse::start
//@@ + spec
    ensures final(self).events@ == old(self).events@.push(Event::Start { kind, forward_parent: None }), final(self).trivia@ == old(self).trivia@,
//@@ end
//@@ item fn RParse::token
//@@ + spec
    ensures final(self).events@ == old(self).events@.push(Event::Token { kind, end }), final(self).trivia@ == old(self).trivia@,
//@@ end
//@@ item fn RParse::finish
//@@ + spec
    ensures final(self).events@ == old(self).events@.push(Event::Finish), final(self).trivia@ == old(self).trivia@,
//@@ end
//@@ item fn RParse::drain
//@@   ret r
//@@ + spec
    ensures r.0@ == self.events@, r.1@ == self.trivia@,
//@@ end
//@@ item fn RParse::is_whitespace
//@@   ret r
//@@   rewrite `biome_unicode_table :: lookup_byte` => `lookup_byte`
//@@ + spec
    ensures r == blank(byte),
//@@ end
//@@ item fn RParse::derive_trivia
//@@   rewrite `text . as_bytes ( ) . iter ( ) . peekable ( )` => `ByteIter::of(text.as_bytes())`
//@@   rewrite `unreachable ! ( "Detected non trivia character!" )` => `give_up::<()>()`
//@@ + spec
    requires is_gap(text.spec_bytes()), start.v() + text.spec_bytes().len() <= u32::MAX,
    ensures
        final(self).events@ == old(self).events@,
        pieces(final(self).trivia@) == pieces(old(self).trivia@) + between(text.spec_bytes(), start.v(), between_two_tokens),
//@@ + after `let mut end = start ;`
    let ghost b = text.spec_bytes();
    let ghost at = start.v();
    let ghost pre = pieces(self.trivia@);
    let ghost want = pre + between(b, at, between_two_tokens);
    proof { assert(b.skip(0) =~= b); }
//@@ + loop 1
    invariant_except_break
        !trailing,
    invariant
        b == text.spec_bytes(), is_gap(b), at + b.len() <= u32::MAX,
        at <= end.v() <= at + b.len(), iter.rest() == b.skip(end.v() - at), start.v() == at,
        forall|i: int| 0 <= i < end.v() - at ==> blank(#[trigger] b[i]),
        pieces(self.trivia@) == pre, self.events@ == old(self).events@,
    ensures
        trailing ==> end.v() - at < b.len() && nl(b[end.v() - at]),
        !trailing ==> end.v() - at == b.len(),
    decreases at + b.len() - end.v(),
//@@ + loopbody 1
    proof { let n = end.v() - at; assert(b.skip(n).skip(1) =~= b.skip(n + 1)); assert(b.skip(n)[0] == b[n]); }
//@@ + loopafter 1
    proof {
        lemma_blanks_unique(b, end.v() - at);
        if trailing { assert(has_nl(b)); }
        else { if has_nl(b) { let i = choose|i: int| 0 <= i < b.len() && nl(#[trigger] b[i]); assert(blank(b[i])); } }
    }
//@@ + before `let trailing = false ; while let Some ( byte ) = iter . next ( )`
    proof {
        lemma_gap_first(b, at, between_two_tokens && has_nl(b));
        lemma_gap_first(b, at, false);
        lemma_blanks(b);
        let n = end.v() - at;
        lemma_sub_gap(b, n);
        lemma_none(gap(b, at, false));
    }
//@@ + loop 2
    invariant
        b == text.spec_bytes(), is_gap(b), at + b.len() <= u32::MAX, !trailing,
        at <= end.v() <= at + b.len(), iter.rest() == b.skip(end.v() - at), end.v() == start.v(),
        pieces(self.trivia@) + gap(b.skip(end.v() - at), end.v(), false) == want, self.events@ == old(self).events@,
    ensures end.v() == at + b.len(),
    decreases at + b.len() - end.v(),
//@@ + loopbody 2
    let ghost m = end.v() - at;
    let ghost c = b.skip(m);
    proof {
        lemma_sub_gap(b, m);
        lemma_gap_step(c, at + m);
        assert(c.skip(1) =~= b.skip(m + 1)); assert(c[0] == b[m]);
        if m + 1 < b.len() { assert(c[1] == b[m + 1] && b.skip(m + 1)[0] == b[m + 1]); assert(c.skip(2) =~= b.skip(m + 2)); assert(b.skip(m + 1).skip(1) =~= b.skip(m + 2)); }
    }
//@@ + loop 3
    invariant
        b == text.spec_bytes(), is_gap(b), at + b.len() <= u32::MAX, c == b.skip(m),
        0 <= m < end.v() - at <= b.len(), iter.rest() == b.skip(end.v() - at),
        forall|i: int| m <= i < end.v() - at ==> blank(#[trigger] b[i]),
    ensures end.v() - at < b.len() ==> !blank(b[end.v() - at]),
    decreases at + b.len() - end.v(),
//@@ + loopbody 3
    proof { let n = end.v() - at; assert(b.skip(n).skip(1) =~= b.skip(n + 1)); assert(b.skip(n)[0] == b[n]); }
//@@ + loopafter 3
    proof {
        let n = end.v() - at;
        if n < b.len() { assert(b.skip(n)[0] == b[n]); assert(c[n - m] == b[n]); }
        assert forall|i: int| 0 <= i < n - m implies blank(#[trigger] c[i]) by { assert(c[i] == b[m + i]); }
        lemma_blanks_unique(c, n - m);
        assert(c.skip(n - m) =~= b.skip(n));
    }
//@@ + closure 1 `|byte|`
|byte: &&u8| -> (r: bool) ensures r == blank(**byte)
//@@ + closure 2 `|byte|`
|byte: &&u8| -> (r: bool) ensures r == (**byte == 10)
//@@ end
}
//@@ impl RWalk
//@@ item fn RWalk::new
//@@   ret r
//@@ + spec
    ensures r.text == text, st(r) == init(), evs(r) == Seq::<Ev>::empty(),
//@@ + body
    proof { assert(forall|v: Seq<Trivia>| v.len() == 0 ==> #[trigger] pieces(v) =~= seq![]); assert(forall|v: Seq<Ev>| v.len() == 0 ==> #[trigger] (v + v) =~= seq![]); }
//@@ end
//@@ item fn RWalk::handle_node_enter
//@@ + spec
    ensures adds(*old(self), *final(self), start(kind)),
//@@ + tail
    proof {
        reveal(adds);
        lemma_run_few(txt(*old(self)), st(*old(self)), arbitrary(), false);
        lemma_cat(evs(*old(self)), Event::Start { kind, forward_parent: None });
    }
//@@ end
//@@ item fn RWalk::handle_node_leave
//@@ + spec
    ensures adds(*old(self), *final(self), finish()),
//@@ + tail
    proof {
        reveal(adds);
        lemma_run_few(txt(*old(self)), st(*old(self)), arbitrary(), false);
        lemma_cat(evs(*old(self)), Event::Finish);
    }
//@@ end
//@@ item fn RWalk::handle_token
//@@ + spec
    requires fit(txt(*old(self)), old(self).last_end.v(), Leaf { s: node.s(), e: node.e(), comment: false }),
    ensures
        adds(*old(self), *final(self), token_out(node, kind)),
//@@ + tail
    proof {
        reveal(adds);
        let l = Leaf { s: node.s(), e: node.e(), comment: false };
        lemma_run_few(txt(*old(self)), st(*old(self)), l, false);
        lemma_cat(evs(*old(self)), Event::Token { kind, end: this_end });
        lemma_none(st(*self).pieces);
    }
//@@ end
//@@ item fn RWalk::handle_comment_leave
//@@ + spec
    requires fit(txt(*old(self)), old(self).last_end.v(), Leaf { s: node.s(), e: node.e(), comment: true }),
    ensures adds(*old(self), *final(self), comment_out(node)),
//@@ + tail
    proof {
        reveal(adds);
        let l = Leaf { s: node.s(), e: node.e(), comment: true };
        let s0 = st(*old(self));
        lemma_run_few(txt(*old(self)), s0, l, false);
        lemma_cat(evs(*old(self)), Event::Finish);
        lemma_none(s0.pieces);
        let b = txt(*old(self)).subrange(s0.end, l.s);
        let f = feed(txt(*old(self)), s0, l, false);
        let c = f.pieces.last();
        let w = if has_lf(b) { between(b, s0.end, s0.after) } else if b.len() > 0 { seq![Piece { kind: PieceKind::Blank, s: s0.end, e: l.s, trailing: s0.after }] } else { seq![] };
        lemma_cat(s0.pieces + w, c);
        lemma_cat(s0.pieces, Piece { kind: PieceKind::Blank, s: s0.end, e: l.s, trailing: s0.after });
        assert(gap.spec_bytes() == b);
        assert(f.pieces == (s0.pieces + w).push(c));
        assert(st(*self).pieces == (s0.pieces + w).push(c));
        assert(st(*self) == feed(txt(*old(self)), s0, l, false));
    }
//@@ end
//@@ item fn RWalk::handle_root_leave
//@@ + spec
    requires
        bnd(txt(*old(self)), old(self).last_end.v()), node.e() == txt(*old(self)).len(), bnd(txt(*old(self)), node.e()), txt(*old(self)).len() <= u32::MAX,
        is_gap(txt(*old(self)).subrange(old(self).last_end.v(), node.e())),
    ensures
        final(self).text == old(self).text,
        pieces(final(self).parse.trivia@) == close(txt(*old(self)), st(*old(self))),
        evs(*final(self)) == evs(*old(self)) + cat(finish(), finish()).e,
//@@ + body
    proof { reveal(adds); }
//@@ + tail
    proof {
        lemma_cat(evs(*old(self)), Event::Finish);
        lemma_cat(evs(*old(self)).push(Event::Finish), Event::Finish);
        assert(evs(*self) =~= evs(*old(self)) + cat(finish(), finish()).e);
    }
//@@ end
//@@ endimpl
}
}
fn main(){}
