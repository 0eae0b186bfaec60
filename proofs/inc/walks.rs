pub open spec fn st(w: RWalk) -> St { St { pieces: pieces(w.parse.trivia@), end: w.last_end.v(), after: w.between_two_tokens } }
pub open spec fn txt(w: RWalk) -> Seq<u8> { w.text.spec_bytes() }
pub open spec fn evs(w: RWalk) -> Seq<Ev> { w.parse.events@ }
/// what a function adds to the events and the trivia
#[verifier::opaque]
pub open spec fn adds(w0: RWalk, w1: RWalk, o: Out) -> bool {
    &&& w1.text == w0.text
    &&& st(w1) == run(txt(w0), st(w0), o.x, false)
    &&& evs(w1) == evs(w0) + o.e
}
