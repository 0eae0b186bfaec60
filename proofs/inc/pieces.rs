// biome_parser: events and trivia
#[derive(Clone, Copy)]
pub enum TriviaPieceKind { Newline, Whitespace, SingleLineComment, MultiLineComment, Skipped }
pub struct Trivia { pub kind: TriviaPieceKind, pub range: TextRange, pub trailing: bool }
impl Trivia {
    pub fn new(kind: TriviaPieceKind, range: TextRange, trailing: bool) -> (r: Trivia)
        ensures r == (Trivia { kind, range, trailing }),
    { Trivia { kind, range, trailing } }
}
pub open spec fn piece(t: Trivia) -> Piece {
    let kind = match t.kind {
        TriviaPieceKind::Newline => PieceKind::Newline,
        TriviaPieceKind::Whitespace => PieceKind::Blank,
        TriviaPieceKind::SingleLineComment => PieceKind::Comment,
        _ => PieceKind::Token,
    };
    Piece { kind, s: t.range.s(), e: t.range.e(), trailing: t.trailing }
}
pub open spec fn pieces(v: Seq<Trivia>) -> Seq<Piece> { v.map_values(|t: Trivia| piece(t)) }
pub broadcast proof fn pieces_push(v: Seq<Trivia>, t: Trivia)
    ensures #[trigger] pieces(v.push(t)) == pieces(v).push(piece(t)),
{
    assert(pieces(v.push(t)) =~= pieces(v).push(piece(t)));
}
pub broadcast proof fn add_push(s: Seq<Piece>, p: Piece, g: Seq<Piece>)
    ensures #[trigger] (s.push(p) + g) == s + (seq![p] + g),
{
    assert((s.push(p) + g) =~= s + (seq![p] + g));
}
pub proof fn lemma_none(g: Seq<Piece>)
    ensures Seq::<Piece>::empty() + g == g, g + Seq::<Piece>::empty() == g,
{
    assert(Seq::<Piece>::empty() + g =~= g);
    assert(g + Seq::<Piece>::empty() =~= g);
}
/// biome_parser: what the tree is built from
pub enum Event<K> { Start { kind: K, forward_parent: Option<u32> }, Finish, Token { kind: K, end: TextSize } }
