//! Stand-in for biome_parser (not available offline): events, trivia, and the sink that
//! makes a tree of them.
use biome_rowan::*;

#[derive(Debug, Clone)]
pub struct ParseDiagnostic { pub message: String, pub span: Option<TextRange> }
impl ParseDiagnostic { pub fn new(message: impl std::fmt::Display, span: impl Into<Option<TextRange>>) -> Self { Self { message: message.to_string(), span: span.into() } } }
#[derive(Debug, Clone)]
pub struct AnyParse { pub root: SendNode, pub diagnostics: Vec<ParseDiagnostic> }
impl AnyParse {
    pub fn new(root: SendNode, diagnostics: Vec<ParseDiagnostic>) -> Self { Self { root, diagnostics } }
    pub fn has_errors(&self) -> bool { !self.diagnostics.is_empty() }
    pub fn into_diagnostics(self) -> Vec<ParseDiagnostic> { self.diagnostics }
}
pub mod diagnostic { pub use super::ParseDiagnostic; }
pub mod token_source {
    use super::*;
    #[derive(Debug)]
    pub struct Trivia { kind: TriviaPieceKind, range: TextRange, trailing: bool }
    impl Trivia {
        pub fn new(kind: TriviaPieceKind, range: TextRange, trailing: bool) -> Self { Self { kind, range, trailing } }
        pub fn kind(&self) -> TriviaPieceKind { self.kind }
        pub fn len(&self) -> TextSize { self.range.len() }
        pub fn is_empty(&self) -> bool { self.range.is_empty() }
        pub fn offset(&self) -> TextSize { self.range.start() }
        pub fn trailing(&self) -> bool { self.trailing }
        pub fn text_range(&self) -> &TextRange { &self.range }
    }
}
pub mod prelude { pub use super::{ParseDiagnostic, token_source::Trivia}; }
pub mod event {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Event<K> {
        Start { kind: K, forward_parent: Option<std::num::NonZeroU32> },
        Finish,
        Token { kind: K, end: TextSize },
    }
    pub fn process<L: Language, F>(sink: &mut tree_sink::LosslessTreeSink<'_, L, F>, events: Vec<Event<L::Kind>>, _: Vec<ParseDiagnostic>) {
        for e in events {
            match e {
                Event::Start { kind, forward_parent } => { assert!(forward_parent.is_none(), "forward parents are not supported here"); sink.start_node(kind) }
                Event::Finish => sink.finish_node(),
                Event::Token { kind, end } => sink.token(kind, end),
            }
        }
    }
}
pub mod tree_sink {
    use super::*;
    use super::token_source::Trivia;
    use std::sync::Arc;
    pub struct LosslessTreeSink<'a, L: Language, F> {
        text: &'a str,
        trivia_list: &'a [Trivia],
        text_pos: TextSize,
        trivia_pos: usize,
        needs_eof: bool,
        trivia_pieces: Vec<(TriviaPieceKind, TextSize)>,
        open: Vec<Green>,
        root: Option<Arc<Green>>,
        p: std::marker::PhantomData<(L, F)>,
    }
    impl<'a, L: Language, F> LosslessTreeSink<'a, L, F> {
        pub fn new(text: &'a str, trivia: &'a [Trivia]) -> Self {
            Self { text, trivia_list: trivia, text_pos: 0.into(), trivia_pos: 0, needs_eof: true, trivia_pieces: vec![], open: vec![], root: None, p: std::marker::PhantomData }
        }
        pub fn with_cache(text: &'a str, trivia: &'a [Trivia], _: &'a mut NodeCache) -> Self { Self::new(text, trivia) }
        pub fn start_node(&mut self, kind: L::Kind) { self.open.push(Green { kind: kind.to_raw(), items: vec![] }) }
        pub fn token(&mut self, kind: L::Kind, end: TextSize) { self.do_token(kind, end) }
        pub fn finish_node(&mut self) {
            if self.open.len() == 1 && self.needs_eof { self.do_token(L::Kind::EOF, TextSize::of(self.text)); }
            let g = Arc::new(self.open.pop().expect("a node is open"));
            match self.open.last_mut() {
                Some(p) => p.items.push(Item::Node(g)),
                None => { assert!(self.root.is_none(), "two roots"); self.root = Some(g) }
            }
        }
        pub fn finish(self) -> (SyntaxNode<L>, Vec<ParseDiagnostic>) {
            assert!(self.open.is_empty(), "a node is still open");
            (SyntaxNode::new(self.root.expect("a root")), vec![])
        }
        fn do_token(&mut self, kind: L::Kind, end: TextSize) {
            if kind == L::Kind::EOF { self.needs_eof = false; }
            let start = self.text_pos;
            self.eat_trivia(false);
            let n = self.trivia_pieces.len();
            self.text_pos = end;
            self.eat_trivia(true);
            let text = self.text[TextRange::new(start, self.text_pos)].to_string();
            let trailing = self.trivia_pieces.split_off(n);
            let leading = std::mem::take(&mut self.trivia_pieces);
            self.open.last_mut().expect("a node is open").items.push(Item::Token(GreenToken { kind: kind.to_raw(), text, leading, trailing }));
        }
        fn eat_trivia(&mut self, trailing: bool) {
            for t in &self.trivia_list[self.trivia_pos..] {
                if trailing != t.trailing() || self.text_pos != t.offset() { break; }
                self.trivia_pieces.push((t.kind(), t.len()));
                self.text_pos += t.len();
                self.trivia_pos += 1;
            }
        }
    }
}
