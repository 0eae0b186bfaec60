//! Stand-in for biome_rowan (not available offline): lossless syntax trees with typed
//! nodes over them. Trees are immutable.
use std::fmt;
use std::hash::{Hash, Hasher};
use std::iter::FusedIterator;
use std::marker::PhantomData;
use std::sync::Arc;
pub use biome_text_size::{TextLen, TextRange, TextSize};
pub mod ast;
pub mod factory;
pub use ast::*;
pub use factory::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RawSyntaxKind(pub u16);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TriviaPieceKind { Newline, Whitespace, SingleLineComment, MultiLineComment, Skipped }
impl TriviaPieceKind {
    pub fn is_newline(&self) -> bool { matches!(self, Self::Newline) }
    pub fn is_whitespace(&self) -> bool { matches!(self, Self::Whitespace) }
    pub fn is_single_line_comment(&self) -> bool { matches!(self, Self::SingleLineComment) }
    pub fn is_comment(&self) -> bool { matches!(self, Self::SingleLineComment | Self::MultiLineComment) }
}
pub trait SyntaxKind: fmt::Debug + PartialEq + Copy {
    const TOMBSTONE: Self;
    const EOF: Self;
    fn is_bogus(&self) -> bool;
    fn to_bogus(&self) -> Self;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
    fn is_root(&self) -> bool;
    fn is_list(&self) -> bool;
    fn is_trivia(self) -> bool;
    fn to_string(&self) -> Option<&'static str>;
}
pub trait Language: Sized + Clone + Copy + fmt::Debug + Default + Eq + Ord + Hash {
    type Kind: SyntaxKind;
    type Root: AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Direction { Next, Prev }
#[derive(Debug, Copy, Clone)]
pub enum WalkEvent<T> { Enter(T), Leave(T) }
#[derive(Debug, Clone)]
pub enum TokenAtOffset<T> { None, Single(T), Between(T, T) }

// ---- the data ------------------------------------------------------------------------
/// What the tree sink builds.
#[derive(Debug, Clone)]
pub struct Green { pub kind: RawSyntaxKind, pub slots: Vec<Option<Item>> }
#[derive(Debug, Clone)]
pub enum Item { Node(Box<Green>), Token(GreenToken) }
impl Item { pub fn kind(&self) -> RawSyntaxKind { match self { Item::Node(n) => n.kind, Item::Token(t) => t.kind } } }
#[derive(Debug, Clone)]
pub struct GreenToken { pub kind: RawSyntaxKind, pub text: String, pub leading: Vec<(TriviaPieceKind, TextSize)>, pub trailing: Vec<(TriviaPieceKind, TextSize)> }

#[derive(Debug, Clone, Copy)]
enum Slot { Node(u32), Token(u32), Empty }
#[derive(Debug)]
struct NodeD { kind: RawSyntaxKind, up: Option<(u32, u32)>, slots: Vec<Slot>, start: TextSize, end: TextSize }
#[derive(Debug)]
struct TokD { kind: RawSyntaxKind, up: (u32, u32), start: TextSize, end: TextSize, leading: Vec<(TriviaPieceKind, TextSize)>, trailing: Vec<(TriviaPieceKind, TextSize)>, lead: TextSize, trail: TextSize }
#[derive(Debug)]
pub struct Tree { text: String, nodes: Vec<NodeD>, toks: Vec<TokD> }
fn total(p: &[(TriviaPieceKind, TextSize)]) -> TextSize { let mut n = TextSize::from(0); for x in p { n += x.1; } n }
impl Tree {
    fn add(&mut self, g: Green, up: Option<(u32, u32)>) -> u32 {
        let id = self.nodes.len() as u32;
        let start = TextSize::of(self.text.as_str());
        self.nodes.push(NodeD { kind: g.kind, up, slots: vec![], start, end: start });
        let mut slots = vec![];
        for (i, s) in g.slots.into_iter().enumerate() {
            slots.push(match s {
                None => Slot::Empty,
                Some(Item::Node(n)) => Slot::Node(self.add(*n, Some((id, i as u32)))),
                Some(Item::Token(t)) => {
                    let start = TextSize::of(self.text.as_str());
                    self.text.push_str(&t.text);
                    let end = TextSize::of(self.text.as_str());
                    let (lead, trail) = (total(&t.leading), total(&t.trailing));
                    self.toks.push(TokD { kind: t.kind, up: (id, i as u32), start, end, leading: t.leading, trailing: t.trailing, lead, trail });
                    Slot::Token(self.toks.len() as u32 - 1)
                }
            });
        }
        let end = TextSize::of(self.text.as_str());
        let n = &mut self.nodes[id as usize];
        n.slots = slots;
        n.end = end;
        id
    }
}

// ---- nodes ---------------------------------------------------------------------------
#[derive(Clone)]
pub struct SyntaxNode<L: Language> { t: Arc<Tree>, i: u32, p: PhantomData<L> }
#[derive(Clone)]
pub struct SyntaxToken<L: Language> { t: Arc<Tree>, i: u32, p: PhantomData<L> }
macro_rules! ids { ($t:ident) => {
    impl<L: Language> PartialEq for $t<L> { fn eq(&self, o: &Self) -> bool { self.i == o.i && Arc::ptr_eq(&self.t, &o.t) } }
    impl<L: Language> Eq for $t<L> {}
    impl<L: Language> Hash for $t<L> { fn hash<H: Hasher>(&self, h: &mut H) { self.i.hash(h); (Arc::as_ptr(&self.t) as usize).hash(h) } }
    impl<L: Language> serde::Serialize for $t<L> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
} }
ids!(SyntaxNode);
ids!(SyntaxToken);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SyntaxElement<L: Language> { Node(SyntaxNode<L>), Token(SyntaxToken<L>) }
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> { fn from(n: SyntaxNode<L>) -> Self { Self::Node(n) } }
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> { fn from(n: SyntaxToken<L>) -> Self { Self::Token(n) } }
impl<L: Language> serde::Serialize for SyntaxElement<L> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
impl<L: Language> SyntaxElement<L> {
    pub fn kind(&self) -> L::Kind { match self { Self::Node(n) => n.kind(), Self::Token(t) => t.kind() } }
    pub fn into_node(self) -> Option<SyntaxNode<L>> { match self { Self::Node(n) => Some(n), _ => None } }
    pub fn into_token(self) -> Option<SyntaxToken<L>> { match self { Self::Token(n) => Some(n), _ => None } }
    pub fn as_node(&self) -> Option<&SyntaxNode<L>> { match self { Self::Node(n) => Some(n), _ => None } }
    pub fn as_token(&self) -> Option<&SyntaxToken<L>> { match self { Self::Token(n) => Some(n), _ => None } }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SyntaxSlot<L: Language> { Node(SyntaxNode<L>), Token(SyntaxToken<L>), Empty }
pub struct SyntaxNodeChildren<L: Language>(std::vec::IntoIter<SyntaxNode<L>>);
impl<L: Language> Iterator for SyntaxNodeChildren<L> { type Item = SyntaxNode<L>; fn next(&mut self) -> Option<SyntaxNode<L>> { self.0.next() } }
#[derive(Clone)]
pub struct SyntaxElementChildren<L: Language>(std::vec::IntoIter<SyntaxElement<L>>);
impl<L: Language> Iterator for SyntaxElementChildren<L> { type Item = SyntaxElement<L>; fn next(&mut self) -> Option<SyntaxElement<L>> { self.0.next() } }
impl<L: Language> fmt::Debug for SyntaxElementChildren<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("children") } }

impl<L: Language> fmt::Debug for SyntaxNode<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}@{:?} {:?}", self.kind(), self.text_range_with_trivia(), self.text_trimmed().to_string()) } }
impl<L: Language> fmt::Display for SyntaxNode<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.all_text()) } }
impl<L: Language> SyntaxNode<L> {
    pub fn new_root(g: Green) -> Self {
        let mut t = Tree { text: String::new(), nodes: vec![], toks: vec![] };
        t.add(g, None);
        SyntaxNode { t: Arc::new(t), i: 0, p: PhantomData }
    }
    fn d(&self) -> &NodeD { &self.t.nodes[self.i as usize] }
    fn node(&self, i: u32) -> Self { SyntaxNode { t: self.t.clone(), i, p: PhantomData } }
    fn tok(&self, i: u32) -> SyntaxToken<L> { SyntaxToken { t: self.t.clone(), i, p: PhantomData } }
    fn all_text(&self) -> &str { &self.t.text[TextRange::new(self.d().start, self.d().end)] }
    fn slot(&self, s: Slot) -> SyntaxSlot<L> { match s { Slot::Node(i) => SyntaxSlot::Node(self.node(i)), Slot::Token(i) => SyntaxSlot::Token(self.tok(i)), Slot::Empty => SyntaxSlot::Empty } }
    pub fn kind(&self) -> L::Kind { L::Kind::from_raw(self.d().kind) }
    pub fn parent(&self) -> Option<Self> { self.d().up.map(|u| self.node(u.0)) }
    pub fn grand_parent(&self) -> Option<Self> { self.parent().and_then(|p| p.parent()) }
    pub fn index(&self) -> usize { self.d().up.map_or(0, |u| u.1 as usize) }
    pub fn ancestors(&self) -> impl Iterator<Item = Self> + use<L> { std::iter::successors(Some(self.clone()), |n| n.parent()) }
    pub fn slots(&self) -> impl DoubleEndedIterator<Item = SyntaxSlot<L>> + ExactSizeIterator { self.d().slots.iter().map(|s| self.slot(*s)) }
    pub fn element_in_slot(&self, i: u32) -> Option<SyntaxElement<L>> {
        match self.slot(*self.d().slots.get(i as usize)?) { SyntaxSlot::Node(n) => Some(n.into()), SyntaxSlot::Token(n) => Some(n.into()), SyntaxSlot::Empty => None }
    }
    pub fn children(&self) -> SyntaxNodeChildren<L> { SyntaxNodeChildren(self.children_with_tokens().filter_map(|e| e.into_node()).collect::<Vec<_>>().into_iter()) }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> {
        SyntaxElementChildren(self.slots().filter_map(|s| match s { SyntaxSlot::Node(n) => Some(n.into()), SyntaxSlot::Token(n) => Some(SyntaxElement::Token(n)), SyntaxSlot::Empty => None }).collect::<Vec<_>>().into_iter())
    }
    pub fn tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxToken<L>> { self.children_with_tokens().filter_map(|e| e.into_token()).collect::<Vec<_>>().into_iter() }
    pub fn first_child(&self) -> Option<Self> { self.children().next() }
    pub fn last_child(&self) -> Option<Self> { self.children().last() }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> { self.children_with_tokens().next() }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> { self.children_with_tokens().last() }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> { let n = self.d(); let i = self.t.toks.partition_point(|t| t.start < n.start); (i < self.t.toks.len() && self.within(i)).then(|| self.tok(i as u32)) }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> { let mut i = self.t.toks.len(); while i > 0 { i -= 1; if self.within(i) { return Some(self.tok(i as u32)); } } None }
    fn within(&self, tok: usize) -> bool { let mut up = Some(self.t.toks[tok].up); while let Some((n, _)) = up { if n == self.i { return true; } up = self.t.nodes[n as usize].up; } false }
    fn sibling(&self, d: i64, nodes: bool) -> Option<SyntaxElement<L>> { sibling(self.parent()?, self.index(), d, nodes) }
    pub fn next_sibling(&self) -> Option<Self> { self.sibling(1, true)?.into_node() }
    pub fn prev_sibling(&self) -> Option<Self> { self.sibling(-1, true)?.into_node() }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.sibling(1, false) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { self.sibling(-1, false) }
    pub fn text_range_with_trivia(&self) -> TextRange { TextRange::new(self.d().start, self.d().end) }
    pub fn text_trimmed_range(&self) -> TextRange {
        match (self.first_token(), self.last_token()) {
            (Some(a), Some(b)) => TextRange::new(a.text_trimmed_range().start(), b.text_trimmed_range().end()),
            _ => TextRange::empty(self.d().start),
        }
    }
    pub fn text_with_trivia(&self) -> SyntaxNodeText { SyntaxNodeText(self.all_text().to_string()) }
    pub fn text_trimmed(&self) -> SyntaxNodeText { SyntaxNodeText(self.t.text[self.text_trimmed_range()].to_string()) }
    pub fn to_trimmed_string(&self) -> String { self.text_trimmed().0 }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> { self.first_token().map(|t| t.leading_trivia()) }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> { self.last_token().map(|t| t.trailing_trivia()) }
    pub fn has_leading_newline(&self) -> bool { self.first_token().is_some_and(|t| t.has_leading_newline()) }
    pub fn has_leading_comments(&self) -> bool { self.first_token().is_some_and(|t| t.has_leading_comments()) }
    pub fn has_trailing_comments(&self) -> bool { self.last_token().is_some_and(|t| t.has_trailing_comments()) }
    pub fn has_comments_direct(&self) -> bool { self.has_leading_comments() || self.has_trailing_comments() }
    pub fn has_comments_descendants(&self) -> bool { self.descendants_tokens(Direction::Next).any(|t| t.has_leading_comments() || t.has_trailing_comments()) }
    pub fn first_or_last_token_have_comments(&self) -> bool { self.has_comments_direct() }
    pub fn preorder_with_tokens(&self, _: Direction) -> impl Iterator<Item = WalkEvent<SyntaxElement<L>>> + use<L> {
        fn go<L: Language>(n: &SyntaxNode<L>, out: &mut Vec<WalkEvent<SyntaxElement<L>>>) {
            out.push(WalkEvent::Enter(n.clone().into()));
            for e in n.children_with_tokens() { match e { SyntaxElement::Node(n) => go(&n, out), t => { out.push(WalkEvent::Enter(t.clone())); out.push(WalkEvent::Leave(t)) } } }
            out.push(WalkEvent::Leave(n.clone().into()));
        }
        let mut out = vec![];
        go(self, &mut out);
        out.into_iter()
    }
    pub fn descendants_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> { self.preorder_with_tokens(d).filter_map(|e| match e { WalkEvent::Enter(e) => Some(e), _ => None }) }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { self.descendants_with_tokens(Direction::Next).filter_map(|e| e.into_node()) }
    pub fn descendants_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxToken<L>> + use<L> { self.descendants_with_tokens(d).filter_map(|e| e.into_token()) }
    pub fn into_list(self) -> SyntaxList<L> { SyntaxList { list: self } }
    pub fn new_detached<I: IntoIterator<Item = Option<SyntaxElement<L>>>>(_: L::Kind, _: I) -> Self { unimplemented!("making nodes by hand") }
    pub fn as_send(&self) -> Option<SendNode> { self.parent().is_none().then(|| SendNode(self.t.clone())) }
}
fn sibling<L: Language>(p: SyntaxNode<L>, at: usize, d: i64, nodes: bool) -> Option<SyntaxElement<L>> {
    let mut i = at as i64 + d;
    while i >= 0 && (i as usize) < p.d().slots.len() {
        match p.slot(p.d().slots[i as usize]) {
            SyntaxSlot::Node(n) => return Some(n.into()),
            SyntaxSlot::Token(t) if !nodes => return Some(t.into()),
            _ => {}
        }
        i += d;
    }
    None
}
#[derive(Debug, Clone)]
pub struct SendNode(Arc<Tree>);
impl SendNode { pub fn into_node<L: Language>(self) -> Option<SyntaxNode<L>> { Some(SyntaxNode { t: self.0, i: 0, p: PhantomData }) } }
#[derive(Debug, Default)]
pub struct NodeCache;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SyntaxNodeText(String);
impl fmt::Display for SyntaxNodeText { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl From<SyntaxNodeText> for String { fn from(t: SyntaxNodeText) -> String { t.0 } }
impl PartialEq<str> for SyntaxNodeText { fn eq(&self, o: &str) -> bool { self.0 == o } }
impl PartialEq<&str> for SyntaxNodeText { fn eq(&self, o: &&str) -> bool { self.0 == *o } }
impl SyntaxNodeText {
    pub fn len(&self) -> TextSize { TextSize::of(self.0.as_str()) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn contains_char(&self, c: char) -> bool { self.0.contains(c) }
}

// ---- tokens --------------------------------------------------------------------------
impl<L: Language> fmt::Debug for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}@{:?} {:?}", self.kind(), self.text_range(), self.text_trimmed()) } }
impl<L: Language> fmt::Display for SyntaxToken<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.text()) } }
impl<L: Language> SyntaxToken<L> {
    fn d(&self) -> &TokD { &self.t.toks[self.i as usize] }
    pub fn kind(&self) -> L::Kind { L::Kind::from_raw(self.d().kind) }
    pub fn parent(&self) -> Option<SyntaxNode<L>> { Some(SyntaxNode { t: self.t.clone(), i: self.d().up.0, p: PhantomData }) }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> { std::iter::successors(self.parent(), |n| n.parent()) }
    pub fn text_range(&self) -> TextRange { TextRange::new(self.d().start, self.d().end) }
    pub fn text_trimmed_range(&self) -> TextRange { TextRange::new(self.d().start + self.d().lead, self.d().end - self.d().trail) }
    pub fn text(&self) -> &str { &self.t.text[self.text_range()] }
    pub fn text_trimmed(&self) -> &str { &self.t.text[self.text_trimmed_range()] }
    pub fn token_text_trimmed(&self) -> TokenText { TokenText(self.text_trimmed().to_string()) }
    fn at(&self, i: i64) -> Option<Self> { (i >= 0 && (i as usize) < self.t.toks.len()).then(|| SyntaxToken { t: self.t.clone(), i: i as u32, p: PhantomData }) }
    pub fn next_token(&self) -> Option<Self> { self.at(self.i as i64 + 1) }
    pub fn prev_token(&self) -> Option<Self> { self.at(self.i as i64 - 1) }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> { sibling(self.parent()?, self.d().up.1 as usize, 1, false) }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> { sibling(self.parent()?, self.d().up.1 as usize, -1, false) }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> { SyntaxTrivia { token: self.clone(), leading: true } }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> { SyntaxTrivia { token: self.clone(), leading: false } }
    pub fn has_leading_comments(&self) -> bool { self.leading_trivia().pieces().any(|p| p.is_comments()) }
    pub fn has_trailing_comments(&self) -> bool { self.trailing_trivia().pieces().any(|p| p.is_comments()) }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool { self.leading_trivia().pieces().any(|p| p.is_comments() || p.is_skipped()) }
    pub fn has_leading_newline(&self) -> bool { self.leading_trivia().pieces().any(|p| p.is_newline()) }
    pub fn new_detached(_: L::Kind, _: &str, _: impl Sized, _: impl Sized) -> Self { unimplemented!("making tokens by hand") }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct TokenText(String);
impl TokenText { pub fn text(&self) -> &str { &self.0 } }
impl std::ops::Deref for TokenText { type Target = str; fn deref(&self) -> &str { &self.0 } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SyntaxTrivia<L: Language> { token: SyntaxToken<L>, leading: bool }
impl<L: Language> SyntaxTrivia<L> {
    fn list(&self) -> &Vec<(TriviaPieceKind, TextSize)> { if self.leading { &self.token.d().leading } else { &self.token.d().trailing } }
    pub fn pieces(&self) -> std::vec::IntoIter<SyntaxTriviaPiece<L>> {
        let mut at = if self.leading { self.token.d().start } else { self.token.d().end - self.token.d().trail };
        let mut v = vec![];
        for (kind, len) in self.list() { v.push(SyntaxTriviaPiece { token: self.token.clone(), kind: *kind, range: TextRange::at(at, *len) }); at += *len; }
        v.into_iter()
    }
    pub fn is_empty(&self) -> bool { self.list().is_empty() }
    pub fn has_skipped(&self) -> bool { false }
    pub fn text(&self) -> &str {
        let d = self.token.d();
        &self.token.t.text[if self.leading { TextRange::at(d.start, d.lead) } else { TextRange::new(d.end - d.trail, d.end) }]
    }
    pub fn first(&self) -> Option<SyntaxTriviaPiece<L>> { self.pieces().next() }
    pub fn last(&self) -> Option<SyntaxTriviaPiece<L>> { self.pieces().last() }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPiece<L: Language> { token: SyntaxToken<L>, kind: TriviaPieceKind, range: TextRange }
impl<L: Language> SyntaxTriviaPiece<L> {
    pub fn kind(&self) -> TriviaPieceKind { self.kind }
    pub fn text(&self) -> &str { &self.token.t.text[self.range] }
    pub fn text_range(&self) -> TextRange { self.range }
    pub fn text_len(&self) -> TextSize { self.range.len() }
    pub fn is_newline(&self) -> bool { self.kind.is_newline() }
    pub fn is_whitespace(&self) -> bool { self.kind.is_whitespace() }
    pub fn is_comments(&self) -> bool { self.kind.is_comment() }
    pub fn is_skipped(&self) -> bool { false }
    pub fn as_comments(&self) -> Option<SyntaxTriviaPieceComments<L>> { self.is_comments().then(|| SyntaxTriviaPieceComments(self.clone())) }
    pub fn token(&self) -> SyntaxToken<L> { self.token.clone() }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SyntaxTriviaPieceComments<L: Language>(SyntaxTriviaPiece<L>);
impl<L: Language> SyntaxTriviaPieceComments<L> {
    pub fn text(&self) -> &str { self.0.text() }
    pub fn text_len(&self) -> TextSize { self.0.text_len() }
    pub fn text_range(&self) -> TextRange { self.0.text_range() }
    pub fn has_newline(&self) -> bool { self.text().contains('\n') }
    pub fn as_piece(&self) -> &SyntaxTriviaPiece<L> { &self.0 }
    pub fn into_piece(self) -> SyntaxTriviaPiece<L> { self.0 }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SyntaxList<L: Language> { list: SyntaxNode<L> }
impl<L: Language> SyntaxList<L> {
    pub fn len(&self) -> usize { self.list.d().slots.len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn first(&self) -> Option<SyntaxSlot<L>> { self.iter().next() }
    pub fn last(&self) -> Option<SyntaxSlot<L>> { self.iter().last() }
    pub fn iter(&self) -> std::vec::IntoIter<SyntaxSlot<L>> { self.list.slots().collect::<Vec<_>>().into_iter() }
    pub fn node(&self) -> &SyntaxNode<L> { &self.list }
    pub fn into_node(self) -> SyntaxNode<L> { self.list }
}
impl<L: Language> FusedIterator for SyntaxNodeChildren<L> {}
