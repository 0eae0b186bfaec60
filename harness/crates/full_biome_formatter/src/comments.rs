use super::*;
use std::collections::HashMap;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CommentKind { InlineBlock, Block, Line }
impl CommentKind { pub fn is_line(&self) -> bool { matches!(self, Self::Line) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CommentTextPosition { EndOfLine, OwnLine, SameLine }
impl CommentTextPosition { pub fn is_own_line(&self) -> bool { matches!(self, Self::OwnLine) } pub fn is_end_of_line(&self) -> bool { matches!(self, Self::EndOfLine) } pub fn is_same_line(&self) -> bool { matches!(self, Self::SameLine) } }
#[derive(Debug, Clone)]
pub struct SourceComment<L: Language> { lines_before: u32, lines_after: u32, piece: SyntaxTriviaPieceComments<L>, kind: CommentKind, formatted: Cell<bool> }
impl<L: Language> SourceComment<L> {
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { &self.piece }
    pub fn lines_before(&self) -> u32 { self.lines_before }
    pub fn lines_after(&self) -> u32 { self.lines_after }
    pub fn kind(&self) -> CommentKind { self.kind }
    pub fn mark_formatted(&self) { self.formatted.set(true) }
}
#[derive(Debug, Clone)]
pub struct DecoratedComment<L: Language> { enclosing: SyntaxNode<L>, preceding: Option<SyntaxNode<L>>, following: Option<SyntaxNode<L>>, following_token: Option<SyntaxToken<L>>, text_position: CommentTextPosition, lines_before: u32, lines_after: u32, comment: SyntaxTriviaPieceComments<L>, kind: CommentKind }
impl<L: Language> DecoratedComment<L> {
    pub fn enclosing_node(&self) -> &SyntaxNode<L> { &self.enclosing }
    pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> { self.preceding.as_ref() }
    pub fn following_node(&self) -> Option<&SyntaxNode<L>> { self.following.as_ref() }
    pub fn following_token(&self) -> Option<&SyntaxToken<L>> { self.following_token.as_ref() }
    pub fn text_position(&self) -> CommentTextPosition { self.text_position }
    pub fn lines_before(&self) -> u32 { self.lines_before }
    pub fn lines_after(&self) -> u32 { self.lines_after }
    pub fn kind(&self) -> CommentKind { self.kind }
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> { &self.comment }
}
impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> {
    fn from(c: DecoratedComment<L>) -> Self { Self { lines_before: c.lines_before, lines_after: c.lines_after, piece: c.comment, kind: c.kind, formatted: Cell::new(false) } }
}
#[derive(Debug)]
pub enum CommentPlacement<L: Language> { Leading { node: SyntaxNode<L>, comment: SourceComment<L> }, Trailing { node: SyntaxNode<L>, comment: SourceComment<L> }, Dangling { node: SyntaxNode<L>, comment: SourceComment<L> }, Default(DecoratedComment<L>) }
impl<L: Language> CommentPlacement<L> {
    pub fn leading(node: SyntaxNode<L>, c: impl Into<SourceComment<L>>) -> Self { Self::Leading { node, comment: c.into() } }
    pub fn trailing(node: SyntaxNode<L>, c: impl Into<SourceComment<L>>) -> Self { Self::Trailing { node, comment: c.into() } }
    pub fn dangling(node: SyntaxNode<L>, c: impl Into<SourceComment<L>>) -> Self { Self::Dangling { node, comment: c.into() } }
    pub fn or_else<F: FnOnce(DecoratedComment<L>) -> Self>(self, f: F) -> Self { match self { Self::Default(c) => f(c), p => p } }
}
pub trait CommentStyle: Default {
    type Language: Language;
    fn is_suppression(_text: &str) -> bool { false }
    fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
    fn place_comment(&self, comment: DecoratedComment<Self::Language>) -> CommentPlacement<Self::Language> { CommentPlacement::Default(comment) }
}
#[derive(Debug, Clone)]
struct Parts<L: Language> { leading: Vec<SourceComment<L>>, dangling: Vec<SourceComment<L>>, trailing: Vec<SourceComment<L>> }
impl<L: Language> Parts<L> { const NEW: Self = Parts { leading: vec![], dangling: vec![], trailing: vec![] }; }
#[derive(Debug)]
struct Data<L: Language> { map: HashMap<SyntaxNode<L>, Parts<L>>, checked: RefCell<HashSet<SyntaxNode<L>>> }
#[derive(Debug)]
pub struct Comments<L: Language> { data: Rc<Data<L>> }
impl<L: Language> Clone for Comments<L> { fn clone(&self) -> Self { Self { data: self.data.clone() } } }
impl<L: Language> Comments<L> {
    pub fn from_node<S: CommentStyle<Language = L>>(root: &SyntaxNode<L>, style: &S, _: Option<&TransformSourceMap>) -> Self {
        Comments { data: Rc::new(Data { map: Visitor::new(style).visit(root), checked: RefCell::new(HashSet::new()) }) }
    }
    fn parts(&self, n: &SyntaxNode<L>) -> Option<&Parts<L>> { self.data.map.get(n) }
    pub fn leading_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.parts(n).map_or(&[], |p| &p.leading) }
    pub fn dangling_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.parts(n).map_or(&[], |p| &p.dangling) }
    pub fn trailing_comments(&self, n: &SyntaxNode<L>) -> &[SourceComment<L>] { self.parts(n).map_or(&[], |p| &p.trailing) }
    pub fn has_comments(&self, n: &SyntaxNode<L>) -> bool { self.parts(n).is_some() }
    pub fn has_leading_comments(&self, n: &SyntaxNode<L>) -> bool { !self.leading_comments(n).is_empty() }
    pub fn has_dangling_comments(&self, n: &SyntaxNode<L>) -> bool { !self.dangling_comments(n).is_empty() }
    pub fn has_trailing_comments(&self, n: &SyntaxNode<L>) -> bool { !self.trailing_comments(n).is_empty() }
    pub fn leading_dangling_trailing_comments<'a>(&'a self, n: &'a SyntaxNode<L>) -> impl Iterator<Item = &'a SourceComment<L>> { self.leading_comments(n).iter().chain(self.dangling_comments(n)).chain(self.trailing_comments(n)) }
    pub fn leading_trailing_comments<'a>(&'a self, n: &'a SyntaxNode<L>) -> impl Iterator<Item = &'a SourceComment<L>> { self.leading_comments(n).iter().chain(self.trailing_comments(n)) }
    pub fn mark_suppression_checked(&self, n: &SyntaxNode<L>) { self.data.checked.borrow_mut().insert(n.clone()); }
    pub(crate) fn assert_checked_all_suppressions(&self, root: &SyntaxNode<L>) {
        let c = self.data.checked.borrow();
        for n in root.descendants() {
            if n.kind().is_list() || n.kind().is_root() { continue; }
            assert!(c.contains(&n), "the node {n:?} is printed without a look at its suppression");
        }
    }
    pub(crate) fn assert_formatted_all_comments(&self) {
        for p in self.data.map.values() { for c in p.leading.iter().chain(&p.dangling).chain(&p.trailing) { assert!(c.formatted.get(), "the comment {:?} is not formatted", c.piece.text()); } }
    }
}
type Trail = (usize, u32, CommentTextPosition, Option<usize>);
struct Visitor<'a, S: CommentStyle> { map: HashMap<SyntaxNode<S::Language>, Parts<S::Language>>, style: &'a S, pending: Vec<DecoratedComment<S::Language>>, preceding: Option<SyntaxNode<S::Language>>, following_index: Option<usize>, parents: Vec<SyntaxNode<S::Language>>, last_token: Option<SyntaxToken<S::Language>> }
impl<'a, S: CommentStyle> Visitor<'a, S> {
    fn new(style: &'a S) -> Self { Self { map: HashMap::new(), style, pending: vec![], preceding: None, following_index: None, parents: vec![], last_token: None } }
    fn visit(mut self, root: &SyntaxNode<S::Language>) -> HashMap<SyntaxNode<S::Language>, Parts<S::Language>> {
        for e in root.preorder_with_tokens(Direction::Next) {
            match e {
                WalkEvent::Enter(SyntaxElement::Node(n)) => {
                    if n.kind().is_list() { continue; }
                    if matches!(self.following_index, None | Some(0)) {
                        self.flush(Some(&n));
                        self.following_index = Some(self.parents.len());
                    }
                    self.parents.push(n);
                }
                WalkEvent::Leave(SyntaxElement::Node(n)) => {
                    if n.kind().is_list() { continue; }
                    self.parents.pop();
                    self.following_index = None;
                    self.flush(None);
                    self.preceding = Some(n);
                }
                WalkEvent::Enter(SyntaxElement::Token(t)) => self.token(t),
                WalkEvent::Leave(SyntaxElement::Token(_)) => {}
            }
        }
        if let Some(last) = self.last_token.take() {
            self.parents.push(root.clone());
            let (from, lines, pos, end) = self.trailing(last, None);
            Self::update(&mut self.pending[from..], pos, lines, end);
        }
        self.flush(None);
        self.map
    }
    fn token(&mut self, t: SyntaxToken<S::Language>) {
        let (from, mut lines, mut pos, mut end) = match self.last_token.take() { Some(last) => self.trailing(last, Some(&t)), None => (self.pending.len(), 0, CommentTextPosition::SameLine, None) };
        for p in t.leading_trivia().pieces() {
            if p.is_newline() {
                lines += 1;
                pos = CommentTextPosition::OwnLine;
                if end.is_none() { end = Some(self.pending.len()); }
            } else if let Some(c) = p.as_comments() { self.queue(c, Some(t.clone()), &mut lines, pos) }
        }
        self.last_token = Some(t);
        Self::update(&mut self.pending[from..], pos, lines, end);
        if let Some(i) = self.following_index {
            let n = self.parents[i].clone();
            self.flush(Some(&n));
            self.following_index = None;
            self.preceding = None;
        }
    }
    fn trailing(&mut self, t: SyntaxToken<S::Language>, following: Option<&SyntaxToken<S::Language>>) -> Trail {
        let from = self.pending.len();
        let (mut lines, mut pos, mut end) = (0, CommentTextPosition::SameLine, None);
        for p in t.trailing_trivia().pieces() {
            if p.is_newline() {
                lines += 1;
                pos = CommentTextPosition::OwnLine;
                if end.is_none() { end = Some(self.pending.len()); }
            } else if let Some(c) = p.as_comments() { self.queue(c, following.cloned(), &mut lines, pos) }
        }
        (from, lines, pos, end)
    }
    fn queue(&mut self, comment: SyntaxTriviaPieceComments<S::Language>, following_token: Option<SyntaxToken<S::Language>>, lines: &mut u32, text_position: CommentTextPosition) {
        let enclosing = match self.following_index { None => self.parents.last().unwrap(), Some(0) => &self.parents[0], Some(i) => &self.parents[i - 1] }.clone();
        self.pending.push(DecoratedComment { enclosing, preceding: self.preceding.clone(), following: None, following_token, text_position, lines_before: std::mem::take(lines), lines_after: 0, kind: S::get_comment_kind(&comment), comment });
    }
    fn update(list: &mut [DecoratedComment<S::Language>], pos: CommentTextPosition, lines: u32, end: Option<usize>) {
        let end = end.unwrap_or(list.len());
        let next: Vec<u32> = list.iter().skip(1).map(|c| c.lines_before).chain([lines]).collect();
        for (i, c) in list.iter_mut().enumerate() {
            if i < end && pos.is_own_line() { c.text_position = CommentTextPosition::EndOfLine; }
            c.lines_after = next[i];
        }
    }
    fn flush(&mut self, following: Option<&SyntaxNode<S::Language>>) {
        for mut c in std::mem::take(&mut self.pending) {
            c.following = following.cloned();
            let style = self.style;
            self.add(style.place_comment(c));
        }
    }
    fn add(&mut self, p: CommentPlacement<S::Language>) {
        let (which, node, comment) = match p {
            CommentPlacement::Leading { node, comment } => (0, node, comment),
            CommentPlacement::Trailing { node, comment } => (2, node, comment),
            CommentPlacement::Dangling { node, comment } => (1, node, comment),
            CommentPlacement::Default(c) => {
                let (which, node) = match (c.text_position, c.preceding.clone(), c.following.clone()) {
                    (CommentTextPosition::EndOfLine, Some(p), _) => (2, p),
                    (CommentTextPosition::EndOfLine, None, Some(f)) => (0, f),
                    (CommentTextPosition::OwnLine, _, Some(f)) => (0, f),
                    (CommentTextPosition::OwnLine, Some(p), None) => (2, p),
                    (CommentTextPosition::SameLine, Some(p), Some(f)) => if p.last_token() == Some(c.comment.as_piece().token()) { (2, p) } else { (0, f) },
                    (CommentTextPosition::SameLine, Some(p), None) => (2, p),
                    (CommentTextPosition::SameLine, None, Some(f)) => (0, f),
                    (_, None, None) => (1, c.enclosing.clone()),
                };
                (which, node, c.into())
            }
        };
        let parts = self.map.entry(node).or_insert(Parts::NEW);
        [&mut parts.leading, &mut parts.dangling, &mut parts.trailing][which].push(comment);
    }
}
