//! Stand-in for tree-sitter and tree-sitter-r (not available offline): a parser for R that
//! gives the trees tree-sitter-r gives, and the cursor over them.
mod grammar;
use std::ops::Range;
use std::sync::Arc;

#[derive(Debug, Clone)]
pub struct Data {
    pub name: &'static str,
    pub named: bool,
    pub start: usize,
    pub end: usize,
    pub error: bool,
    /// parent, index among its children
    pub up: Option<(usize, usize)>,
    pub kids: Vec<(usize, Option<&'static str>)>,
}
#[derive(Debug, Clone)]
pub struct Tree(pub Arc<Vec<Data>>);
impl Tree {
    pub fn root_node(&self) -> Node<'_> { Node { tree: &self.0, id: 0 } }
    pub fn walk(&self) -> TreeCursor<'_> { self.root_node().walk() }
}
#[derive(Clone, Copy)]
pub struct Node<'a> { tree: &'a Vec<Data>, id: usize }
impl PartialEq for Node<'_> { fn eq(&self, o: &Self) -> bool { self.id == o.id && std::ptr::eq(self.tree, o.tree) } }
impl Eq for Node<'_> {}
impl std::hash::Hash for Node<'_> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.id.hash(h) } }
impl std::fmt::Debug for Node<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{{Node {} {}..{}}}", self.kind(), self.start_byte(), self.end_byte()) }
}
impl<'a> Node<'a> {
    fn d(&self) -> &'a Data { &self.tree[self.id] }
    fn at(&self, id: usize) -> Node<'a> { Node { tree: self.tree, id } }
    pub fn id(&self) -> usize { self.id + 1 }
    pub fn kind(&self) -> &'static str { self.d().name }
    pub fn grammar_name(&self) -> &'static str { self.d().name }
    pub fn is_named(&self) -> bool { self.d().named }
    pub fn is_extra(&self) -> bool { self.d().name == "comment" }
    pub fn is_error(&self) -> bool { self.d().name == "ERROR" }
    pub fn is_missing(&self) -> bool { self.d().error && !self.is_error() && self.d().kids.is_empty() }
    pub fn has_error(&self) -> bool { self.d().error || self.is_error() || self.d().kids.iter().any(|k| self.at(k.0).has_error()) }
    pub fn start_byte(&self) -> usize { self.d().start }
    pub fn end_byte(&self) -> usize { self.d().end }
    pub fn byte_range(&self) -> Range<usize> { self.d().start..self.d().end }
    pub fn parent(&self) -> Option<Node<'a>> { self.d().up.map(|u| self.at(u.0)) }
    pub fn child(&self, i: usize) -> Option<Node<'a>> { self.d().kids.get(i).map(|k| self.at(k.0)) }
    pub fn child_count(&self) -> usize { self.d().kids.len() }
    pub fn named_child_count(&self) -> usize { self.d().kids.iter().filter(|k| self.at(k.0).is_named()).count() }
    pub fn named_child(&self, i: usize) -> Option<Node<'a>> { self.d().kids.iter().map(|k| self.at(k.0)).filter(|n| n.is_named()).nth(i) }
    pub fn child_by_field_name(&self, f: impl AsRef<[u8]>) -> Option<Node<'a>> {
        self.d().kids.iter().find(|k| k.1.is_some_and(|x| x.as_bytes() == f.as_ref())).map(|k| self.at(k.0))
    }
    pub fn field_name_for_child(&self, i: u32) -> Option<&'static str> { self.d().kids.get(i as usize).and_then(|k| k.1) }
    pub fn next_sibling(&self) -> Option<Node<'a>> { let (p, i) = self.d().up?; self.at(p).child(i + 1) }
    pub fn prev_sibling(&self) -> Option<Node<'a>> { let (p, i) = self.d().up?; self.at(p).child(i.checked_sub(1)?) }
    pub fn children<'c>(&self, _: &'c mut TreeCursor<'a>) -> impl ExactSizeIterator<Item = Node<'a>> + 'c + use<'a, 'c> {
        let s = *self;
        (0..s.child_count()).map(move |i| s.child(i).unwrap())
    }
    pub fn utf8_text<'t>(&self, t: &'t [u8]) -> Result<&'t str, std::str::Utf8Error> { std::str::from_utf8(&t[self.byte_range()]) }
    pub fn walk(&self) -> TreeCursor<'a> { TreeCursor { root: *self, at: *self } }
}
#[derive(Clone)]
pub struct TreeCursor<'a> { root: Node<'a>, at: Node<'a> }
impl<'a> TreeCursor<'a> {
    fn go(&mut self, n: Option<Node<'a>>) -> bool { if let Some(n) = n { self.at = n; true } else { false } }
    pub fn node(&self) -> Node<'a> { self.at }
    pub fn field_name(&self) -> Option<&'static str> {
        if self.at == self.root { return None; }
        let (p, i) = self.at.d().up?;
        self.at.at(p).d().kids[i].1
    }
    pub fn depth(&self) -> u32 { let (mut n, mut k) = (self.at, 0); while n != self.root { n = n.parent().unwrap(); k += 1; } k }
    pub fn goto_first_child(&mut self) -> bool { let n = self.at.child(0); self.go(n) }
    pub fn goto_last_child(&mut self) -> bool { let n = self.at.child_count().checked_sub(1).and_then(|i| self.at.child(i)); self.go(n) }
    pub fn goto_next_sibling(&mut self) -> bool { if self.at == self.root { return false; } let n = self.at.next_sibling(); self.go(n) }
    pub fn goto_previous_sibling(&mut self) -> bool { if self.at == self.root { return false; } let n = self.at.prev_sibling(); self.go(n) }
    pub fn goto_parent(&mut self) -> bool { if self.at == self.root { return false; } let n = self.at.parent(); self.go(n) }
}
#[derive(Debug, Clone)]
pub struct Language;
#[derive(Debug)]
pub struct LanguageError;
#[derive(Default)]
pub struct Parser(bool);
impl Parser {
    pub fn new() -> Self { Parser(false) }
    pub fn set_language(&mut self, _: &Language) -> Result<(), LanguageError> { self.0 = true; Ok(()) }
    pub fn parse(&mut self, text: impl AsRef<[u8]>, _old: Option<&Tree>) -> Option<Tree> {
        if !self.0 { return None; }
        let b = text.as_ref();
        Some(Tree(Arc::new(grammar::parse(std::str::from_utf8(b).ok()?))))
    }
}
