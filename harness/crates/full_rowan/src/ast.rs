use super::*;
pub struct SyntaxKindSet<L: Language>([u128; 4], PhantomData<L>);
impl<L: Language> SyntaxKindSet<L> {
    pub const fn from_raw(kind: RawSyntaxKind) -> Self {
        let mut b = [0u128; 4];
        b[(kind.0 / 128) as usize] |= 1 << (kind.0 % 128);
        Self(b, PhantomData)
    }
    pub const fn union(self, o: Self) -> Self { Self([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]], PhantomData) }
    pub fn matches(&self, kind: L::Kind) -> bool { let k = kind.to_raw().0; self.0[(k / 128) as usize] >> (k % 128) & 1 == 1 }
}
pub struct AstNodeSlotMap<const N: usize>([u8; N]);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SyntaxError { MissingRequiredChild, UnexpectedBogusNode, UnexpectedMetavariable }
impl fmt::Display for SyntaxError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("missing required child") } }
impl std::error::Error for SyntaxError {}
impl serde::Serialize for SyntaxError { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
pub type SyntaxResult<T> = Result<T, SyntaxError>;
pub trait AstNode: Clone {
    type Language: Language;
    const KIND_SET: SyntaxKindSet<Self::Language>;
    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(n: SyntaxNode<Self::Language>) -> Option<Self>;
    fn cast_ref(n: &SyntaxNode<Self::Language>) -> Option<Self> { Self::cast(n.clone()) }
    fn try_cast(n: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> { if Self::can_cast(n.kind()) { Ok(Self::unwrap_cast(n)) } else { Err(n) } }
    fn try_cast_node<T: AstNode<Language = Self::Language>>(self) -> Result<T, Self> { T::cast(self.syntax().clone()).ok_or(self) }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>;
    fn unwrap_cast(n: SyntaxNode<Self::Language>) -> Self { Self::cast(n).expect("a node of this kind") }
    fn text(&self) -> String { self.syntax().to_trimmed_string() }
    fn to_trimmed_string(&self) -> String { self.syntax().to_trimmed_string() }
    fn to_trimmed_text(&self) -> String { self.syntax().to_trimmed_string() }
    fn range(&self) -> TextRange { self.syntax().text_trimmed_range() }
    fn clone_subtree(self) -> Self { self }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> { self.syntax().parent().and_then(T::cast) }
}
pub trait AstNodeList: Sized {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> {
        AstNodeListIterator(self.syntax_list().iter().map(|s| match s { SyntaxSlot::Node(n) => Self::Node::unwrap_cast(n), s => panic!("expected a node in the list, not {s:?}") }).collect::<Vec<_>>().into_iter(), PhantomData)
    }
    fn len(&self) -> usize { self.syntax_list().len() }
    fn first(&self) -> Option<Self::Node> { self.iter().next() }
    fn last(&self) -> Option<Self::Node> { self.iter().last() }
    fn is_empty(&self) -> bool { self.len() == 0 }
}
#[derive(Debug, Clone)]
pub struct AstNodeListIterator<L, N>(std::vec::IntoIter<N>, PhantomData<L>);
impl<L, N> Iterator for AstNodeListIterator<L, N> { type Item = N; fn next(&mut self) -> Option<N> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<L, N> DoubleEndedIterator for AstNodeListIterator<L, N> { fn next_back(&mut self) -> Option<N> { self.0.next_back() } }
impl<L, N> ExactSizeIterator for AstNodeListIterator<L, N> {}
impl<L, N> FusedIterator for AstNodeListIterator<L, N> {}

#[derive(Debug, Clone)]
pub struct AstSeparatedElement<L: Language, N> { node: SyntaxResult<N>, trailing_separator: SyntaxResult<Option<SyntaxToken<L>>> }
impl<L: Language, N: AstNode<Language = L>> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> { self.node.as_ref().map_err(|e| *e) }
    pub fn into_node(self) -> SyntaxResult<N> { self.node }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> { match &self.trailing_separator { Ok(t) => Ok(t.as_ref()), Err(e) => Err(*e) } }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> { self.trailing_separator }
}
pub trait AstSeparatedList: Sized {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;
    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;
    fn elements(&self) -> AstSeparatedListElementsIterator<Self::Language, Self::Node> {
        let mut v = vec![];
        let mut it = self.syntax_list().iter();
        while let Some(s) = it.next() {
            let node = match s { SyntaxSlot::Node(n) => Ok(Self::Node::unwrap_cast(n)), SyntaxSlot::Empty => Err(SyntaxError::MissingRequiredChild), SyntaxSlot::Token(t) => panic!("a token where a node was expected: {t:?}") };
            let trailing_separator = match it.next() { None => Ok(None), Some(SyntaxSlot::Token(t)) => Ok(Some(t)), Some(SyntaxSlot::Empty) => Err(SyntaxError::MissingRequiredChild), Some(SyntaxSlot::Node(n)) => panic!("a node where a separator was expected: {n:?}") };
            v.push(AstSeparatedElement { node, trailing_separator });
        }
        AstSeparatedListElementsIterator(v.into_iter())
    }
    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Language, Self::Node> { AstSeparatedListNodesIterator(self.elements()) }
    fn separators(&self) -> impl Iterator<Item = SyntaxResult<SyntaxToken<Self::Language>>> { self.elements().filter_map(|e| e.into_trailing_separator().transpose()) }
    fn len(&self) -> usize { (self.syntax_list().len() + 1) / 2 }
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> { self.iter().next() }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> { self.iter().last() }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> { match self.syntax_list().last()? { SyntaxSlot::Token(t) => Some(t), _ => None } }
}
#[derive(Clone, Debug)]
pub struct AstSeparatedListElementsIterator<L: Language, N>(std::vec::IntoIter<AstSeparatedElement<L, N>>);
impl<L: Language, N> Iterator for AstSeparatedListElementsIterator<L, N> { type Item = AstSeparatedElement<L, N>; fn next(&mut self) -> Option<Self::Item> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<L: Language, N> DoubleEndedIterator for AstSeparatedListElementsIterator<L, N> { fn next_back(&mut self) -> Option<Self::Item> { self.0.next_back() } }
impl<L: Language, N> ExactSizeIterator for AstSeparatedListElementsIterator<L, N> {}
impl<L: Language, N> FusedIterator for AstSeparatedListElementsIterator<L, N> {}
#[derive(Clone, Debug)]
pub struct AstSeparatedListNodesIterator<L: Language, N>(AstSeparatedListElementsIterator<L, N>);
impl<L: Language, N> Iterator for AstSeparatedListNodesIterator<L, N> { type Item = SyntaxResult<N>; fn next(&mut self) -> Option<SyntaxResult<N>> { self.0.next().map(|e| e.node) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<L: Language, N> DoubleEndedIterator for AstSeparatedListNodesIterator<L, N> { fn next_back(&mut self) -> Option<SyntaxResult<N>> { self.0.next_back().map(|e| e.node) } }
impl<L: Language, N> ExactSizeIterator for AstSeparatedListNodesIterator<L, N> {}
impl<L: Language, N> FusedIterator for AstSeparatedListNodesIterator<L, N> {}

pub mod support {
    use super::*;
    pub fn node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, i: usize) -> Option<N> { match p.element_in_slot(i as u32)? { SyntaxElement::Node(n) => Some(N::unwrap_cast(n)), t => panic!("expected a node in the slot, not {t:?}") } }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, i: usize) -> SyntaxResult<N> { node(p, i).ok_or(SyntaxError::MissingRequiredChild) }
    pub fn elements<L: Language>(p: &SyntaxNode<L>) -> SyntaxElementChildren<L> { p.children_with_tokens() }
    pub fn list<L: Language, N: AstNode<Language = L>>(p: &SyntaxNode<L>, i: usize) -> N { required_node(p, i).expect("lists are always there") }
    pub fn token<L: Language>(p: &SyntaxNode<L>, i: usize) -> Option<SyntaxToken<L>> { match p.element_in_slot(i as u32)? { SyntaxElement::Token(n) => Some(n), t => panic!("expected a token in the slot, not {t:?}") } }
    pub fn required_token<L: Language>(p: &SyntaxNode<L>, i: usize) -> SyntaxResult<SyntaxToken<L>> { token(p, i).ok_or(SyntaxError::MissingRequiredChild) }
    pub struct DebugSyntaxResult<N>(pub SyntaxResult<N>);
    impl<N: fmt::Debug> fmt::Debug for DebugSyntaxResult<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match &self.0 { Ok(n) => n.fmt(f), Err(_) => f.write_str("missing (required)") } } }
    pub struct DebugOptionalElement<N>(pub Option<N>);
    impl<N: fmt::Debug> fmt::Debug for DebugOptionalElement<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match &self.0 { Some(n) => n.fmt(f), None => f.write_str("missing (optional)") } } }
    pub struct DebugSyntaxElementChildren<L: Language>(pub SyntaxElementChildren<L>);
    impl<L: Language> fmt::Debug for DebugSyntaxElementChildren<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(self.0.clone()).finish() } }
    pub use super::super::SyntaxElementChildren;
    pub struct DebugSyntaxElement<L: Language>(pub SyntaxElement<L>);
    impl<L: Language> fmt::Debug for DebugSyntaxElement<L> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
}
