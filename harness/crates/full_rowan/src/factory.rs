use super::*;
#[derive(Debug)]
pub struct ParsedChildren<K>(pub Vec<Item>, pub PhantomData<K>);
#[derive(Debug)]
pub struct RawSyntaxElement<K>(Item, PhantomData<K>);
impl<K: SyntaxKind> RawSyntaxElement<K> { pub fn kind(&self) -> K { K::from_raw(self.0.kind()) } }
pub struct RawSyntaxElementRef<'a, K>(&'a Item, PhantomData<K>);
impl<K: SyntaxKind> RawSyntaxElementRef<'_, K> { pub fn kind(&self) -> K { K::from_raw(self.0.kind()) } }
pub struct IntoIter<K>(std::vec::IntoIter<Item>, PhantomData<K>);
impl<K> Iterator for IntoIter<K> { type Item = RawSyntaxElement<K>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|i| RawSyntaxElement(i, PhantomData)) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<K> ExactSizeIterator for IntoIter<K> {}
impl<K> IntoIterator for ParsedChildren<K> { type Item = RawSyntaxElement<K>; type IntoIter = IntoIter<K>; fn into_iter(self) -> IntoIter<K> { IntoIter(self.0.into_iter(), PhantomData) } }
pub struct Iter<'a, K>(std::slice::Iter<'a, Item>, PhantomData<K>);
impl<'a, K> Iterator for Iter<'a, K> { type Item = RawSyntaxElementRef<'a, K>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|i| RawSyntaxElementRef(i, PhantomData)) } }
impl<'a, K> IntoIterator for &'a ParsedChildren<K> { type Item = RawSyntaxElementRef<'a, K>; type IntoIter = Iter<'a, K>; fn into_iter(self) -> Iter<'a, K> { Iter(self.0.iter(), PhantomData) } }
#[derive(Debug)]
pub struct RawSyntaxNode<K>(pub Green, PhantomData<K>);
impl<K: SyntaxKind> RawSyntaxNode<K> {
    pub fn new<I: IntoIterator<Item = Option<RawSyntaxElement<K>>>>(kind: K, slots: I) -> Self { RawSyntaxNode(Green { kind: kind.to_raw(), slots: slots.into_iter().map(|s| s.map(|s| s.0)).collect() }, PhantomData) }
    pub fn kind(&self) -> K { K::from_raw(self.0.kind) }
}
#[derive(Debug)]
pub struct RawNodeSlots<const N: usize> { slots: [bool; N], at: usize }
impl<const N: usize> Default for RawNodeSlots<N> { fn default() -> Self { Self { slots: [false; N], at: 0 } } }
impl<const N: usize> RawNodeSlots<N> {
    pub fn next_slot(&mut self) { self.at += 1; }
    pub fn mark_present(&mut self) { self.slots[self.at] = true; }
    pub fn into_node<K: SyntaxKind>(self, kind: K, children: ParsedChildren<K>) -> RawSyntaxNode<K> {
        let mut it = children.into_iter();
        let slots: Vec<_> = self.slots.iter().map(|p| if *p { it.next() } else { None }).collect();
        assert!(it.next().is_none());
        RawSyntaxNode::new(kind, slots)
    }
}
pub trait SyntaxFactory: fmt::Debug {
    type Kind: SyntaxKind;
    fn make_syntax(kind: Self::Kind, children: ParsedChildren<Self::Kind>) -> RawSyntaxNode<Self::Kind>;
    fn make_node_list_syntax<F: Fn(Self::Kind) -> bool>(kind: Self::Kind, children: ParsedChildren<Self::Kind>, can_cast: F) -> RawSyntaxNode<Self::Kind> {
        let ok = (&children).into_iter().all(|c| can_cast(c.kind()));
        RawSyntaxNode::new(if ok { kind } else { kind.to_bogus() }, children.into_iter().map(Some))
    }
    fn make_separated_list_syntax<F: Fn(Self::Kind) -> bool>(kind: Self::Kind, children: ParsedChildren<Self::Kind>, can_cast: F, separator: Self::Kind, allow_trailing: bool) -> RawSyntaxNode<Self::Kind> {
        let mut next_node = true;
        let mut any = false;
        let mut slots: Vec<bool> = vec![];
        let mut valid = true;
        for c in &children {
            any = true;
            if next_node {
                if can_cast(c.kind()) { slots.push(true); next_node = false; }
                else if c.kind() == separator { slots.push(false); slots.push(true); }
                else { valid = false; break; }
            } else if c.kind() == separator { slots.push(true); next_node = true; }
            else if can_cast(c.kind()) { slots.push(false); slots.push(true); }
            else { valid = false; break; }
        }
        if any && valid && next_node && !allow_trailing { slots.push(false); }
        if !valid { return RawSyntaxNode::new(kind.to_bogus(), children.into_iter().map(Some)); }
        let mut it = children.into_iter();
        let v: Vec<_> = slots.into_iter().map(|p| if p { it.next() } else { None }).collect();
        RawSyntaxNode::new(kind, v)
    }
}
