use super::*;
pub trait FormatSeparatedElementRule<N: AstNode> {
    type Context;
    type FormatNode<'a>: Format<Self::Context> where N: 'a;
    type FormatSeparator<'a>: Format<Self::Context> where N: 'a;
    fn format_node<'a>(&self, node: &'a N) -> Self::FormatNode<'a>;
    fn format_separator<'a>(&self, separator: &'a SyntaxToken<N::Language>) -> Self::FormatSeparator<'a>;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TrailingSeparator { Allowed, Disallowed, Mandatory, Omit }
pub struct FormatSeparatedElement<N: AstNode, R> { element: AstSeparatedElement<N::Language, N>, rule: R, is_last: bool, separator: &'static str, trailing: TrailingSeparator }
impl<N: AstNode, R> FormatSeparatedElement<N, R> { pub fn node(&self) -> SyntaxResult<&N> { self.element.node() } }
impl<N: AstNode, R: FormatSeparatedElementRule<N, Context = C>, C: CstFormatContext<Language = N::Language>> Format<C> for FormatSeparatedElement<N, R> {
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        let node = self.element.node()?;
        let separator = self.element.trailing_separator()?;
        crate::write!(f, [builders::group(&self.rule.format_node(node))])?;
        if let Some(s) = separator {
            let sep = self.rule.format_separator(s);
            if !self.is_last { return crate::write!(f, [sep]); }
            match self.trailing {
                TrailingSeparator::Allowed => crate::write!(f, [builders::if_group_breaks(&sep)]),
                TrailingSeparator::Mandatory => crate::write!(f, [sep]),
                TrailingSeparator::Disallowed => crate::write!(f, [trivia::format_removed(s)]),
                TrailingSeparator::Omit => Ok(()),
            }
        } else if self.is_last {
            match self.trailing {
                TrailingSeparator::Allowed => crate::write!(f, [builders::if_group_breaks(&builders::text(self.separator))]),
                TrailingSeparator::Mandatory => crate::write!(f, [builders::text(self.separator)]),
                _ => Ok(()),
            }
        } else { unreachable!("a separator is missing inside a list") }
    }
}
pub struct FormatSeparatedIter<I: Iterator, N, R> { next: Option<I::Item>, inner: I, rule: R, separator: &'static str, trailing: TrailingSeparator, n: PhantomData<N> }
impl<I: Iterator, N, R> FormatSeparatedIter<I, N, R> {
    pub fn new(mut inner: I, separator: &'static str, rule: R) -> Self { Self { next: inner.next(), inner, rule, separator, trailing: TrailingSeparator::Allowed, n: PhantomData } }
    pub fn with_trailing_separator(mut self, t: TrailingSeparator) -> Self { self.trailing = t; self }
}
impl<I: Iterator<Item = AstSeparatedElement<N::Language, N>>, N: AstNode, R: Clone> Iterator for FormatSeparatedIter<I, N, R> {
    type Item = FormatSeparatedElement<N, R>;
    fn next(&mut self) -> Option<Self::Item> {
        let element = self.next.take()?;
        self.next = self.inner.next();
        Some(FormatSeparatedElement { element, rule: self.rule.clone(), is_last: self.next.is_none(), separator: self.separator, trailing: self.trailing })
    }
}
