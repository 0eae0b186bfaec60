use super::*;
macro_rules! element { ($name:ident, $e:expr) => { impl<C> Format<C> for $name { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { f.write_element($e) } } } }
#[derive(Clone, Copy, Debug)]
pub struct Line { mode: LineMode }
impl<C> Format<C> for Line { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { f.write_element(FormatElement::Line(self.mode)) } }
pub fn soft_line_break() -> Line { Line { mode: LineMode::Soft } }
pub fn hard_line_break() -> Line { Line { mode: LineMode::Hard } }
pub fn empty_line() -> Line { Line { mode: LineMode::Empty } }
pub fn soft_line_break_or_space() -> Line { Line { mode: LineMode::SoftOrSpace } }
#[derive(Clone, Copy, Debug)]
pub struct Space;
element!(Space, FormatElement::Space);
pub fn space() -> Space { Space }
pub fn maybe_space(b: bool) -> Option<Space> { b.then_some(Space) }
#[derive(Clone, Copy, Debug)]
pub struct ExpandParent;
element!(ExpandParent, FormatElement::ExpandParent);
pub fn expand_parent() -> ExpandParent { ExpandParent }
#[derive(Clone, Copy, Debug)]
pub struct StaticText { text: &'static str }
pub fn text(text: &'static str) -> StaticText { StaticText { text } }
impl<C> Format<C> for StaticText { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { f.write_element(FormatElement::Text(self.text.into())) } }
pub struct DynamicText<'a> { text: &'a str }
pub fn dynamic_text(text: &str, _: TextSize) -> DynamicText<'_> { assert!(!text.contains('\r'), "the content {text:?} contains an unsupported '\\r' line terminator"); DynamicText { text } }
impl<C> Format<C> for DynamicText<'_> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { f.write_element(FormatElement::Text(self.text.into())) } }
pub struct SyntaxTokenCowSlice<'a> { text: Cow<'a, str> }
pub fn syntax_token_cow_slice<'a, L: Language>(text: Cow<'a, str>, _: &'a SyntaxToken<L>, _: TextSize) -> SyntaxTokenCowSlice<'a> { assert!(!text.contains('\r'), "the content {text:?} contains an unsupported '\\r' line terminator"); SyntaxTokenCowSlice { text } }
impl<C> Format<C> for SyntaxTokenCowSlice<'_> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { f.write_element(FormatElement::Text(self.text.as_ref().into())) } }

macro_rules! wrapper { ($t:ident, $fun:ident, [$($before:expr),*], [$($after:expr),*]) => {
    pub struct $t<'a, C> { content: Argument<'a, C> }
    impl<C> Clone for $t<'_, C> { fn clone(&self) -> Self { *self } }
    impl<C> Copy for $t<'_, C> {}
    pub fn $fun<'a, C>(content: &'a impl Format<C>) -> $t<'a, C> { $t { content: Argument::new(content) } }
    impl<C> Format<C> for $t<'_, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { $( f.write_element($before)?; )* self.content.fmt(f)?; $( f.write_element($after)?; )* Ok(()) } }
} }
const fn line(m: LineMode) -> FormatElement { FormatElement::Line(m) }
wrapper!(Indent, indent, [FormatElement::Tag(Tag::StartIndent)], [FormatElement::Tag(Tag::EndIndent)]);
wrapper!(BlockIndent, block_indent, [FormatElement::Tag(Tag::StartIndent), line(LineMode::Hard)], [FormatElement::Tag(Tag::EndIndent), line(LineMode::Hard)]);
wrapper!(SoftBlockIndent, soft_block_indent, [FormatElement::Tag(Tag::StartIndent), line(LineMode::Soft)], [FormatElement::Tag(Tag::EndIndent), line(LineMode::Soft)]);
wrapper!(SoftSpaceOrBlockIndent, soft_space_or_block_indent, [FormatElement::Tag(Tag::StartIndent), line(LineMode::SoftOrSpace)], [FormatElement::Tag(Tag::EndIndent), line(LineMode::SoftOrSpace)]);
wrapper!(SoftLineIndent, soft_line_indent_or_space, [FormatElement::Tag(Tag::StartIndent), line(LineMode::SoftOrSpace)], [FormatElement::Tag(Tag::EndIndent)]);
wrapper!(LineSuffix, line_suffix, [FormatElement::Tag(Tag::StartLineSuffix)], [FormatElement::Tag(Tag::EndLineSuffix)]);
wrapper!(IfGroupBreaks, if_group_breaks, [FormatElement::Tag(Tag::StartConditionalContent(PrintMode::Expanded))], [FormatElement::Tag(Tag::EndConditionalContent)]);
wrapper!(IfGroupFits, if_group_fits_on_line, [FormatElement::Tag(Tag::StartConditionalContent(PrintMode::Flat))], [FormatElement::Tag(Tag::EndConditionalContent)]);
pub struct Group<'a, C> { content: Argument<'a, C>, expand: bool }
pub fn group<'a, C>(content: &'a impl Format<C>) -> Group<'a, C> { Group { content: Argument::new(content), expand: false } }
impl<C> Group<'_, C> { pub fn should_expand(mut self, b: bool) -> Self { self.expand = b; self } }
impl<C> Format<C> for Group<'_, C> {
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        let mode = Rc::new(Cell::new(if self.expand { GroupMode::Expand } else { GroupMode::Flat }));
        f.write_element(FormatElement::Tag(Tag::StartGroup(GroupTag { mode })))?;
        self.content.fmt(f)?;
        f.write_element(FormatElement::Tag(Tag::EndGroup))
    }
}
pub struct FormatWith<C, T> { formatter: T, c: PhantomData<C> }
pub const fn format_with<C, T: Fn(&mut Formatter<C>) -> FormatResult<()>>(formatter: T) -> FormatWith<C, T> { FormatWith { formatter, c: PhantomData } }
impl<C, T: Fn(&mut Formatter<C>) -> FormatResult<()>> Format<C> for FormatWith<C, T> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { (self.formatter)(f) } }
pub struct FormatOnce<C, T> { formatter: Cell<Option<T>>, c: PhantomData<C> }
pub const fn format_once<C, T: FnOnce(&mut Formatter<C>) -> FormatResult<()>>(formatter: T) -> FormatOnce<C, T> { FormatOnce { formatter: Cell::new(Some(formatter)), c: PhantomData } }
impl<C, T: FnOnce(&mut Formatter<C>) -> FormatResult<()>> Format<C> for FormatOnce<C, T> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { (self.formatter.take().expect("formatted once"))(f) } }

pub struct JoinBuilder<'fmt, 'buf, S, C> { result: FormatResult<()>, fmt: &'fmt mut Formatter<'buf, C>, with: Option<S>, has: bool }
impl<S: Format<C>, C> JoinBuilder<'_, '_, S, C> {
    pub fn entry(&mut self, e: &dyn Format<C>) -> &mut Self {
        self.result = self.result.and_then(|_| { if let Some(w) = &self.with { if self.has { w.fmt(self.fmt)?; } } self.has = true; e.fmt(self.fmt) });
        self
    }
    pub fn entries<F: Format<C>, I: IntoIterator<Item = F>>(&mut self, entries: I) -> &mut Self { for e in entries { self.entry(&e); } self }
    pub fn finish(&mut self) -> FormatResult<()> { self.result }
}
#[must_use]
pub struct JoinNodesBuilder<'fmt, 'buf, S, C> { result: FormatResult<()>, separator: S, fmt: &'fmt mut Formatter<'buf, C>, has: bool }
impl<S: Format<C>, C> JoinNodesBuilder<'_, '_, S, C> {
    pub fn entry<L: Language>(&mut self, node: &SyntaxNode<L>, content: &dyn Format<C>) {
        self.result = self.result.and_then(|_| {
            if self.has { if get_lines_before(node) > 1 { empty_line().fmt(self.fmt)?; } else { self.separator.fmt(self.fmt)?; } }
            self.has = true;
            content.fmt(self.fmt)
        });
    }
    pub fn finish(&mut self) -> FormatResult<()> { self.result }
}
impl<'buf, C> Formatter<'buf, C> {
    pub fn join<'a>(&'a mut self) -> JoinBuilder<'a, 'buf, (), C> { JoinBuilder { result: Ok(()), fmt: self, with: None, has: false } }
    pub fn join_with<'a, S: Format<C>>(&'a mut self, s: S) -> JoinBuilder<'a, 'buf, S, C> { JoinBuilder { result: Ok(()), fmt: self, with: Some(s), has: false } }
    pub fn join_nodes_with_soft_line<'a>(&'a mut self) -> JoinNodesBuilder<'a, 'buf, Line, C> { JoinNodesBuilder { result: Ok(()), separator: soft_line_break_or_space(), fmt: self, has: false } }
    pub fn join_nodes_with_hardline<'a>(&'a mut self) -> JoinNodesBuilder<'a, 'buf, Line, C> { JoinNodesBuilder { result: Ok(()), separator: hard_line_break(), fmt: self, has: false } }
}
pub fn get_lines_before<L: Language>(n: &SyntaxNode<L>) -> usize { n.first_token().map_or(0, |t| get_lines_before_token(&t)) }
pub fn get_lines_before_token<L: Language>(t: &SyntaxToken<L>) -> usize { t.leading_trivia().pieces().take_while(|p| !p.is_comments() && !p.is_skipped()).filter(|p| p.is_newline()).count() }
