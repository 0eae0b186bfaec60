//! Stand-in for biome_formatter (not available offline): the intermediate representation,
//! its buffers and builders, the comment placement, and the printer, as air's formatter
//! uses them. What the real library only asserts in debug builds (every token printed once,
//! every comment formatted, every suppression looked at) is asserted here always.
use biome_rowan::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
pub mod builders;
pub mod comments;
pub mod printer;
pub mod separated;
pub use printer::{Printed, PrinterOptions};

// ---- options -------------------------------------------------------------------------
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IndentStyle { Tab, Space }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum LineEnding { Lf, Crlf, Cr }
/// biome: 0..=24
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct IndentWidth(u8);
/// biome: 1..=320
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct LineWidth(u16);
impl IndentWidth { pub fn value(&self) -> u8 { self.0 } }
impl LineWidth { pub fn value(&self) -> u16 { self.0 } }
impl TryFrom<u8> for IndentWidth {
    type Error = u8;
    fn try_from(v: u8) -> Result<Self, u8> { if v <= 24 { Ok(Self(v)) } else { Err(v) } }
}
impl TryFrom<u16> for LineWidth {
    type Error = u16;
    fn try_from(v: u16) -> Result<Self, u16> { if (1..=320).contains(&v) { Ok(Self(v)) } else { Err(v) } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FormatError { SyntaxError, RangeError { input: TextRange, tree: TextRange }, PoorLayout }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PrintError;
impl fmt::Display for FormatError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("format error") } }
impl fmt::Display for PrintError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("print error") } }
impl std::error::Error for FormatError {}
impl std::error::Error for PrintError {}
impl From<SyntaxError> for FormatError { fn from(_: SyntaxError) -> Self { FormatError::SyntaxError } }
impl From<&SyntaxError> for FormatError { fn from(_: &SyntaxError) -> Self { FormatError::SyntaxError } }
impl From<PrintError> for FormatError { fn from(_: PrintError) -> Self { FormatError::SyntaxError } }
pub type FormatResult<T> = Result<T, FormatError>;
pub type PrintResult<T> = Result<T, PrintError>;

#[derive(Debug, Clone)]
pub struct TransformSourceMap;
pub trait FormatOptions {
    fn indent_style(&self) -> IndentStyle;
    fn indent_width(&self) -> IndentWidth;
    fn line_width(&self) -> LineWidth;
    fn line_ending(&self) -> LineEnding;
    fn as_print_options(&self) -> PrinterOptions;
}
pub trait FormatContext {
    type Options: FormatOptions;
    fn options(&self) -> &Self::Options;
    fn source_map(&self) -> Option<&TransformSourceMap>;
}
pub trait CstFormatContext: FormatContext {
    type Language: Language;
    type Style: comments::CommentStyle<Language = Self::Language>;
    type CommentRule: FormatRule<comments::SourceComment<Self::Language>, Context = Self> + Default;
    fn comments(&self) -> &comments::Comments<Self::Language>;
}
pub trait FormatLanguage {
    type SyntaxLanguage: Language;
    type Context: CstFormatContext<Language = Self::SyntaxLanguage>;
    type FormatRule: FormatRule<SyntaxNode<Self::SyntaxLanguage>, Context = Self::Context> + Default;
    fn options(&self) -> &<Self::Context as FormatContext>::Options;
    fn create_context(self, root: &SyntaxNode<Self::SyntaxLanguage>, source_map: Option<TransformSourceMap>) -> Self::Context;
}

// ---- the representation ----------------------------------------------------------------
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum LineMode { SoftOrSpace, Soft, Hard, Empty }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PrintMode { Flat, Expanded }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum GroupMode { Flat, Expand, Propagated }
impl GroupMode { pub fn is_flat(&self) -> bool { matches!(self, GroupMode::Flat) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum VerbatimKind { Bogus, Suppressed, Verbatim }
#[derive(Debug, Clone)]
pub struct GroupTag { pub mode: Rc<Cell<GroupMode>> }
#[derive(Debug, Clone)]
pub enum Tag { StartIndent, EndIndent, StartGroup(GroupTag), EndGroup, StartConditionalContent(PrintMode), EndConditionalContent, StartLineSuffix, EndLineSuffix, StartEntry, EndEntry, StartVerbatim(VerbatimKind), EndVerbatim }
#[derive(Debug, Clone)]
pub enum FormatElement { Space, Line(LineMode), ExpandParent, Text(Rc<str>), Interned(Rc<[FormatElement]>), BestFitting(format_element::BestFittingElement), Tag(Tag) }
pub mod format_element {
    use super::*;
    pub use super::{FormatElement, LineMode};
    #[derive(Debug, Clone)]
    pub struct BestFittingElement { pub(crate) variants: Rc<[Box<[FormatElement]>]> }
    impl BestFittingElement {
        /// # Safety
        /// There have to be at least two variants.
        pub unsafe fn from_vec_unchecked(variants: Vec<Box<[FormatElement]>>) -> Self { assert!(variants.len() >= 2); Self { variants: variants.into() } }
        pub fn most_flat(&self) -> &[FormatElement] { self.variants.first().unwrap() }
        pub fn most_expanded(&self) -> &[FormatElement] { self.variants.last().unwrap() }
        pub fn variants(&self) -> &[Box<[FormatElement]>] { &self.variants }
    }
    #[derive(Debug, Clone, Default)]
    pub struct Document { pub(crate) elements: Vec<FormatElement> }
    impl From<Vec<FormatElement>> for Document { fn from(elements: Vec<FormatElement>) -> Self { Self { elements } } }
    impl Document {
        pub fn propagate_expand(&mut self) {
            fn up(open: &[Option<GroupTag>]) { if let Some(Some(g)) = open.last() { if g.mode.get() == GroupMode::Flat { g.mode.set(GroupMode::Propagated) } } }
            fn go(elements: &[FormatElement], open: &mut Vec<Option<GroupTag>>) -> bool {
                let mut any = false;
                for e in elements {
                    let expands = match e {
                        FormatElement::Tag(Tag::StartGroup(g)) => { open.push(Some(g.clone())); false }
                        FormatElement::Tag(Tag::EndGroup) => match open.pop() { Some(Some(g)) => !g.mode.get().is_flat(), _ => false },
                        FormatElement::Interned(i) => go(i, open),
                        FormatElement::BestFitting(b) => { open.push(None); for v in b.variants() { go(v, open); } open.pop(); false }
                        FormatElement::Text(t) => t.contains('\n'),
                        FormatElement::ExpandParent | FormatElement::Line(LineMode::Hard | LineMode::Empty) => true,
                        _ => false,
                    };
                    if expands { any = true; up(open) }
                }
                any
            }
            go(&self.elements, &mut vec![]);
        }
    }
    impl std::ops::Deref for Document { type Target = [FormatElement]; fn deref(&self) -> &[FormatElement] { &self.elements } }
    pub trait FormatElements { fn will_break(&self) -> bool; }
    impl FormatElements for [FormatElement] {
        fn will_break(&self) -> bool {
            let mut ignore = 0;
            for e in self {
                match e {
                    FormatElement::Tag(Tag::StartLineSuffix) => ignore += 1,
                    FormatElement::Tag(Tag::EndLineSuffix) => ignore -= 1,
                    e if ignore == 0 && e.will_break() => return true,
                    _ => {}
                }
            }
            false
        }
    }
    impl FormatElements for FormatElement {
        fn will_break(&self) -> bool {
            match self {
                FormatElement::ExpandParent | FormatElement::Line(LineMode::Hard | LineMode::Empty) => true,
                FormatElement::Tag(Tag::StartGroup(g)) => !g.mode.get().is_flat(),
                FormatElement::Text(t) => t.contains('\n'),
                FormatElement::Interned(i) => i.will_break(),
                FormatElement::BestFitting(b) => b.most_flat().will_break(),
                _ => false,
            }
        }
    }
}
pub use format_element::{Document, FormatElements};

// ---- state -----------------------------------------------------------------------------
pub struct FormatState<Context> { context: Context, printed: HashSet<(TextSize, TextSize)>, disabled: bool }
pub struct FormatStateSnapshot { printed: HashSet<(TextSize, TextSize)> }
impl<Context> FormatState<Context> {
    pub fn new(context: Context) -> Self { Self { context, printed: HashSet::new(), disabled: false } }
    pub fn context(&self) -> &Context { &self.context }
    pub fn context_mut(&mut self) -> &mut Context { &mut self.context }
    pub fn into_context(self) -> Context { self.context }
    pub fn is_token_tracking_disabled(&self) -> bool { self.disabled }
    pub fn set_token_tracking_disabled(&mut self, b: bool) { self.disabled = b }
    pub fn track_token<L: Language>(&mut self, t: &SyntaxToken<L>) {
        if self.disabled { return; }
        let r = t.text_trimmed_range();
        assert!(self.printed.insert((r.start(), r.end())), "the token {:?} is printed twice", t.text_trimmed());
    }
    fn assert_all<L: Language>(&self, root: &SyntaxNode<L>) {
        for t in root.descendants_tokens(Direction::Next) {
            let r = t.text_trimmed_range();
            assert!(self.printed.contains(&(r.start(), r.end())), "the token {:?} is not printed", t.text_trimmed());
        }
    }
    pub fn snapshot(&self) -> FormatStateSnapshot { FormatStateSnapshot { printed: self.printed.clone() } }
    pub fn restore_snapshot(&mut self, s: FormatStateSnapshot) { self.printed = s.printed }
}

// ---- buffers ---------------------------------------------------------------------------
pub struct BufferSnapshot { len: usize, inner: Vec<PrintMode> }
pub trait Buffer {
    type Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()>;
    fn elements(&self) -> &[FormatElement];
    fn state(&self) -> &FormatState<Self::Context>;
    fn state_mut(&mut self) -> &mut FormatState<Self::Context>;
    fn take(&self) -> BufferSnapshot;
    fn put_back(&mut self, s: BufferSnapshot);
    fn write_fmt(&mut self, arguments: Arguments<Self::Context>) -> FormatResult<()>;
}
pub trait BufferExtensions: Buffer + Sized {
    fn start_recording(&mut self) -> Recording<'_, Self> { let start = self.elements().len(); Recording { start, buffer: self } }
    fn write_elements<I: IntoIterator<Item = FormatElement>>(&mut self, elements: I) -> FormatResult<()> { for e in elements { self.write_element(e)?; } Ok(()) }
}
impl<T: Buffer> BufferExtensions for T {}
pub struct Recording<'buf, B> { start: usize, buffer: &'buf mut B }
impl<'buf, B: Buffer> Recording<'buf, B> {
    pub fn write_fmt(&mut self, arguments: Arguments<B::Context>) -> FormatResult<()> { self.buffer.write_fmt(arguments) }
    pub fn write_element(&mut self, e: FormatElement) -> FormatResult<()> { self.buffer.write_element(e) }
    pub fn stop(self) -> Recorded<'buf> { let b: &'buf B = self.buffer; Recorded(b.elements().get(self.start..).unwrap_or_default()) }
}
#[derive(Clone, Copy)]
pub struct Recorded<'a>(&'a [FormatElement]);
impl std::ops::Deref for Recorded<'_> { type Target = [FormatElement]; fn deref(&self) -> &[FormatElement] { self.0 } }

pub struct VecBuffer<'a, Context> { state: &'a mut FormatState<Context>, elements: Vec<FormatElement> }
impl<'a, Context> VecBuffer<'a, Context> {
    pub fn new(state: &'a mut FormatState<Context>) -> Self { Self { state, elements: vec![] } }
    pub fn into_vec(self) -> Vec<FormatElement> { self.elements }
}
impl<Context> Buffer for VecBuffer<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, e: FormatElement) -> FormatResult<()> { self.elements.push(e); Ok(()) }
    fn elements(&self) -> &[FormatElement] { &self.elements }
    fn state(&self) -> &FormatState<Context> { self.state }
    fn state_mut(&mut self) -> &mut FormatState<Context> { self.state }
    fn take(&self) -> BufferSnapshot { BufferSnapshot { len: self.elements.len(), inner: vec![] } }
    fn put_back(&mut self, s: BufferSnapshot) { self.elements.truncate(s.len) }
    fn write_fmt(&mut self, arguments: Arguments<Context>) -> FormatResult<()> { write(self, arguments) }
}
pub struct RemoveSoftLinesBuffer<'a, Context> { inner: &'a mut dyn Buffer<Context = Context>, conditional: Vec<PrintMode> }
impl<'a, Context> RemoveSoftLinesBuffer<'a, Context> {
    pub fn new(inner: &'a mut dyn Buffer<Context = Context>) -> Self { Self { inner, conditional: vec![] } }
}
fn remove_soft(e: &FormatElement, cond: &mut Vec<PrintMode>, out: &mut Vec<FormatElement>) {
    match e {
        FormatElement::Tag(Tag::StartConditionalContent(m)) => cond.push(*m),
        FormatElement::Tag(Tag::EndConditionalContent) => { cond.pop(); }
        _ if cond.last() == Some(&PrintMode::Expanded) => {}
        FormatElement::Line(LineMode::Soft) => {}
        FormatElement::Line(LineMode::SoftOrSpace) => out.push(FormatElement::Space),
        FormatElement::Interned(i) => for e in i.iter() { remove_soft(e, cond, out) },
        FormatElement::BestFitting(b) => for e in b.most_flat() { remove_soft(e, cond, out) },
        FormatElement::Tag(Tag::StartEntry | Tag::EndEntry) => {}
        e => out.push(e.clone()),
    }
}
impl<Context> Buffer for RemoveSoftLinesBuffer<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, e: FormatElement) -> FormatResult<()> {
        let mut out = vec![];
        remove_soft(&e, &mut self.conditional, &mut out);
        for e in out { self.inner.write_element(e)?; }
        Ok(())
    }
    fn elements(&self) -> &[FormatElement] { self.inner.elements() }
    fn state(&self) -> &FormatState<Context> { self.inner.state() }
    fn state_mut(&mut self) -> &mut FormatState<Context> { self.inner.state_mut() }
    fn take(&self) -> BufferSnapshot { let mut s = self.inner.take(); s.inner = self.conditional.clone(); s }
    fn put_back(&mut self, s: BufferSnapshot) { self.conditional = s.inner.clone(); self.inner.put_back(s) }
    fn write_fmt(&mut self, arguments: Arguments<Context>) -> FormatResult<()> { write(self, arguments) }
}

// ---- formatter -------------------------------------------------------------------------
pub struct Formatter<'buf, Context> { buffer: &'buf mut dyn Buffer<Context = Context> }
pub struct FormatterSnapshot(BufferSnapshot);
impl<'buf, Context> Formatter<'buf, Context> {
    pub fn new(buffer: &'buf mut dyn Buffer<Context = Context>) -> Self { Self { buffer } }
    pub fn state(&self) -> &FormatState<Context> { self.buffer.state() }
    pub fn state_mut(&mut self) -> &mut FormatState<Context> { self.buffer.state_mut() }
    pub fn context(&self) -> &Context { self.state().context() }
    pub fn options(&self) -> &Context::Options where Context: FormatContext { self.context().options() }
    pub fn comments(&self) -> &comments::Comments<Context::Language> where Context: CstFormatContext { self.context().comments() }
    pub fn snapshot(&self) -> FormatterSnapshot { FormatterSnapshot(self.buffer.take()) }
    pub fn restore_snapshot(&mut self, s: FormatterSnapshot) { self.buffer.put_back(s.0) }
    pub fn state_snapshot(&self) -> FormatStateSnapshot { self.state().snapshot() }
    pub fn restore_state_snapshot(&mut self, s: FormatStateSnapshot) { self.state_mut().restore_snapshot(s) }
    pub fn intern(&mut self, content: &dyn Format<Context>) -> FormatResult<Option<FormatElement>> {
        let mut buffer = VecBuffer::new(self.state_mut());
        buffer.write_fmt(Arguments::new(&[Argument::new(&content)]))?;
        let mut v = buffer.into_vec();
        Ok(match v.len() { 0 => None, 1 => v.pop(), _ => Some(FormatElement::Interned(v.into())) })
    }
}
impl<Context> Buffer for Formatter<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, e: FormatElement) -> FormatResult<()> { self.buffer.write_element(e) }
    fn elements(&self) -> &[FormatElement] { self.buffer.elements() }
    fn state(&self) -> &FormatState<Context> { self.buffer.state() }
    fn state_mut(&mut self) -> &mut FormatState<Context> { self.buffer.state_mut() }
    fn take(&self) -> BufferSnapshot { self.buffer.take() }
    fn put_back(&mut self, s: BufferSnapshot) { self.buffer.put_back(s) }
    fn write_fmt(&mut self, arguments: Arguments<Context>) -> FormatResult<()> { for a in arguments.0 { a.value.fmt(self)?; } Ok(()) }
}
pub fn write<Context>(output: &mut dyn Buffer<Context = Context>, args: Arguments<Context>) -> FormatResult<()> { let mut f = Formatter::new(output); f.write_fmt(args) }

pub struct Argument<'fmt, Context> { value: &'fmt dyn Format<Context> }
impl<Context> Clone for Argument<'_, Context> { fn clone(&self) -> Self { *self } }
impl<Context> Copy for Argument<'_, Context> {}
impl<'fmt, Context> Argument<'fmt, Context> { pub fn new<F: Format<Context>>(value: &'fmt F) -> Self { Self { value } } }
impl<Context> Format<Context> for Argument<'_, Context> { fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> { self.value.fmt(f) } }
pub struct Arguments<'fmt, Context>(pub &'fmt [Argument<'fmt, Context>]);
impl<Context> Clone for Arguments<'_, Context> { fn clone(&self) -> Self { *self } }
impl<Context> Copy for Arguments<'_, Context> {}
impl<'fmt, Context> Arguments<'fmt, Context> { pub fn new(a: &'fmt [Argument<'fmt, Context>]) -> Self { Self(a) } }
impl<Context> Format<Context> for Arguments<'_, Context> { fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> { for a in self.0 { a.value.fmt(f)?; } Ok(()) } }
#[macro_export]
macro_rules! format_args { ($($value:expr),+ $(,)?) => { $crate::Arguments::new(&[$( $crate::Argument::new(&$value) ),+]) } }
#[macro_export]
macro_rules! write { ($dst:expr, [$($arg:expr),+ $(,)?]) => {{ $dst.write_fmt($crate::format_args!($($arg),+)) }} }

// ---- formats ---------------------------------------------------------------------------
pub trait Format<Context> { fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()>; }
impl<T: ?Sized + Format<C>, C> Format<C> for &T { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { (**self).fmt(f) } }
impl<T: ?Sized + Format<C>, C> Format<C> for &mut T { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { (**self).fmt(f) } }
impl<T: Format<C>, C> Format<C> for Option<T> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { match self { Some(v) => v.fmt(f), None => Ok(()) } } }
impl<T: Format<C>, C> Format<C> for SyntaxResult<T> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { match self { Ok(v) => v.fmt(f), Err(e) => Err(e.into()) } } }
impl<C> Format<C> for () { fn fmt(&self, _: &mut Formatter<C>) -> FormatResult<()> { Ok(()) } }
impl<L: Language, C> Format<C> for SyntaxTriviaPiece<L> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { f.write_element(FormatElement::Text(self.text().trim().into())) } }
pub trait FormatRule<T> { type Context; fn fmt(&self, item: &T, f: &mut Formatter<Self::Context>) -> FormatResult<()>; }
pub trait FormatRuleWithOptions<T>: FormatRule<T> { type Options; fn with_options(self, options: Self::Options) -> Self; }
pub trait FormatWithRule<Context>: Format<Context> { type Item; fn item(&self) -> &Self::Item; }
pub struct FormatRefWithRule<'a, T, R> { item: &'a T, rule: R }
impl<'a, T, R: FormatRule<T>> FormatRefWithRule<'a, T, R> { pub fn new(item: &'a T, rule: R) -> Self { Self { item, rule } } }
impl<'a, T, R: FormatRuleWithOptions<T>> FormatRefWithRule<'a, T, R> { pub fn with_options(mut self, o: R::Options) -> Self { self.rule = self.rule.with_options(o); self } }
impl<T, R: FormatRule<T>> Format<R::Context> for FormatRefWithRule<'_, T, R> { fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> { self.rule.fmt(self.item, f) } }
impl<T, R: FormatRule<T>> FormatWithRule<R::Context> for FormatRefWithRule<'_, T, R> { type Item = T; fn item(&self) -> &T { self.item } }
pub struct FormatOwnedWithRule<T, R> { item: T, rule: R }
impl<T, R: FormatRule<T>> FormatOwnedWithRule<T, R> { pub fn new(item: T, rule: R) -> Self { Self { item, rule } } }
impl<T, R: FormatRule<T>> Format<R::Context> for FormatOwnedWithRule<T, R> { fn fmt(&self, f: &mut Formatter<R::Context>) -> FormatResult<()> { self.rule.fmt(&self.item, f) } }

pub struct FormatToken<C> { c: PhantomData<C> }
impl<C> Default for FormatToken<C> { fn default() -> Self { Self { c: PhantomData } } }
impl<L: Language, C: CstFormatContext<Language = L>> FormatRule<SyntaxToken<L>> for FormatToken<C> {
    type Context = C;
    fn fmt(&self, t: &SyntaxToken<L>, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(t);
        f.write_element(FormatElement::Text(t.text_trimmed().into()))
    }
}
pub mod trivia {
    use super::*;
    use super::comments::SourceComment;
    pub struct FormatRemoved<'a, L: Language> { token: &'a SyntaxToken<L> }
    pub fn format_removed<L: Language>(token: &SyntaxToken<L>) -> FormatRemoved<'_, L> { FormatRemoved { token } }
    impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatRemoved<'_, L> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { f.state_mut().track_token(self.token); Ok(()) } }
    pub struct FormatReplaced<'a, L: Language, C> { token: &'a SyntaxToken<L>, content: Argument<'a, C> }
    pub fn format_replaced<'a, L: Language, C>(token: &'a SyntaxToken<L>, content: &'a impl Format<C>) -> FormatReplaced<'a, L, C> { FormatReplaced { token, content: Argument::new(content) } }
    impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatReplaced<'_, L, C> { fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> { f.state_mut().track_token(self.token); self.content.fmt(f) } }

    pub enum FormatLeadingComments<'a, L: Language> { Node(&'a SyntaxNode<L>), Comments(&'a [SourceComment<L>]) }
    pub fn format_leading_comments<L: Language>(n: &SyntaxNode<L>) -> FormatLeadingComments<'_, L> { FormatLeadingComments::Node(n) }
    impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatLeadingComments<'_, L> {
        fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
            let all = f.comments().clone();
            let list = match self { Self::Node(n) => all.leading_comments(n), Self::Comments(c) => c };
            for c in list {
                crate::write!(f, [FormatRefWithRule::new(c, C::CommentRule::default())])?;
                match c.lines_after() { 0 | 1 => crate::write!(f, [builders::hard_line_break()])?, _ => crate::write!(f, [builders::empty_line()])? }
                c.mark_formatted();
            }
            Ok(())
        }
    }
    pub enum FormatTrailingComments<'a, L: Language> { Node(&'a SyntaxNode<L>), Comments(&'a [SourceComment<L>]) }
    pub fn format_trailing_comments<L: Language>(n: &SyntaxNode<L>) -> FormatTrailingComments<'_, L> { FormatTrailingComments::Node(n) }
    impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatTrailingComments<'_, L> {
        fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
            let all = f.comments().clone();
            let list = match self { Self::Node(n) => all.trailing_comments(n), Self::Comments(c) => c };
            let mut lines_before = 0;
            for c in list {
                lines_before += c.lines_before();
                let comment = FormatRefWithRule::new(c, C::CommentRule::default());
                f.write_element(FormatElement::Tag(Tag::StartLineSuffix))?;
                if lines_before == 0 { crate::write!(f, [builders::space()])?; }
                else if c.lines_before() > 1 { crate::write!(f, [builders::empty_line()])?; }
                else { crate::write!(f, [builders::hard_line_break()])?; }
                crate::write!(f, [comment])?;
                f.write_element(FormatElement::Tag(Tag::EndLineSuffix))?;
                crate::write!(f, [builders::expand_parent()])?;
                c.mark_formatted();
            }
            Ok(())
        }
    }
    #[derive(Clone, Copy)]
    enum How { None, Block, SoftBlock }
    pub struct FormatDanglingComments<'a, L: Language> { node: &'a SyntaxNode<L>, how: How }
    pub fn format_dangling_comments<L: Language>(node: &SyntaxNode<L>) -> FormatDanglingComments<'_, L> { FormatDanglingComments { node, how: How::None } }
    impl<L: Language> FormatDanglingComments<'_, L> {
        pub fn with_block_indent(self) -> Self { Self { how: How::Block, ..self } }
        pub fn with_soft_block_indent(self) -> Self { Self { how: How::SoftBlock, ..self } }
    }
    impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatDanglingComments<'_, L> {
        fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
            let all = f.comments().clone();
            let list = all.dangling_comments(self.node);
            if list.is_empty() { return Ok(()); }
            let body = builders::format_with(|f: &mut Formatter<C>| {
                for (i, c) in list.iter().enumerate() {
                    if i > 0 { crate::write!(f, [builders::hard_line_break()])?; }
                    crate::write!(f, [FormatRefWithRule::new(c, C::CommentRule::default())])?;
                    c.mark_formatted();
                }
                crate::write!(f, [builders::hard_line_break()])
            });
            match self.how {
                How::None => crate::write!(f, [body]),
                How::Block => crate::write!(f, [builders::block_indent(&body)]),
                How::SoftBlock => crate::write!(f, [builders::group(&builders::soft_block_indent(&body))]),
            }
        }
    }
}
pub mod verbatim {
    use super::*;
    pub struct FormatVerbatimNode<'a, L: Language> { node: &'a SyntaxNode<L>, kind: VerbatimKind }
    pub fn format_verbatim_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> { FormatVerbatimNode { node, kind: VerbatimKind::Verbatim } }
    pub fn format_suppressed_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> { FormatVerbatimNode { node, kind: VerbatimKind::Suppressed } }
    pub fn format_bogus_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> { FormatVerbatimNode { node, kind: VerbatimKind::Bogus } }
    impl<L: Language, C: CstFormatContext<Language = L>> Format<C> for FormatVerbatimNode<'_, L> {
        fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
            let all = f.comments().clone();
            for e in self.node.descendants_with_tokens(Direction::Next) {
                match e {
                    SyntaxElement::Token(t) => f.state_mut().track_token(&t),
                    SyntaxElement::Node(n) => { all.mark_suppression_checked(&n); for c in all.leading_dangling_trailing_comments(&n) { c.mark_formatted(); } }
                }
            }
            let r = self.node.text_trimmed_range();
            let lead = all.leading_comments(self.node);
            let k = lead.partition_point(|c| c.piece().text_range().end() <= r.start());
            crate::write!(f, [trivia::FormatLeadingComments::Comments(&lead[..k])])?;
            f.write_element(FormatElement::Tag(Tag::StartVerbatim(self.kind)))?;
            let text = self.node.text_trimmed().to_string().replace("\r\n", "\n").replace('\r', "\n");
            f.write_element(FormatElement::Text(text.into()))?;
            f.write_element(FormatElement::Tag(Tag::EndVerbatim))?;
            let trail = all.trailing_comments(self.node);
            let k = trail.partition_point(|c| c.piece().text_range().end() <= r.end());
            crate::write!(f, [trivia::FormatTrailingComments::Comments(&trail[k..])])
        }
    }
    pub struct FormatNodeOrVerbatim<F> { inner: F }
    pub fn format_or_verbatim<F>(inner: F) -> FormatNodeOrVerbatim<F> { FormatNodeOrVerbatim { inner } }
    impl<F, C, I> Format<C> for FormatNodeOrVerbatim<F> where F: FormatWithRule<C, Item = I>, C: CstFormatContext, I: AstNode<Language = C::Language> {
        fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
            let (s, t) = (f.snapshot(), f.state_snapshot());
            match self.inner.fmt(f) {
                Err(FormatError::SyntaxError) => { f.restore_snapshot(s); f.restore_state_snapshot(t); format_suppressed_node(self.inner.item().syntax()).fmt(f) }
                r => r,
            }
        }
    }
}
pub trait MemoizeFormat<Context> { fn memoized(self) -> Memoized<Self, Context> where Self: Sized + Format<Context> { Memoized { inner: self, memory: RefCell::new(None) } } }
impl<T: Format<C>, C> MemoizeFormat<C> for T {}
pub struct Memoized<F, Context> { inner: F, memory: RefCell<Option<(FormatResult<Option<FormatElement>>, PhantomData<Context>)>> }
impl<F: Format<C>, C> Format<C> for Memoized<F, C> {
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        let known = self.memory.borrow().as_ref().map(|m| m.0.clone());
        let result = match known { Some(r) => r, None => { let r = f.intern(&self.inner); *self.memory.borrow_mut() = Some((r.clone(), PhantomData)); r } };
        match result? { Some(e) => f.write_element(e), None => Ok(()) }
    }
}

// ---- whole documents ---------------------------------------------------------------------
#[derive(Debug, Clone)]
pub struct Formatted<Context> { document: Document, context: Context }
impl<Context> Formatted<Context> {
    pub fn new(document: Document, context: Context) -> Self { Self { document, context } }
    pub fn context(&self) -> &Context { &self.context }
    pub fn document(&self) -> &Document { &self.document }
}
impl<Context: FormatContext> Formatted<Context> {
    pub fn print(&self) -> PrintResult<Printed> { Ok(printer::print(&self.document, self.context.options().as_print_options())) }
}
pub fn format_node<L: FormatLanguage>(root: &SyntaxNode<L::SyntaxLanguage>, language: L) -> FormatResult<Formatted<L::Context>> {
    let context = language.create_context(root, None);
    let mut state = FormatState::new(context);
    let mut buffer = VecBuffer::new(&mut state);
    crate::write!(buffer, [FormatRefWithRule::new(root, L::FormatRule::default())])?;
    let mut document = Document::from(buffer.into_vec());
    document.propagate_expand();
    state.assert_all(root);
    let context = state.into_context();
    context.comments().assert_checked_all_suppressions(root);
    context.comments().assert_formatted_all_comments();
    Ok(Formatted::new(document, context))
}
pub mod prelude {
    pub use super::builders::*;
    pub use super::comments::*;
    pub use super::format_element::{Document, FormatElements, FormatElement, LineMode};
    pub use super::trivia::{format_dangling_comments, format_leading_comments, format_removed, format_trailing_comments};
    pub use super::verbatim::{format_bogus_node, format_or_verbatim, format_suppressed_node, format_verbatim_node};
    pub use super::{Buffer as _, BufferExtensions as _, Format, FormatError, FormatResult, FormatRule, FormatWithRule as _, Formatter, MemoizeFormat, Tag};
}
#[allow(unused)]
fn unused(_: Cow<'_, str>) {}
