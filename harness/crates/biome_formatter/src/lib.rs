//! Stand-in for the parts of biome_formatter the workspace crate names (not available offline).
use std::fmt;
#[derive(Debug, Clone, PartialEq)]
pub struct FormatError;
#[derive(Debug, Clone, PartialEq)]
pub struct PrintError;
impl fmt::Display for FormatError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("format error") }
}
impl fmt::Display for PrintError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("print error") }
}
impl std::error::Error for FormatError {}
impl std::error::Error for PrintError {}
#[derive(Debug)]
pub struct Formatted(pub Result<String, PrintError>);
#[derive(Debug)]
pub struct Printed(pub String);
impl Formatted {
    pub fn print(&self) -> Result<Printed, PrintError> { self.0.clone().map(Printed) }
}
impl Printed {
    pub fn into_code(self) -> String { self.0 }
    pub fn as_code(&self) -> &str { &self.0 }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IndentStyle { Tab, Space }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum LineEnding { Lf, Crlf, Cr }
/// biome: 0..=24
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct IndentWidth(u8);
/// biome: 1..=320
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct LineWidth(u16);
impl IndentWidth { pub fn value(&self) -> u8 { self.0 } }
impl LineWidth { pub fn value(&self) -> u16 { self.0 } }
impl TryFrom<u8> for IndentWidth {
    type Error = u8;
    fn try_from(v: u8) -> Result<Self, u8> { if v <= 24 { Ok(Self(v)) } else { Err(v) } }
}
impl TryFrom<u16> for LineWidth {
    type Error = u16;
    fn try_from(v: u16) -> Result<Self, u16> { if (1..=320).contains(&v) { Ok(Self(v)) } else { Err(v) } }
}
#[derive(Debug, Clone)]
pub struct TransformSourceMap;
pub trait FormatContext {
    type Options;
    fn options(&self) -> &Self::Options;
    fn source_map(&self) -> Option<&TransformSourceMap>;
}
pub trait CstFormatContext: FormatContext {
    type Language;
    type Style;
    type CommentRule;
    fn comments(&self) -> &comments::Comments;
}
pub mod comments {
    #[derive(Debug, Clone, Default)]
    pub struct Comments;
}
pub trait FormatOptions {
    fn indent_style(&self) -> IndentStyle;
    fn indent_width(&self) -> IndentWidth;
    fn line_width(&self) -> LineWidth;
    fn line_ending(&self) -> LineEnding;
    fn as_print_options(&self) -> printer::PrinterOptions;
}
pub mod printer {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PrinterOptions {
        pub indent_style: super::IndentStyle,
        pub indent_width: super::IndentWidth,
        pub print_width: super::LineWidth,
        pub line_ending: super::LineEnding,
    }
    impl<O: super::FormatOptions> From<&O> for PrinterOptions {
        fn from(o: &O) -> Self {
            PrinterOptions { indent_style: o.indent_style(), indent_width: o.indent_width(), print_width: o.line_width(), line_ending: o.line_ending() }
        }
    }
}
