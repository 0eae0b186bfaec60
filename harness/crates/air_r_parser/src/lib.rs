//! Stand-in for the R parser (tree-sitter-r and biome are not available offline):
//! a text "parses" unless it contains `!syntax`.
use std::fmt;
#[derive(Debug, Clone, Default)]
pub struct RParserOptions;
#[derive(Debug, Clone, PartialEq)]
pub struct ParseError;
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("parse error") }
}
impl std::error::Error for ParseError {}
#[derive(Debug, Clone)]
pub struct Parse(String, Option<ParseError>);
impl Parse {
    pub fn has_error(&self) -> bool { self.1.is_some() }
    pub fn error(&self) -> Option<&ParseError> { self.1.as_ref() }
    pub fn into_error(self) -> Option<ParseError> { self.1 }
    pub fn syntax(&self) -> String { self.0.clone() }
    pub fn tree(&self) -> String { self.0.clone() }
}
pub fn parse(text: &str, _: RParserOptions) -> Parse {
    Parse(text.to_string(), text.contains("!syntax").then_some(ParseError))
}
