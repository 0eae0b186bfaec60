/// whether the parser finds the text free of errors, and which error it reports
pub uninterp spec fn parse_error(source: Seq<char>) -> Option<air_r_parser::ParseError>;
/// the tree of a text
pub uninterp spec fn tree(source: Seq<char>) -> air_r_syntax::SyntaxNode;
/// what the formatter makes of a tree
pub uninterp spec fn format_result(o: RFormatOptions, t: air_r_syntax::SyntaxNode) -> Result<biome_formatter::Formatted, biome_formatter::FormatError>;
pub uninterp spec fn print_result(f: biome_formatter::Formatted) -> Result<biome_formatter::Printed, biome_formatter::PrintError>;

pub mod air_r_syntax {
    #[verifier::external_body]
    pub struct SyntaxNode { x: u8 }
}
pub mod air_r_parser {
    use super::*;
    #[verifier::external_body]
    pub struct ParseError { x: u8 }
    #[verifier::external_body]
    pub struct RParserOptions { x: u8 }
    impl Default for RParserOptions {
        #[verifier::external_body]
        fn default() -> Self { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Parse { x: u8 }
    impl Parse {
        pub uninterp spec fn source(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn has_error(&self) -> (r: bool)
            ensures r == parse_error(self.source()) is Some,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn into_error(self) -> (r: Option<ParseError>)
            ensures r == parse_error(self.source()),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn syntax(&self) -> (r: air_r_syntax::SyntaxNode)
            ensures r == tree(self.source()),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn parse(text: &str, options: RParserOptions) -> (r: Parse)
        ensures r.source() == text@,
    { unimplemented!() }
}
pub mod biome_formatter {
    use super::*;
    #[verifier::external_body]
    pub struct FormatError { x: u8 }
    #[verifier::external_body]
    pub struct PrintError { x: u8 }
    #[verifier::external_body]
    pub struct Formatted { x: u8 }
    #[verifier::external_body]
    pub struct Printed { x: u8 }
    impl Formatted {
        #[verifier::external_body]
        pub fn print(&self) -> (r: Result<Printed, PrintError>)
            ensures r == print_result(*self),
        { unimplemented!() }
    }
    impl Printed {
        pub uninterp spec fn code(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn into_code(self) -> (r: String)
            ensures r@ == self.code(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn as_code(&self) -> (r: &str)
            ensures r@ == self.code(),
        { unimplemented!() }
    }
}
pub mod air_r_formatter {
    use super::*;
    #[verifier::external_body]
    pub fn format_node(o: RFormatOptions, t: &air_r_syntax::SyntaxNode) -> (r: Result<biome_formatter::Formatted, biome_formatter::FormatError>)
        ensures r == format_result(o, *t),
    { unimplemented!() }
}

// ---------------------------------------------------------------- specification
/// the text the formatter prints for a source
pub open spec fn printed(o: RFormatOptions, s: Seq<char>) -> Result<Seq<char>, FormatParseError> {
    match format_result(o, tree(s)) {
        Err(e) => Err(FormatParseError::Format(e)),
        Ok(f) => match print_result(f) { Err(e) => Err(FormatParseError::Print(e)), Ok(p) => Ok(p.code()) },
    }
}
pub open spec fn answers(r: FormattedSource, s: Seq<char>, t: Seq<char>) -> bool {
    match r { FormattedSource::Unchanged => t == s, FormattedSource::Changed(x) => x@ == t && t != s }
}
