//! Stand-in for the formatter (biome is not available offline). "Formatting" removes
//! trailing blanks, ends the last line, tells
//! the options on a line `!options`, applies the line ending of the options, and fails on request;
//! the options themselves are the real code.
#[path = "/repo/crates/air_r_formatter/src/context.rs"]
pub mod context;
/// Stand-ins for the parts of the formatter's comment handling context.rs names
pub mod comments {
    pub type RComments = biome_formatter::comments::Comments;
    #[derive(Debug, Clone, Default)]
    pub struct RCommentStyle;
    #[derive(Debug, Clone, Default)]
    pub struct FormatRLeadingComment;
}
/// what the stand-in makes of a text
pub fn toy(options: &context::RFormatOptions, text: &str) -> String {
    let nl = match biome_formatter::FormatOptions::line_ending(options) { biome_formatter::LineEnding::Crlf => "\r\n", _ => "\n" };
    let mut o = String::new();
    for l in text.split_inclusive('\n') {
        let (b, e) = match l.strip_suffix('\n') { Some(b) => (b, true), None => (l, false) };
        let b = b.trim_end_matches([' ', '\t', '\r']);
        if b == "!options" {
            let f: &dyn biome_formatter::FormatOptions = options;
            o.push_str(&format!("{:?} {:?} {:?}", f.indent_style(), f.indent_width(), f.line_width()));
        } else { o.push_str(b); }
        if e { o.push_str(nl); }
    }
    if !o.is_empty() && !o.ends_with('\n') { o.push_str(nl); }
    o
}
pub fn format_node(options: context::RFormatOptions, node: &str) -> Result<biome_formatter::Formatted, biome_formatter::FormatError> {
    if node.contains("!format") { return Err(biome_formatter::FormatError); }
    if node.contains("!print") { return Ok(biome_formatter::Formatted(Err(biome_formatter::PrintError))); }
    Ok(biome_formatter::Formatted(Ok(toy(&options, node))))
}
