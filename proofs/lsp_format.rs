// Contracts for formatting a document: crates/lsp/src/handlers_format.rs (property G02).
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::multiset::Multiset;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;

/// logging has no effect: its arguments are not evaluated here
pub mod tracing {
    macro_rules! nothing { ($($t:tt)*) => { () } }
    pub(crate) use nothing as warn;
    pub(crate) use nothing as trace;
}

verus! {
//@@ include inc/text_size.rs
//@@ include inc/edits.rs
//@@ include inc/lsp.rs
//@@ include inc/endings.rs
use code::{Indel, PositionEncoding, LineEnding};
use lsp_types::TextDocumentContentChangeEvent as Change;
//@@ include inc/changes.rs
//@@ include inc/at_once.rs
//@@ include inc/utf8.rs
//@@ include inc/crlf.rs
//@@ include inc/client.rs

/// the options of the formatter
pub mod opts {
use super::*;
//@@ include inc/options.rs
pub mod context {
use super::*;
use super::settings::LineEnding;
//@@ source crates/air_r_formatter/src/context.rs
//@@ item struct RFormatOptions
//@@   public
//@@ end
//@@ impl RFormatOptions
//@@ assume toml_options RFormatOptions::set_line_ending
//@@ end
//@@ endimpl
}
}
use opts::context::RFormatOptions;
use opts::{def, or_def, settings, ExcludePatterns, DefaultExcludePatterns, DefaultIncludePatterns, AssignmentStyle, PersistentLineBreaks, IndentStyle, IndentWidth, LineWidth, Skip, Table, finalized, workspace_line_ending};

// ---------------------------------------------------------------- parser, formatter, printer
//@@ include inc/formatter.rs
use code::{FormattedSource, FormatParseError};
//@@ include inc/world.rs
use opts::Path as PathBuf;
pub uninterp spec fn file_path(u: Url) -> Option<PathBuf>;
pub uninterp spec fn scheme(u: Url) -> Seq<char>;
impl Url {
    #[verifier::external_body]
    pub fn to_file_path(&self) -> (r: Result<PathBuf, ()>)
        ensures match r { Ok(p) => file_path(*self) == Some(p), Err(_) => file_path(*self) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn scheme(&self) -> (r: &str)
        ensures r@ == scheme(*self),
    { unimplemented!() }
}
pub mod lsp_params {
use super::*;
pub struct TextDocumentIdentifier { pub uri: Url }
pub struct DocumentFormattingParams { pub text_document: TextDocumentIdentifier }
}
impl From<FormatParseError> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: FormatParseError) -> Self { unimplemented!() }
}
impl FromSpecImpl<FormatParseError> for anyhow::Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: FormatParseError) -> Self { arbitrary() }
}
/// std: two strings with the same characters are the same
pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
        ensures #![trigger a@, b@] a@ == b@ ==> a == b;
}
/// String::from
#[verifier::external_body]
pub fn string_of(x: &str) -> (r: String)
    ensures r@ == x@,
{ unimplemented!() }
/// str::ends_with with a character
pub trait Ends {
    spec fn chars_of(&self) -> Seq<char>;
    fn ends_with_char(&self, c: char) -> (r: bool)
        ensures r == (self.chars_of().len() > 0 && self.chars_of().last() == c);
}
impl Ends for String {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn ends_with_char(&self, c: char) -> (r: bool) { unimplemented!() }
}

// ---------------------------------------------------------------- specification
pub open spec fn wf_doc(d: code::Document) -> bool { d.line_index.text() == bytes(d.contents@) && d.parse.source() == d.contents@ && bytes(d.contents@).len() <= u32::MAX }
/// the settings the server has for a document
pub uninterp spec fn governing(l: LspState, u: Url) -> code::WorkspaceSettings<'static>;
/// some exclude pattern matches the path or a directory above it; some include pattern matches it (W08)
pub uninterp spec fn out_any(f: code::FormatSettings, path: &PathBuf, dir: bool) -> bool;
pub uninterp spec fn included(f: code::FormatSettings, path: &PathBuf) -> bool;
pub open spec fn or_own<T>(o: Option<T>, own: T) -> T { match o { Some(v) => v, None => own } }
pub open spec fn over(o: RFormatOptions, d: code::DocumentSettings) -> RFormatOptions {
    RFormatOptions { indent_style: or_own(d.indent_style, o.indent_style), indent_width: or_own(d.indent_width, o.indent_width), line_width: or_own(d.line_width, o.line_width), ..o }
}
pub open spec fn asked(f: code::FormatSettings, source: Seq<char>) -> RFormatOptions {
    RFormatOptions {
        indent_style: f.indent_style, indent_width: f.indent_width, line_ending: finalized(f.line_ending, source), line_width: f.line_width,
        persistent_line_breaks: f.persistent_line_breaks, assignment_style: f.assignment_style, skip: f.skip, table: f.table,
    }
}
pub open spec fn settings_of(w: code::WorkspaceSettings) -> code::Settings { match w { code::WorkspaceSettings::Toml(s) => *s, code::WorkspaceSettings::Fallback(s) => *s } }
/// the options a document is formatted with; a document with CRLF is formatted as LF and converted back
pub open spec fn options_of(w: code::WorkspaceSettings, d: code::Document) -> RFormatOptions {
    let o = match w { code::WorkspaceSettings::Toml(s) => asked(s.format, d.contents@), code::WorkspaceSettings::Fallback(s) => over(asked(s.format, d.contents@), d.settings) };
    if d.endings is Crlf { RFormatOptions { line_ending: LineEnding::Lf, ..o } } else { o }
}
pub open spec fn excluded(w: code::WorkspaceSettings, u: Url) -> bool {
    file_path(u) matches Some(p) && out_any(settings_of(w).format, &p, false)
}
/// a notebook cell has no line ending at the end
pub open spec fn shown(u: Url, t: Seq<char>) -> Seq<char> {
    if scheme(u) == "vscode-notebook-cell"@ && t.len() > 0 && t.last() == '\n' { t.drop_last() } else { t }
}
/// the answer to a request to format document d
pub open spec fn formatting(r: anyhow::Result<Option<Vec<lsp_types::TextEdit>>>, w: code::WorkspaceSettings, u: Url, d: code::Document) -> bool {
    if excluded(w, u) || parse_error(d.contents@) is Some { r matches Ok(None) }
    else {
        match printed(options_of(w, d), d.contents@) {
            Err(_) => r is Err,
            Ok(t) => if t == d.contents@ { r matches Ok(None) } else {
                r matches Ok(Some(x)) && separate(le(d.endings, bytes(d.contents@)), d.position_encoding, x@)
                    && client(le(d.endings, bytes(d.contents@)), d.position_encoding, x@) == le(d.endings, bytes(shown(u, t)))
            },
        }
    }
}

/// the event loop's state: only the settings it finds for a document (settings_for_url) matter here
#[verifier::external_body]
pub struct LspState { x: u8 }
impl LspState {
    #[verifier::external_body]
    pub fn workspace_document_settings(&self, u: &Url) -> (r: code::WorkspaceSettings<'_>)
        ensures r == governing(*self, *u),
    { unimplemented!() }
}
pub mod to_proto {
use super::*;
use super::anyhow;
//@@ source crates/aether_lsp_utils/src/proto/to_proto.rs
//@@ assume proto replace_all_edit
//@@ end
}
// ---------------------------------------------------------------- the code
pub mod code {
use super::*;
use super::PathBuf as Path;
use super::air_r_parser::{Parse, RParserOptions};
broadcast use {ax::axiom_str_ext};
pub use super::opts::settings::LineEnding;
//@@ source crates/aether_lsp_utils/src/text_edit.rs
//@@ item struct Indel
//@@   public
//@@ end
//@@ source crates/aether_lsp_utils/src/proto.rs
//@@ item enum PositionEncoding
//@@   derive Clone, Copy
//@@ end
//@@ source crates/lsp/src/settings.rs
//@@ item struct DocumentSettings
//@@   public
//@@ end
//@@ source crates/lsp/src/documents.rs
//@@ item struct Document
//@@   public
//@@ end
//@@ source crates/lsp/src/state.rs
//@@ item struct WorldState
//@@   public
//@@ end
//@@ impl WorldState
//@@ assume lsp_state WorldState::get_document_or_error
//@@ end
//@@ endimpl
//@@ source crates/workspace/src/settings.rs
//@@ item struct Settings
//@@   public
//@@ end
//@@ item struct FormatSettings
//@@   public
//@@   rewrite? `line_ending : LineEnding` => `line_ending: workspace_line_ending::LineEnding`
//@@ end
//@@ source crates/lsp/src/workspaces.rs
//@@ item enum WorkspaceSettings
//@@   public
//@@ end
//@@ impl WorkspaceSettings
//@@ assume lsp_settings WorkspaceSettings::settings
//@@ end
//@@ assume lsp_settings WorkspaceSettings::to_format_options
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/file_patterns.rs
//@@ assume discovery is_document_excluded_from_formatting
//@@ end
//@@ source crates/workspace/src/format.rs
//@@ item enum FormattedSource
//@@ end
//@@ item enum FormatParseError
//@@ end
//@@ assume format_source format_source_with_parse
//@@ end
//@@ source crates/lsp/src/handlers_format.rs
//@@ item fn document_formatting
//@@   ret r
//@@   public
//@@   rewrite `lsp_types :: DocumentFormattingParams` => `lsp_params::DocumentFormattingParams`
//@@   rewrite? `String :: from` => `string_of`
//@@   rewrite? `. ends_with ( '\n' )` => `.ends_with_char('\n')`
//@@ + spec
    requires
        state.documents@.contains_key(params.text_document.uri) ==> wf_doc(state.documents@[params.text_document.uri]),
    ensures
        // a document the server does not know
        !state.documents@.contains_key(params.text_document.uri) ==> r is Err,
        state.documents@.contains_key(params.text_document.uri) ==>
            formatting(r, governing(*lsp_state, params.text_document.uri), params.text_document.uri, state.documents@[params.text_document.uri]),
//@@ end
}

fn main() {}
} // verus!
