// Contracts for the settings of the language server's documents: crates/lsp/src/{settings,settings_vsc,workspaces,handlers_state}.rs (property K02).
#![feature(allocator_api)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::multiset::Multiset;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;

/// logging has no effect: its arguments are not evaluated here
pub mod tracing {
    macro_rules! warn_ { ($($t:tt)*) => { () } }
    pub(crate) use warn_ as warn;
    pub(crate) use warn_ as trace;
}

verus! {
//@@ include inc/options.rs

//@@ include inc/world.rs
/// lsp-types
pub struct FormattingOptions { pub tab_size: u32, pub insert_spaces: bool }
/// what the other fields of a document hold (not touched here)
pub mod biome_line_index { #[verifier::external_body] pub struct LineIndex { x: u8 } }
pub mod air_r_parser { #[verifier::external_body] pub struct Parse { x: u8 } }
#[verifier::external_body]
pub struct PositionEncoding { x: u8 }

pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
        ensures #![trigger a@, b@] a@ == b@ ==> a == b;
}
/// std: comparing a String with a str compares their characters
pub broadcast axiom fn axiom_string_eq_obeys()
    ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_eq(a: String, b: &str)
    ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](o: Result<T, E>, f: F) -> (r: T)
    requires o matches Err(e) ==> f.requires((e,)),
    ensures match o { Ok(v) => r == v, Err(e) => f.ensures((e,), r) },
;
/// settings: the number of columns is accepted exactly from 1 to 24 (S01)
pub struct IndentWidthFromIntError(pub usize);
impl TryFrom<usize> for IndentWidth {
    type Error = IndentWidthFromIntError;
    #[verifier::external_body]
    fn try_from(v: usize) -> (r: Result<Self, IndentWidthFromIntError>)
        ensures match r { Ok(w) => 1 <= v <= 24 && w@ == v, Err(_) => !(1 <= v <= 24) },
    { unimplemented!() }
}
impl TryFromSpecImpl<usize> for IndentWidth {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: usize) -> Result<Self, IndentWidthFromIntError> { arbitrary() }
}
/// two widths of the same number of columns are the same
pub broadcast axiom fn axiom_width(a: IndentWidth, b: IndentWidth)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub uninterp spec fn width(n: int) -> IndentWidth;
pub broadcast axiom fn axiom_width_of(n: int)
    ensures 1 <= n <= 24 ==> (#[trigger] width(n))@ == n;

// ---------------------------------------------------------------- specification
pub open spec fn style(spaces: bool) -> IndentStyle { if spaces { IndentStyle::Space } else { IndentStyle::Tab } }
/// a number the client gives; one that is no indent width stands for the default
pub open spec fn width_or_default(n: int) -> IndentWidth { if 1 <= n <= 24 { width(n) } else { def::<IndentWidth>() } }
/// the width VS Code's `indentSize` stands for
pub open spec fn vsc_width(s: code::VscIndentSize, tab_size: int) -> IndentWidth {
    match s {
        code::VscIndentSize::Size(n) => width_or_default(n as int),
        code::VscIndentSize::Alias(a) => if a@ == "tabSize"@ { width_or_default(tab_size) } else { def::<IndentWidth>() },
    }
}
pub open spec fn or_own<T>(o: Option<T>, own: T) -> T { match o { Some(v) => v, None => own } }
/// the client's settings put over the options
pub open spec fn over(o: RFormatOptions, d: code::DocumentSettings) -> RFormatOptions {
    RFormatOptions { indent_style: or_own(d.indent_style, o.indent_style), indent_width: or_own(d.indent_width, o.indent_width), line_width: or_own(d.line_width, o.line_width), ..o }
}
/// the options a settings file (or its defaults) asks for
pub open spec fn asked(f: code::FormatSettings, source: Seq<char>) -> RFormatOptions {
    RFormatOptions {
        indent_style: f.indent_style, indent_width: f.indent_width, line_ending: finalized(f.line_ending, source), line_width: f.line_width,
        persistent_line_breaks: f.persistent_line_breaks, assignment_style: f.assignment_style, skip: f.skip, table: f.table,
    }
}
use context::RFormatOptions;

pub mod context {
use super::*;
use super::settings::LineEnding;
//@@ source crates/air_r_formatter/src/context.rs
//@@ item struct RFormatOptions
//@@   public
//@@ end
//@@ impl RFormatOptions
//@@ assume toml_options RFormatOptions::set_indent_style
//@@ end
//@@ assume toml_options RFormatOptions::set_indent_width
//@@ end
//@@ assume toml_options RFormatOptions::set_line_ending
//@@ end
//@@ assume toml_options RFormatOptions::set_line_width
//@@ end
//@@ endimpl
}
pub mod document {
use super::*;
use super::settings::LineEnding;
use super::code::DocumentSettings;
//@@ source crates/lsp/src/documents.rs
//@@ item struct Document
//@@   public
//@@ end
}
use document::Document;
pub mod code {
use super::*;
use super::context::RFormatOptions;
broadcast use {ax::axiom_str_ext, axiom_string_eq_obeys, axiom_string_eq, axiom_width, axiom_width_of};
//@@ source crates/workspace/src/settings.rs
//@@ item struct Settings
//@@ end
//@@ item struct FormatSettings
//@@ end
//@@ impl FormatSettings
//@@ assume toml_options FormatSettings::to_format_options
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/settings.rs
//@@ item struct DocumentSettings
//@@   public
//@@ end
//@@ item struct GlobalSettings
//@@   public
//@@ end
//@@ impl DocumentSettings
//@@ item fn DocumentSettings::merge
//@@   ret r
//@@   public
//@@ + spec
    ensures r == over(format_options, *document_settings),
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/workspaces.rs
//@@ item enum WorkspaceSettings
//@@   public
//@@ end
//@@ impl WorkspaceSettings
//@@ item fn WorkspaceSettings::settings
//@@   ret r
//@@   public
//@@ + spec
    ensures *r == (match self { WorkspaceSettings::Toml(s) => **s, WorkspaceSettings::Fallback(s) => **s }),
//@@ end
//@@ item fn WorkspaceSettings::to_format_options
//@@   ret r
//@@   public
//@@ + spec
    ensures
        // a configuration file wins; without one the client's settings do
        match self {
            WorkspaceSettings::Toml(s) => r == asked(s.format, source@),
            WorkspaceSettings::Fallback(s) => r == over(asked(s.format, source@), *document_settings),
        },
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/settings_vsc.rs
/// logging: not part of the checked settings
#[verifier::external_body]
pub struct LogLevel { x: u8 }
//@@ item struct VscGlobalSettings
//@@   public
//@@ end
//@@ item struct VscDocumentSettings
//@@   public
//@@ end
//@@ item enum VscIndentSize
//@@   public
//@@ end
//@@ item struct VscDiagnosticsSettings
//@@   public
//@@ end
//@@ item fn indent_width_from_vsc
//@@   ret r
//@@   public
//@@ + spec
    ensures r == vsc_width(indent_size, tab_size as int),
//@@ end
//@@ item fn indent_width_from_usize
//@@   ret r
//@@   public
//@@ + spec
    ensures r == width_or_default(indent_width as int),
//@@ + closure 1 `|err|`
|err: IndentWidthFromIntError| -> (w: settings::IndentWidth)
    ensures w == def::<IndentWidth>()
//@@ end
//@@ item fn indent_style_from_vsc
//@@   ret r
//@@   public
//@@ + spec
    ensures r == style(insert_spaces),
//@@ end
impl FromSpecImpl<VscGlobalSettings> for GlobalSettings {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: VscGlobalSettings) -> Self { arbitrary() }
}
//@@ impl GlobalSettings From:VscGlobalSettings
//@@ item fn GlobalSettings<From:VscGlobalSettings>::from
//@@   ret r
//@@ + spec
    ensures r.sync_file_settings_with_client == (value.sync_file_settings_with_client == Some(true)),
//@@ end
//@@ endimpl
impl FromSpecImpl<VscDocumentSettings> for DocumentSettings {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: VscDocumentSettings) -> Self { arbitrary() }
}
//@@ impl DocumentSettings From:VscDocumentSettings
//@@ item fn DocumentSettings<From:VscDocumentSettings>::from
//@@   ret r
//@@ + spec
    ensures
        r.line_width is None,
        // all or nothing
        match (value.insert_spaces, value.indent_size, value.tab_size) {
            (Some(i), Some(s), Some(t)) => r.indent_style == Some(style(i)) && r.indent_width == Some(vsc_width(s, t as int)),
            _ => r.indent_style is None && r.indent_width is None,
        },
//@@ end
//@@ endimpl
//@@ impl VscDocumentSettings
//@@ item fn VscDocumentSettings::section_from_key
//@@   ret r
//@@   public
//@@ + spec
    ensures
        key@ == "insert_spaces"@ ==> r@ == "editor.insertSpaces"@,
        key@ == "indent_size"@ ==> r@ == "editor.indentSize"@,
        key@ == "tab_size"@ ==> r@ == "editor.tabSize"@,
//@@ end
//@@ endimpl
//@@ impl VscDiagnosticsSettings
//@@ item fn VscDiagnosticsSettings::section_from_key
//@@   ret r
//@@   public
//@@ + spec
    ensures key@ == "enable"@ ==> r@ == "positron.r.diagnostics.enable"@,
//@@ end
//@@ endimpl
//@@ impl VscGlobalSettings
//@@ item fn VscGlobalSettings::section_from_key
//@@   ret r
//@@   public
//@@ + spec
    ensures
        key@ == "log_level"@ ==> r@ == "air.logLevel"@,
        key@ == "dependency_log_levels"@ ==> r@ == "air.dependencyLogLevels"@,
        key@ == "sync_file_settings_with_client"@ ==> r@ == "air.syncFileSettingsWithClient"@,
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/state.rs
//@@ item struct WorldState
//@@   public
//@@ end
//@@ impl WorldState
//@@ assume lsp_state WorldState::get_document_mut
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/handlers_state.rs
//@@ item fn did_change_formatting_options
//@@   public
//@@ + spec
    ensures
        !old(state).documents@.contains_key(*uri) ==> final(state).documents@ == old(state).documents@,
        // the document takes the client's options, and nothing else changes
        old(state).documents@.contains_key(*uri) ==> final(state).documents@ == old(state).documents@.insert(*uri, Document {
            settings: DocumentSettings { indent_style: Some(style(opts.insert_spaces)), indent_width: Some(width_or_default(opts.tab_size as int)), ..old(state).documents@[*uri].settings },
            ..old(state).documents@[*uri]
        }),
//@@ end
}

fn main() {}
} // verus!
