// Contracts for crates/workspace/src/toml_options.rs, settings.rs and the options handed to the
// formatter, crates/air_r_formatter/src/context.rs (properties W05, S04).
#![feature(allocator_api)]
#![allow(unused_imports, non_snake_case, dead_code)]
use vstd::prelude::*;
use vstd::multiset::Multiset;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::convert::*;

verus! {

//@@ include inc/options.rs

// ---------------------------------------------------------------- the documented meaning of an air.toml
pub open spec fn meant(f: code::FormatTomlOptions, root: &Path, s: code::FormatSettings) -> bool {
    &&& s.indent_style == or_def(f.indent_style)
    &&& s.indent_width == or_def(f.indent_width)
    &&& s.line_ending == or_def(f.line_ending)
    &&& s.line_width == or_def(f.line_width)
    &&& s.assignment_style == or_def(f.assignment_style)
    &&& s.persistent_line_breaks == (if f.persistent_line_breaks == Some(false) { PersistentLineBreaks::Ignore } else { PersistentLineBreaks::Respect })
    &&& match f.exclude { Some(e) => s.exclude is Some && excluding(root, e@.map_values(|x: String| x@)) == s.exclude, None => s.exclude is None }
    &&& s.default_exclude == (if f.default_exclude == Some(false) { None } else { Some(def::<DefaultExcludePatterns>()) })
    &&& s.default_include == Some(def::<DefaultIncludePatterns>())
    &&& s.skip == f.skip
    &&& names_opt(s.table) == (if f.default_table == Some(false) { names_opt(f.table) } else {
            Some(match f.table { Some(t) => t@.add(default_names()), None => default_names() })
        })
}
pub open spec fn nothing_said(f: code::FormatTomlOptions) -> bool {
    &&& f.line_width is None &&& f.indent_width is None &&& f.indent_style is None &&& f.line_ending is None
    &&& f.persistent_line_breaks is None &&& f.assignment_style is None &&& f.exclude is None &&& f.default_exclude is None
    &&& f.skip is None &&& f.table is None &&& f.default_table is None
}

pub mod table {
use super::*;
//@@ source crates/workspace/src/settings/default_table.rs
//@@ rewrite* `DEFAULT_TABLE_NAMES . iter` => `DEFAULT_TABLE_NAMES().iter`
//@@ item static DEFAULT_TABLE_NAMES
//@@   asfn
//@@   type &'static [&'static str]
//@@ + spec
    ensures r@.len() == 2, r@[0]@ == "tribble"@, r@[1]@ == "fcase"@,
//@@ end
//@@ item static DEFAULT_TABLE
//@@   lazy
//@@ + spec
    ensures r@ == default_names(),
//@@ + closure 1 `|&s|`
|s_ref: &&str| -> (o: String)
    ensures o@ == (*s_ref)@
//@@ end

}
/// the static, by the contract of its initialiser (proved in `table`; kept apart because the
/// verifier would otherwise see a cycle through the Default trait)
#[verifier::external_body]
pub fn DEFAULT_TABLE() -> (r: Table)
    ensures r@ == default_names(),
{ unimplemented!() }

pub mod code {
use super::*;
use super::context::RFormatOptions;
//@@ rewrite* `& DEFAULT_TABLE` => `&DEFAULT_TABLE()`
//@@ rewrite* `DEFAULT_TABLE . clone` => `DEFAULT_TABLE().clone`
//@@ source crates/workspace/src/settings/default_table.rs
//@@ source crates/workspace/src/settings.rs
//@@ item struct Settings
//@@ end
//@@ item struct FormatSettings
//@@ end
//@@ impl FormatSettings Default
//@@ item fn FormatSettings<Default>::default
//@@   ret r
//@@ + spec
    ensures
        r.indent_style == def::<IndentStyle>(), r.indent_width == def::<IndentWidth>(), r.line_ending == def::<LineEnding>(),
        r.line_width == def::<LineWidth>(), r.persistent_line_breaks == def::<PersistentLineBreaks>(), r.assignment_style == def::<AssignmentStyle>(),
        r.exclude is None, r.default_exclude == Some(def::<DefaultExcludePatterns>()), r.default_include == Some(def::<DefaultIncludePatterns>()),
        r.skip is None, names_opt(r.table) == Some(default_names()),
//@@ end
//@@ endimpl
//@@ impl FormatSettings
//@@ item fn FormatSettings::to_format_options
//@@   ret r
//@@ + spec
    ensures
        r.indent_style == self.indent_style, r.indent_width == self.indent_width, r.line_ending == finalized(self.line_ending, source@),
        r.line_width == self.line_width, r.persistent_line_breaks == self.persistent_line_breaks, r.assignment_style == self.assignment_style,
        r.skip == self.skip, r.table == self.table,
//@@ end
//@@ endimpl

//@@ source crates/workspace/src/toml_options.rs
//@@ item struct TomlOptions
//@@ end
//@@ item struct GlobalTomlOptions
//@@ end
//@@ item struct FormatTomlOptions
//@@ end
/// derived: every field its own default, None
impl Default for FormatTomlOptions {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures nothing_said(r),
    { unimplemented!() }
}
//@@ impl TomlOptions
//@@ item fn TomlOptions::into_settings
//@@   ret r
//@@ + spec
    ensures
        r matches Ok(s) ==> (self.format matches Some(f) ==> meant(f, root, s.format)),
        r matches Ok(s) ==> (self.format is None ==> forall|f: FormatTomlOptions| nothing_said(f) ==> meant(f, root, s.format)),
        r is Err ==> (self.format matches Some(f) && f.exclude matches Some(e) && excluding(root, e@.map_values(|x: String| x@)) is None),
//@@ end
//@@ endimpl

}
pub mod context {
use super::*;
use super::settings::LineEnding;
use super::biome_formatter;

/// biome_formatter: the trait through which the formatter and the printer read the options
pub trait FormatOptions {
    fn indent_style(&self) -> biome_formatter::IndentStyle;
    fn indent_width(&self) -> biome_formatter::IndentWidth;
    fn line_width(&self) -> biome_formatter::LineWidth;
    fn line_ending(&self) -> biome_formatter::LineEnding;
}
//@@ source crates/air_r_formatter/src/context.rs
//@@ item struct RFormatOptions
//@@   public
//@@ end
/// derived: every field its own default
impl Default for RFormatOptions {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures
            r.indent_style == def::<IndentStyle>(),
            r.indent_width == def::<IndentWidth>(),
            r.line_ending == def::<LineEnding>(),
            r.line_width == def::<LineWidth>(),
            r.persistent_line_breaks == def::<PersistentLineBreaks>(),
            r.assignment_style == def::<AssignmentStyle>(),
            r.skip is None,
            r.table is None,
    { unimplemented!() }
}
//@@ impl RFormatOptions
//@@ item fn RFormatOptions::new
//@@   ret r
//@@ + spec
    ensures
        r.indent_style == def::<IndentStyle>(),
        r.indent_width == def::<IndentWidth>(),
        r.line_ending == def::<LineEnding>(),
        r.line_width == def::<LineWidth>(),
        r.persistent_line_breaks == def::<PersistentLineBreaks>(),
        r.assignment_style == def::<AssignmentStyle>(),
        r.skip is None,
        r.table is None,
//@@ end
//@@ item fn RFormatOptions::with_indent_style
//@@   ret r
//@@ + spec
    ensures r == (RFormatOptions { indent_style: indent_style, ..self }),
//@@ end
//@@ item fn RFormatOptions::with_indent_width
//@@   ret r
//@@ + spec
    ensures r == (RFormatOptions { indent_width: indent_width, ..self }),
//@@ end
//@@ item fn RFormatOptions::with_line_ending
//@@   ret r
//@@ + spec
    ensures r == (RFormatOptions { line_ending: line_ending, ..self }),
//@@ end
//@@ item fn RFormatOptions::with_line_width
//@@   ret r
//@@ + spec
    ensures r == (RFormatOptions { line_width: line_width, ..self }),
//@@ end
//@@ item fn RFormatOptions::with_persistent_line_breaks
//@@   ret r
//@@ + spec
    ensures r == (RFormatOptions { persistent_line_breaks: persistent_line_breaks, ..self }),
//@@ end
//@@ item fn RFormatOptions::with_assignment_style
//@@   ret r
//@@ + spec
    ensures r == (RFormatOptions { assignment_style: assignment_style, ..self }),
//@@ end
//@@ item fn RFormatOptions::with_skip
//@@   ret r
//@@ + spec
    ensures r == (RFormatOptions { skip: skip, ..self }),
//@@ end
//@@ item fn RFormatOptions::with_table
//@@   ret r
//@@ + spec
    ensures r == (RFormatOptions { table: table, ..self }),
//@@ end
//@@ item fn RFormatOptions::set_indent_style
//@@ + spec
    ensures *final(self) == (RFormatOptions { indent_style: indent_style, ..*old(self) }),
//@@ end
//@@ item fn RFormatOptions::set_indent_width
//@@ + spec
    ensures *final(self) == (RFormatOptions { indent_width: indent_width, ..*old(self) }),
//@@ end
//@@ item fn RFormatOptions::set_line_ending
//@@ + spec
    ensures *final(self) == (RFormatOptions { line_ending: line_ending, ..*old(self) }),
//@@ end
//@@ item fn RFormatOptions::set_line_width
//@@ + spec
    ensures *final(self) == (RFormatOptions { line_width: line_width, ..*old(self) }),
//@@ end
//@@ item fn RFormatOptions::set_persistent_line_breaks
//@@ + spec
    ensures *final(self) == (RFormatOptions { persistent_line_breaks: persistent_line_breaks, ..*old(self) }),
//@@ end
//@@ item fn RFormatOptions::set_assignment_style
//@@ + spec
    ensures *final(self) == (RFormatOptions { assignment_style: assignment_style, ..*old(self) }),
//@@ end
//@@ item fn RFormatOptions::set_skip
//@@ + spec
    ensures *final(self) == (RFormatOptions { skip: skip, ..*old(self) }),
//@@ end
//@@ item fn RFormatOptions::set_table
//@@ + spec
    ensures *final(self) == (RFormatOptions { table: table, ..*old(self) }),
//@@ end
//@@ item fn RFormatOptions::persistent_line_breaks
//@@   ret r
//@@ + spec
    ensures r == self.persistent_line_breaks,
//@@ end
//@@ item fn RFormatOptions::assignment_style
//@@   ret r
//@@ + spec
    ensures r == self.assignment_style,
//@@ end
//@@ item fn RFormatOptions::skip
//@@   ret r
//@@ + spec
    ensures match r { Some(x) => self.skip == Some(*x), None => self.skip is None },
//@@ end
//@@ item fn RFormatOptions::table
//@@   ret r
//@@ + spec
    ensures match r { Some(x) => self.table == Some(*x), None => self.table is None },
//@@ end
//@@ endimpl

pub open spec fn same_style(a: IndentStyle, b: biome_formatter::IndentStyle) -> bool { (a is Tab) == (b is Tab) }
pub open spec fn same_ending(a: LineEnding, b: biome_formatter::LineEnding) -> bool {
    (a is Lf ==> b is Lf) && (a is Crlf ==> b is Crlf)
}
//@@ impl RFormatOptions FormatOptions
//@@ item fn RFormatOptions<FormatOptions>::indent_style
//@@   ret r
//@@ + spec
    ensures same_style(self.indent_style, r),
//@@ end
//@@ item fn RFormatOptions<FormatOptions>::indent_width
//@@   ret r
//@@ + spec
    ensures r@ == self.indent_width@,
//@@ end
//@@ item fn RFormatOptions<FormatOptions>::line_width
//@@   ret r
//@@ + spec
    ensures r@ == self.line_width@,
//@@ end
//@@ item fn RFormatOptions<FormatOptions>::line_ending
//@@   ret r
//@@ + spec
    ensures same_ending(self.line_ending, r),
//@@ end
//@@ endimpl

//@@ source crates/settings/src/indent_style.rs
impl FromSpecImpl<IndentStyle> for biome_formatter::IndentStyle {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: IndentStyle) -> Self { arbitrary() }
}
//@@ impl IndentStyle From:IndentStyle
//@@ item fn IndentStyle<From:IndentStyle>::from
//@@   ret r
//@@ + spec
    ensures same_style(value, r),
//@@ end
//@@ endimpl

//@@ source crates/settings/src/line_ending.rs
impl FromSpecImpl<LineEnding> for biome_formatter::LineEnding {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: LineEnding) -> Self { arbitrary() }
}
//@@ impl LineEnding From:LineEnding
//@@ item fn LineEnding<From:LineEnding>::from
//@@   ret r
//@@ + spec
    ensures same_ending(value, r),
//@@ end
//@@ endimpl

//@@ source crates/settings/src/indent_width.rs
impl FromSpecImpl<IndentWidth> for biome_formatter::IndentWidth {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: IndentWidth) -> Self { arbitrary() }
}
//@@ impl IndentWidth From:IndentWidth
//@@ item fn IndentWidth<From:IndentWidth>::from
//@@   ret r
//@@ + spec
    ensures r@ == value@,
//@@ end
//@@ endimpl

//@@ source crates/settings/src/line_width.rs
impl FromSpecImpl<LineWidth> for biome_formatter::LineWidth {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: LineWidth) -> Self { arbitrary() }
}
//@@ impl LineWidth From:LineWidth
//@@ item fn LineWidth<From:LineWidth>::from
//@@   ret r
//@@ + spec
    ensures r@ == value@,
//@@ end
//@@ endimpl
}


fn main() {}
} // verus!
