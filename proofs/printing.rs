// Contracts for the formatter's rules (T03, T04, T06): what each prints, and in which order.
// Layout is not looked at here.
// edition 2024
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::borrow::Cow;
use RSyntaxKind::*;
pub mod tracing { macro_rules! warn_ { ($($t:tt)*) => { () } } pub(crate) use warn_ as warn; }
macro_rules! unreachable { ($($t:tt)*) => { crate::gives_up() } }
macro_rules! debug_assert { ($($t:tt)*) => { () } }
macro_rules! panic { ($($t:tt)*) => { crate::gives_up() } }
verus! {
//@@ expand
//@@ rewrite* `SyntaxToken<RLanguage>` => `SyntaxToken`
//@@ rewrite* `Formatter<RFormatContext>` => `RFormatter`
//@@ rewrite* `Formatter<Context>` => `RFormatter`
//@@ rewrite* `impl Format<RFormatContext>` => `impl Format`
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Structural, Debug
//@@ end
//@@ include inc/tree.rs
//@@ include inc/ast.rs
//@@ include inc/fmt.rs
//@@ include inc/comments_opaque.rs
//@@ include inc/endings.rs
//@@ include inc/lay_none.rs
//@@ include inc/fmt_options.rs
//@@ include inc/rule.rs
pub mod rules {
use super::*;
broadcast use variants::variant_is_kind;
//@@ include inc/rules_plain.rs
//@@ include inc/rules_more.rs
//@@ include inc/arguments.rs
//@@ include inc/rules_binary.rs
//@@ include inc/rules_rest.rs
//@@ include inc/rules_text.rs
//@@ include inc/rules_args.rs
//@@ include inc/rules_lists.rs
//@@ include inc/rules_calls.rs
//@@ include inc/rules_any.rs
}
}
fn main() {}
