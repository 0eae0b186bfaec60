// Contracts for crates/workspace/src/format.rs (property G01).
#![feature(allocator_api)]
#![allow(unused_imports, non_snake_case, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use vstd::std_specs::convert::*;
use vstd::std_specs::control_flow::spec_from;

verus! {

/// std: a str is determined by its characters, and == compares them
pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
        ensures #![trigger a@, b@] a@ == b@ ==> a == b;
    pub broadcast axiom fn axiom_bytes(a: &str)
        ensures #[trigger] a.spec_bytes() == encode_utf8(a@);
}
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r == encode_utf8(s@).len(),
;
// ---------------------------------------------------------------- dependencies, by their contracts
//@@ include inc/formatter.rs
//@@ include inc/str_eq.rs
use air_r_parser::{Parse, RParserOptions};
#[verifier::external_body]
pub struct RFormatOptions { x: u8 }
use code::*;

pub mod derived {
use super::*;
/// derived by thiserror: #[from]
macro_rules! derived_from {
    ($($ax:ident $e:ident :: $v:ident ( $t:ty )),* $(,)?) => { verus! { $(
        impl From<$t> for $e {
            #[verifier::external_body]
            fn from(e: $t) -> (r: $e)
                ensures r == $e::$v(e),
            { unimplemented!() }
        }
        impl FromSpecImpl<$t> for $e {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(e: $t) -> $e { $e::$v(e) }
        }
        // `?` converts by that From
        pub broadcast axiom fn $ax(e: $t, r: $e)
            ensures #[trigger] spec_from::<$e, $t>(e, r) ==> r == $e::$v(e);
    )* } }
}
derived_from!(
    a1 FormatSourceError::Parse(air_r_parser::ParseError), a2 FormatSourceError::Format(biome_formatter::FormatError), a3 FormatSourceError::Print(biome_formatter::PrintError),
    a4 FormatParseError::Format(biome_formatter::FormatError), a5 FormatParseError::Print(biome_formatter::PrintError),
);
}
pub mod code {
use super::*;
broadcast use {ax::axiom_str_ext, ax::axiom_bytes, str_eq::group_str_eq, derived::a1, derived::a2, derived::a3, derived::a4, derived::a5};
//@@ source crates/workspace/src/format.rs
//@@ item enum FormattedSource
//@@ end
//@@ item enum FormatSourceError
//@@ end
//@@ item enum FormatParseError
//@@ end
//@@ item fn format_source_with_parse
//@@   ret r
//@@ + spec
    requires parse_error(parse.source()) is None, parse.source() == source@,
    ensures match printed(options, source@) { Err(e) => r == Result::<FormattedSource, FormatParseError>::Err(e), Ok(t) => r matches Ok(x) && answers(x, source@, t) },
//@@ end
//@@ item fn format_source
//@@   ret r
//@@ + spec
    ensures match parse_error(source@) {
        Some(e) => r == Result::<FormattedSource, FormatSourceError>::Err(FormatSourceError::Parse(e)),
        None => match printed(options, source@) {
            Err(FormatParseError::Format(e)) => r == Result::<FormattedSource, FormatSourceError>::Err(FormatSourceError::Format(e)),
            Err(FormatParseError::Print(e)) => r == Result::<FormattedSource, FormatSourceError>::Err(FormatSourceError::Print(e)),
            Ok(t) => r matches Ok(x) && answers(x, source@, t),
        },
    },
//@@ + closure 1 `|err|`
|err: FormatParseError| -> (e: FormatSourceError)
    ensures e == (match err { FormatParseError::Format(x) => FormatSourceError::Format(x), FormatParseError::Print(x) => FormatSourceError::Print(x) })
//@@ end
}

fn main() {}
} // verus!
