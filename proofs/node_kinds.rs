// Contract for node_syntax_kind of crates/air_r_parser/src/treesitter.rs (property R02).
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Debug
//@@ end
//@@ include inc/kinds.rs
/// tree_sitter::Node, as far as it matters here
pub struct Node<'a> { pub p: core::marker::PhantomData<&'a ()> }
impl<'a> Node<'a> {
    pub uninterp spec fn name(self) -> &'static str;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: &'static str)
        ensures r == self.name(),
    { unimplemented!() }
}
/// two strings with the same characters are the same
pub mod ax {
    use super::*;
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
}
#[verifier::external_body]
pub fn give_up<T>() -> (r: T)
    requires false,
{ unimplemented!() }
pub mod code {
use super::*;
broadcast use ax::axiom_str_ext;
//@@ source crates/air_r_parser/src/treesitter.rs
//@@ item fn node_syntax_kind
//@@   ret r
//@@   rewrite `unreachable ! ( "Not implemented: '{kind}'." )` => `give_up()`
//@@ + spec
    requires known(x.name()@),
    ensures r == kind_of(x.name()@),
//@@ + body
    proof {
        reveal_strlit("program");
        reveal_strlit("unary_operator");
        reveal_strlit("binary_operator");
        reveal_strlit("extract_operator");
        reveal_strlit("namespace_operator");
        reveal_strlit("function_definition");
        reveal_strlit("parameters");
        reveal_strlit("parameter");
        reveal_strlit("if_statement");
        reveal_strlit("for_statement");
        reveal_strlit("while_statement");
        reveal_strlit("repeat_statement");
        reveal_strlit("braced_expression");
        reveal_strlit("parenthesized_expression");
        reveal_strlit("call");
        reveal_strlit("subset");
        reveal_strlit("subset2");
        reveal_strlit("argument");
        reveal_strlit("identifier");
        reveal_strlit("integer");
        reveal_strlit("float");
        reveal_strlit("complex");
        reveal_strlit("string");
        reveal_strlit("string_open");
        reveal_strlit("string_content");
        reveal_strlit("string_close");
        reveal_strlit("next");
        reveal_strlit("break");
        reveal_strlit("true");
        reveal_strlit("false");
        reveal_strlit("null");
        reveal_strlit("inf");
        reveal_strlit("nan");
        reveal_strlit("na");
        reveal_strlit("NA");
        reveal_strlit("NA_integer_");
        reveal_strlit("NA_real_");
        reveal_strlit("NA_complex_");
        reveal_strlit("NA_character_");
        reveal_strlit("{");
        reveal_strlit("}");
        reveal_strlit("[");
        reveal_strlit("]");
        reveal_strlit("[[");
        reveal_strlit("]]");
        reveal_strlit("(");
        reveal_strlit(")");
        reveal_strlit("?");
        reveal_strlit("~");
        reveal_strlit("<-");
        reveal_strlit("<<-");
        reveal_strlit(":=");
        reveal_strlit("->");
        reveal_strlit("->>");
        reveal_strlit("=");
        reveal_strlit("|");
        reveal_strlit("&");
        reveal_strlit("||");
        reveal_strlit("&&");
        reveal_strlit("<");
        reveal_strlit("<=");
        reveal_strlit(">");
        reveal_strlit(">=");
        reveal_strlit("==");
        reveal_strlit("!=");
        reveal_strlit("+");
        reveal_strlit("-");
        reveal_strlit("*");
        reveal_strlit("/");
        reveal_strlit("^");
        reveal_strlit("**");
        reveal_strlit("|>");
        reveal_strlit("special");
        reveal_strlit(":");
        reveal_strlit("::");
        reveal_strlit(":::");
        reveal_strlit("$");
        reveal_strlit("@");
        reveal_strlit("!");
        reveal_strlit("function");
        reveal_strlit("\\");
        reveal_strlit("if");
        reveal_strlit("else");
        reveal_strlit("for");
        reveal_strlit("in");
        reveal_strlit("while");
        reveal_strlit("repeat");
        reveal_strlit("comma");
        reveal_strlit("dots");
        reveal_strlit("dot_dot_i");
        reveal_strlit("comment");
    }
//@@ end
}
}
fn main(){}
