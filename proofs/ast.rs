// Contracts for crates/air_r_syntax/src/generated/nodes.rs: which slot of a node every
// accessor reads, and which kinds every type stands for (T03, T06).
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use RSyntaxKind::*;
verus! {
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Structural, Debug
//@@ end
//@@ include inc/tree.rs
//@@ include inc/ast.rs
}
fn main() {}
