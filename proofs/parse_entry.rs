// Contracts for the entry of crates/air_r_parser/src/parse.rs (property R03): what a caller of
// the parser gets, and when it is an error.
#![feature(slice_index_methods)]
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@@ include inc/text_size.rs
//@@ include inc/gaps.rs
//@@ include inc/trivia.rs
//@@ include inc/pieces.rs
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Structural, Debug
//@@ end
//@@ include inc/nodes.rs
//@@ source crates/air_r_parser/src/treesitter.rs
//@@ item enum WalkEvent
//@@   derive Clone, Copy
//@@   public
//@@ end
//@@ include inc/kinds.rs
//@@ include inc/shape.rs
//@@ include inc/outcome.rs
impl Clone for ParseError {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
/// what tree-sitter makes of a text
pub uninterp spec fn tree_of(t: Seq<u8>) -> Tree;
pub open spec fn wrong(t: Seq<u8>) -> bool { tree_of(t).root().has_err() }
#[derive(Debug)]
pub struct Refused {}
pub struct Parser { pub p: () }
impl Parser {
    #[verifier::external_body]
    pub fn new() -> Parser { unimplemented!() }
    /// the language is built for this tree-sitter
    #[verifier::external_body]
    pub fn set_language(&mut self, l: &Language) -> (r: Result<(), Refused>)
        ensures r is Ok,
    { unimplemented!() }
    /// tree-sitter gives a tree, which follows the grammar unless it says there is an error
    #[verifier::external_body]
    pub fn parse(&mut self, text: &str, old: Option<&Tree>) -> (r: Option<Tree>)
        ensures
            r == Some(tree_of(text.spec_bytes())),
            text.spec_bytes().len() <= u32::MAX && !wrong(text.spec_bytes()) ==> grammar(tree_of(text.spec_bytes()).root(), text.spec_bytes()),
    { unimplemented!() }
}
pub struct Language { pub p: () }
#[verifier::external_body]
pub fn language() -> Language { unimplemented!() }
pub struct RParserOptions {}
#[verifier::external_body]
pub struct NodeCache { p: () }
impl NodeCache {
    #[verifier::external_body]
    pub fn default() -> NodeCache { unimplemented!() }
}
#[verifier::external_body]
pub struct RSyntaxNode { p: () }
#[verifier::external_body]
pub struct SendNode { p: () }
impl RSyntaxNode {
    pub uninterp spec fn sent(self) -> SendNode;
    #[verifier::external_body]
    pub fn as_send(&self) -> (r: Option<SendNode>)
        ensures r == Some(self.sent()),
    { unimplemented!() }
}
impl Clone for SendNode {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl SendNode {
    pub uninterp spec fn received(self) -> RSyntaxNode;
    #[verifier::external_body]
    pub fn into_node(self) -> (r: Option<RSyntaxNode>)
        ensures r == Some(self.received()),
    { unimplemented!() }
}
pub broadcast axiom fn axiom_sent(n: RSyntaxNode)
    ensures #[trigger] n.sent().received() == n;
/// the tree that is built from a text, events and trivia
pub uninterp spec fn tree(t: Seq<u8>, e: Seq<Ev>, v: Seq<Trivia>) -> RSyntaxNode;
#[verifier::external_body]
pub struct RLosslessTreeSink<'a> { p: &'a () }
impl<'a> RLosslessTreeSink<'a> {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    pub uninterp spec fn trivia(&self) -> Seq<Trivia>;
    pub uninterp spec fn events(&self) -> Seq<Ev>;
    #[verifier::external_body]
    pub fn with_cache(text: &'a str, trivia: &'a Vec<Trivia>, cache: &mut NodeCache) -> (r: Self)
        ensures r.text() == text.spec_bytes(), r.trivia() == trivia@, r.events() == Seq::<Ev>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: (RSyntaxNode, Vec<ParseDiagnostic>))
        ensures r.0 == tree(self.text(), self.events(), self.trivia()),
    { unimplemented!() }
}
pub struct ParseDiagnostic {}
pub mod biome_parser { pub mod event {
    use super::super::*;
    #[verifier::external_body]
    pub fn process(sink: &mut RLosslessTreeSink, events: Vec<Ev>, d: Vec<ParseDiagnostic>)
        ensures final(sink).text() == old(sink).text(), final(sink).trivia() == old(sink).trivia(), final(sink).events() == old(sink).events() + events@,
    { unimplemented!() }
} }
//@@ source crates/air_r_parser/src/parse.rs
//@@ item struct Parse
//@@   public
//@@ end
/// a parse gives back what the tree was
pub open spec fn node_of(p: Parse) -> RSyntaxNode { p.root.received() }
/// what the parser gives for a text
pub open spec fn parse_of(t: Seq<u8>, p: Parse) -> bool {
    exists|r: Parsed| {
        &&& wrong(t) ==> failed(t, r)
        &&& !wrong(t) ==> parsed(tree_of(t).root(), t, r) && whole(t, shape(tree_of(t).root(), kd(tree_of(t).root())).x, r)
        &&& p.error is Some == wrong(t)
        &&& node_of(p) == #[trigger] tree(t, r.0@, r.1@)
    }
}
pub mod code {
use super::*;
broadcast use axiom_sent;
//@@ assume walk parse_from_treesitter
//@@ end
//@@ impl Parse
//@@ item fn Parse::new
//@@   ret r
//@@ + spec
    ensures node_of(r) == root, r.error == error,
//@@ end
//@@ item fn Parse::syntax
//@@   rewrite? `. unwrap_or_else ( | | panic ! ( "Could not downcast root node to R language" ) )` => `. unwrap ( )`
//@@   ret r
//@@ + spec
    ensures r == node_of(*self),
//@@ end
//@@ item fn Parse::into_result
//@@   ret r
//@@ + spec
    ensures
        self.error is Some ==> r == Err::<RSyntaxNode, ParseError>(self.error->Some_0),
        self.error is None ==> r == Ok::<RSyntaxNode, ParseError>(node_of(self)),
//@@ end
//@@ item fn Parse::error
//@@   ret r
//@@ + spec
    ensures r is Some == self.error is Some, r is Some ==> *r->Some_0 == self.error->Some_0,
//@@ end
//@@ item fn Parse::into_error
//@@   ret r
//@@ + spec
    ensures r == self.error,
//@@ end
//@@ item fn Parse::has_error
//@@   ret r
//@@ + spec
    ensures r == self.error is Some,
//@@ end
//@@ endimpl
//@@ item fn parse
//@@   ret r
//@@ + spec
    requires text.spec_bytes().len() <= u32::MAX,
    ensures parse_of(text.spec_bytes(), r),
//@@ end
//@@ item fn parse_text
//@@   rewrite? `tree_sitter :: Parser` => `Parser`
//@@   rewrite? `& tree_sitter_r :: LANGUAGE . into ( )` => `& language ( )`
//@@   ret r
//@@ + spec
    requires text.spec_bytes().len() <= u32::MAX,
    ensures
        wrong(text.spec_bytes()) ==> failed(text.spec_bytes(), r),
        !wrong(text.spec_bytes()) ==> ({
            let n = tree_of(text.spec_bytes()).root();
            parsed(n, text.spec_bytes(), r) && whole(text.spec_bytes(), shape(n, kd(n)).x, r)
        }),
//@@ end
//@@ item fn build_tree
//@@   ret r
//@@ + spec
    ensures node_of(r) == tree(text.spec_bytes(), events@, tokens@), r.error == errors,
//@@ + inlined 1 `in_scope`
//@@ end
}
}
fn main(){}
