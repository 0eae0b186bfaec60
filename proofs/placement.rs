// Contracts for the placement of comments (T06): a comment is put somewhere, and where it is printed.
// edition 2024
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use RSyntaxKind::*;
pub mod tracing { macro_rules! warn_ { ($($t:tt)*) => { () } } pub(crate) use warn_ as warn; }
verus! {
//@@ expand
//@@ rewrite* `SyntaxToken<RLanguage>` => `SyntaxToken`
//@@ rewrite* `DecoratedComment<RLanguage>` => `DecoratedComment`
//@@ rewrite* `CommentPlacement<RLanguage>` => `CommentPlacement`
//@@ rewrite* `DecoratedComment<Self::Language>` => `DecoratedComment`
//@@ rewrite* `CommentPlacement<Self::Language>` => `CommentPlacement`
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Structural, Debug
//@@ end
//@@ include inc/tree.rs
//@@ include inc/ast.rs
// ---------------------------------------------------------------- biome_formatter: a comment and where it goes
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum CommentTextPosition { EndOfLine, SameLine, OwnLine }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum CommentKind { InlineBlock, Block, Line }
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct SyntaxTriviaPieceComments<L> { x: core::marker::PhantomData<L> }
pub struct RLanguage;
/// a comment, with what stands around it
#[verifier::external_body]
pub struct DecoratedComment { x: u8 }
impl DecoratedComment {
    pub uninterp spec fn around(&self) -> SyntaxNode;
    pub uninterp spec fn place(&self) -> CommentTextPosition;
    #[verifier::external_body]
    pub fn enclosing_node(&self) -> (r: &SyntaxNode) ensures *r == self.around(), { unimplemented!() }
    /// what stands in front of it and behind it is one of the nodes of what is around it
    #[verifier::external_body]
    pub fn preceding_node(&self) -> (r: Option<&SyntaxNode>) { unimplemented!() }
    #[verifier::external_body]
    pub fn following_node(&self) -> (r: Option<&SyntaxNode>) { unimplemented!() }
    #[verifier::external_body]
    pub fn following_token(&self) -> (r: Option<&SyntaxToken>) { unimplemented!() }
    #[verifier::external_body]
    pub fn text_position(&self) -> (r: CommentTextPosition) ensures r == self.place(), { unimplemented!() }
}
pub enum CommentPlacement { Leading { node: SyntaxNode, comment: DecoratedComment }, Trailing { node: SyntaxNode, comment: DecoratedComment }, Dangling { node: SyntaxNode, comment: DecoratedComment }, Default(DecoratedComment) }
impl CommentPlacement {
    pub fn leading(node: SyntaxNode, comment: DecoratedComment) -> (r: Self) ensures r == (CommentPlacement::Leading { node, comment }), { CommentPlacement::Leading { node, comment } }
    pub fn trailing(node: SyntaxNode, comment: DecoratedComment) -> (r: Self) ensures r == (CommentPlacement::Trailing { node, comment }), { CommentPlacement::Trailing { node, comment } }
    pub fn dangling(node: SyntaxNode, comment: DecoratedComment) -> (r: Self) ensures r == (CommentPlacement::Dangling { node, comment }), { CommentPlacement::Dangling { node, comment } }
    pub fn or_else<F: FnOnce(DecoratedComment) -> Self>(self, f: F) -> (r: Self)
        requires self matches CommentPlacement::Default(c) ==> f.requires((c,)),
        ensures match self { CommentPlacement::Default(c) => f.ensures((c,), r), p => r == p },
    { match self { CommentPlacement::Default(c) => f(c), p => p } }
}
impl SyntaxNode {
    #[verifier::external_body]
    pub fn prev_sibling(&self) -> (r: Option<SyntaxNode>) ensures r matches Some(n) ==> n.up() == self.up(), { unimplemented!() }
}
pub open spec fn size_of_list(l: SyntaxNode) -> nat { l.arity() }
impl RExpressionList {
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<AnyRExpression>)
        ensures match r { Some(e) => self.node().arity() > 0 && e.fits(), None => self.node().arity() == 0 },
    { unimplemented!() }
}
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o matches Some(v) ==> f.requires((&v,)),
    ensures match o { Some(v) => f.ensures((&v,), true) && r == o || f.ensures((&v,), false) && r is None, None => r is None },
;
// ---------------------------------------------------------------- what is asked of a placement
/// a node that its own rule prints, with the comments in front of it and behind it: not a list
pub open spec fn has_a_rule(k: RSyntaxKind) -> bool {
    !(k == R_ARGUMENT_LIST || k == R_PARAMETER_LIST || k == R_EXPRESSION_LIST || k == R_ROOT || k == EOF || k == TOMBSTONE)
}
/// empty braces: their rule prints the comments inside (T06)
pub open spec fn empty_braces(n: SyntaxNode) -> bool { n.kind_of() == R_BRACED_EXPRESSIONS && (n.slot(1) matches Slot::Node(l) && l.arity() == 0) }
/// it is the comment that was given, and it is put where it is printed
pub open spec fn kept(r: CommentPlacement, c: DecoratedComment) -> bool {
    match r {
        CommentPlacement::Default(d) => d == c,
        CommentPlacement::Leading { node, comment } => comment == c && has_a_rule(node.kind_of()),
        CommentPlacement::Trailing { node, comment } => comment == c && has_a_rule(node.kind_of()),
        CommentPlacement::Dangling { node, comment } => comment == c && empty_braces(node),
    }
}
//@@ source crates/air_r_syntax/src/argument_ext.rs
impl RArgument {
//@@ item fn RArgument::is_hole
//@@   ret r
//@@ + spec
    ensures r == (self.node().slot(0) is Empty && self.node().slot(1) is Empty),
//@@ end
}
//@@ source crates/air_r_formatter/src/comments.rs
pub struct RCommentStyle;
impl RCommentStyle {
//@@ item fn RCommentStyle<CommentStyle>::get_comment_kind
//@@   ret r
//@@ + spec
    ensures r is Line,
//@@ end
//@@ item fn RCommentStyle<CommentStyle>::place_comment
//@@   ret r
//@@ + spec
    ensures kept(r, comment),
//@@ end
}
//@@ item fn handle_for_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_while_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_repeat_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_function_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_if_statement_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_else_clause_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_call_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_parenthesized_expression_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_argument_name_clause_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_argument_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ end
//@@ item fn handle_hole_argument_comment
//@@   ret r
//@@ + spec
    requires !(comment.place() is SameLine),
    ensures kept(r, comment),
//@@ + closure 1
|argument: &RArgument| -> (r: bool)
    ensures true,
//@@ + closure 2
|argument: &RArgument| -> (r: bool)
    ensures true,
//@@ end
//@@ item fn place_leading_or_dangling_alternative_comment
//@@   ret r
//@@ + spec
    requires alternative.fits(),
    ensures kept(r, comment),
//@@ end
//@@ item fn place_leading_or_dangling_body_comment
//@@   ret r
//@@ + spec
    requires body.fits(),
    ensures kept(r, comment),
//@@ end
}
fn main() {}
