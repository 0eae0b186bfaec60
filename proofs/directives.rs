// Contracts for the directives: what is kept as it is written, what is a table (T02).
// edition 2024
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::borrow::Cow;
use RSyntaxKind::*;
pub mod tracing { macro_rules! warn_ { ($($t:tt)*) => { () } } pub(crate) use warn_ as warn; }
macro_rules! unreachable { ($($t:tt)*) => { crate::gives_up() } }
macro_rules! debug_assert { ($($t:tt)*) => { () } }
macro_rules! panic { ($($t:tt)*) => { crate::gives_up() } }
verus! {
//@@ expand
//@@ rewrite* `SyntaxToken<RLanguage>` => `SyntaxToken`
//@@ rewrite* `SyntaxNode<Self::Language>` => `SyntaxNode`
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Structural, Debug
//@@ end
//@@ include inc/tree.rs
//@@ include inc/ast.rs
//@@ include inc/fmt.rs
//@@ include inc/endings.rs
//@@ include inc/lay_none.rs
//@@ include inc/fmt_options.rs
/// a panic: not excluded here, but nothing is said of what happens afterwards
#[verifier::external_body]
pub fn gives_up() -> ! { unimplemented!() }

// ---------------------------------------------------------------- the comments of a document
pub use comments::{Directive, FormatDirective, parse_comment_directive, parse_special_skip_file};
//@@ include inc/directive_spec.rs
pub open spec fn generated(s: Seq<char>) -> bool { is_comment(s) && starts(payload(s), "Generated by"@) }
pub mod comments {
use super::*;
//@@ source crates/comments/src/directive.rs
//@@ item enum Directive
//@@   public
//@@ end
//@@ item enum FormatDirective
//@@   public
//@@ end
//@@ assume comments parse_comment_directive
//@@ end
//@@ assume comments parse_special_skip_file
//@@ end
}
/// biome_formatter: a comment, by its text
#[verifier::external_body]
pub struct SourceComment { x: u8 }
#[verifier::external_body]
pub struct CommentPiece { x: u8 }
impl SourceComment {
    pub uninterp spec fn words(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn piece(&self) -> (r: &CommentPiece) ensures r.words() == self.words(), { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_formatted(&self) { unimplemented!() }
}
impl CommentPiece {
    pub uninterp spec fn words(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures r@ == self.words(), { unimplemented!() }
}
/// `[SourceComment]` and the iterators over it
pub struct Heads<'a> { pub s: Ghost<Seq<SourceComment>>, pub p: core::marker::PhantomData<&'a u8> }
impl<'a> Heads<'a> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Each<'a>) ensures r.s == self.s, { unimplemented!() }
}
pub struct Each<'a> { pub s: Ghost<Seq<SourceComment>>, pub p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct Items<B> { x: Vec<B> }
pub open spec fn somes<B>(s: Seq<Option<B>>) -> Seq<B>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Some(b) => somes(s.drop_last()).push(b), None => somes(s.drop_last()) } } }
pub proof fn lemma_somes<B>(s: Seq<Option<B>>, b: B)
    ensures somes(s).contains(b) <==> exists|i: int| 0 <= i < s.len() && s[i] == Some(b),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_somes(t, b);
        if s.last() is Some {
            let l = s.last()->Some_0;
            assert(somes(s) == somes(t).push(l));
            if somes(t).contains(b) { let k = choose|k: int| 0 <= k < somes(t).len() && somes(t)[k] == b; assert(somes(s)[k] == b); }
            if l == b { assert(somes(s)[somes(t).len() as int] == b); assert(s[s.len() - 1] == Some(b)); }
            if somes(s).contains(b) { let k = choose|k: int| 0 <= k < somes(s).len() && somes(s)[k] == b; if k < somes(t).len() { assert(somes(t)[k] == b); } }
        }
        if exists|i: int| 0 <= i < t.len() && t[i] == Some(b) { let i = choose|i: int| 0 <= i < t.len() && t[i] == Some(b); assert(s[i] == Some(b)); }
        if exists|i: int| 0 <= i < s.len() && s[i] == Some(b) { let i = choose|i: int| 0 <= i < s.len() && s[i] == Some(b); if i < t.len() { assert(t[i] == Some(b)); } }
    }
}
impl<'a> Each<'a> {
    #[verifier::external_body]
    pub fn map<B, F: Fn(&'a SourceComment) -> B>(self, f: F) -> (r: Items<B>)
        requires forall|c: &SourceComment| #[trigger] f.requires((c,)),
        ensures r.items().len() == self.s@.len(), forall|i: int| #![trigger r.items()[i]] #![trigger self.s@[i]] 0 <= i < self.s@.len() ==> f.ensures((&self.s@[i],), r.items()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(&'a SourceComment) -> Option<B>>(self, f: F) -> (r: Items<B>)
        requires forall|c: &SourceComment| #[trigger] f.requires((c,)),
        ensures exists|o: Seq<Option<B>>| o.len() == self.s@.len() && #[trigger] somes(o) == r.items() && (forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> f.ensures((&self.s@[i],), o[i])),
    { unimplemented!() }
}
impl<B> Items<B> {
    pub uninterp spec fn items(&self) -> Seq<B>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<B>)
        ensures match r {
            Some(b) => old(self).items().len() > 0 && b == old(self).items()[0] && final(self).items() == old(self).items().skip(1),
            None => old(self).items().len() == 0 && final(self).items() == old(self).items() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(B) -> bool>(self, f: F) -> (r: bool)
        requires forall|b: B| #[trigger] f.requires((b,)),
        ensures
            r ==> exists|b: B| #[trigger] self.items().contains(b) && f.ensures((b,), true),
            !r ==> forall|b: B| #[trigger] self.items().contains(b) ==> f.ensures((b,), false),
    { unimplemented!() }
    /// what is still to come
    #[verifier::external_body]
    pub fn rest(self) -> (r: Vec<B>) ensures r@ == self.items(), { unimplemented!() }
}
/// biome_formatter's comments of a document, by node
#[verifier::external_body]
pub struct RComments { x: u8 }
impl RComments {
    /// the comments in front of a node
    pub uninterp spec fn heads(&self, n: SyntaxNode) -> Seq<SourceComment>;
    #[verifier::external_body]
    pub fn leading_comments<'a>(&'a self, n: &SyntaxNode) -> (r: Heads<'a>) ensures r.s@ == self.heads(*n), { unimplemented!() }
    #[verifier::external_body]
    pub fn leading_dangling_trailing_comments(&self, n: &SyntaxNode) -> Vec<&SourceComment> { unimplemented!() }
    /// only remembers that it was called
    #[verifier::external_body]
    pub fn mark_suppression_checked(&self, n: &SyntaxNode) { unimplemented!() }
    /// one of the comments in front says this
    pub open spec fn says(&self, n: SyntaxNode, d: FormatDirective) -> bool {
        exists|i: int| 0 <= i < self.heads(n).len() && #[trigger] directive_of(self.heads(n)[i].words()) == Some(Directive::Format(d))
    }
    pub open spec fn skips(&self, n: SyntaxNode) -> bool { may_be_told(n) && self.says(n, FormatDirective::Skip) }
    pub open spec fn tables(&self, n: SyntaxNode) -> bool { may_be_told(n) && self.says(n, FormatDirective::Table) }
}
/// statements, arguments and operands
pub open spec fn may_be_told(n: SyntaxNode) -> bool {
    n.up() matches Some(p) && (p.kind_of() == R_EXPRESSION_LIST || p.kind_of() == R_ARGUMENT_LIST || p.kind_of() == R_BINARY_EXPRESSION)
}
/// the name a call is of, also behind `pkg::`
pub open spec fn name_in(n: SyntaxNode) -> Option<Seq<char>> { match n.slot(0) { Slot::Token(t) => Some(t.bare()), _ => None } }
pub open spec fn name_of(n: SyntaxNode) -> Option<Seq<char>> {
    match n.slot(0) {
        Slot::Node(f) =>
            if f.kind_of() == R_IDENTIFIER { name_in(f) }
            else if f.kind_of() == R_NAMESPACE_EXPRESSION { match f.slot(2) { Slot::Node(g) => if g.kind_of() == R_IDENTIFIER { name_in(g) } else { None }, _ => None } }
            else { None },
        _ => None,
    }
}
pub open spec fn set_to_skip(n: SyntaxNode) -> bool { the_options().skip matches Some(s) && name_of(n) matches Some(w) && s.names().contains(w) }
pub open spec fn set_to_table(n: SyntaxNode) -> bool { the_options().table matches Some(s) && name_of(n) matches Some(w) && s.names().contains(w) }
/// `# fmt: skip file` in front of the first statement, or `Generated by` in the first line there
pub uninterp spec fn first_of(l: SyntaxNode) -> Option<SyntaxNode>;
pub open spec fn file_is_skipped(root: SyntaxNode) -> bool {
    root.slot(1) matches Slot::Node(l) && first_of(l) matches Some(s)
        && (the_comments().says(s, FormatDirective::SkipFile) || the_comments().heads(s).len() > 0 && generated(the_comments().heads(s)[0].words()))
}
impl RExpressionList {
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<AnyRExpression>)
        ensures match r { Some(e) => first_of(self.node()) == Some(e.node()) && e.fits(), None => first_of(self.node()) is None },
    { unimplemented!() }
}
pub open spec fn named(node: RIdentifier) -> Option<Seq<char>> { name_in(node.node()) }

pub mod variants { use super::*;
pub broadcast proof fn expression_is_kind(e: AnyRExpression)
    requires #[trigger] e.fits(),
    ensures
        e is RIdentifier <==> e.node().kind_of() == R_IDENTIFIER,
        e is RNamespaceExpression <==> e.node().kind_of() == R_NAMESPACE_EXPRESSION,
{}
pub broadcast proof fn selector_is_kind(e: AnyRSelector)
    requires #[trigger] e.fits(),
    ensures e is RIdentifier <==> e.node().kind_of() == R_IDENTIFIER,
{}
}
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r),
;

pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T)
    ensures r == (match x { Ok(v) => v, Err(_) => d });
/// a call: what is called, and the arguments, which are told whether they are a table
pub open spec fn call_ir(n: SyntaxNode, table: bool) -> Seq<Ir> {
    (match n.slot(0) { Slot::Node(x) => seq![Ir::Node(x, Opt::Plain)], _ => Seq::empty() })
        + (match n.slot(1) { Slot::Node(x) => seq![Ir::Node(x, Opt::Table(table))], _ => Seq::empty() })
}
impl SyntaxNode {
    /// the source text of the node, with the comments and blanks around it
    pub uninterp spec fn source(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn text_with_trivia(&self) -> (r: SyntaxNodeText) ensures r.chars() == self.source(), { unimplemented!() }
    #[verifier::external_body]
    pub fn text_range_with_trivia(&self) -> TextRange { unimplemented!() }
    #[verifier::external_body]
    pub fn descendants_with_tokens(&self, d: Direction) -> Vec<SyntaxElement> { unimplemented!() }
}
pub enum Direction { Next, Prev }
pub enum SyntaxElement { Node(SyntaxNode), Token(SyntaxToken) }
#[verifier::external_body]
pub struct SyntaxNodeText { x: u8 }
impl SyntaxNodeText {
    pub uninterp spec fn chars(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn into(self) -> (r: String) ensures r@ == self.chars(), { unimplemented!() }
}
impl Formatter<RFormatContext> {
    #[verifier::external_body]
    pub fn state_mut(&mut self) -> (r: &mut FormatState) ensures final(self).out() == old(self).out(), { unimplemented!() }
}
#[verifier::external_body]
pub struct FormatState { x: u8 }
impl FormatState {
    /// only remembers that the token was seen
    #[verifier::external_body]
    pub fn track_token(&mut self, t: &SyntaxToken) { unimplemented!() }
}
pub proof fn lemma_no_crlf(s: Seq<char>)
    ensures !has_crlf_c(s) ==> strip_c(s) == s,
    decreases s.len()
{
    if s.len() > 0 && !has_crlf_c(s) {
        let t = s.skip(1);
        assert(!has_crlf_c(t)) by { if has_crlf_c(t) { let i = choose|i: int| crlf_at_c(t, i); assert(crlf_at_c(s, i + 1)); } }
        lemma_no_crlf(t);
        assert(!crlf_at_c(s, 0));
        assert(seq![s[0]] + t =~= s);
    }
}
pub mod line_ending {
use super::*;
//@@ source crates/line_ending/src/lib.rs
//@@ assume line_ending normalize
//@@ end
//@@ assume line_ending infer
//@@ end
}
/// air's FormatNodeRule: what differs from node to node. Generic default methods are out of
/// Verus's reach: they stand below as functions.
pub trait FormatNodeRule<N: AstNode> {
    spec fn suppressed(&self, n: N) -> bool;
    spec fn kept(&self, n: N) -> Seq<Ir>;
    spec fn fields(&self, n: N) -> Seq<Ir>;
    spec fn leading(&self, n: N) -> Seq<Ir>;
    spec fn dangling(&self, n: N) -> Seq<Ir>;
    spec fn trailing(&self, n: N) -> Seq<Ir>;
    fn is_suppressed(&self, node: &N, f: &RFormatter) -> (r: bool) ensures r == self.suppressed(*node);
    fn fmt_suppressed(&self, node: &N, f: &mut RFormatter) -> (r: FormatResult<()>) ensures r is Ok ==> final(f).out() == old(f).out() + self.kept(*node);
    fn fmt_fields(&self, node: &N, f: &mut RFormatter) -> (r: FormatResult<()>) ensures r is Ok ==> final(f).out() == old(f).out() + self.fields(*node);
    fn fmt_leading_comments(&self, node: &N, f: &mut RFormatter) -> (r: FormatResult<()>) ensures r is Ok ==> final(f).out() == old(f).out() + self.leading(*node);
    fn fmt_dangling_comments(&self, node: &N, f: &mut RFormatter) -> (r: FormatResult<()>) ensures r is Ok ==> final(f).out() == old(f).out() + self.dangling(*node);
    fn fmt_trailing_comments(&self, node: &N, f: &mut RFormatter) -> (r: FormatResult<()>) ensures r is Ok ==> final(f).out() == old(f).out() + self.trailing(*node);
}

// ---------------------------------------------------------------- the code
pub mod code {
use super::*;
broadcast use {variants::expression_is_kind, variants::selector_is_kind};
//@@ source crates/air_r_formatter/src/comments_ext.rs
//@@ item fn can_have_directive
//@@   ret r
//@@ + spec
    ensures r == may_be_told(*node),
//@@ end
//@@ item fn directives
//@@   ret r
//@@   rewrite `impl Iterator<Item = Directive>` => `Items<Directive>`
//@@ + spec
    ensures
        forall|d: Directive| #[trigger] r.items().contains(d) ==> exists|i: int| 0 <= i < comments.heads(*node).len() && #[trigger] directive_of(comments.heads(*node)[i].words()) == Some(d),
        forall|i: int| 0 <= i < comments.heads(*node).len() ==> (#[trigger] directive_of(comments.heads(*node)[i].words()) matches Some(d) ==> r.items().contains(d)),
//@@ + body
    proof {
        let h = comments.heads(*node);
        assert forall|o: Seq<Option<Directive>>, d: Directive| #![trigger somes(o).contains(d)]
            o.len() == h.len() && (forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> o[i] == directive_of(h[i].words()))
            implies (somes(o).contains(d) <==> exists|i: int| 0 <= i < h.len() && #[trigger] directive_of(h[i].words()) == Some(d)) by {
            lemma_somes(o, d);
            if somes(o).contains(d) { let i = choose|i: int| 0 <= i < o.len() && o[i] == Some(d); assert(directive_of(h[i].words()) == Some(d)); }
            if exists|i: int| 0 <= i < h.len() && #[trigger] directive_of(h[i].words()) == Some(d) {
                let i = choose|i: int| 0 <= i < h.len() && #[trigger] directive_of(h[i].words()) == Some(d);
                assert(o[i] == Some(d));
            }
        }
    }
//@@ + closure 1 `|c|`
|c: &SourceComment| -> (o: Option<Directive>)
    ensures o == directive_of(c.words())
//@@ end
impl RComments {
//@@ item fn RComments<CommentsExt>::has_skip_directive
//@@   public
//@@   ret r
//@@ + spec
    ensures r == self.skips(*node),
//@@ + closure 1 `|d|`
|d: Directive| -> (o: bool)
    ensures o == (d == Directive::Format(FormatDirective::Skip))
//@@ end
//@@ item fn RComments<CommentsExt>::has_table_directive
//@@   public
//@@   ret r
//@@ + spec
    ensures r == self.tables(*node),
//@@ + closure 1 `|d|`
|d: Directive| -> (o: bool)
    ensures o == (d == Directive::Format(FormatDirective::Table))
//@@ end
}
//@@ item fn in_setting
//@@   ret r
//@@ + spec
    requires forall|n: RIdentifier, t: T| #[trigger] pred.requires((n, t)),
    ensures
        options is None ==> r == Ok::<bool, SyntaxError>(false),
        options matches Some(t) ==> match r {
            Ok(b) => b == false && name_of(node.node()) is None || (exists|n: RIdentifier, q: SyntaxResult<bool>| named(n) == name_of(node.node()) && #[trigger] pred.ensures((n, t), q) && q == Ok::<bool, SyntaxError>(b)),
            Err(_) => name_of(node.node()) is None || (exists|n: RIdentifier, q: SyntaxResult<bool>| named(n) == name_of(node.node()) && #[trigger] pred.ensures((n, t), q) && q is Err),
        },
//@@ end
//@@ item fn in_skip_setting
//@@   ret r
//@@   rewrite `fn pred(node: RIdentifier, skip: &Skip) -> SyntaxResult<bool>` => `fn pred(node: RIdentifier, skip: &Skip) -> (r: SyntaxResult<bool>) ensures match r { Ok(b) => named(node) matches Some(w) && b == skip.names().contains(w), Err(_) => named(node) is None },`
//@@ + spec
    ensures match r { Ok(b) => b == set_to_skip(node.node()), Err(_) => !set_to_skip(node.node()) },
//@@ end
//@@ item fn in_table_setting
//@@   ret r
//@@   rewrite `fn pred(node: RIdentifier, table: &Table) -> SyntaxResult<bool>` => `fn pred(node: RIdentifier, table: &Table) -> (r: SyntaxResult<bool>) ensures match r { Ok(b) => named(node) matches Some(w) && b == table.names().contains(w), Err(_) => named(node) is None },`
//@@ + spec
    ensures match r { Ok(b) => b == set_to_table(node.node()), Err(_) => !set_to_table(node.node()) },
//@@ end
//@@ source crates/air_r_formatter/src/r/auxiliary/call.rs
//@@ item struct FormatRCall
//@@   public
//@@ end
//@@ source crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
//@@ item struct FormatRCallArgumentsOptions
//@@   public
//@@   derive Clone, Copy
//@@ end
//@@ source crates/air_r_formatter/src/r/auxiliary/call.rs
//@@ item fn is_table
//@@   ret r
//@@ + spec
    ensures r == (the_comments().tables(node.node()) || set_to_table(node.node())),
//@@ end
impl FormatRCall {
//@@ item fn FormatRCall<FormatNodeRule>::is_suppressed
//@@   public
//@@   ret r
//@@ + spec
    ensures r == (the_comments().skips(node.node()) || set_to_skip(node.node())),
//@@ end
//@@ item fn FormatRCall<FormatRuleWithOptions>::with_options
//@@   public
//@@   ret r
//@@   rewrite `Self::Options` => `FormatRCallArgumentsOptions`
//@@ + spec
    ensures r.table == Some(options.table),
//@@ end
}
impl NodeOptions for FormatRCallArgumentsOptions { open spec fn opt(&self) -> Opt { Opt::Table(self.table) } }
impl FormatRCall {
//@@ item fn FormatRCall<FormatNodeRule>::fmt_fields
//@@   public
//@@   ret r
//@@ + closure 1
| | -> (r: bool)
    ensures r == (the_comments().tables(node.node()) || set_to_table(node.node())),
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + call_ir(node.node(), match self.table { Some(b) => b, None => the_comments().tables(node.node()) || set_to_table(node.node()) }),
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/root.rs
//@@ item struct FormatRRoot
//@@ end
impl FormatRRoot {
//@@ item fn FormatRRoot::is_suppression_directive
//@@   ret r
//@@ + spec
    ensures r == (directive == Some(Directive::Format(FormatDirective::SkipFile))),
//@@ end
//@@ item fn FormatRRoot<FormatNodeRule>::is_suppressed
//@@   public
//@@   ret r
//@@   rewrite `in comments` => `in it: comments.rest()`
//@@   attr #[verifier::loop_isolation(false)]
//@@ + spec
    ensures r == file_is_skipped(node.node()),
//@@ + closure 1 `|cmt|`
|cmt: &SourceComment| -> (o: &str)
    ensures o@ == cmt.words()
//@@ + closure 2 `||`
|| -> (o: Option<Directive>)
    ensures o == directive_of(first_line@)
//@@ + preloop 1
    let ghost lines = comments.items();
    proof {
        let s = first_of(node.node().slot(1)->Node_0)->Some_0;
        let h = the_comments().heads(s);
        assert(lines.len() == h.len() - 1);
        assert forall|i: int| 0 <= i < lines.len() implies (#[trigger] lines[i])@ == h[i + 1].words() by {}
        assert(directive_of(h[0].words()) != Some(Directive::Format(FormatDirective::SkipFile)));
    }
//@@ + loop 1
    invariant
        it.seq() == lines,
        forall|i: int| 0 <= i < it.index@ ==> directive_of((#[trigger] lines[i])@) != Some(Directive::Format(FormatDirective::SkipFile)),
//@@ + loopbody 1
    proof {
        let s = first_of(node.node().slot(1)->Node_0)->Some_0;
        assert(the_comments().heads(s)[it.index@ + 1].words() == comment@);
    }
//@@ + loopafter 1
    proof {
        let s = first_of(node.node().slot(1)->Node_0)->Some_0;
        let h = the_comments().heads(s);
        assert forall|i: int| 0 <= i < h.len() implies #[trigger] directive_of(h[i].words()) != Some(Directive::Format(FormatDirective::SkipFile)) by {
            if i > 0 { assert(lines[i - 1]@ == h[i].words()); }
        }
    }
//@@ end
//@@ item fn FormatRRoot<FormatNodeRule>::fmt_suppressed
//@@   public
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Text(strip_c(node.node().source()))],
//@@ + body
    proof { lemma_no_crlf(node.node().source()); }
//@@ end
}
//@@ item fn mark_visited
//@@   rewrite `in node.descendants_with_tokens(Direction::Next)` => `in it: node.descendants_with_tokens(Direction::Next)`
//@@   rewrite `in comments.leading_dangling_trailing_comments(&node)` => `in jt: comments.leading_dangling_trailing_comments(&node)`
//@@ + spec
    ensures final(f).out() == old(f).out(),
//@@ + loop 1
    invariant f.out() == old(f).out(),
//@@ + loop 2
    invariant f.out() == old(f).out(),
//@@ end
//@@ source crates/air_r_formatter/src/lib.rs
//@@ item fn FormatNodeRule::fmt
//@@   rename fmt_node<N: AstNode, R: FormatNodeRule<N>>
//@@   ret r
//@@   rewrite `&self` => `this: &R`
//@@   rewrite `self.` => `this.`
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + (if this.suppressed(*node) { this.kept(*node) } else { this.leading(*node) + (this.fields(*node) + (this.dangling(*node) + this.trailing(*node))) }),
//@@ end
//@@ item fn FormatNodeRule::is_suppressed
//@@   rename default_is_suppressed<N: AstNode, R: FormatNodeRule<N>>
//@@   ret r
//@@   rewrite `&self` => `this: &R`
//@@ + spec
    ensures r == the_comments().skips(node.node()),
//@@ end
//@@ item fn FormatNodeRule::fmt_suppressed
//@@   rename default_fmt_suppressed<N: AstNode, R: FormatNodeRule<N>>
//@@   ret r
//@@   rewrite `&self` => `this: &R`
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Verbatim(node.node())],
//@@ end
//@@ item fn FormatNodeRule::fmt_leading_comments
//@@   rename default_fmt_leading_comments<N: AstNode, R: FormatNodeRule<N>>
//@@   ret r
//@@   rewrite `&self` => `this: &R`
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Leading(node.node())],
//@@ end
//@@ item fn FormatNodeRule::fmt_dangling_comments
//@@   rename default_fmt_dangling_comments<N: AstNode, R: FormatNodeRule<N>>
//@@   ret r
//@@   rewrite `&self` => `this: &R`
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Dangling(node.node())],
//@@ end
//@@ item fn FormatNodeRule::fmt_trailing_comments
//@@   rename default_fmt_trailing_comments<N: AstNode, R: FormatNodeRule<N>>
//@@   ret r
//@@   rewrite `&self` => `this: &R`
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Trailing(node.node())],
//@@ end
}
}
fn main() {}
