// Contracts for the tables (T01): what is a row and a cell, how wide a column is, and how a cell is padded.
// edition 2024
#![feature(pattern)]
#![allow(unused_imports, non_snake_case, dead_code, non_camel_case_types, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::borrow::Cow;
use std::str::pattern::Pattern;
use RSyntaxKind::*;
pub mod tracing { macro_rules! warn_ { ($($t:tt)*) => { () } } pub(crate) use warn_ as warn; }
verus! {
global size_of usize == 8;
//@@ expand
//@@ rewrite* `SyntaxToken<RLanguage>` => `SyntaxToken`
//@@ rewrite* `AstSeparatedElement<RLanguage, RArgument>` => `SeparatedArgument`
//@@ source crates/air_r_syntax/src/generated/kind.rs
//@@ item enum RSyntaxKind
//@@   derive Clone, Copy, PartialEq, Eq, Structural, Debug
//@@ end
//@@ include inc/tree.rs
//@@ include inc/ast.rs
//@@ include inc/fmt.rs
//@@ include inc/comments_opaque.rs
//@@ include inc/endings.rs
//@@ include inc/lay_full.rs
//@@ include inc/fmt_options.rs
//@@ include inc/str_eq.rs
//@@ include inc/arguments.rs
pub mod ax {
    use super::*;
    /// a str is determined by its characters
    pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
        ensures #![trigger a@, b@] a@ == b@ ==> a == b;
    /// R's literals: digits and letters of ASCII, an integer with its `L`; texts are below 4 GiB
    pub broadcast axiom fn axiom_number(v: SyntaxNode, t: SyntaxToken)
        requires v.kind_of() == R_INTEGER_VALUE || v.kind_of() == R_DOUBLE_VALUE, v.slot(0) == Slot::Token(t),
        ensures #![trigger v.slot(0), t.bare()] ascii(t.bare()) && 1 <= t.bare().len() < LONG;
}
pub spec const LONG: int = 0x1_0000_0000;
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) as u32) < 128 }
/// `str::len`: bytes
#[verifier::external_body]
pub fn byte_len(s: &str) -> (r: usize) ensures ascii(s@) ==> r == s@.len(), { unimplemented!() }
#[verifier::external_trait_specification]
pub trait ExPattern: Sized { type ExternalTraitSpecificationFor: std::str::pattern::Pattern; }
pub uninterp spec fn pat<P>(p: P) -> Seq<char>;
pub broadcast axiom fn axiom_pat_char(c: char) ensures #[trigger] pat::<char>(c) == seq![c];
/// where `p` first stands in `s`
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub assume_specification<P: Pattern>[ str::find ](s: &str, p: P) -> (r: Option<usize>)
    ensures
        ascii(s@) ==> (r matches Some(i) ==> at(s@, pat(p), i as int) && forall|j: int| 0 <= j < i ==> !at(s@, pat(p), j)),
        r is None ==> forall|j: int| !at(s@, pat(p), j);
/// the characters of a text; texts are below 4 GiB
pub struct Chars { pub s: Ghost<Seq<char>> }
#[verifier::external_body]
pub fn chars_of(s: &String) -> (r: Chars) ensures r.s@ == s@, { unimplemented!() }
impl Chars {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.s@.len(), self.s@.len() < LONG, { unimplemented!() }
}

// ---------------------------------------------------------------- cells
/// what a cell takes up: a number by what stands in front of its point and behind it
pub enum Cell { Number(nat, Option<nat>), Words(Seq<char>) }
pub open spec fn width(c: Cell) -> nat {
    match c { Cell::Number(i, Some(d)) => i + 1 + d, Cell::Number(i, None) => i, Cell::Words(t) => t.len() }
}
pub open spec fn is_point(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == '.' && forall|j: int| 0 <= j < i ==> s[j] != '.' }
/// an integer is aligned by its `L`, which takes the place of the point
pub open spec fn integer(s: Seq<char>, c: Cell) -> bool { c == Cell::Number((s.len() - 1) as nat, Some(0)) }
pub open spec fn decimal(s: Seq<char>, c: Cell) -> bool {
    match c {
        Cell::Number(i, Some(d)) => is_point(s, i as int) && i + 1 + d == s.len(),
        Cell::Number(i, None) => i == s.len() && !s.contains('.'),
        _ => false,
    }
}
pub open spec fn literal(v: SyntaxNode, c: Cell) -> bool {
    v.slot(0) matches Slot::Token(t) && if v.kind_of() == R_INTEGER_VALUE { integer(t.bare(), c) } else { v.kind_of() == R_DOUBLE_VALUE && decimal(t.bare(), c) }
}
/// the argument printed on one line, without its comments
pub uninterp spec fn flat(a: SyntaxNode) -> Seq<char>;
pub open spec fn is_number(v: SyntaxNode) -> bool { v.kind_of() == R_INTEGER_VALUE || v.kind_of() == R_DOUBLE_VALUE }
pub open spec fn signed(v: SyntaxNode) -> bool {
    &&& v.kind_of() == R_UNARY_EXPRESSION
    &&& v.slot(0) matches Slot::Token(o) && (o.bare() == "+"@ || o.bare() == "-"@)
    &&& v.slot(1) matches Slot::Node(x) && is_number(x)
}
/// the cell of an argument
pub open spec fn is_cell(a: SyntaxNode, c: Cell) -> bool {
    match a.slot(1) {
        Slot::Node(v) =>
            if is_number(v) { literal(v, c) }
            else if signed(v) { c matches Cell::Number(i, d) && i > 0 && literal(v.slot(1)->Node_0, Cell::Number((i - 1) as nat, d)) }
            else { c == Cell::Words(flat(a)) },
        _ => c == Cell::Words(flat(a)),
    }
}
pub open spec fn shown(k: ArgKind) -> Cell {
    match k {
        ArgKind::Numeric { integer_width, fractional_width: Some(d) } => Cell::Number(integer_width as nat, Some(d as nat)),
        ArgKind::Numeric { integer_width, fractional_width: None } => Cell::Number(integer_width as nat, None),
        ArgKind::Other { text } => Cell::Words(text@),
    }
}
pub open spec fn small(k: ArgKind) -> bool {
    match k {
        ArgKind::Numeric { integer_width, fractional_width } => integer_width <= LONG && (fractional_width matches Some(d) ==> d <= LONG),
        ArgKind::Other { text } => text@.len() < LONG,
    }
}
pub open spec fn narrow(c: ColumnInfo) -> bool { (c.has_decimal ==> c.max_width > 0) && c.max_width <= 3 * LONG && c.max_value_width == c.max_width && c.max_integer_part <= LONG && c.max_fractional_part <= LONG }
/// the column is as wide as the cell needs it
pub open spec fn covers(c: ColumnInfo, x: Cell) -> bool {
    &&& width(x) <= c.max_value_width
    &&& (x matches Cell::Number(i, d) ==> i <= c.max_integer_part && (d matches Some(e) ==> c.has_decimal && e <= c.max_fractional_part))
}
/// how far every cell of the column reaches
pub open spec fn reach(c: ColumnInfo) -> nat {
    let p = (c.max_integer_part + 1 + c.max_fractional_part) as nat;
    if c.has_decimal && p > c.max_value_width { p } else { c.max_value_width as nat }
}
/// the blanks around a cell
pub open spec fn aligned(c: ColumnInfo, x: Cell, l: nat, r: nat) -> bool {
    &&& l + width(x) + r == reach(c)
    &&& x is Words ==> l == 0
    &&& c.has_decimal ==> (x matches Cell::Number(i, _) ==> l + i == c.max_integer_part)
    &&& x is Number && !c.has_decimal ==> r == 0
}
pub mod variants { use super::*;
pub broadcast proof fn value_is_kind(e: AnyRExpression)
    requires #[trigger] e.fits(),
    ensures
        (e matches AnyRExpression::AnyRValue(AnyRValue::RIntegerValue(_))) <==> e.node().kind_of() == R_INTEGER_VALUE,
        (e matches AnyRExpression::AnyRValue(AnyRValue::RDoubleValue(_))) <==> e.node().kind_of() == R_DOUBLE_VALUE,
        e is RUnaryExpression <==> e.node().kind_of() == R_UNARY_EXPRESSION,
        e matches AnyRExpression::AnyRValue(AnyRValue::RBogusValue(_)) ==> !is_number(e.node()),
{}
}
pub proof fn lemma_points()
    ensures
        forall|s: Seq<char>, i: int| #![trigger at(s, seq!['.'], i)] at(s, seq!['.'], i) <==> 0 <= i < s.len() && s[i] == '.',
        forall|s: Seq<char>| #![trigger s.contains('.')] (forall|i: int| !at(s, seq!['.'], i)) ==> !s.contains('.'),
        forall|s: Seq<char>, i: int| #![trigger is_point(s, i)] at(s, seq!['.'], i) && (forall|j: int| 0 <= j < i ==> !at(s, seq!['.'], j)) ==> is_point(s, i),
{
    assert forall|s: Seq<char>, i: int| #![trigger at(s, seq!['.'], i)] at(s, seq!['.'], i) <==> 0 <= i < s.len() && s[i] == '.' by {
        if 0 <= i < s.len() {
            assert(s.subrange(i, i + 1)[0] == s[i]);
            if s[i] == '.' { assert(s.subrange(i, i + 1) =~= seq!['.']); }
            if s.subrange(i, i + 1) == seq!['.'] { assert(seq!['.'][0] == '.'); }
        }
    }
    assert forall|s: Seq<char>| #![trigger s.contains('.')] (forall|i: int| !at(s, seq!['.'], i)) implies !s.contains('.') by {
        if s.contains('.') { let i = choose|i: int| 0 <= i < s.len() && s[i] == '.'; assert(at(s, seq!['.'], i)); }
    }
    assert forall|s: Seq<char>, i: int| #![trigger is_point(s, i)] at(s, seq!['.'], i) && (forall|j: int| 0 <= j < i ==> !at(s, seq!['.'], j)) implies is_point(s, i) by {
        assert forall|j: int| 0 <= j < i implies s[j] != '.' by { assert(!at(s, seq!['.'], j)); }
    }
}
// ---------------------------------------------------------------- rows
pub open spec fn named(e: SeparatedArgument) -> bool { e.arg() matches Ok(a) && !(a.node().slot(0) is Empty) }
/// an argument starts a row if line breaks stand in front of it; those of a hole stand in front of its comma
pub open spec fn starts(e: SeparatedArgument) -> bool { if e.arg()->Ok_0.node().slot(1) is Node { e.lines() > 0 } else { e.comma_lines() > 0 } }
/// the first `k` arguments in rows, and the row that is being filled
pub open spec fn rows_of(a: Seq<SeparatedArgument>, k: nat) -> (Seq<Seq<int>>, Seq<int>) decreases k {
    if k == 0 { (Seq::empty(), Seq::empty()) } else {
        let (d, c) = rows_of(a, (k - 1) as nat);
        if starts(a[k - 1]) && c.len() > 0 { (d.push(c), seq![k - 1]) } else { (d, c.push(k - 1)) }
    }
}
pub open spec fn all_rows(a: Seq<SeparatedArgument>, k: nat) -> Seq<Seq<int>> {
    let (d, c) = rows_of(a, k);
    if c.len() > 0 { d.push(c) } else { d }
}
// ---------------------------------------------------------------- the code
pub mod types {
use super::*;
//@@ source crates/air_r_formatter/src/call_arguments_table.rs
//@@ item enum ArgKind
//@@   public
//@@ end
//@@ item struct ColumnInfo
//@@   public
//@@ end
/// derive(Default)
impl Default for ColumnInfo {
    #[verifier::external_body]
    fn default() -> (r: ColumnInfo) ensures nothing(r), { unimplemented!() }
}
//@@ item struct ArgData
//@@   public
//@@ end
//@@ item struct TableInfo
//@@   public
//@@ end
pub open spec fn nothing(c: ColumnInfo) -> bool { !c.has_decimal && c.max_width == 0 && c.max_value_width == 0 && c.max_integer_part == 0 && c.max_fractional_part == 0 }
/// the cell of argument `i`
pub open spec fn is_data(d: ArgData, a: Seq<SeparatedArgument>, i: int) -> bool {
    &&& 0 <= i < a.len()
    &&& a[i].arg() == Ok::<RArgument, SyntaxError>(d.node)
    &&& a[i].comma() == Ok::<Option<SyntaxToken>, SyntaxError>(d.separator)
    &&& d.is_last_in_list == (i == a.len() - 1)
    &&& d.node.node().slot(0) is Empty
    &&& is_cell(d.node.node(), shown(d.kind))
    &&& small(d.kind)
}
pub open spec fn is_row(r: Seq<ArgData>, s: Seq<int>, a: Seq<SeparatedArgument>) -> bool {
    r.len() == s.len() && forall|j: int| 0 <= j < r.len() ==> is_data(#[trigger] r[j], a, s[j])
}
pub open spec fn are_rows(r: Seq<Vec<ArgData>>, s: Seq<Seq<int>>, a: Seq<SeparatedArgument>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> is_row((#[trigger] r[i])@, s[i], a)
}
/// every cell of the row has a column that covers it
pub open spec fn covered(r: Seq<ArgData>, c: Seq<ColumnInfo>) -> bool {
    r.len() <= c.len() && forall|j: int| 0 <= j < r.len() ==> covers(c[j], shown((#[trigger] r[j]).kind))
}
pub open spec fn all_covered(r: Seq<Vec<ArgData>>, c: Seq<ColumnInfo>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> covered((#[trigger] r[i])@, c)
}
/// row `i`, the last one being the one that is filled
pub open spec fn row_at(r: Seq<Vec<ArgData>>, l: Seq<ArgData>, i: int) -> Seq<ArgData> { if 0 <= i < r.len() { r[i]@ } else if i == r.len() { l } else { Seq::empty() } }
/// column `j` is no wider than some cell of it needs
pub open spec fn snug(c: ColumnInfo, j: int, r: Seq<Vec<ArgData>>, l: Seq<ArgData>) -> bool {
    &&& exists|i: int| j < (#[trigger] row_at(r, l, i)).len() && width(shown(row_at(r, l, i)[j].kind)) == c.max_value_width
    &&& c.has_decimal ==> exists|i: int| j < (#[trigger] row_at(r, l, i)).len() && (shown(row_at(r, l, i)[j].kind) matches Cell::Number(_, Some(_)))
    &&& c.max_integer_part > 0 ==> exists|i: int| j < (#[trigger] row_at(r, l, i)).len() && (shown(row_at(r, l, i)[j].kind) matches Cell::Number(n, _) && n == c.max_integer_part)
    &&& c.max_fractional_part > 0 ==> exists|i: int| j < (#[trigger] row_at(r, l, i)).len() && (shown(row_at(r, l, i)[j].kind) matches Cell::Number(_, Some(n)) && n == c.max_fractional_part)
}
pub open spec fn all_snug(c: Seq<ColumnInfo>, r: Seq<Vec<ArgData>>, l: Seq<ArgData>) -> bool { forall|j: int| 0 <= j < c.len() ==> snug(#[trigger] c[j], j, r, l) }
/// the column with one more cell
pub open spec fn adds(c: ColumnInfo, d: ColumnInfo, x: Cell) -> bool {
    &&& d.max_value_width == if width(x) > c.max_value_width { width(x) as int } else { c.max_value_width as int }
    &&& match x {
        Cell::Number(i, f) => {
            &&& d.max_integer_part == if i > c.max_integer_part { i as int } else { c.max_integer_part as int }
            &&& d.has_decimal == (c.has_decimal || f is Some)
            &&& d.max_fractional_part == if f is Some && f->0 > c.max_fractional_part { f->0 as int } else { c.max_fractional_part as int }
        },
        Cell::Words(_) => d.max_integer_part == c.max_integer_part && d.has_decimal == c.has_decimal && d.max_fractional_part == c.max_fractional_part,
    }
}
/// the rows go on
pub open spec fn onward(r: Seq<Vec<ArgData>>, l: Seq<ArgData>, s: Seq<Vec<ArgData>>, m: Seq<ArgData>) -> bool {
    forall|i: int| #![trigger row_at(r, l, i)] row_at(r, l, i).is_prefix_of(row_at(s, m, i))
}
/// and a cell is added to column `k`
pub open spec fn step(c: Seq<ColumnInfo>, d: Seq<ColumnInfo>, s: Seq<Vec<ArgData>>, m: Seq<ArgData>) -> bool {
    let k = m.len() - 1;
    &&& 0 <= k <= c.len()
    &&& d.len() == if k < c.len() { c.len() as int } else { k + 1 }
    &&& forall|j: int| 0 <= j < c.len() && j != k ==> #[trigger] d[j] == c[j]
    &&& if k < c.len() { adds(c[k], d[k], shown(m[k].kind)) } else { exists|z: ColumnInfo| nothing(z) && adds(z, d[k], shown(m[k].kind)) }
}
/// the rows and columns of the first arguments; the others follow the table
pub open spec fn is_table(r: Seq<Vec<ArgData>>, c: Seq<ColumnInfo>, l: Seq<SeparatedArgument>, a: Seq<SeparatedArgument>) -> bool {
    let n = a.len() - l.len();
    &&& 0 <= n && l == a.skip(n)
    &&& forall|i: int| 0 <= i < n ==> !named(#[trigger] a[i])
    &&& n < a.len() ==> named(a[n])
    &&& are_rows(r, all_rows(a, n as nat), a)
    &&& all_covered(r, c)
    &&& forall|j: int| 0 <= j < c.len() ==> narrow(#[trigger] c[j])
    &&& all_snug(c, r, Seq::empty())
}
// what is printed
#[verifier::opaque]
pub open spec fn blanks(n: nat) -> Seq<Ir> { if n > 0 { seq![Ir::Text(Seq::new(n, |i: int| ' '))] } else { Seq::empty() } }
/// the blanks around a cell: numbers stand with their points below each other, or to the right; everything else to the left
#[verifier::opaque]
pub open spec fn left(c: ColumnInfo, x: Cell) -> nat {
    match x {
        Cell::Words(_) => 0,
        Cell::Number(i, _) => if c.has_decimal { (c.max_integer_part - i) as nat } else { (reach(c) - width(x)) as nat },
    }
}
#[verifier::opaque]
pub open spec fn right(c: ColumnInfo, x: Cell) -> nat { (reach(c) - width(x) - left(c, x)) as nat }
pub open spec fn printed(d: ArgData) -> Seq<Ir> {
    match d.kind {
        ArgKind::Numeric { .. } => argument_ir(d.node.node()),
        ArgKind::Other { text } => if text@.len() > 0 { seq![Ir::Text(text@)] } else { Seq::empty() },
    }
}
pub open spec fn comma(d: ArgData) -> Seq<Ir> { match d.separator { Some(t) => lay(Lay::Blank) + seq![Ir::Token(t)], None => Seq::empty() } }
/// a cell and its comma, its comments outside of its blanks; those of the last argument are not padded
pub open spec fn cell_ir(d: ArgData, c: ColumnInfo) -> Seq<Ir> {
    seq![Ir::Leading(d.node.node())] + blanks(left(c, shown(d.kind))) + printed(d) + seq![Ir::Trailing(d.node.node())] + (if d.is_last_in_list { Seq::empty() } else { blanks(right(c, shown(d.kind))) })
        + comma(d) + lay(Lay::Blank)
}
pub open spec fn row_break(d: ArgData) -> Seq<Ir> { if d.node.node().lines() <= 1 { lay(Lay::Hard) } else { lay(Lay::Empty) } }
#[verifier::opaque]
pub open spec fn row_ir(i: int, r: Seq<ArgData>, c: Seq<ColumnInfo>, k: nat) -> Seq<Ir> decreases k {
    if k == 0 { Seq::empty() } else { row_ir(i, r, c, (k - 1) as nat) + (if k == 1 && i > 0 { row_break(r[0]) } else { Seq::empty() }) + cell_ir(r[k - 1], c[k - 1]) }
}
pub open spec fn rows_ir(r: Seq<Vec<ArgData>>, c: Seq<ColumnInfo>, k: nat) -> Seq<Ir> decreases k {
    if k == 0 { Seq::empty() } else { rows_ir(r, c, (k - 1) as nat) + row_ir(k - 1, r[k - 1]@, c, r[k - 1]@.len()) }
}
pub open spec fn rest_ir(l: Seq<SeparatedArgument>, k: nat) -> Seq<Ir> decreases k {
    if k == 0 { Seq::empty() } else { rest_ir(l, (k - 1) as nat) + (if l[k - 1].lines() <= 1 { lay(Lay::SoftOrBlank) } else { lay(Lay::Empty) }) + l[k - 1].ir() }
}
pub open spec fn after_ir(l: Seq<SeparatedArgument>) -> Seq<Ir> { if l.len() == 0 { Seq::empty() } else { lay(Lay::Hard) + rest_ir(l, l.len()) } }
pub open spec fn table_ir(n: SyntaxNode, r: Seq<Vec<ArgData>>, c: Seq<ColumnInfo>, l: Seq<SeparatedArgument>) -> Seq<Ir> {
    lay(Lay::Open(Tag::Group(true))) + (seq![Ir::Token(n.slot(0)->Token_0)]
        + (lay(Lay::Open(Tag::SoftBlock)) + (rows_ir(r, c, r.len()) + after_ir(l)) + lay(Lay::Close(Tag::SoftBlock)))
        + seq![Ir::Token(n.slot(2)->Token_0)]) + lay(Lay::Close(Tag::Group(true)))
}
/// what stands at slot `i`
pub open spec fn it(n: SyntaxNode, i: int) -> Seq<Ir> { match n.slot(i) { Slot::Node(x) => seq![Ir::Node(x, Opt::Plain)], _ => Seq::empty() } }
pub open spec fn argument_ir(n: SyntaxNode) -> Seq<Ir> { it(n, 0) + (if n.slot(0) is Empty { Seq::empty() } else { lay(Lay::Blank) }) + it(n, 1) }
pub open spec fn list_of(n: SyntaxNode) -> SyntaxNode { n.slot(1)->Node_0 }
/// what the rule prints without a table
pub uninterp spec fn call_like(n: SyntaxNode) -> Seq<Ir>;
/// FormatRCallArguments
pub struct FormatRCallArguments;
pub struct Snapshot { pub s: Ghost<Seq<Ir>> }
impl Formatter<RFormatContext> {
    #[verifier::external_body]
    pub fn snapshot(&self) -> (r: Snapshot) ensures r.s@ == self.out(), { unimplemented!() }
    #[verifier::external_body]
    pub fn restore_snapshot(&mut self, s: Snapshot) ensures final(self).out() == s.s@, { unimplemented!() }
}
#[verifier::external_body]
pub fn no_place() -> TextSize { unimplemented!() }
/// `str::repeat`
#[verifier::external_body]
pub fn repeated(s: &'static str, n: usize) -> (r: &'static str) ensures s@.len() == 1 ==> r@ == Seq::new(n as nat, |i: int| s@[0]), { unimplemented!() }
}
pub mod laws {
use super::*;
pub proof fn lemma_keeps(c: ColumnInfo, j: int, r: Seq<Vec<ArgData>>, l: Seq<ArgData>, s: Seq<Vec<ArgData>>, m: Seq<ArgData>)
    requires snug(c, j, r, l), onward(r, l, s, m), 0 <= j,
    ensures snug(c, j, s, m),
{
    assert forall|i: int| j < (#[trigger] row_at(r, l, i)).len() implies j < row_at(s, m, i).len() && row_at(s, m, i)[j] == row_at(r, l, i)[j] by {
        assert(row_at(r, l, i).is_prefix_of(row_at(s, m, i)));
    }
    let i = choose|i: int| j < (#[trigger] row_at(r, l, i)).len() && width(shown(row_at(r, l, i)[j].kind)) == c.max_value_width;
    assert(j < row_at(s, m, i).len());
    if c.has_decimal {
        let i = choose|i: int| j < (#[trigger] row_at(r, l, i)).len() && (shown(row_at(r, l, i)[j].kind) matches Cell::Number(_, Some(_)));
        assert(j < row_at(s, m, i).len());
    }
    if c.max_integer_part > 0 {
        let i = choose|i: int| j < (#[trigger] row_at(r, l, i)).len() && (shown(row_at(r, l, i)[j].kind) matches Cell::Number(n, _) && n == c.max_integer_part);
        assert(j < row_at(s, m, i).len());
    }
    if c.max_fractional_part > 0 {
        let i = choose|i: int| j < (#[trigger] row_at(r, l, i)).len() && (shown(row_at(r, l, i)[j].kind) matches Cell::Number(_, Some(n)) && n == c.max_fractional_part);
        assert(j < row_at(s, m, i).len());
    }
}
pub proof fn lemma_adds(c: ColumnInfo, d: ColumnInfo, j: int, r: Seq<Vec<ArgData>>, l: Seq<ArgData>, s: Seq<Vec<ArgData>>, m: Seq<ArgData>)
    requires snug(c, j, r, l) || nothing(c), onward(r, l, s, m), 0 <= j, j == m.len() - 1, adds(c, d, shown(m[j].kind)),
    ensures snug(d, j, s, m),
{
    assert(row_at(s, m, s.len() as int) == m);
    if snug(c, j, r, l) { lemma_keeps(c, j, r, l, s, m); }
}
pub broadcast proof fn lemma_step(c: Seq<ColumnInfo>, r: Seq<Vec<ArgData>>, l: Seq<ArgData>, d: Seq<ColumnInfo>, s: Seq<Vec<ArgData>>, m: Seq<ArgData>)
    requires #[trigger] all_snug(c, r, l), onward(r, l, s, m), step(c, d, s, m) || d == c,
    ensures #[trigger] all_snug(d, s, m),
{
    assert forall|j: int| 0 <= j < d.len() implies snug(#[trigger] d[j], j, s, m) by {
        if d == c || j != m.len() - 1 { lemma_keeps(c[j], j, r, l, s, m); }
        else if j < c.len() { lemma_adds(c[j], d[j], j, r, l, s, m); }
        else {
            let z = choose|z: ColumnInfo| nothing(z) && adds(z, d[j], shown(m[j].kind));
            lemma_adds(z, d[j], j, r, l, s, m);
        }
    }
}
pub broadcast proof fn lemma_covered(r: Seq<Vec<ArgData>>, c: Seq<ColumnInfo>, d: Seq<ColumnInfo>, m: Seq<ArgData>)
    requires #[trigger] all_covered(r, c), #[trigger] step(c, d, r, m),
    ensures all_covered(r, d),
{}
}
pub mod code {
use super::*;
broadcast use {laws::lemma_step, laws::lemma_covered, variants::value_is_kind, ax::axiom_str_ext, ax::axiom_number, axiom_pat_char, str_eq::group_str_eq};
//@@ source crates/air_r_formatter/src/call_arguments_table.rs
//@@ item const DOT_WIDTH
//@@ end
//@@ impl ColumnInfo
//@@ item fn ColumnInfo::padding
//@@   public
//@@   ret r
//@@ + spec
    requires covers(*self, shown(*kind)), narrow(*self), small(*kind),
    ensures aligned(*self, shown(*kind), r.0 as nat, r.1 as nat), r.0 == left(*self, shown(*kind)), r.1 == right(*self, shown(*kind)),
//@@ + body
    proof { reveal(left); reveal(right); }
//@@ end
//@@ item fn ColumnInfo::simple_padding
//@@   ret r
//@@ + spec
    requires covers(*self, shown(*kind)), narrow(*self), small(*kind), !self.has_decimal,
    ensures aligned(*self, shown(*kind), r.0 as nat, r.1 as nat),
//@@ end
//@@ item fn ColumnInfo::decimal_padding
//@@   ret r
//@@ + spec
    requires covers(*self, shown(*kind)), narrow(*self), small(*kind), self.has_decimal,
    ensures aligned(*self, shown(*kind), r.0 as nat, r.1 as nat),
//@@ end
//@@ endimpl
//@@ impl ArgKind
//@@ item fn ArgKind::width
//@@   rewrite `text.chars()` => `chars_of(text)`
//@@   ret r
//@@ + spec
    requires small(*self),
    ensures r == width(shown(*self)),
//@@ end
//@@ item fn ArgKind::parse_integer
//@@   rewrite? `text.len()` => `byte_len(text)`
//@@   ret r
//@@ + spec
    requires value.fits(),
    ensures r matches Ok(k) ==> k is Numeric && small(k) && literal(value.node(), shown(k)) && shown(k)->Number_0 < LONG,
//@@ end
//@@ item fn ArgKind::parse_decimal
//@@   rewrite? `text.len()` => `byte_len(text)`
//@@   ret r
//@@ + spec
    requires value.fits(),
    ensures r matches Ok(k) ==> k is Numeric && small(k) && literal(value.node(), shown(k)) && shown(k)->Number_0 < LONG,
//@@ + body
    proof { lemma_points(); }
//@@ end
    /// printed on one line by the argument's own rule; None where it takes several
    #[verifier::external_body]
    fn parse_other(arg: &RArgument, f: &mut RFormatter) -> (r: FormatResult<Option<ArgKind>>)
        ensures r matches Ok(Some(k)) ==> shown(k) == Cell::Words(flat(arg.node())) && small(k),
    { unimplemented!() }
//@@ item fn ArgKind::parse_unary
//@@   ret r
//@@ + spec
    requires arg.fits(), arg.node().slot(1) == Slot::Node(unary.node()), unary.fits(),
    ensures r matches Ok(Some(k)) ==> small(k) && is_cell(arg.node(), shown(k)),
//@@ + body
    proof { reveal_strlit("+"); reveal_strlit("-"); }
//@@ end
//@@ item fn ArgKind::parse
//@@   ret r
//@@ + spec
    requires arg.fits(),
    ensures r matches Ok(Some(k)) ==> small(k) && is_cell(arg.node(), shown(k)),
//@@ end
//@@ endimpl
pub proof fn lemma_skips(a: Seq<SeparatedArgument>)
    ensures
        a.skip(0) == a,
        forall|k: int| 0 <= k < a.len() ==> #[trigger] a.skip(k).skip(1) == a.skip(k + 1),
        forall|n: int, k: int| 0 <= n <= k < a.len() ==> #[trigger] a.subrange(n, k).push(a[k]) == a.subrange(n, k + 1),
        forall|n: int| 0 <= n <= a.len() ==> #[trigger] a.subrange(n, n) == Seq::<SeparatedArgument>::empty(),
        forall|n: int| 0 <= n <= a.len() ==> a.skip(n) == #[trigger] a.subrange(n, a.len() as int),
{
    assert(a.skip(0) =~= a);
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] a.skip(k).skip(1) == a.skip(k + 1) by { assert(a.skip(k).skip(1) =~= a.skip(k + 1)); }
    assert forall|n: int, k: int| 0 <= n <= k < a.len() implies #[trigger] a.subrange(n, k).push(a[k]) == a.subrange(n, k + 1) by { assert(a.subrange(n, k).push(a[k]) =~= a.subrange(n, k + 1)); }
    assert forall|n: int| 0 <= n <= a.len() implies #[trigger] a.subrange(n, n) == Seq::<SeparatedArgument>::empty() by { assert(a.subrange(n, n) =~= Seq::empty()); }
    assert forall|n: int| 0 <= n <= a.len() implies a.skip(n) == #[trigger] a.subrange(n, a.len() as int) by { assert(a.skip(n) =~= a.subrange(n, a.len() as int)); }
}
//@@ item fn build_table_impl
//@@   rewrite `for (i, arg) in &mut items` => `while let Some((i, arg)) = items.next()`
//@@   attr #[verifier::loop_isolation(false)]
//@@   ret r
//@@ + spec
    ensures r matches Ok(Some(t)) ==> is_table(t.rows@, t.cols@, t.remaining@, args_of(args.node())),
//@@ + body
    proof { lemma_skips(args_of(args.node())); }
//@@ + loopbody 1
    let ghost before = (cols@, rows@, current_row@);
//@@ + loop 1
    invariant
        items.i@ == args_of(args.node()).len() - items.s@.len(),
        0 <= items.i@ - remaining@.len(),
        items.s@ == args_of(args.node()).skip(items.i@),
        remaining@ == args_of(args.node()).subrange(items.i@ - remaining@.len(), items.i@),
        forall|i: int| 0 <= i < items.i@ - remaining@.len() ==> !named(#[trigger] args_of(args.node())[i]),
        remaining@.len() > 0 ==> named(args_of(args.node())[items.i@ - remaining@.len()]),
        are_rows(rows@, rows_of(args_of(args.node()), (items.i@ - remaining@.len()) as nat).0, args_of(args.node())),
        is_row(current_row@, rows_of(args_of(args.node()), (items.i@ - remaining@.len()) as nat).1, args_of(args.node())),
        all_covered(rows@, cols@),
        covered(current_row@, cols@),
        forall|j: int| 0 <= j < cols@.len() ==> narrow(#[trigger] cols@[j]),
        all_snug(cols@, rows@, current_row@),
    decreases items.s@.len(),
//@@ + loop 2
    invariant
        column_index == current_row@.len(),
        before.0.len() <= cols@.len(),
        cols@.len() <= before.0.len() || cols@.len() <= column_index + 1,
        forall|j: int| 0 <= j < before.0.len() ==> #[trigger] cols@[j] == before.0[j],
        forall|j: int| before.0.len() <= j < cols@.len() ==> nothing(#[trigger] cols@[j]),
    decreases column_index + 1 - cols@.len(),
//@@ end
//@@ item fn build_table
//@@   public
//@@   ret r
//@@ + spec
    ensures
        final(f).out() == old(f).out(),
        r matches Ok(Some(t)) ==> is_table(t.rows@, t.cols@, t.remaining@, args_of(args.node())),
//@@ end
//@@ source crates/air_r_formatter/src/r/auxiliary/argument.rs
//@@ item fn fmt_argument_fields
//@@   public
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + argument_ir(node.node()),
//@@ end
//@@ source crates/air_r_formatter/src/call_arguments_table.rs
//@@ item fn write_spaces
//@@   public
//@@   rewrite `&" ".repeat(count)` => `repeated(" ", count)`
//@@   rewrite `0.into()` => `no_place()`
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + blanks(count as nat),
//@@ + body
    proof { reveal_strlit(" "); reveal(blanks); }
//@@ end
}
pub mod printed {
use super::*;
pub proof fn lemma_cell(b: Seq<Ir>, i: int, r: Seq<ArgData>, c: Seq<ColumnInfo>, k: nat)
    requires k < r.len(),
    ensures
        b + row_ir(i, r, c, k) + (if k == 0 && i > 0 { row_break(r[k as int]) } else { Seq::empty() }) + seq![Ir::Leading(r[k as int].node.node())] + blanks(left(c[k as int], shown(r[k as int].kind))) + printed(r[k as int])
            + seq![Ir::Trailing(r[k as int].node.node())] + (if r[k as int].is_last_in_list { Seq::empty() } else { blanks(right(c[k as int], shown(r[k as int].kind))) }) + comma(r[k as int]) + lay(Lay::Blank)
        == b + row_ir(i, r, c, k + 1),
{
    reveal(row_ir);
    reveal_with_fuel(row_ir, 2);
    let x = b + row_ir(i, r, c, k) + (if k == 0 && i > 0 { row_break(r[k as int]) } else { Seq::empty() }) + seq![Ir::Leading(r[k as int].node.node())] + blanks(left(c[k as int], shown(r[k as int].kind))) + printed(r[k as int])
            + seq![Ir::Trailing(r[k as int].node.node())] + (if r[k as int].is_last_in_list { Seq::empty() } else { blanks(right(c[k as int], shown(r[k as int].kind))) }) + comma(r[k as int]) + lay(Lay::Blank);
    assert(x =~= b + (row_ir(i, r, c, k) + (if k == 0 && i > 0 { row_break(r[k as int]) } else { Seq::empty() }) + cell_ir(r[k as int], c[k as int])));
}
pub proof fn lemma_empty_columns()
    ensures forall|c: ColumnInfo, x: Cell| narrow(c) && c.max_width == 0 && #[trigger] covers(c, x) ==> left(c, x) == 0 && right(c, x) == 0,
{ reveal(left); reveal(right); }
//@@ source crates/air_r_formatter/src/call_arguments_table.rs
impl FormatRCallArguments {
    #[verifier::external_body]
    fn fmt_call_like(&self, node: &RCallArguments, f: &mut RFormatter) -> (r: FormatResult<()>)
        ensures r is Ok ==> final(f).out() == old(f).out() + call_like(node.node()),
    { unimplemented!() }
//@@ item fn FormatRCallArguments::fmt_table
//@@   rewrite `.map(Some)` => `.map(|x: ()| -> (r: Option<()>) ensures r == Some(x) { Some(x) })`
//@@   rewrite `0.into()` => `no_place()`
//@@   rewrite `in rows.iter().enumerate()` => `in it: numbered(&rows)`
//@@   rewrite `in row.iter().enumerate()` => `in jt: numbered(row)`
//@@   rewrite `in table.remaining.iter()` => `in kt: table.remaining.iter()`
//@@   attr #[verifier::loop_isolation(false)]
//@@   ret r
//@@ + spec
    ensures
        r == Ok::<Option<()>, FormatError>(None) ==> final(f).out() == old(f).out(),
        r == Ok::<Option<()>, FormatError>(Some(())) ==>
            if args_of(list_of(node.node())).len() == 0 { final(f).out() == old(f).out() + call_like(node.node()) }
            else { exists|r: Seq<Vec<ArgData>>, c: Seq<ColumnInfo>, l: Seq<SeparatedArgument>|
                #[trigger] is_table(r, c, l, args_of(list_of(node.node()))) && final(f).out() == old(f).out() + table_ir(node.node(), r, c, l) },
//@@ + body
    proof { lemma_empty_columns(); }
//@@ + says 1
rows_ir(rows@, column_info@, rows@.len())
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + rows_ir(rows@, column_info@, rows@.len()),
//@@ + says 2
after_ir(table.remaining@)
|f: &mut RFormatter| -> (r: FormatResult<()>)
    ensures r is Ok ==> final(f).out() == old(f).out() + after_ir(table.remaining@),
//@@ + loop 1
    invariant
        it.seq().len() == rows@.len(),
        forall|i: int| 0 <= i < rows@.len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == rows@[i],
        f.out() == old(f).out() + rows_ir(rows@, column_info@, it.index@ as nat),
//@@ + loopbody 1
    proof { reveal_with_fuel(row_ir, 1); assert(row_ir(row_i as int, row@, column_info@, 0) =~= Seq::empty()); }
//@@ + loop 2
    invariant
        jt.seq().len() == row@.len(),
        forall|i: int| 0 <= i < row@.len() ==> (#[trigger] jt.seq()[i]).0 == i && *jt.seq()[i].1 == row@[i],
        f.out() == old(f).out() + rows_ir(rows@, column_info@, row_i as nat) + row_ir(row_i as int, row@, column_info@, jt.index@ as nat),
//@@ + loopbody 2
    let ghost o = f.out();
    proof { lemma_cell(old(f).out() + rows_ir(rows@, column_info@, row_i as nat), row_i as int, row@, column_info@, col_j as nat); }
    let ghost l = o + (if col_j == 0 && row_i > 0 { row_break(*arg_data) } else { Seq::empty() });
    let ghost c = column_info@[col_j as int];
    let ghost x = shown(arg_data.kind);
    let ghost n = arg_data.node.node();
//@@ + before `let (left_pad, right_pad)`
    assert(f.out() == l);
//@@ + before `match &arg_data.kind`
    assert(left_pad == left(c, x) && right_pad == right(c, x));
    let ghost l2 = f.out();
    assert(l2 == l + seq![Ir::Leading(n)] + blanks(left(c, x)));
//@@ + before `if !arg_data.is_last_in_list { write_spaces(right_pad, f)?; }`
    let ghost l3 = f.out();
    assert(l3 == l2 + printed(*arg_data) + seq![Ir::Trailing(n)]);
//@@ + before `if let Some(sep)`
    let ghost l4 = f.out();
    assert(l4 == l3 + (if arg_data.is_last_in_list { Seq::empty() } else { blanks(right(c, x)) }));
//@@ + before `write!(f, [space()])`
    let ghost l5 = f.out();
    assert(l5 == l4 + comma(*arg_data));
//@@ + loop 3
    invariant
        f.out() == old(f).out() + (lay(Lay::Hard) + rest_ir(table.remaining@, kt.index@ as nat)),
//@@ end
}
}
use types::*;
use code::*;
}
fn main() {}
