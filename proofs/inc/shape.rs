// What the parser makes of a syntax tree: events (nodes opened and closed, tokens) and leaves.
pub use tree_sitter::Node;
pub type Ev = Event<RSyntaxKind>;
pub struct Out { pub x: Seq<Leaf>, pub e: Seq<Ev> }
pub open spec fn nil() -> Out { Out { x: seq![], e: seq![] } }
pub open spec fn cat(a: Out, b: Out) -> Out { Out { x: a.x + b.x, e: a.e + b.e } }
pub open spec fn start(k: RSyntaxKind) -> Out { Out { x: seq![], e: seq![Event::Start { kind: k, forward_parent: None }] } }
pub open spec fn finish() -> Out { Out { x: seq![], e: seq![Event::Finish] } }
pub open spec fn token_out(n: Node, k: RSyntaxKind) -> Out {
    Out { x: seq![Leaf { s: n.s(), e: n.e(), comment: false }], e: seq![Event::Token { kind: k, end: TextSize { raw: n.e() as u32 } }] }
}
pub open spec fn comment_out(n: Node) -> Out { Out { x: seq![Leaf { s: n.s(), e: n.e(), comment: true }], e: seq![] } }

/// nodes that become one node around what their children become
pub open spec fn is_simple(k: RSyntaxKind) -> bool {
    matches!(k, RSyntaxKind::R_ROOT | RSyntaxKind::R_STRING_VALUE | RSyntaxKind::R_UNARY_EXPRESSION | RSyntaxKind::R_BINARY_EXPRESSION | RSyntaxKind::R_FUNCTION_DEFINITION | RSyntaxKind::R_FOR_STATEMENT | RSyntaxKind::R_WHILE_STATEMENT | RSyntaxKind::R_REPEAT_STATEMENT | RSyntaxKind::R_PARENTHESIZED_EXPRESSION | RSyntaxKind::R_EXTRACT_EXPRESSION | RSyntaxKind::R_NAMESPACE_EXPRESSION | RSyntaxKind::R_NA_EXPRESSION)
}
/// nodes whose children are grouped
pub open spec fn is_call(k: RSyntaxKind) -> bool { matches!(k, RSyntaxKind::R_CALL | RSyntaxKind::R_SUBSET | RSyntaxKind::R_SUBSET2) }
pub open spec fn is_args(k: RSyntaxKind) -> bool { matches!(k, RSyntaxKind::R_CALL_ARGUMENTS | RSyntaxKind::R_SUBSET_ARGUMENTS | RSyntaxKind::R_SUBSET2_ARGUMENTS) }
pub open spec fn is_list(k: RSyntaxKind) -> bool {
    is_call(k) || is_args(k) || matches!(k, RSyntaxKind::R_PARAMETERS | RSyntaxKind::R_PARAMETER | RSyntaxKind::R_IF_STATEMENT | RSyntaxKind::R_ARGUMENT | RSyntaxKind::R_BRACED_EXPRESSIONS)
}
pub open spec fn is_token(k: RSyntaxKind) -> bool {
    matches!(k, RSyntaxKind::STRING_CONTENT | RSyntaxKind::SEMICOLON | RSyntaxKind::COMMA | RSyntaxKind::TILDE | RSyntaxKind::ASSIGN | RSyntaxKind::SUPER_ASSIGN | RSyntaxKind::WALRUS | RSyntaxKind::ASSIGN_RIGHT | RSyntaxKind::SUPER_ASSIGN_RIGHT | RSyntaxKind::EQUAL | RSyntaxKind::OR | RSyntaxKind::AND | RSyntaxKind::OR2 | RSyntaxKind::AND2 | RSyntaxKind::LESS_THAN | RSyntaxKind::LESS_THAN_OR_EQUAL_TO | RSyntaxKind::GREATER_THAN | RSyntaxKind::GREATER_THAN_OR_EQUAL_TO | RSyntaxKind::EQUAL2 | RSyntaxKind::NOT_EQUAL | RSyntaxKind::PLUS | RSyntaxKind::MINUS | RSyntaxKind::MULTIPLY | RSyntaxKind::DIVIDE | RSyntaxKind::EXPONENTIATE | RSyntaxKind::EXPONENTIATE2 | RSyntaxKind::PIPE | RSyntaxKind::SPECIAL | RSyntaxKind::COLON | RSyntaxKind::COLON2 | RSyntaxKind::COLON3 | RSyntaxKind::DOLLAR | RSyntaxKind::AT | RSyntaxKind::BANG | RSyntaxKind::WAT | RSyntaxKind::BACKSLASH | RSyntaxKind::STRING_OPEN | RSyntaxKind::STRING_CLOSE | RSyntaxKind::FUNCTION_KW | RSyntaxKind::FOR_KW | RSyntaxKind::IN_KW | RSyntaxKind::WHILE_KW | RSyntaxKind::REPEAT_KW | RSyntaxKind::IF_KW | RSyntaxKind::ELSE_KW | RSyntaxKind::NA_LOGICAL_KW | RSyntaxKind::NA_INTEGER_KW | RSyntaxKind::NA_DOUBLE_KW | RSyntaxKind::NA_COMPLEX_KW | RSyntaxKind::NA_CHARACTER_KW | RSyntaxKind::L_PAREN | RSyntaxKind::R_PAREN | RSyntaxKind::L_BRACK | RSyntaxKind::R_BRACK | RSyntaxKind::L_BRACK2 | RSyntaxKind::R_BRACK2 | RSyntaxKind::L_CURLY | RSyntaxKind::R_CURLY)
}
/// a node around one token
pub open spec fn is_value(k: RSyntaxKind) -> bool { matches!(k, RSyntaxKind::R_DOUBLE_VALUE | RSyntaxKind::R_IDENTIFIER | RSyntaxKind::R_DOTS | RSyntaxKind::R_DOT_DOT_I | RSyntaxKind::R_NEXT_EXPRESSION | RSyntaxKind::R_BREAK_EXPRESSION | RSyntaxKind::R_TRUE_EXPRESSION | RSyntaxKind::R_FALSE_EXPRESSION | RSyntaxKind::R_NULL_EXPRESSION | RSyntaxKind::R_INF_EXPRESSION | RSyntaxKind::R_NAN_EXPRESSION | RSyntaxKind::R_INTEGER_VALUE | RSyntaxKind::R_COMPLEX_VALUE) }
pub open spec fn literal(k: RSyntaxKind) -> RSyntaxKind {
    match k {
        RSyntaxKind::R_DOUBLE_VALUE => RSyntaxKind::R_DOUBLE_LITERAL,
        RSyntaxKind::R_IDENTIFIER => RSyntaxKind::IDENT,
        RSyntaxKind::R_DOTS => RSyntaxKind::DOTS,
        RSyntaxKind::R_DOT_DOT_I => RSyntaxKind::DOTDOTI,
        RSyntaxKind::R_NEXT_EXPRESSION => RSyntaxKind::NEXT_KW,
        RSyntaxKind::R_BREAK_EXPRESSION => RSyntaxKind::BREAK_KW,
        RSyntaxKind::R_TRUE_EXPRESSION => RSyntaxKind::TRUE_KW,
        RSyntaxKind::R_FALSE_EXPRESSION => RSyntaxKind::FALSE_KW,
        RSyntaxKind::R_NULL_EXPRESSION => RSyntaxKind::NULL_KW,
        RSyntaxKind::R_INF_EXPRESSION => RSyntaxKind::INF_KW,
        RSyntaxKind::R_NAN_EXPRESSION => RSyntaxKind::NAN_KW,
        RSyntaxKind::R_INTEGER_VALUE => RSyntaxKind::R_INTEGER_LITERAL,
        RSyntaxKind::R_COMPLEX_VALUE => RSyntaxKind::R_COMPLEX_LITERAL,
        _ => k,
    }
}
pub open spec fn opener(k: RSyntaxKind) -> RSyntaxKind {
    match k { RSyntaxKind::R_CALL_ARGUMENTS => RSyntaxKind::L_PAREN, RSyntaxKind::R_SUBSET_ARGUMENTS => RSyntaxKind::L_BRACK, _ => RSyntaxKind::L_BRACK2 }
}
pub open spec fn closer(k: RSyntaxKind) -> RSyntaxKind {
    match k { RSyntaxKind::R_CALL_ARGUMENTS => RSyntaxKind::R_PAREN, RSyntaxKind::R_SUBSET_ARGUMENTS => RSyntaxKind::R_BRACK, _ => RSyntaxKind::R_BRACK2 }
}
pub open spec fn args_of(k: RSyntaxKind) -> RSyntaxKind {
    match k { RSyntaxKind::R_CALL => RSyntaxKind::R_CALL_ARGUMENTS, RSyntaxKind::R_SUBSET => RSyntaxKind::R_SUBSET_ARGUMENTS, _ => RSyntaxKind::R_SUBSET2_ARGUMENTS }
}
pub open spec fn kd(n: Node) -> RSyntaxKind { kind_of(n.name()@) }
/// arguments have no name in the grammar that is used here
pub open spec fn known_node(n: Node) -> bool { known(n.name()@) && !is_args(kd(n)) }
/// the arguments of a call have no kind of their own
pub open spec fn is_arguments(n: Node, k: RSyntaxKind, i: int) -> bool { is_call(k) && n.field(i) is Some && n.field(i)->Some_0@ == "arguments"@ }
pub open spec fn eff(n: Node, k: RSyntaxKind, i: int) -> RSyntaxKind { if is_arguments(n, k, i) { args_of(k) } else { kd(n.kids()[i]) } }

/// the kind of the last child before i that is not a comment
pub open spec fn prior(n: Node, i: int) -> RSyntaxKind
    decreases i,
{
    if i <= 0 { RSyntaxKind::R_BOGUS } else if kd(n.kids()[i - 1]) == RSyntaxKind::COMMENT { prior(n, i - 1) } else { kd(n.kids()[i - 1]) }
}
/// one of the first i children is of kind k
pub open spec fn seen(n: Node, k: RSyntaxKind, i: int) -> bool
    decreases i,
{
    i > 0 && (kd(n.kids()[i - 1]) == k || seen(n, k, i - 1))
}
/// an argument that is not there: `f(, x)`
pub open spec fn hole() -> Out { cat(start(RSyntaxKind::R_ARGUMENT), finish()) }
pub open spec fn may_name(k: RSyntaxKind) -> bool {
    matches!(k, RSyntaxKind::R_IDENTIFIER | RSyntaxKind::R_STRING_VALUE | RSyntaxKind::R_DOTS | RSyntaxKind::R_DOT_DOT_I | RSyntaxKind::R_NULL_EXPRESSION)
}
/// what comes in front of what child i becomes
pub open spec fn pre(n: Node, k: RSyntaxKind, i: int) -> Out {
    let c = kd(n.kids()[i]);
    if k == RSyntaxKind::R_PARAMETERS { if c == RSyntaxKind::R_PAREN { finish() } else { nil() } }
    else if k == RSyntaxKind::R_PARAMETER { if c == RSyntaxKind::EQUAL { start(RSyntaxKind::R_PARAMETER_DEFAULT) } else { nil() } }
    else if k == RSyntaxKind::R_IF_STATEMENT { if c == RSyntaxKind::ELSE_KW { start(RSyntaxKind::R_ELSE_CLAUSE) } else { nil() } }
    else if k == RSyntaxKind::R_BRACED_EXPRESSIONS { if c == RSyntaxKind::R_CURLY { finish() } else { nil() } }
    else if k == RSyntaxKind::R_ARGUMENT {
        if may_name(c) && !seen(n, RSyntaxKind::EQUAL, i) && n.field(i) is Some && n.field(i)->Some_0@ == "name"@ { start(RSyntaxKind::R_ARGUMENT_NAME_CLAUSE) } else { nil() }
    }
    else if is_args(k) {
        if c == closer(k) { if prior(n, i) == RSyntaxKind::COMMA { cat(hole(), finish()) } else { finish() } }
        else if c == RSyntaxKind::COMMA && (prior(n, i) == RSyntaxKind::COMMA || prior(n, i) == opener(k)) { hole() }
        else { nil() }
    }
    else { nil() }
}
/// what comes after it
pub open spec fn post(n: Node, k: RSyntaxKind, i: int) -> Out {
    let c = kd(n.kids()[i]);
    if k == RSyntaxKind::R_PARAMETERS && c == RSyntaxKind::L_PAREN { start(RSyntaxKind::R_PARAMETER_LIST) }
    else if k == RSyntaxKind::R_BRACED_EXPRESSIONS && c == RSyntaxKind::L_CURLY { start(RSyntaxKind::R_EXPRESSION_LIST) }
    else if k == RSyntaxKind::R_ARGUMENT && c == RSyntaxKind::EQUAL { finish() }
    else if is_args(k) && c == opener(k) { start(RSyntaxKind::R_ARGUMENT_LIST) }
    else { nil() }
}
/// what comes after all children, before the node is closed
pub open spec fn tail_out(n: Node, k: RSyntaxKind) -> Out {
    let m = n.kids().len() as int;
    if k == RSyntaxKind::R_PARAMETER && seen(n, RSyntaxKind::EQUAL, m) || k == RSyntaxKind::R_IF_STATEMENT && seen(n, RSyntaxKind::ELSE_KW, m) { finish() } else { nil() }
}
pub open spec fn open_out(k: RSyntaxKind) -> Out { if k == RSyntaxKind::R_ROOT { cat(start(k), start(RSyntaxKind::R_EXPRESSION_LIST)) } else { start(k) } }
pub open spec fn left(n: Node, k: RSyntaxKind) -> Out {
    if k == RSyntaxKind::R_ROOT { cat(finish(), finish()) }
    else if is_value(k) { cat(token_out(n, literal(k)), finish()) }
    else if is_token(k) { token_out(n, k) }
    else if k == RSyntaxKind::COMMENT { comment_out(n) }
    else { finish() }
}
pub mod shapes {
use super::*;
broadcast use tree_sitter::axiom_height;
/// what node n of kind k becomes
pub open spec fn shape(n: Node, k: RSyntaxKind) -> Out
    decreases n.height(), 3int, 0int,
{
    cat(entered(n, k), cat(if is_simple(k) { from(n, 0) } else { nil() }, left(n, k)))
}
/// what is there before the children that are walked one by one
pub open spec fn entered(n: Node, k: RSyntaxKind) -> Out
    decreases n.height(), 2int, 0int,
{
    if is_list(k) { cat(items(n, k, n.kids().len() as int), tail_out(n, k)) }
    else if is_simple(k) || is_value(k) { open_out(k) }
    else { nil() }
}
/// the node is opened and the first m children are done
pub open spec fn items(n: Node, k: RSyntaxKind, m: int) -> Out
    decreases n.height(), 0int, m,
{
    if m <= 0 || m > n.kids().len() { open_out(k) }
    else { cat(cat(cat(items(n, k, m - 1), pre(n, k, m - 1)), shape(n.kids()[m - 1], eff(n, k, m - 1))), post(n, k, m - 1)) }
}
/// the children from i on
pub open spec fn from(n: Node, i: int) -> Out
    decreases n.height(), 0int, n.kids().len() - i,
{
    if i < 0 || i >= n.kids().len() { nil() } else { cat(shape(n.kids()[i], kd(n.kids()[i])), from(n, i + 1)) }
}
/// the grammar: which nodes are below which
pub open spec fn wf(n: Node, k: RSyntaxKind) -> bool
    decreases n.height(),
{
    &&& is_list(k) || is_simple(k) || is_value(k) || is_token(k) || k == RSyntaxKind::COMMENT
    &&& (is_value(k) || is_token(k) || k == RSyntaxKind::COMMENT) ==>
        n.kids().len() == 0 || matches!(k, RSyntaxKind::R_INTEGER_VALUE | RSyntaxKind::R_COMPLEX_VALUE | RSyntaxKind::STRING_CONTENT)
    &&& (is_list(k) || is_simple(k)) ==> forall|i: int| 0 <= i < n.kids().len() ==> wf(#[trigger] n.kids()[i], eff(n, k, i)) && child(n, k, i)
}
}
pub use shapes::*;
pub open spec fn child(n: Node, k: RSyntaxKind, i: int) -> bool {
    let c = kd(n.kids()[i]);
    is_arguments(n, k, i) || known_node(n.kids()[i]) && c != RSyntaxKind::R_ROOT
        && (k == RSyntaxKind::R_PARAMETERS ==> matches!(c, RSyntaxKind::L_PAREN | RSyntaxKind::R_PAREN | RSyntaxKind::R_PARAMETER | RSyntaxKind::COMMA | RSyntaxKind::COMMENT))
        && (is_args(k) ==> c == opener(k) || c == closer(k) || matches!(c, RSyntaxKind::R_ARGUMENT | RSyntaxKind::COMMA | RSyntaxKind::COMMENT))
}
