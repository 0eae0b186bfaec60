//! Replay driver for R01, R02, R03: the real parser over planted tree-sitter trees.
use air_r_parser::{Parse, RParserOptions, parse};
use air_r_syntax::RSyntaxKind::{self, *};
use biome_rowan::{Green, Item, RawSyntaxKind, SyntaxKind, TriviaPieceKind};
use hx::{Ctx, Rng, esc};
use std::sync::Arc;
use tree_sitter::{Data, Tree};

/// a node of the grammar, and where it goes in the tree of air
struct T {
    name: &'static str,
    named: bool,
    field: Option<&'static str>,
    text: String,
    kids: Vec<T>,
    /// no gap in front of it
    glued: bool,
}
fn leaf(name: &'static str, text: &str) -> T { T { name, named: !text.eq(name), field: None, text: text.into(), kids: vec![], glued: false } }
fn op(name: &'static str) -> T { leaf(name, name) }
fn node(name: &'static str, kids: Vec<T>) -> T { T { name, named: true, field: None, text: String::new(), kids, glued: false } }
impl T {
    fn f(mut self, field: &'static str) -> T { self.field = Some(field); self }
    fn g(mut self) -> T { self.glued = true; self }
}

/// what is expected: nodes, and tokens that are numbered in the order of the text
#[derive(Debug, PartialEq, Clone)]
enum E { N(RSyntaxKind, Vec<E>), T(RSyntaxKind) }
use E::{N, T as K};

const BINARY: &[(&str, RSyntaxKind)] = &[
    ("?", WAT), ("~", TILDE), ("<-", ASSIGN), ("<<-", SUPER_ASSIGN), (":=", WALRUS), ("->", ASSIGN_RIGHT), ("->>", SUPER_ASSIGN_RIGHT),
    ("=", EQUAL), ("|", OR), ("&", AND), ("||", OR2), ("&&", AND2), ("<", LESS_THAN), ("<=", LESS_THAN_OR_EQUAL_TO), (">", GREATER_THAN),
    (">=", GREATER_THAN_OR_EQUAL_TO), ("==", EQUAL2), ("!=", NOT_EQUAL), ("+", PLUS), ("-", MINUS), ("*", MULTIPLY), ("/", DIVIDE),
    ("^", EXPONENTIATE), ("**", EXPONENTIATE2), ("|>", PIPE), ("special", SPECIAL), (":", COLON),
];
const UNARY: &[(&str, RSyntaxKind)] = &[("?", WAT), ("~", TILDE), ("+", PLUS), ("-", MINUS), ("!", BANG)];
const NA: &[(&str, RSyntaxKind)] = &[("NA", NA_LOGICAL_KW), ("NA_integer_", NA_INTEGER_KW), ("NA_real_", NA_DOUBLE_KW), ("NA_complex_", NA_COMPLEX_KW), ("NA_character_", NA_CHARACTER_KW)];
const VALUES: &[(&str, &str, RSyntaxKind, RSyntaxKind)] = &[
    ("identifier", "x", R_IDENTIFIER, IDENT), ("identifier", "été", R_IDENTIFIER, IDENT), ("identifier", "`a b`", R_IDENTIFIER, IDENT), ("float", "1.5", R_DOUBLE_VALUE, R_DOUBLE_LITERAL),
    ("dots", "...", R_DOTS, DOTS), ("dot_dot_i", "..1", R_DOT_DOT_I, DOTDOTI), ("next", "next", R_NEXT_EXPRESSION, NEXT_KW),
    ("break", "break", R_BREAK_EXPRESSION, BREAK_KW), ("true", "TRUE", R_TRUE_EXPRESSION, TRUE_KW), ("false", "FALSE", R_FALSE_EXPRESSION, FALSE_KW),
    ("null", "NULL", R_NULL_EXPRESSION, NULL_KW), ("inf", "Inf", R_INF_EXPRESSION, INF_KW), ("nan", "NaN", R_NAN_EXPRESSION, NAN_KW),
];

fn value(r: &mut Rng) -> (T, E) {
    let (n, t, k, l) = *r.pick(VALUES);
    (leaf(n, t), N(k, vec![K(l)]))
}
fn string(r: &mut Rng) -> (T, E) {
    let (o, c) = *r.pick(&[("\"", "\""), ("'", "'"), ("r\"(", ")\"")]);
    let mut kids = vec![leaf("string_open", o)];
    let mut e = vec![K(STRING_OPEN)];
    if r.chance(2, 3) {
        let t = *r.pick(&["a", "é\u{1f600}", " # no comment", "a\n b", "x\r\ny", ";", "\\n\\t", "\r"]);
        let mut s = leaf("string_content", t).g();
        if t.starts_with('\\') { s.kids = vec![leaf("escape_sequence", "\\n").g(), leaf("escape_sequence", "\\t").g()]; }
        kids.push(s);
        e.push(K(STRING_CONTENT));
    }
    kids.push(leaf("string_close", c).g());
    e.push(K(STRING_CLOSE));
    (node("string", kids), N(R_STRING_VALUE, e))
}
fn pick_name(r: &mut Rng) -> (T, E) {
    match r.below(5) {
        0 => string(r),
        1 => (leaf("dots", "..."), N(R_DOTS, vec![K(DOTS)])),
        2 => (leaf("dot_dot_i", "..2"), N(R_DOT_DOT_I, vec![K(DOTDOTI)])),
        3 => (leaf("null", "NULL"), N(R_NULL_EXPRESSION, vec![K(NULL_KW)])),
        _ => (leaf("identifier", "nm"), N(R_IDENTIFIER, vec![K(IDENT)])),
    }
}
fn arguments(r: &mut Rng, d: usize, which: usize) -> (T, E) {
    let (o, c, ok, ck, k) = [("(", ")", L_PAREN, R_PAREN, R_CALL_ARGUMENTS), ("[", "]", L_BRACK, R_BRACK, R_SUBSET_ARGUMENTS), ("[[", "]]", L_BRACK2, R_BRACK2, R_SUBSET2_ARGUMENTS)][which];
    let mut kids = vec![op(o).f("open")];
    let mut list = vec![];
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 4]);
    for i in 0..n {
        if i > 0 { kids.push(leaf("comma", ",")); list.push(K(COMMA)); }
        // a hole; one alone is no argument at all
        if r.chance(1, 3) { if n > 1 { list.push(N(R_ARGUMENT, vec![])); } continue; }
        let (mut t, mut e) = (vec![], vec![]);
        if r.chance(1, 2) {
            let (a, b) = pick_name(r);
            t.push(a.f("name"));
            t.push(op("="));
            e.push(N(R_ARGUMENT_NAME_CLAUSE, vec![b, K(EQUAL)]));
            if r.chance(3, 4) { let (a, b) = expr(r, d); t.push(a.f("value")); e.push(b); }
        } else { let (a, b) = expr(r, d); t.push(a.f("value")); e.push(b); }
        kids.push(node("argument", t).f("argument"));
        list.push(N(R_ARGUMENT, e));
    }
    kids.push(op(c).f("close"));
    (node("arguments", kids), N(k, vec![K(ok), N(R_ARGUMENT_LIST, list), K(ck)]))
}
fn parameters(r: &mut Rng, d: usize) -> (T, E) {
    let mut kids = vec![op("(").f("open")];
    let mut list = vec![];
    for i in 0..r.below(4) {
        if i > 0 { kids.push(leaf("comma", ",")); list.push(K(COMMA)); }
        let (a, b) = match r.below(3) { 0 => (leaf("dots", "..."), N(R_DOTS, vec![K(DOTS)])), _ => (leaf("identifier", "p"), N(R_IDENTIFIER, vec![K(IDENT)])) };
        let (mut t, mut e) = (vec![a.f("name")], vec![b]);
        if r.chance(1, 2) { let (a, b) = expr(r, d); t.push(op("=")); t.push(a.f("default")); e.push(N(R_PARAMETER_DEFAULT, vec![K(EQUAL), b])); }
        kids.push(node("parameter", t).f("parameter"));
        list.push(N(R_PARAMETER, e));
    }
    kids.push(op(")").f("close"));
    (node("parameters", kids), N(R_PARAMETERS, vec![K(L_PAREN), N(R_PARAMETER_LIST, list), K(R_PAREN)]))
}
fn expr(r: &mut Rng, d: usize) -> (T, E) {
    if d == 0 || r.chance(1, 5) { return if r.chance(1, 5) { string(r) } else { value(r) }; }
    let d = d - 1;
    match r.below(20) {
        0 | 1 => {
            let (n, k) = *r.pick(BINARY);
            let (a, x) = expr(r, d);
            let (b, y) = expr(r, d);
            let o = if n == "special" { leaf(n, r.pick::<&str>(&["%in%", "%%", "%o%"])) } else { op(n) };
            (node("binary_operator", vec![a.f("lhs"), o.f("operator"), b.f("rhs")]), N(R_BINARY_EXPRESSION, vec![x, K(k), y]))
        }
        2 => {
            let (n, k) = *r.pick(UNARY);
            let (a, x) = expr(r, d);
            (node("unary_operator", vec![op(n).f("operator"), a.f("rhs")]), N(R_UNARY_EXPRESSION, vec![K(k), x]))
        }
        3 => {
            let (a, x) = expr(r, d);
            let (b, y) = pick_name(r);
            let (n, k) = *r.pick(&[("$", DOLLAR), ("@", AT)]);
            (node("extract_operator", vec![a.f("lhs"), op(n).f("operator"), b.f("rhs")]), N(R_EXTRACT_EXPRESSION, vec![x, K(k), y]))
        }
        4 => {
            let (a, x) = pick_name(r);
            let (b, y) = pick_name(r);
            let (n, k) = *r.pick(&[("::", COLON2), (":::", COLON3)]);
            (node("namespace_operator", vec![a.f("lhs"), op(n).f("operator"), b.f("rhs")]), N(R_NAMESPACE_EXPRESSION, vec![x, K(k), y]))
        }
        5 => {
            let (p, x) = parameters(r, d);
            let (b, y) = expr(r, d);
            let (n, k) = *r.pick(&[("function", FUNCTION_KW), ("\\", BACKSLASH)]);
            (node("function_definition", vec![op(n).f("name"), p.f("parameters"), b.f("body")]), N(R_FUNCTION_DEFINITION, vec![K(k), x, y]))
        }
        6 | 7 => {
            let (a, x) = expr(r, d);
            let (b, y) = expr(r, d);
            let mut t = vec![op("if"), op("(").f("open"), a.f("condition"), op(")").f("close"), b.f("consequence")];
            let mut e = vec![K(IF_KW), K(L_PAREN), x, K(R_PAREN), y];
            if r.chance(2, 3) { let (c, z) = expr(r, d); t.push(op("else")); t.push(c.f("alternative")); e.push(N(R_ELSE_CLAUSE, vec![K(ELSE_KW), z])); }
            (node("if_statement", t), N(R_IF_STATEMENT, e))
        }
        8 => {
            let (a, x) = expr(r, d);
            let (b, y) = expr(r, d);
            (node("for_statement", vec![op("for"), op("(").f("open"), leaf("identifier", "i").f("variable"), op("in"), a.f("sequence"), op(")").f("close"), b.f("body")]),
                N(R_FOR_STATEMENT, vec![K(FOR_KW), K(L_PAREN), N(R_IDENTIFIER, vec![K(IDENT)]), K(IN_KW), x, K(R_PAREN), y]))
        }
        9 => {
            let (a, x) = expr(r, d);
            let (b, y) = expr(r, d);
            (node("while_statement", vec![op("while"), op("(").f("open"), a.f("condition"), op(")").f("close"), b.f("body")]), N(R_WHILE_STATEMENT, vec![K(WHILE_KW), K(L_PAREN), x, K(R_PAREN), y]))
        }
        10 => { let (b, y) = expr(r, d); (node("repeat_statement", vec![op("repeat"), b.f("body")]), N(R_REPEAT_STATEMENT, vec![K(REPEAT_KW), y])) }
        11 | 12 => {
            let (mut t, mut e) = (vec![op("{").f("open")], vec![]);
            for _ in 0..r.below(4) { let (a, x) = expr(r, d); t.push(a.f("body")); e.push(x); }
            t.push(op("}").f("close"));
            (node("braced_expression", t), N(R_BRACED_EXPRESSIONS, vec![K(L_CURLY), N(R_EXPRESSION_LIST, e), K(R_CURLY)]))
        }
        13 => { let (a, x) = expr(r, d); (node("parenthesized_expression", vec![op("(").f("open"), a.f("body"), op(")").f("close")]), N(R_PARENTHESIZED_EXPRESSION, vec![K(L_PAREN), x, K(R_PAREN)])) }
        14 => { let (n, k) = *r.pick(NA); (node("na", vec![op(n)]), N(R_NA_EXPRESSION, vec![K(k)])) }
        15 => { let mut t = leaf("integer", "12L"); t.kids = vec![leaf("L", "L").g()]; (t, N(R_INTEGER_VALUE, vec![K(R_INTEGER_LITERAL)])) }
        16 => { let mut t = leaf("complex", "2i"); t.kids = vec![leaf("i", "i").g()]; (t, N(R_COMPLEX_VALUE, vec![K(R_COMPLEX_LITERAL)])) }
        w => {
            let which = w - 17;
            let (f, x) = expr(r, d);
            let (a, y) = arguments(r, d, which);
            (node(["call", "subset", "subset2"][which], vec![f.f("function"), a.f("arguments")]), N([R_CALL, R_SUBSET, R_SUBSET2][which], vec![x, y]))
        }
    }
}

/// comments between the children of a node (tree-sitter puts them there)
fn comments(r: &mut Rng, t: &mut T, often: usize) {
    if matches!(t.name, "string" | "integer" | "complex" | "string_content") || t.kids.is_empty() && t.name != "program" { return; }
    for k in &mut t.kids { comments(r, k, often); }
    let old = std::mem::take(&mut t.kids);
    let n = old.len();
    for (i, k) in old.into_iter().enumerate() {
        if (i > 0 || t.name == "program") && !k.glued { while r.chance(often, 12) { t.kids.push(comment(r)); } }
        t.kids.push(k);
        if i + 1 == n && t.name == "program" { while r.chance(often, 12) { t.kids.push(comment(r)); } }
    }
    if n == 0 { while r.chance(often + 2, 12) { t.kids.push(comment(r)); } }
}
fn comment(r: &mut Rng) -> T { leaf("comment", r.pick::<&str>(&["#", "# a", "#' é", "# fmt: skip", "##  two  ", "#;\t", "# x = \"y\"", "#\u{1f600}"])) }

/// a token or a comment of the text, and what stands in front of it
struct Part { gap: String, text: String, comment: bool }
struct Built { text: String, data: Vec<Data>, parts: Vec<Part>, end: String, name: &'static str }

fn gap(r: &mut Rng, blank: usize, newline: usize, crlf: usize) -> String {
    let mut s = String::new();
    while r.chance(blank, 12) {
        if r.chance(newline, 12) { s.push_str(if r.chance(crlf, 12) { "\r\n" } else if r.chance(1, 12) { "\r" } else { "\n" }); }
        else { s.push_str(r.pick::<&str>(&[" ", "  ", "\t", ";", " ", "\u{c}", "\u{b}"])); }
    }
    s
}
fn build(r: &mut Rng, root: &T, blank: usize, newline: usize, crlf: usize) -> Built {
    let mut b = Built { text: String::new(), data: vec![], parts: vec![], end: String::new(), name: root.name };
    let mut line = false;
    fn go(r: &mut Rng, b: &mut Built, t: &T, up: Option<(usize, usize)>, inner: bool, line: &mut bool, g: (usize, usize, usize)) -> usize {
        let id = b.data.len();
        b.data.push(Data { name: t.name, named: t.named, start: 0, end: 0, error: false, up, kids: vec![] });
        let token = t.kids.is_empty() && t.name != "program" || matches!(t.name, "integer" | "complex" | "string_content");
        if inner {
            // below a token: where it is does not matter
            let e = b.text.len();
            (b.data[id].start, b.data[id].end) = (e - t.text.len().min(e), e);
        } else if token {
            let mut s = if t.glued { String::new() } else { gap(r, g.0, g.1, g.2) };
            if std::mem::take(line) && !(s.starts_with('\n') || s.starts_with("\r\n")) { s.insert_str(0, if r.chance(g.2, 12) { "\r\n" } else { "\n" }); }
            // a lone carriage return would join the newline after it
            b.text.push_str(&s);
            b.data[id].start = b.text.len();
            b.text.push_str(&t.text);
            b.data[id].end = b.text.len();
            let comment = t.name == "comment";
            *line = comment;
            b.parts.push(Part { gap: s, text: t.text.clone(), comment });
        }
        for (i, k) in t.kids.iter().enumerate() {
            let c = go(r, b, k, Some((id, i)), token || inner, line, g);
            b.data[id].kids.push((c, k.field));
        }
        if !token && !inner {
            let (s, e) = match (b.data[id].kids.first(), b.data[id].kids.last()) {
                (Some(f), Some(l)) => (b.data[f.0].start, b.data[l.0].end),
                _ => (b.text.len(), b.text.len()),
            };
            (b.data[id].start, b.data[id].end) = (s, e);
        }
        id
    }
    go(r, &mut b, root, None, false, &mut line, (blank, newline, crlf));
    b.end = gap(r, blank, newline, crlf);
    if line && !b.end.is_empty() && !(b.end.starts_with('\n') || b.end.starts_with("\r\n")) { b.end.insert(0, '\n'); }
    b.text.push_str(&b.end.clone());
    // the program spans the text
    b.data[0].start = 0;
    b.data[0].end = b.text.len();
    b
}

type Piece = (TriviaPieceKind, String);
/// a token with what leads and what trails it
#[derive(Debug, PartialEq, Clone)]
struct Tok { leading: Vec<Piece>, text: String, trailing: Vec<Piece> }

fn pieces(gap: &str) -> Vec<Piece> {
    let mut v: Vec<Piece> = vec![];
    let mut s = gap;
    while let Some(c) = s.chars().next() {
        let n = if s.starts_with("\r\n") { 2 } else if c == '\n' || c == '\r' { 1 } else { s.find(['\n', '\r']).unwrap_or(s.len()) };
        v.push((if c == '\n' || c == '\r' { TriviaPieceKind::Newline } else { TriviaPieceKind::Whitespace }, s[..n].to_string()));
        s = &s[n..];
    }
    v
}
/// the tokens of a text: what stands behind a token up to the end of its line trails it if the
/// line ends there, everything else leads the next token
fn tokens(b: &Built) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    let mut lead: Vec<Piece> = vec![];
    let mut fresh = false;
    let eof = Part { gap: b.end.clone(), text: String::new(), comment: false };
    let n = b.parts.len();
    for (i, p) in b.parts.iter().chain([&eof]).enumerate() {
        let last = i == n;
        let ws = |s: &str| if s.is_empty() { vec![] } else { vec![(TriviaPieceKind::Whitespace, s.to_string())] };
        if p.comment && !p.gap.contains('\n') {
            let mut q = ws(&p.gap);
            q.push((TriviaPieceKind::SingleLineComment, p.text.clone()));
            match v.last_mut() { Some(t) if fresh => t.trailing.extend(q), _ => lead.extend(q) }
        } else {
            let mut g = &p.gap[..];
            let e = g.find(['\n', '\r']);
            if fresh && !last && let Some(k) = e { v.last_mut().unwrap().trailing.extend(ws(&g[..k])); g = &g[k..]; }
            lead.extend(pieces(g));
            if p.comment { lead.push((TriviaPieceKind::SingleLineComment, p.text.clone())); }
        }
        if p.comment { fresh = false } else { v.push(Tok { leading: std::mem::take(&mut lead), text: p.text.clone(), trailing: vec![] }); fresh = true; }
    }
    v
}

fn flat(g: &Arc<Green>, out: &mut Vec<(RSyntaxKind, Tok)>) {
    for i in &g.items {
        match i {
            Item::Node(n) => flat(n, out),
            Item::Token(t) => {
                let mut s = &t.text[..];
                let mut cut = |v: &[(TriviaPieceKind, biome_rowan::TextSize)]| v.iter().map(|(k, n)| { let (a, b) = s.split_at(usize::from(*n)); s = b; (*k, a.to_string()) }).collect::<Vec<_>>();
                let leading = cut(&t.leading);
                let tail: usize = t.trailing.iter().map(|x| usize::from(x.1)).sum();
                let n = s.len() - tail;
                let text = s[..n].to_string();
                s = &s[n..];
                let mut cut = |v: &[(TriviaPieceKind, biome_rowan::TextSize)]| v.iter().map(|(k, n)| { let (a, b) = s.split_at(usize::from(*n)); s = b; (*k, a.to_string()) }).collect::<Vec<_>>();
                let trailing = cut(&t.trailing);
                out.push((RSyntaxKind::from(t.kind.0), Tok { leading, text, trailing }));
            }
        }
    }
}
fn kind(k: RawSyntaxKind) -> RSyntaxKind { RSyntaxKind::from_raw(k) }
fn shape(g: &Arc<Green>) -> E {
    N(kind(g.kind), g.items.iter().map(|i| match i { Item::Node(n) => shape(n), Item::Token(t) => K(kind(t.kind)) }).collect())
}
fn show(e: &E) -> String {
    match e { K(k) => format!("{k:?}"), N(k, v) => format!("{k:?}[{}]", v.iter().map(show).collect::<Vec<_>>().join(" ")) }
}
/// the first place where two shapes differ
fn diff(want: &E, got: &E, path: &str) -> Option<String> {
    match (want, got) {
        (N(a, x), N(b, y)) if a == b => {
            let p = format!("{path}/{a:?}");
            for (i, (s, t)) in x.iter().zip(y).enumerate() { if let Some(m) = diff(s, t, &format!("{p}.{i}")) { return Some(m); } }
            (x.len() != y.len()).then(|| format!("{p} has {} children [{}], expected {} [{}]", y.len(), y.iter().map(show).collect::<Vec<_>>().join(" "), x.len(), x.iter().map(show).collect::<Vec<_>>().join(" ")))
        }
        (a, b) => (a != b).then(|| format!("at {path}: {}, expected {}", show(b), show(a))),
    }
}
fn run(b: &Built) -> Parse {
    tree_sitter::plant(&b.text, Tree(Arc::new(b.data.clone())));
    parse(&b.text, RParserOptions::default())
}
fn root(p: &Parse) -> Arc<Green> { p.syntax().0.clone() }

/// R01: every token, every comment and every gap is there, once and in its place
fn r01(b: &Built) -> Result<(), String> {
    let p = run(b);
    let g = root(&p);
    let mut got = vec![];
    flat(&g, &mut got);
    let all: String = got.iter().map(|(_, t)| t.leading.iter().map(|x| &x.1[..]).collect::<String>() + &t.text + &t.trailing.iter().map(|x| &x.1[..]).collect::<String>()).collect();
    if all != b.text { return Err(format!("the tree holds the text {}", esc(&all))); }
    let want = tokens(b);
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => return Err(format!("token {i} {} is missing", esc(&w.text))),
            Some((_, t)) if t != w => return Err(format!("token {i} is {t:?}, expected {w:?}")),
            _ => {}
        }
    }
    if got.len() != want.len() { return Err(format!("{} tokens, expected {}", got.len(), want.len())); }
    Ok(())
}
/// R02: the tree has the shape and the kinds of the source
fn r02(b: &Built, e: &E) -> Result<(), String> {
    let p = run(b);
    match diff(e, &shape(&root(&p)), "") { Some(m) => Err(m), None => Ok(()) }
}
/// R03: errors
fn r03(b: &Built) -> Result<(), String> {
    let bad = b.data.iter().any(|d| d.error || d.name == "ERROR");
    let p = run(b);
    if p.has_error() != bad { return Err(format!("has_error is {}, the source has {} syntax error", p.has_error(), if bad { "a" } else { "no" })); }
    if p.error().is_some() != bad || p.clone().into_error().is_some() != bad { return Err("error() and has_error() do not agree".into()); }
    if p.clone().into_result().is_err() != bad { return Err(format!("into_result is {}", if bad { "Ok for a source with a syntax error" } else { "Err for a source without" })); }
    if bad {
        let want = N(R_ROOT, vec![N(R_EXPRESSION_LIST, vec![N(R_BOGUS_EXPRESSION, vec![K(R_BOGUS)])]), K(EOF)]);
        if let Some(m) = diff(&want, &shape(&root(&p)), "") { return Err(m); }
        let mut got = vec![];
        flat(&root(&p), &mut got);
        if got[0].1.text != b.text { return Err(format!("the bogus token holds {}", esc(&got[0].1.text))); }
    }
    Ok(())
}

fn program(r: &mut Rng, depth: usize, often: usize) -> (T, E) {
    let (mut t, mut e) = (vec![], vec![]);
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 2, 3]) { let (a, x) = expr(r, depth); t.push(a); e.push(x); }
    let mut t = node("program", t);
    comments(r, &mut t, often);
    (t, N(R_ROOT, vec![N(R_EXPRESSION_LIST, e), K(EOF)]))
}
fn describe(b: &Built) -> String {
    let names: Vec<_> = b.data.iter().map(|d| d.name).collect();
    let bad: Vec<_> = b.data.iter().filter(|d| d.error || d.name == "ERROR").map(|d| format!("{} {}..{}", d.name, d.start, d.end)).collect();
    let _ = b.name;
    if bad.is_empty() { format!("{} (nodes {})", esc(&b.text), names.join(" ")) } else { format!("{} (errors {})", esc(&b.text), bad.join(", ")) }
}
/// random programs: the operators, the comments and the layout vary from stage to stage
fn programs(c: &mut Ctx, f: &dyn Fn(&Built, &E, &mut Rng) -> Result<(), String>) {
    let stages: [(&str, usize, usize, (usize, usize, usize)); 6] = [
        ("single expressions without comments", 1, 0, (6, 3, 2)),
        ("single expressions", 1, 3, (6, 3, 2)),
        ("two levels", 2, 2, (6, 4, 6)),
        ("many comments", 2, 6, (7, 6, 3)),
        ("tight layout", 3, 1, (2, 2, 0)),
        ("deep", 5, 1, (6, 3, 6)),
    ];
    for (i, (name, depth, often, g)) in stages.into_iter().enumerate() {
        c.stage(name);
        let total = if c.deep { 200_000 } else { 12_000 };
        for _ in 0..total {
            if !c.time_left((i + 1) as f64 / stages.len() as f64) { break; }
            let seed = c.rng.next();
            let mut r = Rng::new(seed);
            let (t, e) = program(&mut r, depth, often);
            let b = build(&mut r, &t, g.0, g.1, g.2);
            c.case(|| describe(&b), || f(&b, &e, &mut Rng::new(seed)));
        }
    }
}
fn main() {
    hx::main(&[
        ("R01", |c: &mut Ctx| programs(c, &|b, _, _| r01(b))),
        ("R02", |c: &mut Ctx| programs(c, &|b, e, _| r02(b, e))),
        ("R03", |c: &mut Ctx| {
            programs(c, &|b, _, _| r03(b));
            c.stage("with a syntax error");
            for _ in 0..if c.deep { 100_000 } else { 20_000 } {
                let seed = c.rng.next();
                let mut r = Rng::new(seed);
                let (t, _) = program(&mut r, 3, 2);
                let mut b = build(&mut r, &t, 5, 4, 4);
                let i = r.below(b.data.len());
                if r.chance(1, 2) { b.data[i].error = true } else { b.data[i].name = "ERROR" }
                c.case(|| describe(&b), || r03(&b));
            }
        }),
    ]);
}
