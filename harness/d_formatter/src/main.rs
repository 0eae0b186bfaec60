//! Replay driver for the T properties: the real formatter (and the real parser) over
//! stand-ins of biome's formatter, its trees, and tree-sitter's R grammar.
mod programs;
use air_r_formatter::context::RFormatOptions;
use air_r_parser::{RParserOptions, parse};
use air_r_syntax::RSyntaxKind::{self, *};
use air_r_syntax::{RSyntaxNode as Node, RSyntaxToken as Token};
use biome_rowan::{Direction, SyntaxSlot};
use hx::{Ctx, Rng};
use programs::Gen;
use settings::*;

fn tree(t: &str) -> Option<Node> {
    let p = parse(t, RParserOptions::default());
    if p.has_error() { return None; }
    let n = p.syntax();
    Some(n)
}
fn print(n: &Node, o: &RFormatOptions) -> Result<String, String> {
    let f = air_r_formatter::format_node(o.clone(), n).map_err(|e| format!("formatting failed: {e:?}"))?;
    Ok(f.print().map_err(|e| format!("printing failed: {e:?}"))?.into_code())
}
fn format(t: &str, o: &RFormatOptions) -> Result<String, String> { print(&tree(t).ok_or("a program that does not parse")?, o) }

/// comments can end up on one line, behind each other
fn split(t: &str) -> Vec<String> { t.split(" #").enumerate().map(|(i, s)| if i == 0 { s.trim_end().to_string() } else { format!("#{}", s.trim_end()) }).collect() }
fn comments(n: &Node) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in n.descendants_tokens(Direction::Next) {
        for p in t.leading_trivia().pieces().chain(t.trailing_trivia().pieces()) { if p.is_comments() { v.extend(split(p.text())); } }
    }
    v.sort();
    v
}
/// line ends in front of a token, up to the first comment
fn lines_before_token(t: &Token) -> usize { t.leading_trivia().pieces().take_while(|p| !p.is_comments()).filter(|p| p.is_newline()).count() }
fn lines_before(n: &Node) -> usize { n.first_token().map_or(0, |t| lines_before_token(&t)) }
fn led(n: &Node) -> bool { n.first_token().is_some_and(|t| t.leading_trivia().pieces().any(|p| p.is_newline())) }

/// the body of an `if`, `else`, loop or function
fn is_body(parent: RSyntaxKind, slot: usize) -> bool {
    matches!((parent, slot), (R_IF_STATEMENT, 4) | (R_ELSE_CLAUSE, 1) | (R_FUNCTION_DEFINITION, 2) | (R_FOR_STATEMENT, 6) | (R_WHILE_STATEMENT, 4) | (R_REPEAT_STATEMENT, 1))
}
fn node_at(n: &Node, slot: usize) -> Option<Node> { n.element_in_slot(slot as u32)?.into_node() }
fn token_at(n: &Node, slot: usize) -> Option<Token> { n.element_in_slot(slot as u32)?.into_token() }
fn only_child(n: &Node) -> Option<Node> {
    let l = node_at(n, 1)?;
    let mut c = l.children();
    let f = c.next()?;
    c.next().is_none().then_some(f)
}
struct Walk {
    /// nodes of the program, and what became of them
    pairs: Vec<(Node, Node)>,
    /// bodies that were given braces (parent in the program, body, braces)
    braced: Vec<(Node, Node, Node)>,
    /// assignments: node, operator in the program, operator printed
    assigned: Vec<(Node, RSyntaxKind, RSyntaxKind)>,
}
/// The printed program has the tree of the program, up to braces around bodies and the
/// spelling of left assignments.
fn walk(a: &Node, b: &Node, w: &mut Walk) -> Result<(), String> {
    let err = || Err(format!("`{}` was printed as `{}`", a.to_trimmed_string(), b.to_trimmed_string()));
    if a.kind() != b.kind() { return err(); }
    let (x, y): (Vec<_>, Vec<_>) = (a.slots().collect(), b.slots().collect());
    if x.len() != y.len() { return err(); }
    w.pairs.push((a.clone(), b.clone()));
    for (i, (p, q)) in x.into_iter().zip(y).enumerate() {
        match (p, q) {
            (SyntaxSlot::Empty { .. }, SyntaxSlot::Empty { .. }) => {}
            (SyntaxSlot::Token(p), SyntaxSlot::Token(q)) => {
                let left = |k| k == EQUAL || k == ASSIGN;
                if a.kind() == R_BINARY_EXPRESSION && i == 1 {
                    w.assigned.push((a.clone(), p.kind(), q.kind()));
                    if left(p.kind()) && left(q.kind()) { continue; }
                }
                if p.kind() != q.kind() || p.text_trimmed() != q.text_trimmed() { return err(); }
            }
            (SyntaxSlot::Node(p), SyntaxSlot::Node(q)) => {
                if is_body(a.kind(), i) && p.kind() != R_BRACED_EXPRESSIONS && q.kind() == R_BRACED_EXPRESSIONS {
                    let Some(c) = only_child(&q) else { return err() };
                    w.braced.push((a.clone(), p.clone(), q.clone()));
                    walk(&p, &c, w)?;
                } else { walk(&p, &q, w)?; }
            }
            _ => return err(),
        }
    }
    Ok(())
}
fn compare(a: &Node, out: &str) -> Result<(Node, Walk), String> {
    let b = tree(out).ok_or("the printed text does not parse")?;
    let mut w = Walk { pairs: vec![], braced: vec![], assigned: vec![] };
    walk(a, &b, &mut w)?;
    let (x, y) = (comments(a), comments(&b));
    if x != y { return Err(format!("the comments {x:?} became {y:?}")); }
    Ok((b, w))
}
fn skip(l: &[&str]) -> Skip {
    use serde::de::IntoDeserializer;
    let d: serde::de::value::SeqDeserializer<_, serde::de::value::Error> = l.iter().map(|s| s.to_string()).collect::<Vec<_>>().into_deserializer();
    serde::Deserialize::deserialize(d).unwrap()
}
fn options(r: &mut Rng) -> RFormatOptions {
    RFormatOptions::default()
        .with_indent_style(*r.pick(&[IndentStyle::Space, IndentStyle::Tab]))
        .with_indent_width(IndentWidth::try_from(*r.pick(&[2u8, 2, 4, 1, 8])).unwrap())
        .with_line_width(LineWidth::try_from(*r.pick(&[80u16, 40, 20, 10, 120])).unwrap())
        .with_persistent_line_breaks(*r.pick(&[PersistentLineBreaks::Respect, PersistentLineBreaks::Ignore]))
        .with_assignment_style(*r.pick(&[AssignmentStyle::Arrow, AssignmentStyle::Equal, AssignmentStyle::Preserve]))
}
fn corpus() -> Vec<String> {
    let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let mut v = vec![];
    for d in ["crates/air_r_formatter/tests/specs/r", "crates/air_r_formatter/tests/specs/r/call", "crates/air_r_formatter/tests/specs/r/crlf"] {
        let Ok(d) = std::fs::read_dir(format!("{root}/{d}")) else { continue };
        let mut f: Vec<_> = d.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "R" || e == "r")).collect();
        f.sort();
        v.extend(f.iter().filter_map(|p| std::fs::read_to_string(p).ok()).map(|t| t.replace("\r\n", "\n")));
    }
    v
}
/// `comments`: one in so many line ends has one; and, by the hundred, empty lines
fn program(r: &mut Rng, comments: usize) -> String {
    let seed = r.next();
    let mut l = Rng::new(seed);
    let depth = r.range(1, 5);
    let n = r.range(1, 3);
    let mut g = Gen::new(r, &mut l);
    g.comments = comments % 100;
    g.empty = comments / 100;
    g.program(n, depth);
    g.p_end()
}

/// small programs with every construct of the language
const SMALL: &[&str] = &[
    "f(a, b = 1)", "f()", "f({ x })", "f({{ x }})", "f(a, function(x) x)", "f(a, \\(x) { x })", "f({ x }, b)", "x[1, 2]", "x[, 1]", "x[, , 1]", "x[[1]]", "x[1, ]", "f(, a)", "f(a, )", "f(\"s\", { x })",
    "f(a = { x })", "f(a = function() 1, b)", "f(g(a), b)", "f(a)(b)", "x$y(a)$z(b)", "a::b(c)", "x@y", "f(...)", "f(..1)", "f(a = , b)", "f(\"a\" = 1)",
    "a + b * c - d", "a |> f() |> g(b)", "a %>% f() %>% g()", "a && b || c", "a == b", "a:b", "a^b", "-a", "!a", "~a", "?a", "a ? b", "a ~ b + c", "(a)", "(a + b)", "({ a })", "((a))",
    "x <- 1", "x = 1", "x <<- 1", "x := 1", "1 -> x", "1 ->> x", "x <- y <- 1", "x <- a + b", "x <- function() 1", "x <- if (a) b else c", "x <- f(a)",
    "{ a }", "{ a; b }", "{}", "{\n}", "{ a\nb }", "if (a) b", "if (a) b else c", "if (a) { b } else { c }", "if (a) b else if (c) d else e", "{ if (a) b else c }", "{ if (a) b\n1 }", "f(if (a) b else c)",
    "x <- if (a) { b }", "function() { if (a) b else c }", "for (i in x) a", "for (i in x) { a }", "while (a) b", "while (a) { b }", "repeat a", "repeat { a }", "{ next; break }",
    "function() 1", "function(x) x", "function(x, y = 2) x", "function(x = 1, ...) { x }", "\\(x) x", "\\() { 1 }", "function(x) function(y) x + y", "function(x) if (a) b else c",
    "x[f(a), b] <- 1", "x[[a]][[b]]", "x$a$b", "x$a[1](b)", "`a b`", "r\"(x)\"", "'x'", "-1L", "1e3", "TRUE", "NULL", "a\nb", "a; b", "f(a)\ng(b)", "x <- { a }", "f(a)[b]", "f(x, { a\nb }, y)", "if (a) f(b) else g(c)",
    "a + function(x) { x }", "a |> f(\\(x) { x })", "x <- y |> f()", "x <- a ~ b", "function(x = { a }) b", "f(function(x = 1, y) { x }, z)", "f(a)$b", "!f(a)", "a %in% b", "-f(a) + b", "(function() 1)()",
];
/// what a small program can stand in
const PLACES: &[&str] = &["@", "f(@)", "f(b = @, c)", "{ @ }", "z + @", "@ |> z()", "z <- @", "if (z) @ else { 1 }", "if (@) z", "function(z = @) z", "x[@]", "(@)", "!@", "while (z) @", "function() @", "f(a, @)(b)", "f(\\(x) @)"];
/// the places between two tokens of a program: what stands there, and the token behind
fn gaps(a: &Node) -> Vec<(usize, usize, Token)> {
    let (mut v, mut at) = (vec![], None);
    for t in a.descendants_tokens(Direction::Next) {
        let (s, e): (usize, usize) = (t.text_trimmed_range().start().into(), t.text_trimmed_range().end().into());
        v.push((at.unwrap_or(0), s, t));
        at = Some(e);
    }
    v
}
fn t06(c: &mut Ctx) {
    let left = "f(function(x) y ~\n# fmt: skip\na\n+ b)\n";
    c.finding("skipped-text-in-added-braces", left, || compare(&tree(left).unwrap(), &format(left, &RFormatOptions::default())?).map(|_| ()));
    c.stage("small programs with a comment at every place");
    for place in PLACES {
        for t in SMALL {
            if !c.time_left(0.45) { break; }
            let t = place.replace('@', t);
            let Some(a) = tree(&t).filter(|a| !unread(a)) else { continue };
            for (k, (s, e, _)) in gaps(&a).iter().enumerate() {
                // at the other places, some of the comments
                if *place != "@" && !c.deep && c.rng.chance(3, 4) { continue; }
                for put in [" # 1\n", "\n# 1\n", " # 1\n\n# 2\n", "\n"] {
                    let mut u = format!("{}{put}{}", &t[..*s], &t[*e..]);
                    if k % 2 == 1 && put.len() > 1 { u.push_str(" # 3\n"); }
                    let Some(a) = tree(&u) else { continue };
                    for w in [80u16, 6] {
                        let o = RFormatOptions::default().with_line_width(LineWidth::try_from(w).unwrap());
                        c.case(|| show(&o, &u), || compare(&a, &print(&a, &o)?).map(|_| ()));
                    }
                }
            }
        }
    }
    c.stage("the repository's own programs");
    for t in corpus() {
        let Some(a) = tree(&t) else { continue };
        for _ in 0..3 {
            let o = options(&mut c.rng);
            c.case(|| format!("{o:?}\n{t}"), || compare(&a, &print(&a, &o)?).map(|_| ()));
        }
    }
    c.stage("random programs");
    let (mut n, mut bad) = (0, 0);
    while c.time_left(0.95) {
        let k = *c.rng.pick(&[0, 0, 12, 5]);
        let t = program(&mut c.rng, k);
        n += 1;
        let Some(a) = tree(&t) else { bad += 1; if std::env::var("SHOW").is_ok() { println!("BAD {}", hx::esc(&t)); } continue };
        let o = options(&mut c.rng);
        if n % 1500 == 7 && std::env::var("SHOW").is_ok() { println!("=====\n{t}\n-----\n{}", print(&a, &o).unwrap()); }
        c.case(|| format!("{o:?}\n{t}"), || compare(&a, &print(&a, &o)?).map(|_| ()));
    }
    c.note(format!("{bad} of {n} programs do not parse and were left out"));
}

fn show(o: &RFormatOptions, t: &str) -> String { format!("{o:?}\n{t}") }
/// every program of the repository and random ones, with what they are printed as
fn over(c: &mut Ctx, share: f64, comments: &[usize], f: impl Fn(&RFormatOptions, &Node, &str, &Node, &Walk) -> Result<(), String>) {
    let one = |c: &mut Ctx, t: &str, a: &Node, o: RFormatOptions| {
        c.case(|| show(&o, t), || {
            let out = print(a, &o)?;
            let (b, w) = compare(a, &out)?;
            f(&o, a, &out, &b, &w).map_err(|e| format!("{e}\nprinted:\n{out}"))
        });
    };
    c.stage("the repository's own programs");
    for t in corpus() {
        // its directives leave parts alone, its strings go over several lines
        if t.contains("fmt:") || t.contains("nolint") { continue; }
        let Some(a) = tree(&t) else { continue };
        for _ in 0..2 { let o = options(&mut c.rng); one(c, &t, &a, o); }
    }
    c.stage("random programs");
    let (mut n, mut bad) = (0, 0);
    while c.time_left(share) {
        let k = *c.rng.pick(comments);
        let t = program(&mut c.rng, k);
        n += 1;
        let Some(a) = tree(&t) else { bad += 1; continue };
        let o = options(&mut c.rng);
        one(c, &t, &a, o);
    }
    c.note(format!("{bad} of {n} programs do not parse and were left out"));
}

/// Whether R's grammar has an assignment with `=` at this place: where it says
/// `expr_or_assign_or_help`.
fn equal_allowed(n: &Node) -> bool {
    let (Some(p), i) = (n.parent(), n.index()) else { return false };
    match p.kind() {
        R_EXPRESSION_LIST | R_PARENTHESIZED_EXPRESSION => true,
        R_UNARY_EXPRESSION => token_at(&p, 0).is_some_and(|t| t.kind() == WAT),
        R_BINARY_EXPRESSION => token_at(&p, 1).is_some_and(|t| matches!(t.kind(), WAT | EQUAL | ASSIGN)) && equal_allowed(&p),
        k => is_body(k, i),
    }
}
/// R does not read `x <- y = 1`
fn unread(a: &Node) -> bool {
    a.descendants().any(|n| op(&n) == Some(EQUAL) && node_at(&n, 0).and_then(|l| op(&l)).is_some_and(|k| matches!(k, ASSIGN | EQUAL | SUPER_ASSIGN | WALRUS)))
}
fn t03(c: &mut Ctx) {
    c.stage("places of an assignment");
    for place in ["@", "{ @ }", "(@)", "if (a) @", "if (a) b else @", "x <- if (a) @ else b", "while (a) @", "repeat @", "for (i in a) @", "function() @", "\\(x) @", "f(@)", "f(y = @)", "x[@]", "x[[@]]",
        "if (@) b", "while (@) b", "for (i in @) b", "function(x = @) 1", "?@", "a ? @", "-(@)", "!(@)", "a + (@)", "f({ @ })", "f((@))", "f(function() @)", "f(if (a) @)", "z = @", "z <- @", "f(z <- @)", "if (z <- @) b",
        "f(?@)", "f(a ? @)", "(z <- @)", "{ z = @ }", "z <<- @", "z := @", "a ~ @", "f(a ~ @)", "@ -> q"] {
        for o in ["=", "<-", "<<-", ":=", "->", "->>"] {
            for deep in ["x OP 1", "x OP y <- 2", "x OP y OP 2", "x$a OP 1", "x[1] OP function() y OP 3"] {
                let t = place.replace('@', &deep.replace("OP", o));
                let Some(a) = tree(&t) else { continue };
                if unread(&a) { continue; }
                let each = |c: &mut Ctx, t: &str, a: &Node| {
                    for st in [AssignmentStyle::Arrow, AssignmentStyle::Equal, AssignmentStyle::Preserve] {
                        let o = RFormatOptions::default().with_assignment_style(st);
                        c.case(|| show(&o, t), || { let out = print(a, &o)?; let (_, w) = compare(a, &out)?; operators(st, &w).map_err(|e| format!("{e}\nprinted:\n{out}")) });
                    }
                };
                each(c, &t, &a);
                if deep != "x OP 1" || !c.time_left(0.5) { continue; }
                for (s, e, _) in gaps(&a) {
                    for put in ["\n", " # 1\n", "\n# 1\n"] {
                        let u = format!("{}{put}{}", &t[..s], &t[e..]);
                        if let Some(a) = tree(&u).filter(|a| !unread(a)) { each(c, &u, &a); }
                    }
                }
            }
        }
    }
    over(c, 0.95, &[0, 0, 15], |o, _, _, _, w| operators(o.assignment_style(), w));
}
fn operators(style: AssignmentStyle, w: &Walk) -> Result<(), String> {
    for (n, was, is) in &w.assigned {
        let want = match (style, was) {
            (AssignmentStyle::Arrow, EQUAL) => ASSIGN,
            (AssignmentStyle::Equal, ASSIGN) if equal_allowed(n) => EQUAL,
            _ => *was,
        };
        if *is != want { return Err(format!("the operator of `{}` became {is:?}, not {want:?}", n.to_trimmed_string())); }
    }
    Ok(())
}

fn broken(n: &Node) -> bool { n.to_trimmed_string().contains('\n') }
fn braces(n: &Node) -> bool { n.kind() == R_BRACED_EXPRESSIONS }
/// an `if` whose bodies get braces whatever the width of the line
fn forced(n: &Node) -> bool {
    let p = n.parent().unwrap();
    if p.kind() == R_EXPRESSION_LIST {
        let top = p.parent().is_some_and(|g| g.kind() == R_ROOT);
        if top || p.children().last().is_some_and(|l| l != *n) { return true; }
    }
    let body = |b: Node| led(&b) || braces(&b) || b.kind() == R_IF_STATEMENT;
    node_at(n, 4).is_some_and(body) || node_at(n, 5).is_some_and(|e| led(&e) || node_at(&e, 1).is_some_and(body))
}
/// an `if` behind an `else` belongs to the `if` in front
fn chain_head(n: &Node) -> Node {
    match n.parent() {
        Some(e) if e.kind() == R_ELSE_CLAUSE => chain_head(&e.parent().unwrap()),
        _ => n.clone(),
    }
}
fn t04(c: &mut Ctx) {
    c.stage("shapes of an if");
    for place in ["@", "{ @ }", "{ @\n1 }", "x <- @", "f(@)", "f(a = @)", "function() @", "function() { @ }", "function() { @\n@ }", "while (a) @", "(@)", "a + @", "if (q) @", "x <- if (q) @ else r", "x[@]"] {
        for b1 in ["b", "\nb", "{ b }", "{ b\nb }", "{}", "if (d) e", "function() b", "{ }"] {
            for tail in ["", " else c", " else\nc", "\nelse c", "\nelse { c }", " else { c }", " else if (d) e", " else if (d) e else g", " else if (d) { e } else g", " else {}", " else function() 1"] {
                for width in [80u16, 12] {
                    let t = place.replace('@', &format!("if (a) {b1}{tail}"));
                    let Some(a) = tree(&t) else { continue };
                    let o = RFormatOptions::default().with_line_width(LineWidth::try_from(width).unwrap());
                    c.case(|| show(&o, &t), || { let out = print(&a, &o)?; let (_, w) = compare(&a, &out)?; bodies(&w).map_err(|e| format!("{e}\nprinted:\n{out}")) });
                }
            }
        }
    }
    over(c, 0.95, &[0], |_, _, _, _, w| bodies(w));
}
fn bodies(w: &Walk) -> Result<(), String> {
    for (a, b) in &w.pairs {
        let err = |m: &str| Err(format!("{m}: `{}` was printed as `{}`", a.to_trimmed_string(), b.to_trimmed_string()));
        let multi = a.to_trimmed_string().contains("\"\n") || a.descendants_tokens(Direction::Next).any(|t| t.text_trimmed().contains('\n')) || !comments(a).is_empty();
        match a.kind() {
            R_FOR_STATEMENT if !node_at(b, 6).is_some_and(|x| braces(&x)) => return err("a loop without braces"),
            R_WHILE_STATEMENT if !node_at(b, 4).is_some_and(|x| braces(&x)) => return err("a loop without braces"),
            R_REPEAT_STATEMENT if !node_at(b, 1).is_some_and(|x| braces(&x)) => return err("a loop without braces"),
            R_FUNCTION_DEFINITION => {
                let (x, y) = (node_at(a, 2).unwrap(), node_at(b, 2).unwrap());
                if braces(&x) { continue; }
                if led(&x) && !braces(&y) { return err("a body on a line of its own got no braces"); }
                if !multi && !braces(&y) && broken(b) { return err("a function over several lines without braces"); }
                if !multi && braces(&y) && !led(&x) && !broken(b) { return err("braces on one line"); }
            }
            R_IF_STATEMENT => {
                let force = forced(&chain_head(a));
                let mut each = vec![node_at(b, 4)];
                if let Some(e) = node_at(b, 5) { each.push(node_at(&e, 1).filter(|x| x.kind() != R_IF_STATEMENT)); }
                for y in each.into_iter().flatten() {
                    if force && !braces(&y) { return err("no braces where they are called for"); }
                    if !force && braces(&y) != broken(b) && !multi { return err("braces without line ends, or line ends without braces"); }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn t05(c: &mut Ctx) {
    c.stage("line ends between two expressions");
    for (head, tail, most) in [("", "", 3), ("{\n", "\n}", 2), ("function() {\n", "\n}", 2), ("f({\n", "\n})", 2), ("if (a) {\n", "\n}", 2), ("while (a) {\n", "\n}", 2)] {
        for n in 1..=7 {
            for m in 1..=4 {
                let t = format!("{head}a{}b{}c{tail}", "\n".repeat(n), "\n ".repeat(m));
                let want = format!("a{}b{}c", "\n".repeat(n.min(most)), "\n".repeat(m.min(most)));
                let o = RFormatOptions::default();
                c.case(|| show(&o, &t), || {
                    let out = format(&t, &o)?;
                    let flat: String = out.lines().map(|l| l.trim()).collect::<Vec<_>>().join("\n");
                    if flat.contains(&want) { Ok(()) } else { Err(format!("printed {out:?}, without {want:?}")) }
                });
            }
        }
    }
    c.stage("empty lines in front of commented and plain parts");
    for (head, part, tail, most) in [("a", "b", "", 2), ("{\n  a", "  b", "\n}", 1), ("a |>", "  b()", "", 1), ("a +\n  b +", "  c", "", 1), ("function(\n  a,", "  b", "\n) {\n  1\n}", 1),
        ("function(\n  a,", "  b = 2", "\n) {\n  1\n}", 1), ("f(\n  a,", "  b", "\n)", 1), ("f(\n  a,", "  b = 2", "\n)", 1), ("f(\n  a,", "  b = 2,\n  c", "\n)", 1), ("f(a,", "  b", ")", 1), ("f(a,", "  {\n    b\n  }", ")", 1), ("f(a,", "  function(x) x", ")", 1), ("x[\n  a,", "  {\n    b\n  }", "\n]", 1)] {
        for n in 0..=3 {
            for notes in ["", "# c\n", "# c\n#' d\n"] {
                let lead = " ".repeat(part.len() - part.trim_start().len());
                let notes: String = notes.lines().map(|l| format!("{lead}{l}\n")).collect();
                let text = |n: usize| format!("{head}\n{}{notes}{part}{tail}\n", "\n".repeat(n));
                // one line is for another layout to decide
                if tail == ")" && n == 0 { continue; }
                let want = if tail == ")" { text(n.min(most)).replace("f(a,", "f(\n  a,").replace(")\n", "\n)\n").replace("(x\n)", "(x)") } else { text(n.min(most)) };
                let o = RFormatOptions::default();
                let t = text(n);
                c.case(|| show(&o, &t), || {
                    let out = format(&t, &o)?;
                    if out == want { Ok(()) } else { Err(format!("printed {out:?}, not {want:?}")) }
                });
            }
        }
    }
    over(c, 0.95, &[0, 300, 300, 12, 405], |_, a, out, b, w| {
        for (x, y) in &w.pairs {
            let Some(l) = x.parent().filter(|l| l.kind() == R_EXPRESSION_LIST) else { continue };
            // a comment of the expression in front can end up between the two
            if x.index() == 0 || x.prev_sibling().is_some_and(|p| !comments(&p).is_empty()) { continue; }
            let most = if l.parent().is_some_and(|p| p.kind() == R_ROOT) { 3 } else { 2 };
            let (n, m) = (lines_before(x), lines_before(y));
            if m != n.clamp(1, most) { return Err(format!("{n} line ends in front of `{}` became {m}", x.to_trimmed_string())); }
        }
        for (x, y) in &w.pairs {
            if !comments(&x.parent().unwrap_or(x.clone())).is_empty() { continue; }
            let kept = |what: &str, v: Vec<Node>, u: Vec<Node>| {
                for (p, q) in v.iter().zip(&u).filter(|(p, _)| !is_hole(p)) {
                    let (n, m) = (lines_before(p), lines_before(q));
                    if (m > 1) != (n > 1) || m > 2 { return Err(format!("{n} line ends in front of the {what} `{}` became {m}", p.to_trimmed_string())); }
                }
                Ok(())
            };
            match x.kind() {
                R_BINARY_EXPRESSION if op(x).is_some_and(chainable) => kept("operand", chain(x), chain(y))?,
                R_PARAMETER_LIST => kept("parameter", x.children().skip(1).collect(), y.children().skip(1).collect())?,
                // in front of holes the arguments follow their commas; on one line there are no lines
                R_ARGUMENT_LIST if !x.children().any(|h| is_hole(&h)) && (y.children().next().is_some_and(|f| lines_before(&f) > 0) || !titled_block(&x.children().collect::<Vec<_>>()) && x.children().any(|h| lines_before(&h) > 1)) => kept("argument", x.children().skip(1).collect(), y.children().skip(1).collect())?,
                _ => {}
            }
        }
        let text = out.replace("\r\n", "\n");
        if a.children().next().is_some_and(|l| l.children().next().is_some()) && (!text.ends_with('\n') || text.ends_with("\n\n")) { return Err("no single line end at the end".into()); }
        let _ = b;
        Ok(())
    });
}

fn is_hole(n: &Node) -> bool { n.first_token().is_none() || n.slots().all(|s| matches!(s, SyntaxSlot::Empty { .. })) }
fn chainable(k: RSyntaxKind) -> bool { matches!(k, PIPE | SPECIAL | OR | OR2 | AND | AND2 | PLUS | MINUS | MULTIPLY | DIVIDE) }
fn op(n: &Node) -> Option<RSyntaxKind> { (n.kind() == R_BINARY_EXPRESSION).then(|| token_at(n, 1).unwrap().kind()) }
/// the right sides of a chain, first to last
fn chain(n: &Node) -> Vec<Node> {
    let mut v = vec![];
    let mut at = n.clone();
    while op(&at).is_some_and(chainable) { v.push(node_at(&at, 2).unwrap()); at = node_at(&at, 0).unwrap(); }
    v.reverse();
    v
}
/// a string and a block (each of them can have a name) and nothing else
fn titled_block(args: &[Node]) -> bool {
    args.len() == 2 && node_at(&args[0], 1).is_some_and(|v| v.kind() == R_STRING_VALUE) && node_at(&args[1], 1).is_some_and(|v| braces(&v))
}
fn breaks(o: &RFormatOptions, w: &Walk) -> Result<(), String> {
    for (a, b) in &w.pairs {
        let err = |m: &str| Err(format!("{m}: `{}` was printed as `{}`", a.to_trimmed_string(), b.to_trimmed_string()));
        if !comments(a).is_empty() { continue; }
        match a.kind() {
            R_CALL_ARGUMENTS | R_SUBSET_ARGUMENTS | R_SUBSET2_ARGUMENTS => {
                let (x, y): (Vec<_>, Vec<_>) = (node_at(a, 1).unwrap().children().collect(), node_at(b, 1).unwrap().children().collect());
                let Some(first) = x.iter().position(|n| !is_hole(n)) else { continue };
                // a title and a block stay behind the parenthesis, whatever is called
                let test = a.kind() == R_CALL_ARGUMENTS && titled_block(&x);
                // the only argument can hug the parentheses
                if test || o.persistent_line_breaks().is_ignore() { continue; }
                let list = node_at(a, 1).unwrap();
                let hole_led = (0..first).any(|i| comma(&list, i).is_some_and(|t| t.has_leading_newline()));
                if hole_led || led(&x[first]) {
                    for n in y[first..].iter().filter(|n| !is_hole(n)) { if !led(n) { return err("an argument is not on a line of its own"); } }
                    if !token_at(b, 2).unwrap().has_leading_newline() { return err("the closing delimiter is not on a line of its own"); }
                }
            }
            R_PARAMETERS if !o.persistent_line_breaks().is_ignore() => {
                let (x, y): (Vec<_>, Vec<_>) = (node_at(a, 1).unwrap().children().collect(), node_at(b, 1).unwrap().children().collect());
                if x.first().is_some_and(led) {
                    for n in &y { if !led(n) { return err("a parameter is not on a line of its own"); } }
                    if !token_at(b, 2).unwrap().has_leading_newline() { return err("the parenthesis is not on a line of its own"); }
                }
            }
            R_BINARY_EXPRESSION => {
                let k = op(a).unwrap();
                if matches!(k, EQUAL | ASSIGN | SUPER_ASSIGN | TILDE | WALRUS | ASSIGN_RIGHT | SUPER_ASSIGN_RIGHT) {
                    let keep = !o.persistent_line_breaks().is_ignore() && matches!(k, EQUAL | ASSIGN | SUPER_ASSIGN | TILDE) && led(&node_at(a, 2).unwrap());
                    if keep != led(&node_at(b, 2).unwrap()) { return err("the line end behind the operator"); }
                }
                // the whole chain only
                if !chainable(k) || a.parent().is_some_and(|p| op(&p).is_some_and(chainable) && a.index() == 0) { continue; }
                let (x, y) = (chain(a), chain(b));
                if !o.persistent_line_breaks().is_ignore() && led(&x[0]) && !y.iter().all(led) { return err("a part of the chain is not on a line of its own"); }
                if y.iter().any(led) && !y.iter().all(led) { return err("the chain is broken in some places only"); }
            }
            _ => {}
        }
    }
    Ok(())
}
/// The program with a line end put in front of (or taken away from) an argument, a
/// parameter or the right side of a chain that is not the first one.
fn relaid(r: &mut Rng, a: &Node, ignore: bool) -> Option<String> {
    let mut at: Vec<Node> = vec![];
    for n in a.descendants() {
        match n.kind() {
            R_ARGUMENT_LIST | R_PARAMETER_LIST => {
                let v: Vec<Node> = n.children().collect();
                if v.iter().any(is_hole) { continue; }
                at.extend(v.into_iter().skip(if ignore { 0 } else { 1 }));
            }
            R_BINARY_EXPRESSION if op(&n).is_some_and(chainable) => at.extend(chain(&n).into_iter().skip(if ignore { 0 } else { 1 })),
            R_BINARY_EXPRESSION if ignore && op(&n).is_some_and(|k| matches!(k, EQUAL | ASSIGN | SUPER_ASSIGN | TILDE)) => at.extend(node_at(&n, 2)),
            R_BINARY_EXPRESSION if op(&n).is_some_and(|k| matches!(k, WALRUS | LESS_THAN | EQUAL2 | NOT_EQUAL | GREATER_THAN)) => at.extend(node_at(&n, 2)),
            _ => {}
        }
    }
    let t = a.to_string();
    let mut cuts: Vec<(usize, usize, &str)> = vec![];
    for n in at {
        if !r.chance(1, 2) { continue; }
        let Some(f) = n.first_token() else { continue };
        if f.leading_trivia().pieces().any(|p| p.is_comments()) { continue; }
        let e: usize = f.text_trimmed_range().start().into();
        let s = t[..e].trim_end_matches([' ', '\n', '\t']).len();
        let nl = t[s..e].matches('\n').count();
        if nl > 1 { continue; }
        cuts.push((s, e, if nl == 1 { " " } else { "\n" }));
    }
    cuts.sort();
    cuts.dedup();
    if cuts.is_empty() { return None; }
    let mut out = String::new();
    let mut p = 0;
    for (s, e, x) in cuts { if s < p { continue; } out.push_str(&t[p..s]); out.push_str(x); p = e; }
    out.push_str(&t[p..]);
    Some(out)
}
/// Where a line end can say how a program is printed: the first argument or parameter, a
/// hole and what follows one, the first right side of a chain, an assigned value, a body,
/// an `else`, an expression of a list.
fn telling(t: &Token) -> bool {
    if t.kind() == ELSE_KW || t.kind() == EOF { return true; }
    let Some(mut n) = t.parent() else { return true };
    if n.kind() == R_ARGUMENT_LIST { return n.children().any(|n| is_hole(&n)); }
    while n.first_token().is_some_and(|f| f == *t) {
        let Some(p) = n.parent() else { return true };
        let i = n.index();
        if match p.kind() {
            R_EXPRESSION_LIST => true,
            R_ARGUMENT_LIST => i == 0 || p.children().any(|n| is_hole(&n)),
            R_PARAMETER_LIST => i == 0,
            R_BINARY_EXPRESSION if i == 2 => match op(&p).unwrap() {
                k if chainable(k) => op(&node_at(&p, 0).unwrap()).is_none_or(|k| !chainable(k)),
                k => matches!(k, EQUAL | ASSIGN | SUPER_ASSIGN | TILDE),
            },
            k => is_body(k, i),
        } { return true; }
        n = p;
    }
    false
}
fn t07(c: &mut Ctx) {
    c.stage("small programs with a line end at every place");
    for t in SMALL {
        let Some(a) = tree(t) else { panic!("{t} does not parse") };
        for (s, e, token) in gaps(&a) {
            if t[s..e].contains('\n') || s == 0 { continue; }
            let u = format!("{}\n{}", &t[..s], &t[e..]);
            let Some(b) = tree(&u) else { continue };
            for w in [80u16, 6] {
                let o = RFormatOptions::default().with_line_width(LineWidth::try_from(w).unwrap());
                c.case(|| show(&o, &u), || { let out = print(&b, &o)?; let (_, w) = compare(&b, &out)?; breaks(&o, &w).map_err(|e| format!("{e}\nprinted:\n{out}")) });
                // a line end can also end an expression
                if telling(&token) || walk(&a, &b, &mut Walk { pairs: vec![], braced: vec![], assigned: vec![] }).is_err() { continue; }
                c.case(|| format!("{o:?}\n{t}\n-----\n{u}"), || {
                    let (x, y) = (print(&a, &o)?, print(&b, &o)?);
                    if x == y { Ok(()) } else { Err(format!("two ways of laying out one program are printed as\n{x}\n-----\n{y}")) }
                });
            }
        }
    }
    over(c, 0.5, &[0], |o, _, _, _, w| breaks(o, w));
    c.stage("the same program laid out in another way");
    while c.time_left(0.95) {
        let t = program(&mut c.rng, 0);
        let Some(a) = tree(&t) else { continue };
        let o = options(&mut c.rng);
        let Some(u) = relaid(&mut c.rng, &a, o.persistent_line_breaks().is_ignore()) else { continue };
        c.case(|| format!("{o:?}\n{t}\n-----\n{u}"), || {
            let (x, y) = (print(&a, &o)?, format(&u, &o)?);
            if x == y { Ok(()) } else { Err(format!("two ways of laying out one program are printed as\n{x}\n-----\n{y}")) }
        });
    }
}
/// where a token stands on its line, in characters
fn column(t: &str, at: usize) -> usize { t[t[..at].rfind('\n').map_or(0, |i| i + 1)..at].chars().count() }
fn start(n: &Node) -> usize { n.text_trimmed_range().start().into() }
fn end(n: &Node) -> usize { n.text_trimmed_range().end().into() }
fn value(n: &Node) -> Option<Node> { node_at(n, 1) }
fn named(n: &Node) -> bool { node_at(n, 0).is_some() }
/// the width in front of the decimal point of a number, and whether it has one
fn number(n: &Node) -> Option<(usize, bool)> {
    let v = value(n)?;
    let (sign, v) = match v.kind() {
        R_UNARY_EXPRESSION if token_at(&v, 0).is_some_and(|t| matches!(t.text_trimmed(), "+" | "-")) => (1, node_at(&v, 1)?),
        _ => (0, v),
    };
    let t = v.to_trimmed_string();
    match v.kind() {
        R_INTEGER_VALUE => Some((sign + t.len() - 1, true)),
        R_DOUBLE_VALUE => Some((sign + t.find('.').unwrap_or(t.len()), t.contains('.'))),
        _ => None,
    }
}
/// the rows of the arguments of a table, and the arguments behind it
fn rows(list: &Node) -> (Vec<Vec<usize>>, Vec<usize>) {
    let (mut rows, mut row, mut rest) = (vec![], vec![], vec![]);
    let v: Vec<Node> = list.children().collect();
    for (i, n) in v.iter().enumerate() {
        if !rest.is_empty() || named(n) { rest.push(i); continue; }
        let ends = match value(n) { Some(_) => lines_before(n), None => comma(list, i).map_or(0, |t| lines_before_token(&t)) };
        if ends > 0 && !row.is_empty() { rows.push(std::mem::take(&mut row)); }
        row.push(i);
    }
    if !row.is_empty() { rows.push(row); }
    (rows, rest)
}
fn comma(list: &Node, i: usize) -> Option<Token> { token_at(list, 2 * i + 1) }
fn table(a: &Node, b: &Node, out: &str) -> Result<(), String> {
    let err = |m: &str| Err(format!("{m}: `{}` was printed as `{}`", a.to_trimmed_string(), b.to_trimmed_string()));
    let (la, lb) = (node_at(a, 1).unwrap(), node_at(b, 1).unwrap());
    let (x, y): (Vec<Node>, Vec<Node>) = (la.children().collect(), lb.children().collect());
    if x.is_empty() { return Ok(()); }
    let (rows, rest) = rows(&la);
    let first = |i: usize| y[i].first_token().or(comma(&lb, i)).unwrap_or(token_at(b, 2).unwrap());
    for (k, row) in rows.iter().enumerate() {
        for (j, &i) in row.iter().enumerate() {
            let t = first(i);
            if j == 0 && !(t.has_leading_newline()) { return err("a row is not on a line of its own"); }
            if j == 0 && k > 0 && value(&x[i]).is_some() {
                let n = lines_before(&x[i]).clamp(1, 2);
                if lines_before_token(&t) != n { return err("the empty line between two rows"); }
            }
            if j > 0 && t.has_leading_newline() && !(y[i].first_token().is_none() && comma(&lb, i).is_none()) { return err("a row on several lines"); }
        }
    }
    for &i in &rest { if !first(i).has_leading_newline() { return err("an argument behind the table is not on a line of its own"); } }
    if !token_at(b, 2).unwrap().has_leading_newline() { return err("the parenthesis is not on a line of its own"); }
    let wide = rows.iter().map(|r| r.len()).max().unwrap_or(0);
    let mut left = None;
    for j in 0..wide {
        let cells: Vec<usize> = rows.iter().filter_map(|r| r.get(j).copied()).collect();
        let mut commas: Vec<usize> = cells.iter().filter_map(|&i| comma(&lb, i)).map(|t| column(out, t.text_trimmed_range().start().into())).collect();
        commas.dedup();
        if commas.len() > 1 { return err("the commas of a column do not stand below each other"); }
        let decimal = cells.iter().any(|&i| number(&x[i]).is_some_and(|n| n.1));
        let mut points = vec![];
        let mut ends = vec![];
        let mut starts = vec![];
        for &i in &cells {
            if value(&y[i]).is_none() { continue; }
            let s = column(out, start(&y[i]));
            match number(&y[i]) {
                Some((w, _)) if decimal => points.push(s + w),
                Some(_) => ends.push(column(out, end(&y[i]))),
                None => starts.push(s),
            }
        }
        // columns begin at one place
        if let Some(l) = left { if starts.iter().any(|&s| s != l) { return err("a cell that is not a number does not stand on the left"); } }
        starts.dedup();
        if starts.len() > 1 { return err("the cells of a column do not begin below each other"); }
        points.dedup();
        if points.len() > 1 { return err("the decimal points of a column do not stand below each other"); }
        ends.dedup();
        if ends.len() > 1 { return err("the numbers of a column do not end below each other"); }
        if !decimal { if let (Some(&e), Some(&c)) = (ends.first(), commas.first()) { if c != e + 1 { return err("the numbers of a column do not stand on the right"); } } }
        left = commas.first().map(|c| c + 2);
        // no wider than it has to be
        if let (Some(&c), false) = (commas.first(), decimal) {
            if let Some(&s) = starts.first() {
                let most = cells.iter().map(|&i| y[i].to_trimmed_string().chars().count()).max().unwrap();
                if c != s + most + 1 { return err("a column is wider than its cells"); }
            }
        }
    }
    Ok(())
}
fn cell(r: &mut Rng) -> String {
    match r.below(14) {
        0..=2 => r.pick(&["1", "10", "100", "1234567", "1e5", "0x1F"]).to_string(),
        3..=5 => r.pick(&["1.5", "10.25", "0.125", "1.", ".5", "100.0", "1.5e3"]).to_string(),
        6 => r.pick(&["1L", "20L", "300L"]).to_string(),
        7 => r.pick(&["-1", "- 2.5", "+3", "-10L", "--1", "!1", "-x"]).to_string(),
        8 => r.pick(&["\"a\"", "\"été\"", "'long string here'", "\"\"", "\"日本\"", "\"€ 1\"", "\"– — …\"", "\"\u{1f600}\"", "'\t'"]).to_string(),
        9 => r.pick(&["f(x)", "f( x,y )", "a+b", "x |> g()", "~ .x", "x$y", "list(1,2)"]).to_string(),
        10 => r.pick(&["x", "TRUE", "NA", "NULL", "~a", "`b c`", "été"]).to_string(),
        11 if r.chance(1, 6) => r.pick(&["{ x }", "function(x) {\n1 }", "\"a\nb\"", "{}"]).to_string(),
        12 if r.chance(1, 4) => String::new(),
        _ => "x".into(),
    }
}
/// A call of `tribble`, and whether a cell goes over several lines.
fn cells(r: &mut Rng) -> String {
    let (n, m) = (r.range(1, 5), r.range(1, 5));
    let only = if r.chance(1, 2) { Some(r.below(4)) } else { None };
    let mut out = String::from("tribble(");
    let ragged = r.chance(1, 3);
    for i in 0..n {
        let m = if ragged { r.range(1, 5) } else { m };
        out += *r.pick(&["\n", "\n  ", "\n", "\n\n", "\n\n\n"]);
        if r.chance(1, 12) { out += *r.pick(&["# a\n", "\n# b\n\n", "# c\n# d\n"]); }
        for j in 0..m {
            if j > 0 { out += *r.pick(&[" ", "", "   "]); }
            let c = match only {
                Some(0) => r.pick(&["1", "22", "333"]).to_string(),
                Some(1) => r.pick(&["1.5", "22", "-3.25", "1L"]).to_string(),
                _ => cell(r),
            };
            out += &c;
            let last = i + 1 == n && j + 1 == m;
            if !last || r.chance(1, 8) { out += *r.pick(&["", "", " ", "  "]); out += ","; }
            if j + 1 == m && r.chance(1, 12) { out += " # e"; }
        }
    }
    if r.chance(1, 6) { if !out.ends_with(',') { out.push(','); } out += *r.pick(&["\n  default = 1", " .rows = f( x ), 1", "\n a = 1,\n\n b = 2.5"]); }
    out += *r.pick(&["\n)", ")", " )"]);
    out
}
fn t01(c: &mut Ctx) { tables(c, 0.95) }
fn tables(c: &mut Ctx, share: f64) {
    c.stage("random tables");
    while c.time_left(share) {
        let t = cells(&mut c.rng);
        let how = c.rng.below(4);
        let o = options(&mut c.rng);
        let (t, o) = match how {
            0 => (format!("# fmt: table\n{t}"), o),
            1 => (format!("x <- data |>\n  # fmt: table\n  {t}"), o),
            2 => (format!("f({{\n  pkg::{t}\n}})"), o.with_table(Some(Table::new(vec!["other".into(), "tribble".into()])))),
            _ => (t, o.with_table(Some(Table::new(vec!["tribble".into()])))),
        };
        let Some(a) = tree(&t) else { continue };
        c.case(|| show(&o, &t), || {
            let out = print(&a, &o)?;
            let (_, w) = compare(&a, &out)?;
            for (x, y) in &w.pairs {
                if x.kind() != R_CALL_ARGUMENTS { continue; }
                let call = x.parent().unwrap();
                let f = node_at(&call, 0).unwrap();
                if !matches!(f.to_trimmed_string().as_str(), "tribble" | "pkg::tribble") { continue; }
                // a cell over several lines: left as it is
                let (r, _) = rows(&node_at(x, 1).unwrap());
                let v: Vec<Node> = node_at(x, 1).unwrap().children().collect();
                let tall = r.iter().flatten().any(|&i| v[i].to_trimmed_string().contains('\n') || v[i].descendants().any(|d| braces(&d) && node_at(&d, 1).is_some_and(|l| l.children().next().is_some())));
                if tall {
                    if x.to_trimmed_string() != y.to_trimmed_string() { return Err(format!("a table with a cell over several lines was changed\nprinted:\n{out}")); }
                } else { table(x, y, &out).map_err(|e| format!("{e}\nprinted:\n{out}"))?; }
            }
            Ok(())
        });
    }
}

fn may_skip(n: &Node) -> bool { n.parent().is_some_and(|p| matches!(p.kind(), R_EXPRESSION_LIST | R_ARGUMENT_LIST | R_BINARY_EXPRESSION)) && n.kind() != R_ROOT && !is_hole(n) }
/// What only reads as one expression in parentheses, and is (a part of) a body that can be
/// given braces: kept as it is it would not be read as one any more (the known finding of
/// T06).
fn fragile(n: &Node) -> bool {
    std::iter::once(n.clone()).chain(n.ancestors()).any(|b| b.parent().is_some_and(|p| is_body(p.kind(), b.index())))
        && tree(&n.to_trimmed_string()).is_none_or(|r| r.children().next().is_none_or(|l| l.children().count() != 1))
}
fn verbatim(a: &Node, out: &str, which: impl Fn(&Node) -> bool) -> Result<(), String> {
    let (_, w) = compare(a, out)?;
    for (x, y) in &w.pairs {
        if which(x) && x.to_trimmed_string() != y.to_trimmed_string() { return Err(format!("`{}` was printed as `{}`\nprinted:\n{out}", x.to_trimmed_string(), y.to_trimmed_string())); }
    }
    Ok(())
}
fn called(n: &Node) -> Option<String> {
    if n.kind() != R_CALL { return None; }
    let f = node_at(n, 0)?;
    match f.kind() {
        R_IDENTIFIER => Some(f.to_trimmed_string()),
        R_NAMESPACE_EXPRESSION => node_at(&f, 2).filter(|r| r.kind() == R_IDENTIFIER).map(|r| r.to_trimmed_string()),
        _ => None,
    }
}
/// some lines of comments, and empty ones
fn others(r: &mut Rng) -> String {
    (0..r.below(4)).map(|_| *r.pick(&["# a\n", "#' b\n", "#\n", "\n", "#+ c\n", "# fmt\n", "## d: e\n", "#| f\n", "# fmt: table\n", "# ----\n"])).collect()
}
fn t02(c: &mut Ctx) {
    tables(c, 0.15);
    c.stage("a directive in front of a node");
    while c.time_left(0.45) {
        let k = *c.rng.pick(&[0, 0, 12]);
        let t = program(&mut c.rng, k);
        let Some(a) = tree(&t) else { continue };
        let v: Vec<Node> = a.descendants().filter(may_skip).collect();
        if v.is_empty() { continue; }
        let n = c.rng.pick(&v).clone();
        let e = start(&n);
        let word = *c.rng.pick(&["# fmt: skip", "#fmt: skip", "#  fmt:skip", "# fmt: skip"]);
        let (over, under) = if c.rng.chance(1, 3) { (others(&mut c.rng), others(&mut c.rng)) } else { Default::default() };
        let text = format!("{}\n{over}{word}\n{under}{}", &t[..e], &t[e..]);
        let Some(u) = tree(&text) else { continue };
        // the node in the new program: the one at that place with that text
        let in_curly_curly = |x: &Node| braces(x) && x.parent().and_then(|l| l.parent()).is_some_and(|p| braces(&p)) && x.next_sibling().is_none() && x.prev_sibling().is_none();
        if in_curly_curly(&n) { continue; } // the outer braces are what can be skipped
        let (at, s) = (e + over.len() + word.len() + under.len() + 2, n.to_trimmed_string());
        let Some(m) = u.descendants().find(|x| start(x) == at && x.to_trimmed_string() == s && may_skip(x)) else { continue };
        // the comment is in front of the outermost node that begins there
        if m.ancestors().skip(1).any(|p| start(&p) == at && p.kind() != R_ROOT && !matches!(p.kind(), R_EXPRESSION_LIST | R_ARGUMENT_LIST)) { continue; }
        if fragile(&m) { continue; }
        let o = options(&mut c.rng);
        c.case(|| show(&o, &text), || verbatim(&u, &print(&u, &o)?, |x| *x == m));
    }
    c.stage("a directive at other places");
    let body = "x   <-  list( 1,2 )";
    let places = [
        "x  <-   1 # fmt: skip\ny  <-   2", "(\n# fmt: skip\nx  +   1)", "if (\n# fmt: skip\nx  +   1) {\n  y   <- 2 }", "f  <-  function(\n# fmt: skip\nx   =  1) {  x }",
        "f  <-  function(x,\n# fmt: skip\ny   =  1) {  x }", "{\n  x   <-  1\n  # fmt: skip\n}\ny   <- 3", "x   <-  1\n# fmt: skip", "-\n# fmt: skip\nfoo(  1  )", 
        "{ # fmt: skip\n}\nf(  x  )", "x[[  1 ]] # fmt: skip\n", "f(\n  1,  # fmt: skip\n  g(  x  )\n)", "# fmt:skipped\nf(  x  )", "# fmt: skip this\nf(  x  )", "# fmt skip\nf(  x  )", "# skip\nf(  x  )", "# nofmt: skip\nf(  x  )",
        "x$\n# fmt: skip\ny(  1  )", "repeat\n# fmt: skip\n f(  x  )", "function()\n# fmt: skip\n f(  x  )", "# fmt: table\nx   +  f(  1,2 )", "tribble(1,  2) # fmt: table\n", "# fmt: skip file x\nf(  x  )",
    ];
    for p in places {
        for tail in ["", "\nz   <-  2"] {
            if !tail.is_empty() && p.ends_with("\n# fmt: skip") { continue; }
            let t = format!("{p}{tail}");
            let plain = t.replace("fmt: skip", "fmt. skip").replace("fmt:skip", "fmt.skip").replace("fmt: table", "fmt. table");
            if tree(&t).is_none() { continue; }
            let o = options(&mut c.rng);
            c.case(|| show(&o, &t), || {
                let (x, y) = (format(&t, &o)?, format(&plain, &o)?);
                let x = x.replace("fmt: skip", "fmt. skip").replace("fmt:skip", "fmt.skip").replace("fmt: table", "fmt. table");
                if x == y { Ok(()) } else { Err(format!("printed as\n{x}\nand, with a comment in its place, as\n{y}")) }
            });
        }
    }
    c.stage("the skip setting");
    while c.time_left(0.65) {
        let k = *c.rng.pick(&[0, 0, 12]);
        let t = program(&mut c.rng, k);
        let all = ["`f`", "\"f\"", "f", "map", "list", "fun", "g", "m", "slot", "pkg", "pkg::fun", "x$m", "x", "foo", "test_that", "a"];
        let names: Vec<&str> = all.iter().copied().filter(|_| c.rng.chance(1, 4)).collect();
        let o = options(&mut c.rng);
        let t = if !c.rng.chance(1, 4) { t } else {
            // every way of naming what is called
            let f = *c.rng.pick(&["f", "pkg::f", "pkg:::f", "`f`", "\"f\"", "pkg::`f`", "pkg:::\"f\"", "x$f", "x@f", "x[[ 1]]", "f( 2)", "(f)", "f::g", "f:::g", "-f", "f$g", "...", "\\(x) f"]);
            let around = *c.rng.pick(&["@", "x <-  @", "a |>  @", "{  @ }", "g(b  = @)", "@\n@", "if (a)  @", "@  + 1", "# c\n@"]);
            around.replace('@', &format!("{f}(  1,2 )"))
        };
        let Some(a) = tree(&t) else { continue };
        let with = o.clone().with_skip(Some(skip(&names)));
        let hit: Vec<Node> = a.descendants().filter(|n| called(n).is_some_and(|f| names.contains(&f.as_str()))).collect();
        if hit.iter().any(fragile) { continue; }
        c.case(|| show(&with, &t), || {
            let out = print(&a, &with)?;
            if hit.is_empty() {
                let plain = print(&a, &o)?;
                return if out == plain { Ok(()) } else { Err(format!("no call is to be skipped, and it is printed as\n{out}\ninstead of\n{plain}")) };
            }
            verbatim(&a, &out, |x| hit.contains(x))
        });
    }
    c.stage("files that are skipped");
    while c.time_left(0.95) {
        let k = *c.rng.pick(&[0, 8]);
        let t = program(&mut c.rng, k);
        let Some(a) = tree(&t) else { continue };
        if a.children().next().is_none_or(|l| l.children().next().is_none()) { continue; }
        let crlf = c.rng.chance(1, 4);
        let head = *c.rng.pick(&["# fmt: skip file\n", "#fmt: skip file\n", "# Generated by roxygen2: do not edit by hand\n", "# Generated by cpp11: x\n", "# a\n\n# fmt: skip file\n", "\n\n# fmt: skip file\n\n", "# Generated by x\n# b\n", "#' a\n# b\n#   fmt: skip file\n\n\n"]);
        let head = if c.rng.chance(1, 3) { format!("{}# fmt: skip file\n{}", others(&mut c.rng), others(&mut c.rng)) } else { head.to_string() };
        let mut text = format!("{head}{t}{}", c.rng.pick(&["", "\n", "\n\n\n", "  \n"]));
        if tree(&text).is_none() { continue; }
        let want = text.clone();
        if crlf { text = text.replace('\n', "\r\n"); }
        let o = options(&mut c.rng);
        // the trees of the repository are made of normalized text
        let _ = &text;
        c.case(|| show(&o, &want), || { let out = format(&want, &o)?; if out == want { Ok(()) } else { Err(format!("printed as\n{out}")) } });
        let not = *c.rng.pick(&["# a\n# Generated by x\n", "foo\n# fmt: skip file\n", "foo # fmt: skip file\n", "#\n# Generated by roxygen2\n", "# x fmt: skip file\n", "foo\n# Generated by x\n", "# generated  by\n", "# fmt: skip files\n"]);
        let (x, y) = (format!("{not}{t}"), format!("{}{t}", not.replace("fmt", "fnt").replace("enerated", "enarated")));
        if tree(&x).is_none() { continue; }
        c.case(|| show(&o, &x), || {
            let (p, q) = (format(&x, &o)?, format(&y, &o)?);
            if p.replace("fmt", "fnt").replace("enerated", "enarated") == q { Ok(()) } else { Err(format!("printed as\n{p}\nand, with a comment in its place, as\n{q}")) }
        });
    }
}
fn main() { hx::main(&[("T01", t01), ("T02", t02), ("T03", t03), ("T04", t04), ("T05", t05), ("T06", t06), ("T07", t07)]) }
