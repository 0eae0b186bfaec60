//! R's grammar, by recursive descent. Newlines end an expression in the program and in
//! braces, and mean nothing in parentheses and brackets.
use super::Data;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum T { Ident, Int, Float, Complex, Str, DotDotI, Dots, Op, Comment, Newline, Semi, Eof, Bad }
#[derive(Debug, Clone, Copy)]
struct Tok { t: T, s: usize, e: usize }

fn word(c: char) -> bool { c.is_alphanumeric() || c == '_' || c == '.' }
fn lex(x: &str) -> Vec<Tok> {
    let b = x.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let s = i;
        let c = x[i..].chars().next().unwrap();
        let t = match c {
            ' ' | '\t' | '\u{c}' => { i += 1; continue; }
            '\r' | '\n' => { i += 1; T::Newline }
            ';' => { i += 1; T::Semi }
            '#' => { while i < b.len() && b[i] != b'\n' && !(b[i] == b'\r' && b.get(i + 1) == Some(&b'\n')) { i += 1; } T::Comment }
            '"' | '\'' => string(b, &mut i, b[s]),
            '`' => { i += 1; while i < b.len() && b[i] != b'`' { if b[i] == b'\\' { i += 1; } i += 1; } i += 1; if i <= b.len() { T::Ident } else { T::Bad } }
            'r' | 'R' if b.get(i + 1).is_some_and(|q| *q == b'"' || *q == b'\'') => raw(b, &mut i),
            '0'..='9' => number(b, &mut i),
            '.' if b.get(i + 1).is_some_and(|d| d.is_ascii_digit()) => number(b, &mut i),
            c if word(c) && c != '_' => {
                while i < b.len() { let c = x[i..].chars().next().unwrap(); if !word(c) { break; } i += c.len_utf8(); }
                let w = &x[s..i];
                if w == "..." { T::Dots } else if w.len() > 2 && w.starts_with("..") && w[2..].bytes().all(|d| d.is_ascii_digit()) { T::DotDotI } else { T::Ident }
            }
            '%' => { i += 1; while i < b.len() && b[i] != b'%' && b[i] != b'\n' { i += 1; } if b.get(i) == Some(&b'%') { i += 1; T::Op } else { T::Bad } }
            _ => {
                let ops = ["<<-", "->>", ":::", "<-", "->", "<=", ">=", "==", "!=", "&&", "||", "|>", "::", ":=", "**", "+", "-", "*", "/", "^", "<", ">", "!", "&", "|", "~", "?", ":", "=", "$", "@", "(", ")", "{", "}", "[", "]", ",", "\\"];
                match ops.iter().find(|o| x[i..].starts_with(**o)) { Some(o) => { i += o.len(); T::Op } None => { i += c.len_utf8(); T::Bad } }
            }
        };
        v.push(Tok { t, s, e: i.min(b.len()) });
    }
    v.push(Tok { t: T::Eof, s: b.len(), e: b.len() });
    v
}
fn string(b: &[u8], i: &mut usize, q: u8) -> T {
    *i += 1;
    while *i < b.len() && b[*i] != q { if b[*i] == b'\\' { *i += 1; } *i += 1; }
    *i += 1;
    if *i <= b.len() { T::Str } else { T::Bad }
}
fn raw(b: &[u8], i: &mut usize) -> T {
    let q = b[*i + 1];
    let mut j = *i + 2;
    let mut dashes = 0;
    while b.get(j) == Some(&b'-') { dashes += 1; j += 1; }
    let close = match b.get(j) { Some(b'(') => b')', Some(b'[') => b']', Some(b'{') => b'}', _ => { *i += 2; return T::Bad } };
    let mut end = vec![close];
    end.extend(std::iter::repeat_n(b'-', dashes));
    end.push(q);
    match b[j..].windows(end.len()).position(|w| w == end) { Some(k) => { *i = j + k + end.len(); T::Str } None => { *i = b.len(); T::Bad } }
}
fn number(b: &[u8], i: &mut usize) -> T {
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    if at(*i) == b'0' && matches!(at(*i + 1), b'x' | b'X') { *i += 2; while at(*i).is_ascii_hexdigit() { *i += 1; } }
    else {
        while at(*i).is_ascii_digit() { *i += 1; }
        if at(*i) == b'.' { *i += 1; while at(*i).is_ascii_digit() { *i += 1; } }
        if matches!(at(*i), b'e' | b'E') && (at(*i + 1).is_ascii_digit() || (matches!(at(*i + 1), b'+' | b'-') && at(*i + 2).is_ascii_digit())) { *i += 2; while at(*i).is_ascii_digit() { *i += 1; } }
    }
    match at(*i) { b'L' => { *i += 1; T::Int } b'i' => { *i += 1; T::Complex } _ => T::Float }
}

/// binding power of a binary operator, and whether it binds to the right
fn rank(op: &str) -> Option<(u8, bool)> {
    Some(match op {
        "?" => (1, false),
        // as R reads it: `x = y <- 1` is `x = (y <- 1)`
        "<-" | "<<-" | ":=" => (6, true),
        "=" => (5, true),
        "->" | "->>" => (7, false),
        "~" => (8, false),
        "|" | "||" => (9, false),
        "&" | "&&" => (10, false),
        "<" | "<=" | ">" | ">=" | "==" | "!=" => (12, false),
        "+" | "-" => (13, false),
        "*" | "/" => (14, false),
        "|>" => (15, false),
        o if o.starts_with('%') => (15, false),
        ":" => (16, false),
        "^" | "**" => (18, true),
        _ => return None,
    })
}
struct P<'a> { x: &'a str, toks: Vec<Tok>, at: usize, d: Vec<Data>, skip: Vec<bool>, comments: Vec<Tok> }
type R<X> = Result<X, ()>;
pub fn parse(x: &str) -> Vec<Data> {
    let err = || vec![Data { name: "program", named: true, start: 0, end: x.len(), error: true, up: None, kids: vec![] }];
    let all = lex(x);
    if all.iter().any(|t| t.t == T::Bad) { return err(); }
    let comments = all.iter().filter(|t| t.t == T::Comment).copied().collect();
    let toks = all.into_iter().filter(|t| t.t != T::Comment).collect();
    let mut p = P { x, toks, at: 0, d: vec![], skip: vec![false], comments };
    let root = p.new_node("program", true);
    if p.list(root, None).is_err() { return err(); }
    p.d[root].start = 0;
    p.d[root].end = x.len();
    p.place_comments();
    p.d
}
impl P<'_> {
    fn new_node(&mut self, name: &'static str, named: bool) -> usize { self.d.push(Data { name, named, start: usize::MAX, end: 0, error: false, up: None, kids: vec![] }); self.d.len() - 1 }
    fn kid(&mut self, p: usize, k: usize, field: Option<&'static str>) {
        let (s, e) = (self.d[k].start, self.d[k].end);
        let d = &mut self.d[p];
        d.start = d.start.min(s);
        d.end = d.end.max(e);
        d.kids.push((k, field));
        let n = d.kids.len() - 1;
        self.d[k].up = Some((p, n));
    }
    fn skipping(&self) -> bool { *self.skip.last().unwrap() }
    fn newlines(&mut self) { while self.toks[self.at].t == T::Newline { self.at += 1; } }
    fn peek(&mut self) -> Tok { if self.skipping() { self.newlines(); } self.toks[self.at] }
    fn text(&self, t: Tok) -> &str { &self.x[t.s..t.e] }
    fn is(&mut self, s: &str) -> bool { let t = self.peek(); (t.t == T::Op || t.t == T::Ident) && self.text(t) == s }
    fn leaf(&mut self, name: &'static str, named: bool) -> usize { let t = self.peek(); self.at += 1; let n = self.new_node(name, named); self.d[n].start = t.s; self.d[n].end = t.e; n }
    fn expect(&mut self, p: usize, s: &'static str, field: Option<&'static str>) -> R<()> { if !self.is(s) { return Err(()); } let n = self.leaf(s, false); self.kid(p, n, field); Ok(()) }
    fn list(&mut self, p: usize, close: Option<&'static str>) -> R<()> {
        loop {
            while matches!(self.toks[self.at].t, T::Newline | T::Semi) { self.at += 1; }
            match close { None if self.peek().t == T::Eof => return Ok(()), Some(c) if self.is(c) => return Ok(()), _ => {} }
            let e = self.expr(0)?;
            self.kid(p, e, Some("body"));
            // tree-sitter's grammar lets expressions follow each other on a line
        }
    }
    fn expr(&mut self, min: u8) -> R<usize> {
        let mut left = self.prefix()?;
        loop {
            let t = self.peek();
            if t.t != T::Op { return Ok(left); }
            let op = self.text(t).to_string();
            let Some((r, right)) = rank(&op) else { return Ok(left) };
            if r < min { return Ok(left); }
            let n = self.new_node("binary_operator", true);
            self.kid(n, left, Some("lhs"));
            let o = self.leaf(op_name(&op), op.starts_with('%'));
            self.kid(n, o, Some("operator"));
            self.newlines();
            let rhs = self.expr(if right { r } else { r + 1 })?;
            self.kid(n, rhs, Some("rhs"));
            left = n;
        }
    }
    fn prefix(&mut self) -> R<usize> {
        let t = self.peek();
        let s = self.text(t).to_string();
        let unary = match (t.t, s.as_str()) { (T::Op, "-" | "+") => Some(17), (T::Op, "!") => Some(11), (T::Op, "~") => Some(8), (T::Op, "?") => Some(1), _ => None };
        if let Some(r) = unary {
            let n = self.new_node("unary_operator", true);
            let o = self.leaf(op_name(&s), false);
            self.kid(n, o, Some("operator"));
            self.newlines();
            let e = self.expr(r)?;
            self.kid(n, e, Some("rhs"));
            return Ok(n);
        }
        if t.t == T::Ident && matches!(s.as_str(), "function" | "if" | "for" | "while" | "repeat") || s == "\\" { return self.keyword(&s); }
        let e = self.primary(t, &s)?;
        self.postfix(e)
    }
    fn keyword(&mut self, s: &str) -> R<usize> {
        match s {
            "function" | "\\" => {
                let n = self.new_node("function_definition", true);
                self.expect(n, if s == "function" { "function" } else { "\\" }, Some("name"))?;
                self.newlines();
                let ps = self.parameters()?;
                self.kid(n, ps, Some("parameters"));
                self.newlines();
                let b = self.expr(2)?;
                self.kid(n, b, Some("body"));
                Ok(n)
            }
            "repeat" => {
                let n = self.new_node("repeat_statement", true);
                self.expect(n, "repeat", None)?;
                self.newlines();
                let b = self.expr(2)?;
                self.kid(n, b, Some("body"));
                Ok(n)
            }
            "while" => {
                let n = self.new_node("while_statement", true);
                self.expect(n, "while", None)?;
                self.newlines();
                self.condition(n)?;
                let b = self.expr(2)?;
                self.kid(n, b, Some("body"));
                Ok(n)
            }
            "for" => {
                let n = self.new_node("for_statement", true);
                self.expect(n, "for", None)?;
                self.newlines();
                self.expect(n, "(", Some("open"))?;
                self.skip.push(true);
                let t = self.peek();
                if t.t != T::Ident { return Err(()); }
                let v = self.leaf("identifier", true);
                self.kid(n, v, Some("variable"));
                self.expect(n, "in", None)?;
                let q = self.expr(0)?;
                self.kid(n, q, Some("sequence"));
                self.expect(n, ")", Some("close"))?;
                self.skip.pop();
                self.newlines();
                let b = self.expr(2)?;
                self.kid(n, b, Some("body"));
                Ok(n)
            }
            _ => {
                let n = self.new_node("if_statement", true);
                self.expect(n, "if", None)?;
                self.newlines();
                self.condition(n)?;
                let c = self.expr(3)?;
                self.kid(n, c, Some("consequence"));
                let at = self.at;
                if self.skip.len() > 1 { self.newlines(); }
                if self.is("else") {
                    self.expect(n, "else", None)?;
                    self.newlines();
                    let a = self.expr(4)?;
                    self.kid(n, a, Some("alternative"));
                } else { self.at = at; }
                Ok(n)
            }
        }
    }
    fn condition(&mut self, n: usize) -> R<()> {
        self.expect(n, "(", Some("open"))?;
        self.skip.push(true);
        let c = self.expr(0)?;
        self.kid(n, c, Some("condition"));
        self.expect(n, ")", Some("close"))?;
        self.skip.pop();
        self.newlines();
        Ok(())
    }
    fn parameters(&mut self) -> R<usize> {
        let n = self.new_node("parameters", true);
        self.expect(n, "(", Some("open"))?;
        self.skip.push(true);
        if !self.is(")") {
            loop {
                let p = self.new_node("parameter", true);
                let t = self.peek();
                let name = match t.t { T::Ident if !reserved(self.text(t)) => "identifier", T::Dots => "dots", _ => return Err(()) };
                let i = self.leaf(name, true);
                self.kid(p, i, Some("name"));
                if self.is("=") {
                    self.expect(p, "=", None)?;
                    let v = self.expr(7)?;
                    self.kid(p, v, Some("default"));
                }
                self.kid(n, p, Some("parameter"));
                if !self.is(",") { break; }
                let c = self.leaf("comma", true);
                self.kid(n, c, None);
            }
        }
        self.expect(n, ")", Some("close"))?;
        self.skip.pop();
        Ok(n)
    }
    fn primary(&mut self, t: Tok, s: &str) -> R<usize> {
        match t.t {
            T::Float => Ok(self.leaf("float", true)),
            T::Int | T::Complex => {
                let n = self.leaf(if t.t == T::Int { "integer" } else { "complex" }, true);
                let k = self.new_node(if t.t == T::Int { "L" } else { "i" }, false);
                self.d[k].start = t.e - 1;
                self.d[k].end = t.e;
                self.kid(n, k, None);
                Ok(n)
            }
            T::Str => Ok(self.string(t)),
            T::Dots => Ok(self.leaf("dots", true)),
            T::DotDotI => Ok(self.leaf("dot_dot_i", true)),
            T::Ident => match s {
                "next" => Ok(self.leaf("next", true)),
                "break" => Ok(self.leaf("break", true)),
                "TRUE" => Ok(self.leaf("true", true)),
                "FALSE" => Ok(self.leaf("false", true)),
                "NULL" => Ok(self.leaf("null", true)),
                "Inf" => Ok(self.leaf("inf", true)),
                "NaN" => Ok(self.leaf("nan", true)),
                "NA" | "NA_integer_" | "NA_real_" | "NA_complex_" | "NA_character_" => {
                    let n = self.new_node("na", true);
                    let k = self.leaf(match s { "NA" => "NA", "NA_integer_" => "NA_integer_", "NA_real_" => "NA_real_", "NA_complex_" => "NA_complex_", _ => "NA_character_" }, false);
                    self.kid(n, k, None);
                    Ok(n)
                }
                s if reserved(s) => Err(()),
                _ => Ok(self.leaf("identifier", true)),
            },
            T::Op if s == "(" => {
                let n = self.new_node("parenthesized_expression", true);
                self.expect(n, "(", Some("open"))?;
                self.skip.push(true);
                let e = self.expr(0)?;
                self.kid(n, e, Some("body"));
                self.expect(n, ")", Some("close"))?;
                self.skip.pop();
                Ok(n)
            }
            T::Op if s == "{" => {
                let n = self.new_node("braced_expression", true);
                self.expect(n, "{", Some("open"))?;
                self.skip.push(false);
                self.list(n, Some("}"))?;
                self.expect(n, "}", Some("close"))?;
                self.skip.pop();
                Ok(n)
            }
            _ => Err(()),
        }
    }
    fn string(&mut self, t: Tok) -> usize {
        self.at += 1;
        let n = self.new_node("string", true);
        let b = self.x[t.s..t.e].as_bytes();
        let (o, c) = if b[0] == b'"' || b[0] == b'\'' { (1, 1) } else { let d = b[2..].iter().take_while(|c| **c == b'-').count(); (d + 3, d + 2) };
        for (name, s, e) in [("string_open", t.s, t.s + o), ("string_content", t.s + o, t.e - c), ("string_close", t.e - c, t.e)] {
            if s == e { continue; }
            let k = self.new_node(name, true);
            self.d[k].start = s;
            self.d[k].end = e;
            self.kid(n, k, (name == "string_content").then_some("content"));
        }
        n
    }
    fn postfix(&mut self, mut e: usize) -> R<usize> {
        loop {
            let t = self.peek();
            if t.t != T::Op { return Ok(e); }
            let s = self.text(t).to_string();
            match s.as_str() {
                "(" => e = self.call(e, "call", "(", ")")?,
                "[" if self.x[t.e..].starts_with('[') => e = self.call(e, "subset2", "[[", "]]")?,
                "[" => e = self.call(e, "subset", "[", "]")?,
                "::" | ":::" | "$" | "@" => {
                    let ns = s.starts_with(':');
                    let n = self.new_node(if ns { "namespace_operator" } else { "extract_operator" }, true);
                    self.kid(n, e, Some("lhs"));
                    let o = self.leaf(op_name(&s), false);
                    self.kid(n, o, Some("operator"));
                    self.newlines();
                    let t = self.peek();
                    let s = self.text(t).to_string();
                    let r = match t.t {
                        T::Ident if !reserved(&s) || s.starts_with('`') => self.leaf("identifier", true),
                        T::Str => self.string(t),
                        T::Dots => self.leaf("dots", true),
                        T::DotDotI => self.leaf("dot_dot_i", true),
                        T::Op if !ns && s == "(" => self.primary(t, &s)?,
                        _ => return Err(()),
                    };
                    self.kid(n, r, Some("rhs"));
                    e = n;
                }
                _ => return Ok(e),
            }
        }
    }
    fn bracket2(&mut self, close: bool) -> Option<usize> {
        let c = if close { "]" } else { "[" };
        if !self.is(c) || !self.x[self.toks[self.at].e..].starts_with(c) { return None; }
        let s = self.toks[self.at].s;
        self.at += 2;
        let n = self.new_node(if close { "]]" } else { "[[" }, false);
        self.d[n].start = s;
        self.d[n].end = s + 2;
        Some(n)
    }
    fn call(&mut self, f: usize, name: &'static str, open: &'static str, close: &'static str) -> R<usize> {
        let n = self.new_node(name, true);
        self.kid(n, f, Some("function"));
        let a = self.new_node("arguments", true);
        if open == "[[" { let k = self.bracket2(false).ok_or(())?; self.kid(a, k, Some("open")); } else { self.expect(a, open, Some("open"))?; }
        self.skip.push(true);
        loop {
            let c = if close == "]]" { "]" } else { close };
            if self.is(c) { break; }
            if self.is(",") { let k = self.leaf("comma", true); self.kid(a, k, None); continue; }
            let g = self.argument()?;
            self.kid(a, g, Some("argument"));
            if !self.is(",") && !self.is(c) { return Err(()); }
        }
        if close == "]]" { let k = self.bracket2(true).ok_or(())?; self.kid(a, k, Some("close")); } else { self.expect(a, close, Some("close"))?; }
        self.skip.pop();
        self.kid(n, a, Some("arguments"));
        Ok(n)
    }
    fn argument(&mut self) -> R<usize> {
        let n = self.new_node("argument", true);
        let t = self.peek();
        let s = self.text(t).to_string();
        let name = match t.t { T::Ident if s == "NULL" => Some("null"), T::Ident if !reserved(&s) => Some("identifier"), T::Str => Some("string"), T::Dots => Some("dots"), T::DotDotI => Some("dot_dot_i"), _ => None };
        if let Some(name) = name {
            let at = self.at;
            self.at += 1;
            let named = self.is("=");
            self.at = at;
            if named {
                let k = if name == "string" { self.string(t) } else { self.leaf(name, true) };
                self.kid(n, k, Some("name"));
                self.expect(n, "=", None)?;
                if self.is(",") || self.is(")") || self.is("]") { return Ok(n); }
                let v = self.expr(7)?;
                self.kid(n, v, Some("value"));
                return Ok(n);
            }
        }
        let v = self.expr(7 - 2)?;
        if self.d[v].name == "binary_operator" && { let o = self.d[v].kids[1].0; self.d[o].name == "=" } { return Err(()); }
        self.kid(n, v, Some("value"));
        Ok(n)
    }
    /// a comment belongs to the smallest node around it
    fn place_comments(&mut self) {
        for c in self.comments.clone() {
            let mut at = 0;
            'down: loop {
                for (k, _) in &self.d[at].kids { let k = *k; if self.d[k].start < c.s && c.e < self.d[k].end && !self.d[k].kids.is_empty() { at = k; continue 'down; } }
                break;
            }
            let n = self.new_node("comment", true);
            self.d[n].start = c.s;
            self.d[n].end = c.e;
            let i = self.d[at].kids.iter().position(|k| self.d[k.0].start > c.s).unwrap_or(self.d[at].kids.len());
            self.d[at].kids.insert(i, (n, None));
            for j in 0..self.d[at].kids.len() { let k = self.d[at].kids[j].0; self.d[k].up = Some((at, j)); }
        }
    }
}
fn reserved(s: &str) -> bool { matches!(s, "if" | "else" | "for" | "in" | "while" | "repeat" | "function" | "next" | "break" | "TRUE" | "FALSE" | "NULL" | "Inf" | "NaN" | "NA" | "NA_integer_" | "NA_real_" | "NA_complex_" | "NA_character_") }
fn op_name(s: &str) -> &'static str {
    ["<<-", "->>", ":::", "<-", "->", "<=", ">=", "==", "!=", "&&", "||", "|>", "::", ":=", "**", "+", "-", "*", "/", "^", "<", ">", "!", "&", "|", "~", "?", ":", "=", "$", "@"].iter().find(|o| **o == s).copied().unwrap_or("special")
}
