//! K02 settings of a document, G02 formatting a document.
use crate::docs::{lines, mirrors, open, start, url};
use crate::edits::gen_text;
use crate::proto::{ENC, strip, units};
use aether_lsp_utils::proto::PositionEncoding;
use hx::{Ctx, Rng};
use lsp::Server;
use std::path::Path;
use tower_lsp::lsp_types::*;

/// the client makes the edits at once
pub fn client(c: &str, edits: &[TextEdit], enc: PositionEncoding) -> Result<String, String> {
    let ls = lines(c);
    let at = |p: Position| -> Result<usize, String> {
        let (s, e) = *ls.get(p.line as usize).ok_or(format!("line {} of {c:?}", p.line))?;
        let (mut o, mut n) = (s, 0);
        for ch in c[s..e].chars() { if n >= p.character { break; } n += units(ch, enc); o += ch.len_utf8(); }
        if n != p.character { return Err(format!("{p:?} is no place of {c:?}")); }
        Ok(o)
    };
    let mut v = vec![];
    for e in edits { v.push((at(e.range.start)?, at(e.range.end)?, e.new_text.as_str())); }
    let mut o = String::new();
    let mut k = 0;
    let mut w = v.clone();
    w.sort_by_key(|e| e.0);
    for (a, b, x) in w {
        if a < k { return Err(format!("edits overlap: {edits:?}")); }
        o.push_str(&c[k..a]); o.push_str(x); k = b;
    }
    o.push_str(&c[k..]);
    Ok(o)
}
#[derive(Debug, Clone)]
pub struct Setup { pub toml: Option<String>, pub insert_spaces: bool, pub tab_size: u32, pub doc: usize, pub text: String, pub enc: usize }
/// a scratch workspace
pub struct Ws { pub dir: tempfile::TempDir }
impl Ws {
    pub fn new(toml: Option<&str>) -> Ws {
        let dir = tempfile::tempdir().unwrap();
        if let Some(t) = toml { std::fs::write(dir.path().join("air.toml"), t).unwrap(); }
        Ws { dir }
    }
    pub fn folder(&self) -> Vec<WorkspaceFolder> { vec![WorkspaceFolder { uri: Url::from_file_path(self.dir.path()).unwrap(), name: "w".into() }] }
    pub fn url(&self, doc: usize) -> Url {
        match doc {
            0 => Url::from_file_path(self.dir.path().join("a.R")).unwrap(),
            1 => Url::from_file_path(self.dir.path().join("renv/a.R")).unwrap(),
            2 => Url::parse("untitled:Untitled-1").unwrap(),
            3 => Url::parse("vscode-notebook-cell:/w/n.ipynb#1").unwrap(),
            // neither in the workspace nor a cell
            5 => Url::parse("vscode-vfs://github/w/a.R").unwrap(),
            6 => Url::parse("git:/w/a.R?%7B%7D").unwrap(),
            7 => Url::parse("vscode-notebook:/w/n.ipynb").unwrap(),
            _ => Url::from_file_path(self.dir.path().join("skip/b.R")).unwrap(),
        }
    }
}
pub fn options(insert_spaces: bool, tab_size: u32) -> FormattingOptions { FormattingOptions { insert_spaces, tab_size, ..Default::default() } }
pub fn ask(s: &mut Server, u: &Url, o: FormattingOptions) -> anyhow::Result<Option<Vec<TextEdit>>> {
    s.format(DocumentFormattingParams { text_document: TextDocumentIdentifier { uri: u.clone() }, options: o, work_done_progress_params: Default::default() })
}
fn put(s: &mut Server, u: &Url, text: &str) -> Result<(), String> {
    s.open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: u.clone(), language_id: "r".into(), version: 0, text: text.into() } }).map_err(|e| e.to_string())
}
const TOML: &[&str] = &[
    "", "[format]\nline-ending = \"lf\"", "[format]\nline-ending = \"crlf\"", "[format]\nline-ending = \"native\"", "[format]\nline-ending = \"auto\"",
    "[format]\nindent-style = \"tab\"\nindent-width = 7\nline-width = 99", "[format]\nexclude = [\"skip/\"]", "[format]\ndefault-exclude = false\nline-ending = \"crlf\"",
];
/// the documented meaning of the settings above: style, width, line width, line ending, excluded documents
fn meant(t: Option<&str>, insert_spaces: bool, tab_size: u32) -> (String, u32, u32, &'static str, Vec<usize>) {
    let mut m = match t {
        Some(t) if t.contains("tab") => ("Tab".to_string(), 7, 99, "auto", vec![1]),
        Some(_) => ("Space".to_string(), 2, 80, "auto", vec![1]),
        None => (if insert_spaces { "Space" } else { "Tab" }.to_string(), if (1..=24).contains(&tab_size) { tab_size } else { 2 }, 80, "auto", vec![1]),
    };
    let t = t.unwrap_or("");
    for e in ["\"lf\"", "\"crlf\"", "\"native\""] { if t.contains(e) { m.3 = e; } }
    if t.contains("skip/") { m.4.push(4); }
    if t.contains("default-exclude = false") { m.4.clear(); }
    m
}
/// what the stand-in formatter makes of a text, with LF line endings
fn formatted(text: &str, m: &(String, u32, u32, &'static str, Vec<usize>)) -> String {
    let mut o = String::new();
    for l in text.split_inclusive('\n') {
        let b = l.strip_suffix('\n').unwrap_or(l).trim_end_matches([' ', '\t', '\r']);
        if b == "!options" { o.push_str(&format!("{} IndentWidth({}) LineWidth({})", m.0, m.1, m.2)); } else { o.push_str(b); }
        if l.ends_with('\n') || !b.is_empty() { o.push('\n'); }
    }
    if !o.is_empty() && !o.ends_with('\n') { o.push('\n'); }
    o
}
fn case(w: &Setup, again: bool) -> Result<(), String> {
    let ws = Ws::new(w.toml.as_deref());
    let enc = ENC[w.enc];
    let mut s = start(enc, false, ws.folder(), Default::default());
    let u = ws.url(w.doc);
    if ask(&mut s, &u, options(w.insert_spaces, w.tab_size)).is_ok() { return Err("an unknown document is formatted".into()); }
    put(&mut s, &u, &w.text)?;
    // another document's options are not used
    let other = ws.url(0).join("other.R").unwrap();
    put(&mut s, &other, "1\n")?;
    let _ = ask(&mut s, &other, options(!w.insert_spaces, w.tab_size + 1));
    let toml = if matches!(w.doc, 3 | 5 | 6 | 7) { None } else { w.toml.as_deref() };
    let m = meant(toml, w.insert_spaces, w.tab_size);
    let t = strip(&w.text);
    let crlf = w.text.contains("\r\n");
    let out = ask(&mut s, &u, options(w.insert_spaces, w.tab_size));
    if matches!(w.doc, 0 | 1 | 4) && m.4.contains(&w.doc) { return match out { Ok(None) => Ok(()), o => Err(format!("an excluded document gets {o:?}")) }; }
    if t.contains("!syntax") { return match out { Ok(None) => Ok(()), o => Err(format!("a document that does not parse gets {o:?}")) }; }
    if t.contains("!format") || t.contains("!print") { return match out { Err(_) => Ok(()), o => Err(format!("a failing formatter gives {o:?}")) }; }
    let mut want = formatted(&t, &m);
    let ending = match m.3 { "\"lf\"" | "\"native\"" => "\n", "\"crlf\"" => "\r\n", _ => "\n" };
    let same = want == t && (crlf || ending == "\n" || !want.contains('\n'));
    if w.doc == 3 && want.ends_with('\n') { want.pop(); }
    let edits = match out.map_err(|e| format!("formatting fails: {e}"))? {
        // nothing to do for the formatter; a notebook cell then keeps its final newline
        None => return if same { Ok(()) } else { Err("the document is left as it is".into()) },
        Some(e) => e,
    };
    if same { return Err(format!("edits for a formatted document: {edits:?}")); }
    let got = client(&w.text, &edits, enc)?;
    // in the line endings of the document, or, if it has LF, those asked for
    let uniform = !crlf || w.text.matches("\r\n").count() == w.text.matches('\n').count();
    if uniform {
        let want = if crlf || ending == "\r\n" { want.replace('\n', "\r\n") } else { want.clone() };
        if got != want { return Err(format!("the client's text becomes {got:?}, expected {want:?}")); }
    } else if !mirrors(&got, &want) { return Err(format!("the client's text becomes {got:?}, expected {want:?} in any line endings; edits {edits:?}")); }
    // the client tells the change; then there is nothing left to do
    s.change(DidChangeTextDocumentParams {
        text_document: VersionedTextDocumentIdentifier { uri: u.clone(), version: 1 },
        content_changes: edits.iter().rev().map(|e| TextDocumentContentChangeEvent { range: Some(e.range), range_length: None, text: e.new_text.clone() }).collect(),
    }).map_err(|e| e.to_string())?;
    let d = s.doc(&u).unwrap();
    if !mirrors(&got, &d.contents) { return Err(format!("the server then has {:?}, the client {got:?}", d.contents)); }
    // with CRLF asked for in a document with LF the server loses track of the client's endings: a known finding
    if w.doc != 3 && (again || crlf || ending == "\n") {
        match ask(&mut s, &u, options(w.insert_spaces, w.tab_size)) { Ok(None) => {} o => return Err(format!("formatting again gives {o:?}")) }
    }
    Ok(())
}
fn text(r: &mut Rng) -> String {
    let mut t = String::new();
    for _ in 0..r.below(5) {
        match r.below(8) { 0 => t.push_str("!options"), 1 if r.chance(1, 6) => t.push_str(*r.pick(&["!syntax", "!format", "!print"])), _ => t.push_str(&gen_text(r, 5)) }
        t.push_str(*r.pick(&["\n", "\n", " \n", "\t\n\n", ""]));
    }
    match r.below(3) { 0 => t, 1 => t.replace('\n', "\r\n"), _ => { let mut o = String::new(); for c in t.chars() { if c == '\n' && r.chance(1, 2) { o.push('\r'); } o.push(c); } o } }
}
pub fn g02(c: &mut Ctx) {
    c.stage("settings and documents");
    let texts = ["", "a", "a\n", "a \nb", "a \r\nb\r\n", "a\r\n", "!options\n", "!syntax\n", "!format", "é𐐀 \r\n中"];
    for toml in std::iter::once(None).chain(TOML.iter().map(|t| Some(t.to_string()))) { for doc in 0..8 { for t in texts { for enc in 0..2 {
        let w = Setup { toml: toml.clone(), insert_spaces: enc == 0, tab_size: 4, doc, text: t.to_string(), enc };
        c.case(|| format!("{w:?}"), || case(&w, false));
    } } } }
    let w = Setup { toml: Some(TOML[2].to_string()), insert_spaces: true, tab_size: 4, doc: 0, text: "a".into(), enc: 0 };
    c.finding("crlf-setting-on-lf-document-twice", "document \"a\", line-ending = \"crlf\": format, the client makes and reports the edits, format again", || case(&w, true));
    c.stage("random documents");
    while c.time_left(0.9) {
        let w = Setup {
            toml: if c.rng.chance(1, 3) { None } else { Some(c.rng.pick(TOML).to_string()) }, insert_spaces: c.rng.chance(1, 2), tab_size: *c.rng.pick(&[0, 1, 2, 8, 24, 25, 256, 257, 65537]),
            doc: c.rng.below(8), text: text(&mut c.rng), enc: c.rng.below(2),
        };
        c.case(|| format!("{w:?}"), || case(&w, false));
    }
}
