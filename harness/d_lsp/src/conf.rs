//! K02 settings of a document.
use crate::docs::start;
use crate::fmt::{Ws, ask, options};
use aether_lsp_utils::proto::PositionEncoding;
use biome_formatter::FormatOptions;
use hx::{Ctx, Rng};
use lsp::Server;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use serde_json::{Value, json};
use tower_lsp::lsp_types::*;

/// what the client answers about one document
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Editor { spaces: Option<bool>, indent: Value, tab: Option<u64> }
#[derive(Debug, Clone)]
pub enum Step { Open(usize), Close(usize), Editor(usize, Editor), Sync(bool), Pull, Ask(usize, bool, u32) }
type Doc = (Option<&'static str>, Option<u64>);
const DOCS: [&str; 5] = ["a.R", "sub/b.R", "untitled:Untitled-1", "vscode-notebook-cell:/w/n.ipynb#1", "/nowhere/x.R"];
fn url(ws: &Ws, i: usize) -> Url {
    match i { 0 | 1 => Url::from_file_path(ws.dir.path().join(DOCS[i])).unwrap(), 4 => Url::from_file_path(DOCS[i]).unwrap(), _ => Url::parse(DOCS[i]).unwrap() }
}
fn width(n: u64) -> u64 { if (1..=24).contains(&n) { n } else { 2 } }
/// all or nothing
fn taken(e: &Editor) -> Doc {
    match (e.spaces, &e.indent, e.tab) {
        (Some(s), i, Some(t)) if !i.is_null() => (
            Some(if s { "Space" } else { "Tab" }),
            Some(match i { Value::String(a) if a == "tabSize" => width(t), Value::Number(n) => width(n.as_u64().unwrap()), _ => 2 }),
        ),
        _ => (None, None),
    }
}
struct Client { editors: RefCell<BTreeMap<String, Editor>>, sync: RefCell<bool> }
fn run(toml: bool, pulls: bool, steps: &[Step]) -> Result<(), String> {
    let ws = Ws::new(if toml { Some("[format]\nindent-style = \"tab\"\nindent-width = 7\nline-width = 99") } else { None });
    let c = Rc::new(Client { editors: Default::default(), sync: RefCell::new(false) });
    let k = c.clone();
    let answer = move |i: &ConfigurationItem| -> Value {
        let e = i.scope_uri.as_ref().and_then(|u| k.editors.borrow().get(u.as_str()).cloned()).unwrap_or_default();
        match (i.scope_uri.is_some(), i.section.as_deref().unwrap_or("")) {
            (true, "editor.insertSpaces") => json!(e.spaces),
            (true, "editor.indentSize") => e.indent,
            (true, "editor.tabSize") => json!(e.tab),
            (false, "air.syncFileSettingsWithClient") => json!(*k.sync.borrow()),
            (false, "positron.r.diagnostics.enable") => json!(true),
            _ => Value::Null,
        }
    };
    let mut s = start(PositionEncoding::Utf8, pulls, ws.folder(), tower_lsp::Client { answer: Some(Box::new(answer)), ..Default::default() });
    let mut docs: BTreeMap<usize, Doc> = BTreeMap::new();
    let mut sync = false;
    let us: Vec<Url> = (0..DOCS.len()).map(|i| url(&ws, i)).collect();
    let under = |i: usize| toml && i < 3;
    let told = |s: &Server| -> Vec<(String, Vec<Value>)> { s.client().sent.borrow_mut().drain(..).map(|(m, v)| (m, v["file_settings"].as_array().cloned().unwrap_or_default())).collect() };
    let file = |i: usize| json!({"url": us[i].to_string(), "format": {"indent_style": "tab", "indent_width": 7, "line_width": 99}});
    let of = |c: &Client, i: usize| c.editors.borrow().get(us[i].as_str()).map(taken).unwrap_or((None, None));
    for (n, st) in steps.iter().enumerate() {
        let err = |e: anyhow::Error| format!("step {n}: {e}");
        let mut expect: Vec<Vec<Value>> = vec![];
        match st {
            Step::Open(i) => {
                s.open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: us[*i].clone(), language_id: "r".into(), version: 0, text: "1\n".into() } }).map_err(err)?;
                docs.insert(*i, (None, None));
                if pulls {
                    docs.insert(*i, of(&c, *i));
                    let new = *c.sync.borrow();
                    if new && !sync { expect.push(docs.keys().filter(|i| under(**i)).map(|i| file(*i)).collect()); }
                    sync = new;
                }
                if sync { expect.push(if under(*i) { vec![file(*i)] } else { vec![] }); }
            }
            Step::Close(i) => {
                let r = s.close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri: us[*i].clone() } });
                if r.is_ok() != docs.contains_key(i) { return Err(format!("step {n}: close gives {r:?}")); }
                docs.remove(i);
            }
            Step::Editor(i, e) => { c.editors.borrow_mut().insert(us[*i].to_string(), e.clone()); }
            Step::Sync(b) => *c.sync.borrow_mut() = *b,
            Step::Pull => {
                s.configuration().map_err(err)?;
                if pulls {
                    for (i, d) in docs.iter_mut() { *d = of(&c, *i); }
                    let new = *c.sync.borrow();
                    if new && !sync { expect.push(docs.keys().filter(|i| under(**i)).map(|i| file(*i)).collect()); }
                    sync = new;
                }
            }
            Step::Ask(i, spaces, tab) => {
                let _ = ask(&mut s, &us[*i], options(*spaces, *tab));
                if let Some(d) = docs.get_mut(i) { *d = (Some(if *spaces { "Space" } else { "Tab" }), Some(width(*tab as u64))); }
            }
        }
        // the settings of every document after every step
        let mut open = s.docs();
        open.sort();
        let mut want: Vec<Url> = docs.keys().map(|i| us[*i].clone()).collect();
        want.sort();
        if open != want { return Err(format!("step {n}: documents {open:?}")); }
        for (i, d) in &docs {
            let o = s.options(&us[*i], "1\n");
            let got = format!("{:?} {:?} {:?}", o.indent_style(), o.indent_width(), o.line_width());
            let w = if under(*i) { ("Tab", 7, 99) } else { (d.0.unwrap_or("Space"), d.1.unwrap_or(2), 80) };
            let w = format!("{} IndentWidth({}) LineWidth({})", w.0, w.1, w.2);
            if got != w { return Err(format!("step {n}: document {} is formatted with {got}, expected {w}", DOCS[*i])); }
        }
        let mut t = told(&s);
        if t.len() != expect.len() { return Err(format!("step {n}: the client is told {t:?}, expected {expect:?}")); }
        for ((m, t), e) in t.iter_mut().zip(expect.iter_mut()) {
            t.sort_by_key(|v| v.to_string());
            e.sort_by_key(|v| v.to_string());
            if m != "air/syncFileSettings" || t != e { return Err(format!("step {n}: the client is told {m} {t:?}, expected {e:?}")); }
        }
    }
    Ok(())
}
fn editor(r: &mut Rng) -> Editor {
    Editor {
        spaces: *r.pick(&[None, Some(true), Some(false), Some(false)]),
        indent: r.pick(&[Value::Null, json!("tabSize"), json!("tabsize"), json!(0), json!(1), json!(3), json!(24), json!(25), json!(258), json!(65539)]).clone(),
        tab: *r.pick(&[None, Some(0), Some(1), Some(5), Some(24), Some(25), Some(260), Some(4294967299)]),
    }
}
pub fn k02(c: &mut Ctx) {
    c.stage("one document, every combination");
    let indents = [Value::Null, json!("tabSize"), json!("x"), json!(0), json!(1), json!(3), json!(24), json!(25), json!(259), json!(65539)];
    for toml in [false, true] { for pulls in [true, false] { for i in 0..DOCS.len() { for spaces in [None, Some(true), Some(false)] { for indent in &indents { for tab in [None, Some(0), Some(5), Some(24), Some(25), Some(261)] {
        if (toml || !pulls) && tab != Some(5) { continue; }
        let e = Editor { spaces, indent: indent.clone(), tab };
        let steps = [Step::Sync(tab == Some(5)), Step::Editor(i, e), Step::Open(i), Step::Open((i + 1) % 5), Step::Ask(i, spaces == Some(true), tab.unwrap_or(1) as u32), Step::Pull];
        c.case(|| format!("configuration file {toml}, configuration requests {pulls}: {steps:?}"), || run(toml, pulls, &steps));
    } } } } } }
    c.stage("random histories");
    while c.time_left(0.9) {
        let n = c.rng.below(12);
        let steps: Vec<Step> = (0..n).map(|_| {
            let r = &mut c.rng;
            match r.below(8) {
                0 | 1 | 2 => Step::Open(r.below(5)),
                3 => Step::Close(r.below(5)),
                4 => Step::Editor(r.below(5), editor(r)),
                5 => Step::Sync(r.chance(1, 2)),
                6 => Step::Pull,
                _ => Step::Ask(r.below(5), r.chance(1, 2), *r.pick(&[0, 1, 4, 24, 25, 256, 258, 65537])),
            }
        }).collect();
        let (t, p) = (c.rng.chance(1, 2), !c.rng.chance(1, 5));
        c.case(|| format!("configuration file {t}, configuration requests {p}: {steps:?}"), || run(t, p, &steps));
    }
}
