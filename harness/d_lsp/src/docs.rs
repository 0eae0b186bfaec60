//! K01 documents in step with the client.
use crate::edits::gen_text;
use crate::proto::{ENC, NEW, strip, units};
use aether_lsp_utils::proto::PositionEncoding;
use biome_line_index::{LineIndex, WideEncoding};
use hx::{Ctx, Rng};
use lsp::Server;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use tower_lsp::lsp_types::*;

/// lines of the client's text: (start, end without the line ending)
pub fn lines(c: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for (i, b) in c.bytes().enumerate() {
        if b == b'\n' { v.push((s, if i > s && c.as_bytes()[i - 1] == b'\r' { i - 1 } else { i })); s = i + 1; }
    }
    v.push((s, c.len()));
    v
}
/// every place of the client's text a position can name, with its position
fn places(c: &str, enc: PositionEncoding) -> Vec<(usize, Position)> {
    let mut v = vec![];
    for (l, (s, e)) in lines(c).into_iter().enumerate() {
        let mut n = 0;
        for (i, ch) in c[s..e].char_indices() { v.push((s + i, Position { line: l as u32, character: n })); n += units(ch, enc); }
        v.push((e, Position { line: l as u32, character: n }));
    }
    v
}
/// c is t with carriage returns in front of some line feeds
pub fn mirrors(c: &str, t: &str) -> bool {
    let (c, t) = (c.as_bytes(), t.as_bytes());
    let mut i = 0;
    for b in t {
        if i < c.len() && c[i] == b'\r' && *b == b'\n' { i += 1; }
        if i >= c.len() || c[i] != *b { return false; }
        i += 1;
    }
    i == c.len()
}
#[derive(Debug, Clone)]
pub enum Step { Open(usize, String), Change(usize, Vec<(Option<(usize, usize)>, String)>, i32), Close(usize), Other(usize) }
struct Model { client: String, server: String, crlf: bool, version: i32 }
pub fn url(i: usize) -> Url { Url::parse(["file:///w/a.R", "file:///w/b.R", "untitled:Untitled-1", "vscode-notebook-cell:/w/n.ipynb#1"][i]).unwrap() }
pub fn start(enc: PositionEncoding, configuration: bool, folders: Vec<WorkspaceFolder>, client: tower_lsp::Client) -> Server {
    let kinds = match enc { PositionEncoding::Utf8 => vec![PositionEncodingKind::UTF16, PositionEncodingKind::UTF8], _ => vec![PositionEncodingKind::UTF32, PositionEncodingKind::UTF16] };
    let (s, r) = Server::new(InitializeParams {
        capabilities: ClientCapabilities {
            general: Some(GeneralClientCapabilities { position_encodings: Some(kinds) }),
            workspace: Some(WorkspaceClientCapabilities { configuration: Some(configuration), ..Default::default() }),
        },
        workspace_folders: Some(folders),
        ..Default::default()
    }, client);
    r.unwrap();
    s
}
pub fn open(s: &mut Server, i: usize, text: &str, version: i32) -> anyhow::Result<()> {
    s.open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: url(i), language_id: "r".into(), version, text: text.into() } })
}
/// the client picks places by number, modulo what its text has
fn run(steps: &[Step], enc: PositionEncoding) -> Result<(), String> {
    let mut s = start(enc, false, vec![], Default::default());
    if format!("{:?}", s.encoding()) != format!("{enc:?}") { return Err(format!("the encoding agreed on is {:?}, expected {enc:?}", s.encoding())); }
    let mut m: BTreeMap<usize, Model> = BTreeMap::new();
    for (n, st) in steps.iter().enumerate() {
        match st {
            Step::Open(i, t) => {
                open(&mut s, *i, t, 1).map_err(|e| format!("open fails: {e}"))?;
                m.insert(*i, Model { client: t.clone(), server: strip(t), crlf: t.contains("\r\n"), version: 1 });
            }
            Step::Change(i, ch, dv) => {
                let Some(d) = m.get_mut(i) else {
                    let r = s.change(DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri: url(*i), version: 1 }, content_changes: vec![] });
                    if r.is_ok() { return Err(format!("step {n}: a change of an unknown document is accepted")); }
                    continue;
                };
                let version = d.version + dv;
                let (mut c, mut t) = (d.client.clone(), d.server.clone());
                let mut v = vec![];
                for (at, x) in ch {
                    match at {
                        None => { v.push(TextDocumentContentChangeEvent { range: None, range_length: None, text: x.clone() }); c = x.clone(); t = strip(x); }
                        Some((a, b)) => {
                            let pc = places(&c, enc);
                            let (a, b) = (a % pc.len(), b % pc.len());
                            let (a, b) = (a.min(b), a.max(b));
                            let (pa, pb) = (pc[a], pc[b]);
                            v.push(TextDocumentContentChangeEvent { range: Some(Range { start: pa.1, end: pb.1 }), range_length: None, text: x.clone() });
                            // the same places in the server's text
                            let (oa, ob) = (crate::proto::offset(&t, "\n", pa.1, enc), crate::proto::offset(&t, "\n", pb.1, enc));
                            t.replace_range(oa..ob, &strip(x));
                            c.replace_range(pa.0..pb.0, x);
                        }
                    }
                }
                let p = DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri: url(*i), version }, content_changes: v };
                if version < d.version {
                    let hook = std::panic::take_hook();
                    std::panic::set_hook(Box::new(|_| {}));
                    let r = catch_unwind(AssertUnwindSafe(|| s.change(p)));
                    std::panic::set_hook(hook);
                    if matches!(r, Ok(Ok(()))) { return Err(format!("step {n}: version {version} is accepted behind {}", d.version)); }
                    return Ok(());
                }
                s.change(p).map_err(|e| format!("change fails: {e}"))?;
                (d.client, d.server, d.version) = (c, t, version);
            }
            Step::Close(i) => {
                let r = s.close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri: url(*i) } });
                if r.is_ok() != m.remove(i).is_some() { return Err(format!("step {n}: closing answers {r:?}")); }
            }
            Step::Other(_) => s.configuration().map_err(|e| e.to_string())?,
        }
        for i in 0..4 {
            match (s.doc(&url(i)), m.get(&i)) {
                (None, None) => {}
                (Some(d), Some(w)) => {
                    if d.contents != w.server { return Err(format!("step {n}: document {i} is {:?}, expected {:?}", d.contents, w.server)); }
                    if !mirrors(&w.client, &d.contents) { return Err(format!("step {n}: document {i} is {:?}, the client has {:?}", d.contents, w.client)); }
                    if d.crlf != w.crlf { return Err(format!("step {n}: line endings of document {i}: CRLF is {}, expected {}", d.crlf, w.crlf)); }
                    if d.index != LineIndex::new(&d.contents) { return Err(format!("step {n}: the line index of document {i} is stale")); }
                    if d.parsed != d.contents { return Err(format!("step {n}: the syntax tree of document {i} is stale: {:?} for {:?}", d.parsed, d.contents)); }
                    if d.version != Some(w.version) { return Err(format!("step {n}: version {:?} of document {i}, expected {}", d.version, w.version)); }
                }
                (a, b) => return Err(format!("step {n}: document {i} known: {}, expected {}", a.is_some(), b.is_some())),
            }
        }
    }
    Ok(())
}
fn text(r: &mut Rng, max: usize) -> String {
    let t = gen_text(r, max);
    match r.below(3) { 0 => t, 1 => t.replace('\n', "\r\n"), _ => { let mut o = String::new(); for c in t.chars() { if c == '\n' && r.chance(1, 2) { o.push('\r'); } o.push(c); } o } }
}
fn step(r: &mut Rng) -> Step {
    let i = if r.chance(2, 3) { 0 } else { r.below(4) };
    match r.below(10) {
        0 | 1 => Step::Open(i, text(r, 14)),
        2 => Step::Close(i),
        3 => Step::Other(i),
        _ => Step::Change(i, (0..r.below(4)).map(|_| (if r.chance(1, 8) { None } else { let a = r.below(40); Some((a, a + r.below(4))) }, r.pick(NEW).to_string())).collect(), if r.chance(1, 12) { -1 } else { r.below(3) as i32 }),
    }
}
pub fn k01(c: &mut Ctx) {
    c.stage("open and one change");
    for t in ["", "a\nb", "a\r\nb\r\n", "\r\n\n", "é\r\n𐐀b\n"] { for enc in &ENC[..2] { for a in 0..5 { for b in a..6 { for x in NEW {
        let st = [Step::Open(0, t.to_string()), Step::Open(1, "other".into()), Step::Change(0, vec![(Some((a, b)), x.to_string()), (Some((b, b)), "z\r\n".into())], 1)];
        c.case(|| format!("{enc:?} {st:?}"), || run(&st, *enc));
    } } } } }
    c.stage("versions");
    for dv in [-3, -1, 0, 1, 5] {
        let st = [Step::Open(0, "a".into()), Step::Change(0, vec![], 4), Step::Change(0, vec![(None, "b".into())], dv)];
        c.case(|| format!("{st:?}"), || run(&st, PositionEncoding::Utf8));
    }
    c.stage("histories");
    while c.time_left(0.9) {
        let enc = *c.rng.pick(&[PositionEncoding::Utf8, PositionEncoding::Wide(WideEncoding::Utf16)]);
        let n = 2 + c.rng.below(10);
        let mut st = vec![Step::Open(0, text(&mut c.rng, 14))];
        st.extend((0..n).map(|_| step(&mut c.rng)));
        c.case(|| format!("{enc:?} {st:?}"), || run(&st, enc));
    }
}
