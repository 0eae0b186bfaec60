//! K03 configuration files and workspace folders.
use crate::docs::start;
use aether_lsp_utils::proto::PositionEncoding;
use hx::Ctx;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use tower_lsp::lsp_types::*;

const DIRS: [&str; 6] = ["", "a", "a/b", "a/b/c", "a/d", "e"];
#[derive(Debug, Clone, Copy, PartialEq)]
enum File { Gone, Broken, Width(u16) }
#[derive(Debug, Clone)]
enum Step {
    /// folders opened and closed by one notification
    Folders(Vec<usize>, Vec<usize>),
    /// `air.toml` or `.air.toml` of a directory
    Write(usize, bool, File),
    /// files reported as changed: 0 air.toml, 1 .air.toml, 2 my-air.toml, 3 air.toml/x.R
    Report(Vec<(usize, usize)>),
    /// both
    Save(usize, bool, File),
}
const NAMES: [&str; 4] = ["air.toml", ".air.toml", "my-air.toml", "air.toml.R"];
fn within(dir: usize, outer: usize) -> bool { Path::new(DIRS[dir]).starts_with(DIRS[outer]) }
struct Disk { root: PathBuf, files: BTreeMap<(usize, bool), File> }
impl Disk {
    fn write(&mut self, d: usize, dot: bool, f: File) {
        let p = self.root.join(DIRS[d]).join(if dot { ".air.toml" } else { "air.toml" });
        match f {
            File::Gone => { let _ = std::fs::remove_file(&p); }
            File::Broken => std::fs::write(&p, "[format\n").unwrap(),
            File::Width(n) => std::fs::write(&p, format!("[format]\nline-width = {n}\n")).unwrap(),
        }
        self.files.insert((d, dot), f);
    }
    /// the file that governs a folder
    fn find(&self, d: usize) -> Option<u16> {
        let mut p = Some(Path::new(DIRS[d]));
        while let Some(q) = p {
            let i = DIRS.iter().position(|x| Path::new(x) == q).unwrap();
            for dot in [false, true] {
                match self.files.get(&(i, dot)) {
                    Some(File::Width(n)) => return Some(*n),
                    Some(File::Broken) => return None,
                    _ => {}
                }
            }
            p = q.parent();
        }
        None
    }
}
fn run(init: &[usize], files: &[(usize, bool, File)], sync: bool, steps: &[Step]) -> Result<(), String> {
    let tmp = tempfile::tempdir().unwrap();
    let root = tmp.path().canonicalize().unwrap();
    for d in DIRS { std::fs::create_dir_all(root.join(d)).unwrap(); }
    let mut disk = Disk { root: root.clone(), files: BTreeMap::new() };
    for (d, dot, f) in files { disk.write(*d, *dot, *f); }
    let folder = |d: usize| WorkspaceFolder { uri: Url::from_file_path(root.join(DIRS[d])).unwrap(), name: DIRS[d].into() };
    let answer = move |i: &ConfigurationItem| -> Value { if i.section.as_deref() == Some("air.syncFileSettingsWithClient") { json!(sync) } else { Value::Null } };
    let mut s = start(PositionEncoding::Utf8, true, init.iter().map(|d| folder(*d)).collect(), tower_lsp::Client { answer: Some(Box::new(answer)), ..Default::default() });
    let mut known: BTreeMap<usize, Option<u16>> = BTreeMap::new();
    for d in init { known.insert(*d, disk.find(*d)); }
    let mut docs: Vec<(Url, Option<usize>)> = (0..DIRS.len()).map(|d| (Url::from_file_path(root.join(DIRS[d]).join("x.R")).unwrap(), Some(d))).collect();
    let plain = docs.len();
    docs.push((Url::parse("untitled:Untitled-1").unwrap(), None));
    docs.push((Url::parse("vscode-notebook-cell:/w/n.ipynb#1").unwrap(), None));
    docs.push((Url::from_file_path("/nowhere/x.R").unwrap(), None));
    let governed = |known: &BTreeMap<usize, Option<u16>>, i: usize| -> Option<u16> {
        let d = match docs[i].1 {
            Some(d) => known.keys().copied().filter(|f| within(d, *f)).max_by_key(|f| DIRS[*f].len())?,
            None if i == plain && known.len() == 1 => *known.keys().next().unwrap(),
            None => return None,
        };
        known[&d]
    };
    for i in 0..plain + 1 {
        s.open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: docs[i].0.clone(), language_id: "r".into(), version: 0, text: "1\n".into() } }).map_err(|e| format!("{e}"))?;
    }
    let list = |known: &BTreeMap<usize, Option<u16>>| -> Vec<Value> {
        let mut v: Vec<Value> = (0..plain + 1).filter_map(|i| governed(known, i).map(|w| json!({"url": docs[i].0.to_string(), "format": {"indent_style": "space", "indent_width": 2, "line_width": w}}))).collect();
        v.sort_by_key(|v| v.to_string());
        v
    };
    s.client().sent.borrow_mut().clear();
    let mut n = 0;
    loop {
        // every document has the settings meant for it
        for i in 0..docs.len() {
            let (toml, x) = s.settings(&docs[i].0);
            let got = (toml, u16::from(x.format.line_width));
            let want = match governed(&known, i) { Some(w) => (true, w), None => (false, 80) };
            if got != want { return Err(format!("after {n} steps: {} has (file, line width) {got:?}, expected {want:?}", docs[i].0.path().strip_prefix(root.to_str().unwrap()).unwrap_or(docs[i].0.as_str()))); }
        }
        let Some(st) = steps.get(n) else { return Ok(()) };
        n += 1;
        let before = list(&known);
        let mut report: Option<Vec<(usize, usize)>> = None;
        match st {
            Step::Folders(add, rm) => {
                s.folders(DidChangeWorkspaceFoldersParams { event: WorkspaceFoldersChangeEvent { added: add.iter().map(|d| folder(*d)).collect(), removed: rm.iter().map(|d| folder(*d)).collect() } }).map_err(|e| format!("{e}"))?;
                for d in add { known.insert(*d, disk.find(*d)); }
                for d in rm { known.remove(d); }
            }
            Step::Write(d, dot, f) => disk.write(*d, *dot, *f),
            Step::Report(v) => report = Some(v.clone()),
            Step::Save(d, dot, f) => { disk.write(*d, *dot, *f); report = Some(vec![(*d, *dot as usize)]); }
        }
        let Some(v) = report else { continue };
        s.watched(DidChangeWatchedFilesParams { changes: v.iter().map(|(d, k)| FileEvent { uri: Url::from_file_path(root.join(DIRS[*d]).join(NAMES[*k])).unwrap(), typ: if disk.files.get(&(*d, *k == 1)).is_some_and(|f| *f != File::Gone) { FileChangeType::CHANGED } else { FileChangeType::DELETED } }).collect() }).map_err(|e| format!("{e}"))?;
        for (d, k) in &v {
            if *k > 1 { continue; }
            let ks: Vec<usize> = known.keys().copied().collect();
            for f in ks { if within(*d, f) || within(f, *d) { known.insert(f, disk.find(f)); } }
        }
        let after = list(&known);
        let told: Vec<Vec<Value>> = s.client().sent.borrow_mut().drain(..).map(|(_, v)| { let mut v = v["file_settings"].as_array().cloned().unwrap_or_default(); v.sort_by_key(|v| v.to_string()); v }).collect();
        if !sync && !told.is_empty() { return Err(format!("after {n} steps: the client is told {told:?} unasked")); }
        if sync {
            if before != after && told.is_empty() { return Err(format!("after {n} steps: the client is not told that the settings are now {after:?}")); }
            if let Some(t) = told.last() { if *t != after { return Err(format!("after {n} steps: the client is told {t:?}, expected {after:?}")); } }
        }
    }
}
pub fn k03(c: &mut Ctx) {
    use File::*;
    c.stage("one folder");
    for f in [Gone, Broken, Width(90)] { for g in [Gone, Broken, Width(100)] { for up in [0usize, 1, 2] { for dot in [false, true] {
        let files = [(up, dot, f)];
        for steps in [vec![Step::Save(up, dot, g)], vec![Step::Write(up, dot, g), Step::Report(vec![(up, 2)]), Step::Report(vec![(2, 0), (up, 1)])], vec![Step::Folders(vec![], vec![2]), Step::Save(up, dot, g), Step::Folders(vec![2], vec![])], vec![Step::Folders(vec![2], vec![]), Step::Save(up, !dot, g), Step::Save(up, dot, Gone)]] {
            for sync in [false, true] {
                c.case(|| format!("folder a/b, {files:?}, told back {sync}: {steps:?}"), || run(&[2], &files, sync, &steps));
            }
        }
    } } } }
    c.stage("two folders");
    for a in 0..DIRS.len() { for b in 0..DIRS.len() { for d in 0..DIRS.len() { for f in [Broken, Width(90)] {
        let files = [(d, false, f)];
        let steps = [Step::Save(d, false, Width(110)), Step::Folders(vec![], vec![a]), Step::Save(d, false, Gone), Step::Folders(vec![a], vec![b])];
        c.case(|| format!("folders {a} {b} of {DIRS:?}, {files:?}: {steps:?}"), || run(&[a, b], &files, true, &steps));
    } } } }
    c.stage("random histories");
    while c.time_left(0.9) {
        let r = &mut c.rng;
        let file = |r: &mut hx::Rng| *r.pick(&[Gone, Broken, Width(90), Width(100), Width(110), Width(120)]);
        let dirs = |r: &mut hx::Rng, n: usize| -> Vec<usize> { let k = r.below(n); (0..k).map(|_| r.below(DIRS.len())).collect() };
        let init = dirs(r, 4);
        let n = r.below(4);
        let files: Vec<(usize, bool, File)> = (0..n).map(|_| (r.below(DIRS.len()), r.below(3) == 0, file(r))).collect();
        let n = 1 + r.below(8);
        let steps: Vec<Step> = (0..n).map(|_| match r.below(6) {
            0 => Step::Folders(dirs(r, 3), dirs(r, 3)),
            1 => Step::Write(r.below(DIRS.len()), r.below(3) == 0, file(r)),
            2 => { let k = 1 + r.below(2); Step::Report((0..k).map(|_| (r.below(DIRS.len()), r.below(NAMES.len()))).collect()) }
            _ => Step::Save(r.below(DIRS.len()), r.below(3) == 0, file(r)),
        }).collect();
        let sync = r.below(2) == 0;
        c.case(|| format!("folders {init:?} of {DIRS:?}, {files:?}, told back {sync}: {steps:?}"), || run(&init, &files, sync, &steps));
    }
}
