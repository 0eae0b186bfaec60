//! The real program, run on scratch directories: C01 (files), C02 (standard input).
use air_r_formatter::context::RFormatOptions;
use air_r_formatter::toy;
use settings::{IndentStyle, IndentWidth, LineEnding, LineWidth};
use hx::{Ctx, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const DIRS: &[&str] = &["", "p", "p/sub", "q", "renv", "renv/sub", ".h", "p/d.R"];
const NAMES: &[&str] = &["a.R", "b.r", "cpp11.R", "skipme.R", "x.txt", "n.Rmd"];

#[derive(Debug, Clone)]
struct Config { width: Option<u8>, tabs: Option<bool>, ending: Option<&'static str>, exclude: bool, default_exclude: Option<bool>, bad: bool }
impl Config {
    fn text(&self) -> String {
        let mut o = String::from("[format]\n");
        if let Some(w) = self.width { o += &format!("indent-width = {w}\n"); }
        if let Some(t) = self.tabs { o += &format!("indent-style = \"{}\"\n", if t { "tab" } else { "space" }); }
        if let Some(e) = self.ending { o += &format!("line-ending = \"{e}\"\n"); }
        if self.exclude { o += "exclude = [\"skipme.R\"]\n"; }
        if let Some(e) = self.default_exclude { o += &format!("default-exclude = {e}\n"); }
        if self.bad { o += "indent-width = 0\nbad\n"; }
        o
    }
}
fn config(r: &mut Rng, bad: bool) -> Config {
    Config {
        width: if r.chance(1, 2) { Some(r.range(1, 24) as u8) } else { None },
        tabs: if r.chance(1, 3) { Some(r.chance(1, 2)) } else { None },
        ending: if r.chance(1, 3) { Some(*r.pick(&["lf", "crlf", "auto"])) } else { None },
        exclude: r.chance(1, 3),
        default_exclude: if r.chance(1, 4) { Some(r.chance(1, 2)) } else { None },
        bad,
    }
}
const CLEAN: &[&[u8]] = &[b"x <- 1\n", b"", b"a\nb\n", "\u{e9}\u{1f600}\n".as_bytes()];
const LINES: &[&str] = &["x", "x  ", "!options", "", "  y\t", "\u{e9} ", "# c", "z", "\u{feff}a", "a\0b", "a\rb", "\u{a0}", "\u{c}x "];
fn content(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 | 1 => r.pick(CLEAN).to_vec(),
        2 => b"x <- !syntax \n".to_vec(),
        3 => if r.chance(1, 2) { b"!format\n".to_vec() } else { b"!print \n".to_vec() },
        4 => b"x \xff\n".to_vec(),
        _ => {
            let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
            let n = r.range(1, 4);
            let mut o = String::new();
            for i in 0..n { o += *r.pick(LINES); if i + 1 < n || r.chance(3, 4) { o += nl; } }
            o.into_bytes()
        }
    }
}
/// none: an error
fn formatted(b: &[u8], c: Option<&Config>) -> Option<Vec<u8>> {
    let t = std::str::from_utf8(b).ok()?;
    if t.contains("!syntax") || t.contains("!format") || t.contains("!print") { return None; }
    let crlf = match c.and_then(|c| c.ending) { Some("crlf") => true, Some("lf") => false, _ => t.contains("\r\n") };
    let tabs = c.and_then(|c| c.tabs).unwrap_or(false);
    let o = RFormatOptions::default()
        .with_indent_style(if tabs { IndentStyle::Tab } else { IndentStyle::Space })
        .with_indent_width(IndentWidth::try_from(c.and_then(|c| c.width).unwrap_or(2)).unwrap())
        .with_line_width(LineWidth::try_from(80).unwrap())
        .with_line_ending(if crlf { LineEnding::Crlf } else { LineEnding::Lf });
    Some(toy(&o, t).into_bytes())
}
#[derive(Debug, Clone)]
struct Tree { configs: BTreeMap<&'static str, Config>, files: BTreeMap<String, Vec<u8>> }
fn join(d: &str, n: &str) -> String { if d.is_empty() { n.to_string() } else { format!("{d}/{n}") } }
fn above(p: &str) -> Vec<String> {
    let mut v = vec![p.to_string()];
    let mut q = p;
    while let Some(i) = q.rfind('/') { q = &q[..i]; v.push(q.to_string()); }
    if !p.is_empty() { v.push(String::new()); }
    v
}
impl Tree {
    fn new(r: &mut Rng, bad: bool) -> Tree {
        let mut configs = BTreeMap::new();
        for d in ["", "p", "p/sub", "q", "p/d.R"] { if r.chance(1, 2) { configs.insert(d, config(r, false)); } }
        if bad { let d = *r.pick(&["", "p"]); configs.insert(d, config(r, true)); }
        let mut files = BTreeMap::new();
        for d in DIRS { for n in NAMES { if r.chance(2, 5) { files.insert(join(d, n), content(r)); } } }
        Tree { configs, files }
    }
    fn put(&self) -> tempfile::TempDir {
        // not hidden: the walk leaves out names that start with a dot
        let t = tempfile::Builder::new().prefix("air").tempdir().unwrap();
        for d in DIRS { std::fs::create_dir_all(t.path().join(d)).unwrap(); }
        for (d, c) in &self.configs { std::fs::write(t.path().join(d).join("air.toml"), c.text()).unwrap(); }
        let old = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000);
        for (f, b) in &self.files {
            let p = t.path().join(f);
            std::fs::write(&p, b).unwrap();
            std::fs::File::options().write(true).open(&p).unwrap().set_modified(old).unwrap();
        }
        t
    }
    fn is_file(&self, p: &str) -> bool { self.files.contains_key(p) || (p.ends_with("air.toml") && self.configs.contains_key(p.trim_end_matches("air.toml").trim_end_matches('/'))) }
    fn read(&self, p: &str) -> Vec<u8> {
        match self.files.get(p) { Some(b) => b.clone(), None => self.configs[p.trim_end_matches("air.toml").trim_end_matches('/')].text().into_bytes() }
    }
    /// the directories whose configuration counts for the paths given
    fn found(&self, paths: &[String]) -> BTreeSet<&'static str> {
        let mut s = BTreeSet::new();
        for p in paths { if let Some(d) = above(p).iter().find_map(|a| self.configs.get_key_value(a.as_str()).map(|(k, _)| *k)) { s.insert(d); } }
        s
    }
    fn governing(&self, found: &BTreeSet<&'static str>, p: &str) -> Option<&Config> {
        above(p).iter().find_map(|a| found.get(a.as_str()).map(|d| &self.configs[*d]))
    }
    fn out(c: Option<&Config>, name: &str, dir: bool) -> bool {
        let d = c.and_then(|c| c.default_exclude).unwrap_or(true);
        (d && (dir && name == "renv" || !dir && name == "cpp11.R")) || (c.is_some_and(|c| c.exclude) && name == "skipme.R")
    }
    fn visits(&self, found: &BTreeSet<&'static str>, given: &str, f: &str, force: bool) -> bool {
        let name = |p: &str| p.rsplit('/').next().unwrap().to_string();
        if !(f == given || given.is_empty() || f.starts_with(&format!("{given}/"))) { return false; }
        // the path given, and the directories it lies in
        let isdir = !self.is_file(given);
        let c = self.governing(found, given);
        if !force && above(given).iter().enumerate().any(|(i, a)| Self::out(c, &name(a), i > 0 || isdir)) { return false; }
        let mut q = given.to_string();
        if f != given {
            let rest = if given.is_empty() { f } else { &f[given.len() + 1..] };
            for part in rest.split('/') {
                q = join(&q, part);
                if part.starts_with('.') { return false; }
                if !force && Self::out(self.governing(found, &q), part, q != f) { return false; }
            }
        }
        force || f.ends_with(".R") || f.ends_with(".r")
    }
}
fn air(dir: &Path, args: &[String], stdin: Option<&[u8]>, no_space: bool) -> std::process::Output {
    let exe = std::env::current_exe().unwrap().with_file_name("air_real");
    let mut c = if no_space {
        let mut c = Command::new("sh");
        c.arg("-c").arg("trap '' XFSZ; ulimit -f 0; exec \"$0\" \"$@\"").arg(exe);
        c
    } else { Command::new(exe) };
    c.args(args).current_dir(dir).env("HOME", dir).env("NO_COLOR", "1").env_remove("XDG_CONFIG_HOME").stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut k = c.spawn().unwrap();
    if let Some(b) = stdin { let mut s = k.stdin.take().unwrap(); let _ = s.write_all(b); }
    k.wait_with_output().unwrap()
}
#[derive(Debug, Clone)]
struct Run { tree: Tree, paths: Vec<String>, absent: bool, check: bool, force: bool, no_space: bool, absolute: bool }
impl Run {
    fn holds(&self) -> Result<(), String> {
        let t = self.tree.put();
        let root = t.path().canonicalize().unwrap();
        let mut args = vec!["format".to_string()];
        if self.check { args.push("--check".into()); }
        if self.force { args.push("--force".into()); }
        for p in &self.paths {
            args.push(if self.absolute { root.join(p).to_string_lossy().into_owned() } else if p.is_empty() { ".".into() } else { p.clone() });
        }
        if self.absent { args.push("absent.R".into()); }
        let o = air(&root, &args, None, self.no_space);
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let code = o.status.code();
        let mut paths = self.paths.clone();
        if self.absent { paths.push("absent.R".into()); }
        let found = self.tree.found(&paths);
        let invalid = found.iter().any(|d| self.tree.configs[*d].bad);
        let mut changes = BTreeMap::new();
        let mut broken = BTreeSet::new();
        if !invalid {
            let mut all: Vec<String> = self.tree.files.keys().cloned().collect();
            for d in self.tree.configs.keys() { all.push(join(d, "air.toml")); }
            for f in all {
                if !self.paths.iter().any(|g| self.tree.visits(&found, g, &f, self.force)) { continue; }
                let b = self.tree.read(&f);
                match formatted(&b, self.tree.governing(&found, &f)) {
                    None => { broken.insert(f); }
                    Some(n) => if n != b { changes.insert(f, n); },
                }
            }
        }
        // a file that cannot be written is an error too
        let unwritable: BTreeSet<String> = if self.no_space && !self.check { changes.iter().filter(|(_, n)| !n.is_empty()).map(|(f, _)| f.clone()).collect() } else { BTreeSet::new() };
        let error = invalid || self.absent || !broken.is_empty() || !unwritable.is_empty();
        let want = if error { 255 } else if self.check && !changes.is_empty() { 1 } else { 0 };
        if code != Some(want) { return Err(format!("exit status {code:?}, not {want}; stderr {err:?}")); }
        if !o.stdout.is_empty() { return Err(format!("printed {:?}", o.stdout)); }
        for (f, b) in &self.tree.files {
            let p = root.join(f);
            let now = std::fs::read(&p).map_err(|e| format!("{f}: {e}"))?;
            let old = std::fs::metadata(&p).unwrap().modified().unwrap().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() == 1_000_000;
            match changes.get(f) {
                Some(n) if !self.check => {
                    if unwritable.contains(f) { continue; }
                    if &now != n { return Err(format!("{f} holds {:?}, not {:?}", String::from_utf8_lossy(&now), String::from_utf8_lossy(n))); }
                }
                _ => {
                    if &now != b { return Err(format!("{f} was changed to {:?}", String::from_utf8_lossy(&now))); }
                    if !old { return Err(format!("{f} was written though nothing changes")); }
                }
            }
        }
        for (d, c) in &self.tree.configs {
            let f = join(d, "air.toml");
            if !changes.contains_key(&f) && std::fs::read(root.join(&f)).ok() != Some(c.text().into_bytes()) { return Err(format!("{f} was changed")); }
        }
        let named: BTreeSet<String> = err.lines().filter_map(|l| l.strip_prefix("Would reformat: ")).map(|l| l.trim_start_matches(root.to_str().unwrap()).trim_start_matches('/').to_string()).collect();
        let would: BTreeSet<String> = if self.check { changes.keys().cloned().collect() } else { BTreeSet::new() };
        if named != would { return Err(format!("names {named:?} as files to reformat, not {would:?}; stderr {err:?}")); }
        for f in broken.iter().chain(&unwritable) {
            if !err.contains(&format!(" {f}:")) && !err.contains(&format!("/{f}:")) { return Err(format!("the error on {f} is not reported: {err:?}")); }
        }
        // nothing new
        let mut n = 0;
        let mut todo = vec![root.clone()];
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(d).unwrap() { let p: PathBuf = e.unwrap().path(); if p.is_dir() { todo.push(p); } else { n += 1; } }
        }
        if n != self.tree.files.len() + self.tree.configs.len() { return Err(format!("{n} files after the run")); }
        // once everything is formatted a check is quiet
        if !self.check && want == 0 {
            args.push("--check".into());
            let o = air(&root, &args, None, false);
            if o.status.code() != Some(0) { return Err(format!("a check after writing ends with {:?}: {}", o.status.code(), String::from_utf8_lossy(&o.stderr))); }
        }
        Ok(())
    }
}
fn run(r: &mut Rng, bad: bool) -> Run {
    let tree = Tree::new(r, bad);
    let mut pool: Vec<String> = DIRS.iter().map(|d| d.to_string()).collect();
    pool.extend(tree.files.keys().cloned());
    let n = match r.below(6) { 0..=2 => 1, 3 => 2, 4 => 3, _ => r.range(0, 4) };
    let mut paths = vec![];
    for _ in 0..n { paths.push(if r.chance(1, 4) { String::new() } else { r.pick(&pool).clone() }); }
    let absent = r.chance(1, 12) || paths.is_empty();
    Run { tree, paths, absent, check: r.chance(1, 2), force: r.chance(1, 6), no_space: r.chance(1, 8), absolute: r.chance(1, 3) }
}
fn c01(c: &mut Ctx) {
    c.stage("runs over scratch directories");
    let mut n = 0;
    while n < 40 || c.time_left(0.9) {
        n += 1;
        let x = run(&mut c.rng, n % 15 == 7);
        let y = x.clone();
        c.case(move || format!("{y:?}"), || x.holds());
    }
    c.stage("inconsistent arguments");
    for check in [false, true] {
        c.case(|| format!("--stdin-file-path with paths, check {check}"), || {
            let t = tempfile::tempdir().unwrap();
            std::fs::write(t.path().join("a.R"), "x \n").unwrap();
            let mut a: Vec<String> = ["format", "--stdin-file-path", "b.R", "a.R"].iter().map(|s| s.to_string()).collect();
            if check { a.push("--check".into()); }
            let o = air(t.path(), &a, Some(b"y \n"), false);
            if o.status.code() != Some(255) || !o.stdout.is_empty() { return Err(format!("{o:?}")); }
            if std::fs::read(t.path().join("a.R")).unwrap() != b"x \n" { return Err("a.R was changed".into()); }
            Ok(())
        });
    }
}
#[derive(Debug, Clone)]
struct Piped { tree: Tree, path: String, text: Vec<u8>, check: bool, force: bool, absolute: bool, full: bool }
impl Piped {
    fn holds(&self) -> Result<(), String> {
        let t = self.tree.put();
        let root = t.path().canonicalize().unwrap();
        let mut args = vec!["format".to_string(), "--stdin-file-path".into()];
        args.push(if self.absolute { root.join(&self.path).to_string_lossy().into_owned() } else { self.path.clone() });
        if self.check { args.push("--check".into()); }
        if self.force { args.push("--force".into()); }
        let o = if self.full {
            let exe = std::env::current_exe().unwrap().with_file_name("air_real");
            let f = std::fs::File::options().write(true).open("/dev/full").unwrap();
            let mut k = Command::new(exe).args(&args).current_dir(&root).env("HOME", &root).env("NO_COLOR", "1").stdin(Stdio::piped()).stdout(f).stderr(Stdio::piped()).spawn().unwrap();
            { let mut s = k.stdin.take().unwrap(); let _ = s.write_all(&self.text); }
            k.wait_with_output().unwrap()
        } else { air(&root, &args, Some(&self.text), false) };
        let found = self.tree.found(&[self.path.clone()]);
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let (want, out): (i32, Vec<u8>) = if found.iter().any(|d| self.tree.configs[*d].bad) { (255, vec![]) } else {
            let c = self.tree.governing(&found, &self.path);
            let left_out = !self.force && above(&self.path).iter().enumerate().any(|(i, a)| Tree::out(c, a.rsplit('/').next().unwrap(), i > 0));
            let fits = !left_out && (self.force || self.path.ends_with(".R") || self.path.ends_with(".r"));
            let utf8 = std::str::from_utf8(&self.text).is_ok();
            match (fits, self.check) {
                (false, true) => (0, vec![]),
                (false, false) => if utf8 { (0, self.text.clone()) } else { (255, vec![]) },
                (true, check) => match formatted(&self.text, c) {
                    None => (255, vec![]),
                    Some(n) => if check { (if n != self.text { 1 } else { 0 }, vec![]) } else { (0, n) },
                },
            }
        };
        // output that cannot be written is an error; a part of a line may stay unwritten until the end
        let want = if self.full && out.contains(&b'\n') { 255 } else { want };
        if o.status.code() != Some(want) { return Err(format!("exit status {:?}, not {want}; stderr {err:?}", o.status.code())); }
        if !self.full && o.stdout != out { return Err(format!("printed {:?}, not {:?}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&out))); }
        if want == 255 && err.is_empty() { return Err("an error that is not reported".into()); }
        for (f, b) in &self.tree.files { if &std::fs::read(root.join(f)).unwrap() != b { return Err(format!("{f} was changed")); } }
        Ok(())
    }
}
fn c02(c: &mut Ctx) {
    c.stage("standard input");
    let mut n = 0;
    while n < 60 || c.time_left(0.95) {
        n += 1;
        let r = &mut c.rng;
        let tree = Tree::new(r, n % 15 == 7);
        let path = match r.below(8) {
            // a directory, or a place that is not there
            0 => "p/d.R".to_string(),
            1 => join(*r.pick(&["new", "p/new", "p/new/renv", "p/sub/new.R"]), *r.pick(NAMES)),
            _ => join(*r.pick(DIRS), *r.pick(NAMES)),
        };
        let text = content(r);
        let x = Piped { tree, path, text, check: r.chance(1, 3), force: r.chance(1, 6), absolute: r.chance(1, 3), full: r.chance(1, 10) };
        let y = x.clone();
        c.case(move || format!("{y:?}"), || x.holds());
    }
}
fn main() { hx::main(&[("C01", c01), ("C02", c02)]); }
