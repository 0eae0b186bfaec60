use crate::toml::Scratch;
use hx::Ctx;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use workspace::discovery::*;
use workspace::resolve::PathResolver;
use workspace::settings::{FormatSettings, Settings};

/// a node of the tree
#[derive(Clone, Debug)]
enum Node {
    File,
    Dir(BTreeMap<&'static str, Node>),
    Toml(Conf),
}

#[derive(Clone, Debug, PartialEq)]
struct Conf {
    exclude: Vec<&'static str>,
    default_exclude: bool,
    width: u16,
}

impl Conf {
    fn text(&self) -> String {
        format!(
            "[format]\nline-width = {}\nexclude = [{}]\ndefault-exclude = {}\n",
            self.width,
            self.exclude.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "),
            self.default_exclude
        )
    }
    fn none() -> Conf {
        Conf { exclude: vec![], default_exclude: true, width: 80 }
    }
    /// `rel`: the parts below the directory of the configuration
    fn own(&self, rel: &[&str], dir: bool) -> bool {
        let Some(last) = rel.last() else { return false };
        self.exclude.iter().any(|p| {
            if let Some(d) = p.strip_suffix('/') {
                match d.strip_prefix('/') {
                    Some(d) => dir && rel == [d],
                    None => dir && *last == d,
                }
            } else if let Some(f) = p.strip_prefix('/') {
                rel == [f]
            } else {
                last == p
            }
        })
    }
}

fn default_excluded(name: &str, dir: bool) -> bool {
    (dir && matches!(name, ".git" | "renv" | "revdep")) || matches!(name, "cpp11.R" | "RcppExports.R" | "extendr-wrappers.R") || (name.starts_with("import-standalone-") && name.ends_with(".R"))
}

const DIRS: &[&str] = &["renv", "a", "b", "x.R", ".hid", "cpp11.R", "revdep"];
const FILES: &[&str] = &["x.R", "y.r", "z.py", "cpp11.R", "import-standalone-q.R", ".h.R", "renv", "w.R", "v.,"];
const EXCL: &[&str] = &["a/", "/a/", "x.R", "/x.R", "b/", "w.R", "z.py"];

fn tree(c: &mut Ctx, depth: usize) -> BTreeMap<&'static str, Node> {
    let mut m = BTreeMap::new();
    if depth > 0 {
        for _ in 0..c.rng.below(3) {
            let n = *c.rng.pick(DIRS);
            let t = tree(c, depth - 1);
            m.insert(n, Node::Dir(t));
        }
    }
    for _ in 0..c.rng.below(4) {
        m.entry(*c.rng.pick(FILES)).or_insert(Node::File);
    }
    if c.rng.chance(1, 3) {
        let name = if c.rng.chance(1, 3) { ".air.toml" } else { "air.toml" };
        let conf = conf(c);
        m.insert(name, Node::Toml(conf));
        if c.rng.chance(1, 6) {
            let other = conf2(c);
            m.insert(if name == "air.toml" { ".air.toml" } else { "air.toml" }, Node::Toml(other));
        }
    }
    m
}
fn conf(c: &mut Ctx) -> Conf {
    let n = c.rng.below(3);
    Conf { exclude: (0..n).map(|_| *c.rng.pick(EXCL)).collect(), default_exclude: c.rng.chance(2, 3), width: c.rng.range(1, 320) as u16 }
}
fn conf2(c: &mut Ctx) -> Conf {
    conf(c)
}

fn write(d: &Path, t: &BTreeMap<&'static str, Node>) {
    std::fs::create_dir_all(d).unwrap();
    for (n, x) in t {
        match x {
            Node::File => std::fs::write(d.join(n), "").unwrap(),
            Node::Toml(c) => std::fs::write(d.join(n), c.text()).unwrap(),
            Node::Dir(t) => write(&d.join(n), t),
        }
    }
}

fn at<'a>(t: &'a BTreeMap<&'static str, Node>, parts: &[&str]) -> Option<&'a Node> {
    let (f, r) = parts.split_first()?;
    let n = t.get::<str>(f)?;
    if r.is_empty() {
        return Some(n);
    }
    match n {
        Node::Dir(t) => at(t, r),
        _ => None,
    }
}

/// the configuration of the directory at `parts`
fn conf_in<'a>(t: &'a BTreeMap<&'static str, Node>, parts: &[&str]) -> Option<&'a Conf> {
    let d = if parts.is_empty() {
        t
    } else {
        match at(t, parts)? {
            Node::Dir(d) => d,
            _ => return None,
        }
    };
    ["air.toml", ".air.toml"].iter().find_map(|n| match d.get::<str>(n) {
        Some(Node::Toml(c)) => Some(c),
        _ => None,
    })
}

fn depth_of(t: &BTreeMap<&'static str, Node>, parts: &[&str]) -> Option<usize> {
    (0..=parts.len()).rev().find(|k| conf_in(t, &parts[..*k]).is_some())
}

struct World<'a> {
    t: &'a BTreeMap<&'static str, Node>,
    /// directories whose configuration the resolver knows
    known: Vec<Vec<&'a str>>,
    exclude: bool,
    include: bool,
}

impl World<'_> {
    fn conf(&self, parts: &[&str]) -> (Conf, usize) {
        let best = self.known.iter().filter(|k| parts.len() >= k.len() && parts[..k.len()] == k[..]).max_by_key(|k| k.len());
        match best {
            Some(k) => (conf_in(self.t, k).unwrap().clone(), k.len()),
            None => (Conf::none(), 0),
        }
    }
    fn out(&self, parts: &[&str], dir: bool, up: bool) -> bool {
        let (c, k) = self.conf(parts);
        let lo = if up { k + 1 } else { parts.len() };
        (lo..=parts.len()).any(|n| n > k && c.own(&parts[k..n], dir || n < parts.len()))
            || c.default_exclude && (if up { 1 } else { parts.len() }..=parts.len()).any(|n| n > 0 && default_excluded(parts[n - 1], dir || n < parts.len()))
    }
    fn visit(&self, parts: &mut Vec<String>, direct: bool, found: &mut Vec<String>) {
        let v: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
        let sub = if v.is_empty() { Some(self.t) } else { match at(self.t, &v) { Some(Node::Dir(d)) => Some(d), _ => None } };
        if self.exclude && self.out(&v, sub.is_some(), direct) {
            return;
        }
        match sub {
            Some(d) => {
                for n in d.keys() {
                    if n.starts_with('.') {
                        continue;
                    }
                    parts.push(n.to_string());
                    self.visit(parts, false, found);
                    parts.pop();
                }
            }
            None => {
                let last = v.last().unwrap();
                if !self.include || last.ends_with(".R") || last.ends_with(".r") {
                    found.push(v.join("/"));
                }
            }
        }
    }
}

fn dirs(t: &BTreeMap<&'static str, Node>, pre: &[&'static str], all: &mut Vec<(Vec<&'static str>, bool)>) {
    for (n, x) in t {
        let mut p = pre.to_vec();
        p.push(n);
        match x {
            Node::Dir(d) => {
                all.push((p.clone(), true));
                dirs(d, &p, all);
            }
            _ => all.push((p, false)),
        }
    }
}

fn check(root: &Path, t: &BTreeMap<&'static str, Node>, starts: &[Vec<&'static str>], shape: &[usize], exclude: bool, include: bool) -> Result<(), String> {
    let paths: Vec<PathBuf> = starts
        .iter()
        .zip(shape)
        .map(|(s, k)| {
            let mut p = root.to_path_buf();
            if *k == 1 {
                p.push(".");
            }
            p.extend(s);
            if *k == 2 {
                p.push("nowhere/..");
            }
            p
        })
        .collect();
    // settings
    let got = discover_settings(&paths).map_err(|e| format!("discover_settings: {e}"))?;
    let mut want: Vec<Vec<&str>> = Vec::new();
    for s in starts {
        if let Some(k) = depth_of(t, s) {
            let d = s[..k].to_vec();
            if !want.contains(&d) {
                want.push(d);
            }
        }
    }
    let mut g: Vec<(PathBuf, u16)> = got.iter().map(|d| (d.directory.clone(), d.settings.format.line_width.value())).collect();
    let mut w: Vec<(PathBuf, u16)> = want.iter().map(|d| (root.join(d.iter().collect::<PathBuf>()), conf_in(t, d).unwrap().width)).collect();
    g.sort();
    w.sort();
    // the root itself is spelled without a trailing separator
    let norm = |v: Vec<(PathBuf, u16)>| v.into_iter().map(|(p, x)| (p.components().collect::<PathBuf>(), x)).collect::<Vec<_>>();
    if norm(g.clone()) != norm(w.clone()) {
        return Err(format!("discover_settings finds {g:?}, expected {w:?}"));
    }
    // files
    let mut resolver = PathResolver::new(Settings::default());
    for d in got {
        resolver.add(&d.directory, d.settings);
    }
    let res = discover_r_file_paths(
        &paths,
        &resolver,
        Mode::Format,
        if exclude { Exclude::Matched } else { Exclude::Nothing },
        if include { Include::Matched } else { Include::Everything },
    );
    let mut g: Vec<String> = Vec::new();
    for r in res {
        let p = r.map_err(|e| format!("discover_r_file_paths: {e}"))?;
        g.push(p.strip_prefix(root).map_err(|_| format!("{p:?} lies outside"))?.to_string_lossy().to_string());
    }
    let world = World { t, known: want, exclude, include };
    let mut w = Vec::new();
    for s in starts {
        world.visit(&mut s.iter().map(|x| x.to_string()).collect(), true, &mut w);
    }
    g.sort();
    w.sort();
    if g != w {
        return Err(format!("discover_r_file_paths finds {g:?}, expected {w:?}"));
    }
    Ok(())
}

pub fn w07(c: &mut Ctx) {
    c.stage("random trees");
    let s = Scratch::new("w07");
    let mut n = 0;
    while c.time_left(0.8) {
        n += 1;
        let root = s.0.join(format!("t{n}"));
        let t = tree(c, 3);
        write(&root, &t);
        let mut all = vec![(vec![], true)];
        dirs(&t, &[], &mut all);
        for _ in 0..6 {
            let k = c.rng.range(1, 4);
            let starts: Vec<Vec<&'static str>> = (0..k).map(|_| c.rng.pick(&all).0.clone()).collect();
            let shape: Vec<usize> = (0..k).map(|_| c.rng.below(3)).collect();
            let (e, i) = (c.rng.chance(3, 4), c.rng.chance(3, 4));
            c.case(|| format!("tree {t:?}, from {starts:?} (spelled {shape:?}), exclude {e}, include {i}"), || check(&root, &t, &starts, &shape, e, i));
        }
        std::fs::remove_dir_all(&root).unwrap();
    }
    c.stage("no paths, a missing path, a broken configuration");
    let empty: [&Path; 0] = [];
    let resolver = PathResolver::new(Settings::default());
    c.case(|| "no paths".into(), || {
        if !discover_r_file_paths(&empty, &resolver, Mode::Format, Exclude::Matched, Include::Matched).is_empty() || !discover_settings(&empty).map_err(|e| e.to_string())?.is_empty() {
            return Err("something is found".into());
        }
        Ok(())
    });
    let root = s.0.join("m");
    std::fs::create_dir_all(root.join("d")).unwrap();
    std::fs::write(root.join("d/x.R"), "").unwrap();
    c.case(|| "a missing path beside a good one".into(), || {
        let r = discover_r_file_paths(&[root.join("none.R"), root.join("d")], &resolver, Mode::Format, Exclude::Matched, Include::Matched);
        let (ok, bad): (Vec<_>, Vec<_>) = r.into_iter().partition(|x| x.is_ok());
        if bad.len() != 1 || ok.len() != 1 {
            return Err(format!("{} found, {} reported, expected one each", ok.len(), bad.len()));
        }
        Ok(())
    });
    std::fs::write(root.join("air.toml"), "[format]\nline-width = 0\n").unwrap();
    c.case(|| "a broken air.toml".into(), || if discover_settings(&[root.join("d")]).is_ok() { Err("discover_settings accepts it".into()) } else { Ok(()) });
}

// ---------------------------------------------------------------- the server's decision
#[path = "/repo/crates/lsp/src/file_patterns.rs"]
#[allow(dead_code)]
mod lsp_file_patterns;

fn format_settings(c: &Conf, root: &Path) -> FormatSettings {
    workspace::toml::parse_air_inline_toml(&c.text()).unwrap().into_settings(root).unwrap().format
}

pub fn w08(c: &mut Ctx) {
    c.stage("documents of up to 3 parts");
    let confs: Vec<(Conf, FormatSettings)> = [(&[][..], true), (&[], false), (&["a/"], true), (&["/x.R"], false), (&["x.R", "b/"], false), (&["/a/", "z.py"], true)]
        .iter()
        .map(|(e, d)| {
            let k = Conf { exclude: e.to_vec(), default_exclude: *d, width: 80 };
            let s = format_settings(&k, Path::new("/r/root"));
            (k, s)
        })
        .collect();
    let mut names: Vec<&str> = DIRS.to_vec();
    names.extend(FILES);
    names.extend(["Untitled-1", "doc.Rmd", "x.R.bak"]);
    let n = names.len();
    for k in 0..n * n * n {
        let parts = [names[k % n], names[k / n % n], names[k / n / n % n]];
        for len in 1..=3usize {
            if (len < 3 && k >= n.pow(len as u32)) || (len == 3 && !c.deep && k % 7 != 0) {
                continue;
            }
            let v = &parts[..len];
            let p = Path::new("/r/root").join(v.iter().collect::<PathBuf>());
            for (conf, fs) in &confs {
                for lang in ["r", "R", "python", "", "rmd"] {
                    let out = (1..=len).any(|m| conf.own(&v[..m], m < len)) || conf.default_exclude && (1..=len).any(|m| default_excluded(v[m - 1], m < len));
                    let inc = v[len - 1].ends_with(".R") || v[len - 1].ends_with(".r");
                    let want = out || !(inc || lang == "r");
                    c.case(
                        || format!("{p:?}, language {lang:?}, {conf:?}"),
                        || {
                            let got = lsp_file_patterns::is_document_excluded_from_formatting(&p, fs, lang.to_string());
                            if got != want { Err(format!("excluded: {got}, expected {want}")) } else { Ok(()) }
                        },
                    );
                }
            }
        }
    }
}
