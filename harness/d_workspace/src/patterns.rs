use crate::default_exclude_patterns::DefaultExcludePatterns;
use crate::default_include_patterns::DefaultIncludePatterns;
use crate::exclude_patterns::ExcludePatterns;
use crate::file_patterns::{DefaultFilePatterns, FilePatterns};
use hx::Ctx;
use ignore::Match;
use ignore::gitignore::{Gitignore, GitignoreBuilder, Glob};
use std::path::Path;

fn text(g: Option<&Glob>) -> Option<String> {
    g.map(|g| g.original().to_string())
}

fn pick(m: Match<&Glob>) -> Option<String> {
    match m {
        Match::Ignore(g) => Some(g.original().to_string()),
        Match::None | Match::Whitelist(_) => None,
    }
}

/// the glob that matches the path, or else the closest parent (taken as a directory) that one matches
fn walk(g: &Gitignore, p: &Path, dir: bool) -> Option<String> {
    let mut first = true;
    for a in p.ancestors() {
        if let Some(x) = pick(g.matched(a, if first { dir } else { true })) {
            return Some(x);
        }
        first = false;
    }
    None
}

fn builder(root: &str, lines: &[&str]) -> Option<Gitignore> {
    let mut b = GitignoreBuilder::new(root);
    for l in lines {
        b.add_line(None, l).ok()?;
    }
    b.build().ok()
}

const PATTERNS: &[&str] = &[
    "**/renv/", "**/cpp11.R", "**/*.R", "**/a", "**/a/b", "**/import-*.R", "**/.git/", "**/A", "**/b/", "**/b/**", "**/?.R", "**/[ab].R", "**/x y", "**/é*",
];
const ROOTED: &[&str] = &["/a", "a/", "a/*.R", "a/**", "/renv/", "!a/b", "b", "*.R", "!keep.R", "/a/b/c.R", "a/**/b", "b/", "**/c.R", "x", "a/b/"];
const PARTS: &[&str] = &["a", "b", "renv", "cpp11.R", "keep.R", "c.R", "import-x.R", ".git", "A", "x y", "é.R", "x"];

fn one(lines: &[&str], p: &str, dir: bool) -> Result<(), String> {
    let Some(g) = builder("", lines) else { return Ok(()) };
    let d = DefaultFilePatterns::try_from_iter(lines.iter().copied()).map_err(|e| format!("not built: {e}"))?;
    let path = Path::new(p);
    let (got, want) = (text(d.matched(path, dir)), pick(g.matched(path, dir)));
    if got != want {
        return Err(format!("default patterns: matched gives {got:?}, expected {want:?}"));
    }
    let (got, want) = (text(d.matched_path_or_any_parents(path, dir)), walk(&g, path, dir));
    if got != want {
        return Err(format!("default patterns: matched_path_or_any_parents gives {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn rooted(root: &str, lines: &[&str], p: &str, dir: bool) -> Result<(), String> {
    let Some(g) = builder(root, lines) else { return Ok(()) };
    let d = FilePatterns::try_from_iter(root, lines.iter().copied()).map_err(|e| format!("not built: {e}"))?;
    let e = ExcludePatterns::try_from_iter(root, lines.iter().copied()).map_err(|e| format!("not built: {e}"))?;
    let full = format!("{root}/{p}");
    let path = Path::new(&full);
    let want = pick(g.matched(path, dir));
    for (what, got) in [("matched", text(d.matched(path, dir))), ("exclude patterns: matched", text(e.matched(path, dir)))] {
        if got != want {
            return Err(format!("{what} gives {got:?}, expected {want:?}"));
        }
    }
    let want = pick(g.matched_path_or_any_parents(path, dir));
    for (what, got) in [("", text(d.matched_path_or_any_parents(path, dir))), ("exclude patterns: ", text(e.matched_path_or_any_parents(path, dir)))] {
        if got != want {
            return Err(format!("{what}matched_path_or_any_parents gives {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

pub fn w03(c: &mut Ctx) {
    c.stage("every pattern against every path of up to 3 parts");
    for l in PATTERNS {
        for a in PARTS {
            for b in PARTS {
                for s in [format!("{a}"), format!("{a}/{b}"), format!("/{a}/{b}"), format!("C:/{a}/{b}"), format!("{a}/{b}/a"), format!("/{b}/{a}/c.R"), format!("/{a}")] {
                    for dir in [false, true] {
                        c.case(|| format!("{l:?} against {s:?}, directory: {dir}"), || one(&[l], &s, dir));
                    }
                }
            }
        }
    }
    for l in PATTERNS.iter().chain(ROOTED) {
        for a in PARTS {
            for b in PARTS {
                for s in [format!("{a}"), format!("{a}/{b}"), format!("{a}/{b}/a")] {
                    for dir in [false, true] {
                        c.case(|| format!("{l:?} under /r/root against {s:?}, directory: {dir}"), || rooted("/r/root", &[l], &s, dir));
                    }
                }
            }
        }
    }
    c.stage("random pattern lists and paths");
    while c.time_left(1.0) {
        let n = c.rng.range(0, 5);
        let own = c.rng.chance(1, 2);
        let lines: Vec<&str> = (0..n).map(|_| if own || c.rng.chance(1, 3) { *c.rng.pick(PATTERNS) } else { *c.rng.pick(ROOTED) }).collect();
        for _ in 0..20 {
            let k = c.rng.range(1, 6);
            let mut s: Vec<&str> = (0..k).map(|_| *c.rng.pick(PARTS)).collect();
            let dir = c.rng.chance(1, 2);
            if own {
                if c.rng.chance(1, 2) {
                    s.insert(0, "");
                }
                let p = s.join("/");
                c.case(|| format!("{lines:?} against {p:?}, directory: {dir}"), || one(&lines, &p, dir));
            } else {
                let p = s.join("/");
                let root = *c.rng.pick(&["/r/root", "/", "/a", "rel/root", "/r/a/b"]);
                let root = if root == "/" { "" } else { root };
                c.case(|| format!("{lines:?} under {root:?} against {p:?}, directory: {dir}"), || rooted(root, &lines, &p, dir));
            }
        }
    }
}

fn is_dir_name(n: &str) -> bool {
    matches!(n, ".git" | "renv" | "revdep")
}
fn is_any_name(n: &str) -> bool {
    matches!(n, "cpp11.R" | "RcppExports.R" | "extendr-wrappers.R") || (n.starts_with("import-standalone-") && n.ends_with(".R") && n.len() >= "import-standalone-.R".len())
}

fn defaults(parts: &[String], rooted: bool, dir: bool) -> Result<(), String> {
    let p = format!("{}{}", if rooted { "/" } else { "" }, parts.join("/"));
    let path = Path::new(&p);
    let last = parts.last().unwrap();
    let inc = DefaultIncludePatterns::default();
    let want = last.ends_with(".R") || last.ends_with(".r");
    let got = inc.matched(path, dir).is_some();
    if got != want {
        return Err(format!("default include: matched is {got}, expected {want}"));
    }
    let exc = DefaultExcludePatterns::default();
    let own = (dir && is_dir_name(last)) || is_any_name(last);
    let got = exc.matched(path, dir).is_some();
    if got != own {
        return Err(format!("default exclude: matched is {got}, expected {own}"));
    }
    let want = own || parts[..parts.len() - 1].iter().any(|n| is_dir_name(n) || is_any_name(n));
    let got = exc.matched_path_or_any_parents(path, dir).is_some();
    if got != want {
        return Err(format!("default exclude: matched_path_or_any_parents is {got}, expected {want}"));
    }
    // the public view of the same thing
    let got = workspace::settings::DefaultExcludePatterns::default().matched_path_or_any_parents(path, dir).is_some();
    if got != want {
        return Err(format!("workspace default exclude: matched_path_or_any_parents is {got}, expected {want}"));
    }
    Ok(())
}

pub fn w04(c: &mut Ctx) {
    c.stage("every extension of up to 2 characters");
    let chars: Vec<char> = (0x20u8..0x7f).map(|b| b as char).filter(|c| *c != '/').chain(['é', 'Ｒ', 'ʀ', '\u{a0}']).collect();
    for stem in ["foo", "", "a.b", ".x", "é"] {
        for a in &chars {
            let n = format!("{stem}.{a}");
            if n != "." && n != ".." {
                c.case(|| format!("{n:?}"), || defaults(&[n.clone()], false, false));
                c.case(|| format!("{n:?}"), || defaults(&["d".into(), n.clone()], true, false));
            }
            for b in &chars {
                let n = format!("{stem}.{a}{b}");
                if n != ".." {
                    c.case(|| format!("{n:?}"), || defaults(&[n.clone()], false, false));
                }
            }
        }
    }
    c.stage("one edit away from an excluded name");
    let names = [".git", "renv", "revdep", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-x.R", "import-standalone-.R", "import-standalone-a-b.c.R", "x.R", "y.r"];
    for n in names {
        let v: Vec<char> = n.chars().collect();
        let mut vars = vec![n.to_string(), n.to_lowercase(), n.to_uppercase()];
        for i in 0..=v.len() {
            for ch in ['x', '.', 'R', '-', '*', 'r', ' '] {
                let mut w = v.clone();
                w.insert(i, ch);
                vars.push(w.iter().collect());
                if i < v.len() {
                    let mut w = v.clone();
                    w[i] = ch;
                    vars.push(w.iter().collect());
                }
            }
            if i < v.len() {
                let mut w = v.clone();
                w.remove(i);
                vars.push(w.iter().collect());
            }
        }
        for x in vars {
            if x.is_empty() || x == "." || x == ".." {
                continue;
            }
            for dir in [false, true] {
                for rooted in [false, true] {
                    for p in [vec![x.clone()], vec!["a".into(), x.clone()], vec![x.clone(), "b.R".into()], vec!["a".into(), x.clone(), "c".into(), "d.R".into()]] {
                        c.case(|| format!("{p:?}, rooted: {rooted}, directory: {dir}"), || defaults(&p, rooted, dir));
                    }
                }
            }
        }
    }
    c.stage("random paths");
    while c.time_left(1.0) {
        let n = c.rng.range(1, 6);
        let p: Vec<String> = (0..n)
            .map(|_| match c.rng.below(6) {
                0 => names[c.rng.below(names.len())].to_string(),
                1 => format!("{}{}", names[c.rng.below(names.len())], c.rng.pick(&["x", ".R", ".r", "~"])),
                _ => c.rng.pick(&["a", "src", "R", "r", ".R", "b.R", "b.r", "x.Rmd", "x.,", "x.q", "import-standalone", "é.R", "x.RR", "x.R ", "x. R"]).to_string(),
            })
            .collect();
        let (dir, rooted) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
        c.case(|| format!("{p:?}, rooted: {rooted}, directory: {dir}"), || defaults(&p, rooted, dir));
    }
}
