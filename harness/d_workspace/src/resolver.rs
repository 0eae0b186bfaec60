use hx::Ctx;
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};
use workspace::resolve::PathResolver;

type Key = Vec<String>;

/// the components of a path, as text
fn key(p: &Path) -> Key {
    p.components()
        .map(|c| match c {
            Component::RootDir => "/".to_string(),
            Component::CurDir => ".".to_string(),
            Component::ParentDir => "..".to_string(),
            Component::Normal(s) => format!("n{}", s.to_string_lossy()),
            Component::Prefix(p) => format!("p{:?}", p),
        })
        .collect()
}

/// the order the resolver promises: std's order of paths, component by component
fn sorted(r: &PathResolver<String>) -> bool {
    r.items().windows(2).all(|w| w[0].path().components().lt(w[1].path().components()))
}

const NAMES: &[&str] = &["a", "b", "a-b", "a.b", "A", "é", "a b", "aa", "..", ".", "", "a.R", "Z", "0", "~"];

fn path(c: &mut Ctx, depth: usize) -> String {
    let mut s = String::new();
    if c.rng.chance(2, 3) {
        s.push('/');
    }
    let n = c.rng.below(depth + 1);
    for i in 0..n {
        if i > 0 {
            s.push('/');
        }
        let few = c.rng.chance(2, 3);
        s.push_str(NAMES[c.rng.below(if few { 4 } else { NAMES.len() })]);
    }
    if c.rng.chance(1, 8) {
        s.push('/');
    }
    s
}

#[derive(Debug, Clone)]
enum Op {
    Add(String),
    Remove(String),
    Clear,
}

fn model_prefix<'a>(m: &'a BTreeMap<Key, (PathBuf, String)>, p: &Key) -> Vec<(&'a Key, &'a String)> {
    let mut v: Vec<(&Key, &String)> = m.iter().filter(|(k, _)| p.len() >= k.len() && p[..k.len()] == k[..]).map(|(k, v)| (k, &v.1)).collect();
    v.sort_by_key(|(k, _)| k.len());
    v
}

fn run(ops: &[Op], probes: &[String], resolution: bool) -> Result<(), String> {
    let mut r: PathResolver<String> = PathResolver::new("fallback".to_string());
    let mut m: BTreeMap<Key, (PathBuf, String)> = BTreeMap::new();
    for (n, op) in ops.iter().enumerate() {
        match op {
            Op::Add(p) => {
                let v = format!("v{n}");
                let got = r.add(PathBuf::from(p), v.clone());
                let want = m.insert(key(Path::new(p)), (PathBuf::from(p), v)).map(|x| x.1);
                if !resolution && got != want {
                    return Err(format!("step {n}: add({p:?}) returns {got:?}, expected {want:?}"));
                }
            }
            Op::Remove(p) => {
                let got = r.remove(Path::new(p));
                let want = m.remove(&key(Path::new(p))).map(|x| x.1);
                if !resolution && got != want {
                    return Err(format!("step {n}: remove({p:?}) returns {got:?}, expected {want:?}"));
                }
            }
            Op::Clear => {
                r.clear();
                m.clear();
            }
        }
        if !resolution {
            if r.len() != m.len() || r.is_empty() != m.is_empty() || r.items().len() != m.len() {
                return Err(format!("step {n} ({op:?}): {} items, expected {}", r.len(), m.len()));
            }
            if !sorted(&r) {
                return Err(format!("step {n} ({op:?}): the items are not sorted and distinct: {:?}", r.items()));
            }
            let got: BTreeMap<Key, String> = r.items().iter().map(|i| (key(i.path()), i.value().clone())).collect();
            let want: BTreeMap<Key, String> = m.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect();
            if got != want {
                return Err(format!("step {n} ({op:?}): items {got:?}, expected {want:?}"));
            }
            if r.fallback() != "fallback" {
                return Err(format!("step {n}: the fallback changed to {:?}", r.fallback()));
            }
        }
    }
    if !resolution {
        return Ok(());
    }
    for p in probes {
        let k = key(Path::new(p));
        let all = model_prefix(&m, &k);
        let got = r.resolve(Path::new(p)).map(|i| (key(i.path()), i.value().clone()));
        let want = all.last().map(|(k, v)| ((*k).clone(), (*v).clone()));
        if got != want {
            return Err(format!("resolve({p:?}) gives {got:?}, expected {want:?}"));
        }
        let got = r.resolve_or_fallback(Path::new(p)).clone();
        let want = all.last().map_or("fallback".to_string(), |(_, v)| (*v).clone());
        if got != want {
            return Err(format!("resolve_or_fallback({p:?}) gives {got:?}, expected {want:?}"));
        }
        let mut got: Vec<(Key, String)> = r.matches(p.clone()).map(|i| (key(i.path()), i.value().clone())).collect();
        got.sort_by_key(|x| x.0.len());
        let want: Vec<(Key, String)> = all.iter().map(|(k, v)| ((*k).clone(), (*v).clone())).collect();
        if got != want {
            return Err(format!("matches({p:?}) gives {got:?}, expected {want:?}"));
        }
        // exactly those are handed out for change
        for i in r.matches_mut(p.clone()) {
            i.value_mut().push('!');
        }
        let want: BTreeMap<Key, String> = m.iter().map(|(k2, v)| (k2.clone(), if k.len() >= k2.len() && k[..k2.len()] == k2[..] { format!("{}!", v.1) } else { v.1.clone() })).collect();
        let got: BTreeMap<Key, String> = r.items().iter().map(|i| (key(i.path()), i.value().clone())).collect();
        if got != want {
            return Err(format!("matches_mut({p:?}) changed the items to {got:?}, expected {want:?}"));
        }
        for i in r.matches_mut(p.clone()) {
            i.value_mut().pop();
        }
    }
    Ok(())
}

fn all(c: &mut Ctx, resolution: bool) {
    c.stage("every sequence of up to 4 operations on related paths");
    let ps = ["/a", "/a/b", "/a-b", "/a.b", "/a/b/c", "a", "/", "", "/a/b/", "/b"];
    let probes: Vec<String> = ["/a/b/c/d.R", "/a/b", "/a/bb", "/a/c", "/a-b/x", "/a.b", "/b/x", "/c", "a/x", "a", "", "/", "/a/b/c", "/aa", "b"].iter().map(|s| s.to_string()).collect();
    let mut ops = vec![Op::Clear];
    for p in ps {
        ops.push(Op::Add(p.to_string()));
        if !resolution {
            ops.push(Op::Remove(p.to_string()));
        }
    }
    let n = ops.len();
    for len in 0..=4u32 {
        let total = n.pow(len);
        let cap = if c.deep { 400_000 } else { 20_000 };
        let step = (total / cap).max(1);
        let mut k = 0;
        while k < total {
            let mut q = k;
            let s: Vec<Op> = (0..len).map(|_| { let x = ops[q % n].clone(); q /= n; x }).collect();
            c.case(|| format!("{s:?}"), || run(&s, &probes, resolution));
            k += if step == 1 { 1 } else { c.rng.range(1, 2 * step) };
        }
    }
    c.stage("random histories");
    while c.time_left(1.0) {
        let n = c.rng.range(1, 24);
        let mut pool: Vec<String> = Vec::new();
        let mut s = Vec::new();
        for _ in 0..n {
            let p = if !pool.is_empty() && c.rng.chance(1, 2) {
                let b = c.rng.pick(&pool).clone();
                if c.rng.chance(1, 2) { b } else { format!("{b}/{}", NAMES[c.rng.below(4)]) }
            } else {
                path(c, 4)
            };
            pool.push(p.clone());
            s.push(match c.rng.below(20) {
                0 => Op::Clear,
                1..=6 => Op::Remove(p),
                _ => Op::Add(p),
            });
        }
        let mut probes = pool.clone();
        for _ in 0..6 {
            let b = c.rng.pick(&pool).clone();
            probes.push(format!("{b}/{}", c.rng.pick(NAMES)));
            probes.push(format!("{b}{}", c.rng.pick(&["-", ".R", "b", "/x/y", "/.", "/.."])));
        }
        c.case(|| format!("{s:?}; probes {probes:?}"), || run(&s, &probes, resolution));
    }
}

pub fn w01(c: &mut Ctx) {
    all(c, false);
}
pub fn w02(c: &mut Ctx) {
    all(c, true);
}
