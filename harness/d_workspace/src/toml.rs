use air_r_formatter::context::RFormatOptions;
use hx::Ctx;
use settings::{AssignmentStyle, IndentStyle, IndentWidth, LineEnding, LineWidth, PersistentLineBreaks, Skip, Table};
use std::path::{Path, PathBuf};
use workspace::toml::*;

/// one setting: the text of the file, and what it must come to
#[derive(Clone, Debug, Default)]
struct Conf {
    line_width: Option<i64>,
    indent_width: Option<i64>,
    indent_style: Option<&'static str>,
    line_ending: Option<&'static str>,
    plb: Option<bool>,
    assignment: Option<&'static str>,
    exclude: Option<Vec<&'static str>>,
    default_exclude: Option<bool>,
    skip: Option<Vec<&'static str>>,
    table: Option<Vec<&'static str>>,
    default_table: Option<bool>,
    extra: Option<&'static str>,
    empty: bool,
}

fn list(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "))
}

impl Conf {
    fn text(&self) -> String {
        if self.empty {
            return String::new();
        }
        let mut s = String::from("[format]\n");
        let mut put = |k: &str, v: Option<String>| {
            if let Some(v) = v {
                s.push_str(&format!("{k} = {v}\n"));
            }
        };
        let q = |s: &str| format!("{s:?}");
        put("line-width", self.line_width.map(|v| v.to_string()));
        put("indent-width", self.indent_width.map(|v| v.to_string()));
        put("indent-style", self.indent_style.map(q));
        put("line-ending", self.line_ending.map(q));
        put("persistent-line-breaks", self.plb.map(|v| v.to_string()));
        put("assignment-style", self.assignment.map(q));
        put("exclude", self.exclude.as_ref().map(|v| list(v)));
        put("default-exclude", self.default_exclude.map(|v| v.to_string()));
        put("skip", self.skip.as_ref().map(|v| list(v)));
        put("table", self.table.as_ref().map(|v| list(v)));
        put("default-table", self.default_table.map(|v| v.to_string()));
        if let Some(e) = self.extra {
            s.push_str(e);
            s.push('\n');
        }
        s
    }

    fn valid(&self) -> bool {
        self.line_width.is_none_or(|v| (1..=320).contains(&v))
            && self.indent_width.is_none_or(|v| (1..=24).contains(&v))
            && self.indent_style.is_none_or(|v| ["tab", "space"].contains(&v))
            && self.line_ending.is_none_or(|v| ["auto", "lf", "crlf", "native"].contains(&v))
            && self.assignment.is_none_or(|v| ["arrow", "equal", "preserve"].contains(&v))
            && self.extra.is_none()
    }

    /// what the file says
    fn want(&self, source: &str) -> Want {
        let own = |v: &Vec<&str>| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let mut names = self.table.as_ref().map(own);
        if self.default_table != Some(false) {
            names.get_or_insert_default().extend(["tribble".to_string(), "fcase".to_string()]);
        }
        let first = match source.find('\n') {
            Some(i) if i > 0 && source.as_bytes()[i - 1] == b'\r' => LineEnding::Crlf,
            _ => LineEnding::Lf,
        };
        Want {
            indent_style: if self.indent_style == Some("tab") { IndentStyle::Tab } else { IndentStyle::Space },
            indent_width: IndentWidth::try_from(self.indent_width.unwrap_or(2) as u8).unwrap(),
            line_ending: match self.line_ending {
                None | Some("auto") => first,
                Some("crlf") => LineEnding::Crlf,
                _ => LineEnding::Lf,
            },
            line_width: LineWidth::try_from(self.line_width.unwrap_or(80) as u16).unwrap(),
            persistent_line_breaks: if self.plb == Some(false) { PersistentLineBreaks::Ignore } else { PersistentLineBreaks::Respect },
            assignment_style: match self.assignment {
                Some("equal") => AssignmentStyle::Equal,
                Some("preserve") => AssignmentStyle::Preserve,
                _ => AssignmentStyle::Arrow,
            },
            skip: self.skip.as_ref().map(|v| skip_of(v)),
            table: names.map(Table::new),
        }
    }
}

/// the options as the formatter and the printer read them
#[derive(Debug, PartialEq)]
struct Want {
    indent_style: IndentStyle,
    indent_width: IndentWidth,
    line_ending: LineEnding,
    line_width: LineWidth,
    persistent_line_breaks: PersistentLineBreaks,
    assignment_style: AssignmentStyle,
    skip: Option<Skip>,
    table: Option<Table>,
}

fn seen(o: &RFormatOptions) -> Want {
    use biome_formatter::FormatOptions;
    let p = o.as_print_options();
    let w = Want {
        indent_style: match p.indent_style { biome_formatter::IndentStyle::Tab => IndentStyle::Tab, _ => IndentStyle::Space },
        indent_width: IndentWidth::try_from(p.indent_width.value()).unwrap(),
        line_ending: match p.line_ending { biome_formatter::LineEnding::Lf => LineEnding::Lf, _ => LineEnding::Crlf },
        line_width: LineWidth::try_from(p.print_width.value()).unwrap(),
        persistent_line_breaks: o.persistent_line_breaks(),
        assignment_style: o.assignment_style(),
        skip: o.skip().cloned(),
        table: o.table().cloned(),
    };
    assert_eq!((p.indent_style, p.indent_width, p.print_width, p.line_ending), (o.indent_style(), o.indent_width(), o.line_width(), o.line_ending()));
    w
}

fn skip_of(v: &[&str]) -> Skip {
    #[derive(serde::Deserialize)]
    struct S {
        skip: Skip,
    }
    ::toml::from_str::<S>(&format!("skip = {}", list(v))).unwrap().skip
}

const ROOT: &str = "/r/root";

fn check(conf: &Conf, source: &str) -> Result<(), String> {
    let text = conf.text();
    let opts = match parse_air_inline_toml(&text) {
        Ok(o) => o,
        Err(e) => return if conf.valid() { Err(format!("rejected: {e}")) } else { Ok(()) },
    };
    if !conf.valid() {
        return Err("an invalid file is accepted".into());
    }
    let bad = conf.exclude.as_ref().is_some_and(|v| v.iter().any(|p| p.contains('{')));
    let s = match opts.into_settings(Path::new(ROOT)) {
        Ok(s) => s,
        Err(e) => return if bad { Ok(()) } else { Err(format!("not turned into settings: {e}")) },
    };
    if bad {
        return Err("an exclude pattern that is no glob is accepted".into());
    }
    let (got, want) = (seen(&s.format.to_format_options(source)), conf.want(source));
    if got != want {
        return Err(format!("the format options are {got:?}, expected {want:?}"));
    }
    if s.format.default_include.is_none() {
        return Err("the default include patterns are gone".into());
    }
    if s.format.default_exclude.is_some() == (conf.default_exclude == Some(false)) {
        return Err(format!("default exclude patterns present: {}", s.format.default_exclude.is_some()));
    }
    if s.format.exclude.is_some() != conf.exclude.is_some() {
        return Err(format!("exclude patterns present: {}", s.format.exclude.is_some()));
    }
    if let (Some(e), Some(v)) = (&s.format.exclude, &conf.exclude) {
        // resolved relative to the root; a name matches at any depth
        for (p, is) in [("/r/root/x.R", v.contains(&"/x.R") || v.contains(&"x.R")), ("/r/root/d/x.R", v.contains(&"x.R") || v.contains(&"d/")), ("/r/root/d", false), ("/r/root/e/d/y.R", v.contains(&"d/")), ("/r/root/z.R", false)] {
            if e.matched_path_or_any_parents(p, false).is_some() != is {
                return Err(format!("{p} excluded: {}", !is));
            }
        }
    }
    Ok(())
}

const LW: &[Option<i64>] = &[None, Some(1), Some(80), Some(320), Some(0), Some(321), Some(-1), Some(65536), Some(65537 + 79)];
const IW: &[Option<i64>] = &[None, Some(1), Some(2), Some(24), Some(0), Some(25), Some(-1), Some(256), Some(258)];
const IS: &[Option<&str>] = &[None, Some("tab"), Some("space"), Some("Tab"), Some("")];
const EN: &[Option<&str>] = &[None, Some("auto"), Some("lf"), Some("crlf"), Some("native"), Some("cr")];
const BO: &[Option<bool>] = &[None, Some(true), Some(false)];
const AS: &[Option<&str>] = &[None, Some("arrow"), Some("equal"), Some("preserve"), Some("Arrow")];
const EX: &[Option<&[&str]>] = &[None, Some(&[]), Some(&["x.R"]), Some(&["/x.R"]), Some(&["d/", "x.R"]), Some(&["d/"]), Some(&["{"])];
const SK: &[Option<&[&str]>] = &[None, Some(&[]), Some(&["f"]), Some(&["b", "a", "B", "a"])];
const TA: &[Option<&[&str]>] = &[None, Some(&[]), Some(&["f"]), Some(&["tribble"]), Some(&["z", "a", "fcase"])];
const EXTRA: &[&str] = &["nope = 1", "line_width = 80", "[other]\nx = 1", "default-include = true", "Exclude = []", "include = []"];
const SRC: &[&str] = &["", "a\n", "a\r\n", "a\nb\r\n", "a\r\nb\n", "\r", "\n\r\n", "\r\n"];

pub fn w05(c: &mut Ctx) {
    c.stage("no file contents, and every single key");
    for src in SRC {
        let mut all = vec![Conf { empty: true, ..Default::default() }, Conf::default()];
        all.extend(LW.iter().map(|v| Conf { line_width: *v, ..Default::default() }));
        all.extend(IW.iter().map(|v| Conf { indent_width: *v, ..Default::default() }));
        all.extend(IS.iter().map(|v| Conf { indent_style: *v, ..Default::default() }));
        all.extend(EN.iter().map(|v| Conf { line_ending: *v, ..Default::default() }));
        all.extend(BO.iter().map(|v| Conf { plb: *v, ..Default::default() }));
        all.extend(BO.iter().map(|v| Conf { default_exclude: *v, ..Default::default() }));
        all.extend(AS.iter().map(|v| Conf { assignment: *v, ..Default::default() }));
        all.extend(EX.iter().map(|v| Conf { exclude: v.map(|x| x.to_vec()), ..Default::default() }));
        all.extend(SK.iter().map(|v| Conf { skip: v.map(|x| x.to_vec()), ..Default::default() }));
        for t in TA {
            all.extend(BO.iter().map(|v| Conf { table: t.map(|x| x.to_vec()), default_table: *v, ..Default::default() }));
        }
        all.extend(EXTRA.iter().map(|v| Conf { extra: Some(v), ..Default::default() }));
        for x in all {
            c.case(|| format!("{:?} with source {src:?}", x.text()), || check(&x, src));
        }
    }
    c.stage("the settings without a file");
    c.case(
        || "Settings::default()".into(),
        || {
            let s = workspace::settings::Settings::default();
            for src in SRC {
                let want = Conf { empty: true, ..Default::default() }.want(src);
                let got = seen(&s.format.to_format_options(src));
                if got != want {
                    return Err(format!("{got:?}, expected {want:?}"));
                }
            }
            if s.format.exclude.is_some() || s.format.default_exclude.is_none() || s.format.default_include.is_none() {
                return Err("the default patterns are not in place".into());
            }
            Ok(())
        },
    );
    c.stage("random files");
    while c.time_left(1.0) {
        // mostly valid
        let k = |c: &mut Ctx, ok: usize, all: usize| if c.rng.chance(1, 40) { c.rng.below(all) } else { c.rng.below(ok) };
        let conf = Conf {
            line_width: if c.rng.chance(1, 3) { Some(c.rng.range(1, 320) as i64) } else { LW[k(c, 4, LW.len())] },
            indent_width: if c.rng.chance(1, 3) { Some(c.rng.range(1, 24) as i64) } else { IW[k(c, 4, IW.len())] },
            indent_style: IS[k(c, 3, IS.len())],
            line_ending: EN[k(c, 5, EN.len())],
            plb: BO[c.rng.below(3)],
            assignment: AS[k(c, 4, AS.len())],
            exclude: EX[k(c, 6, EX.len())].map(|x| x.to_vec()),
            default_exclude: BO[c.rng.below(3)],
            skip: SK[c.rng.below(SK.len())].map(|x| x.to_vec()),
            table: TA[c.rng.below(TA.len())].map(|x| x.to_vec()),
            default_table: BO[c.rng.below(3)],
            extra: if c.rng.chance(1, 60) { Some(*c.rng.pick(EXTRA)) } else { None },
            empty: false,
        };
        let src = *c.rng.pick(SRC);
        c.case(|| format!("{:?} with source {src:?}", conf.text()), || check(&conf, src));
    }
}

// ---------------------------------------------------------------- finding the file

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let d = std::env::temp_dir().join(format!("vx-{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d.canonicalize().unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn w06(c: &mut Ctx) {
    c.stage("every arrangement of air.toml and .air.toml along a chain of 3 directories");
    let s = Scratch::new("w06");
    // 0 absent, 1 file, 2 directory
    for n in 0..3u32.pow(6) {
        let mut q = n;
        let kinds: Vec<u32> = (0..6).map(|_| { let x = q % 3; q /= 3; x }).collect();
        if c.deep || kinds.iter().filter(|k| **k == 2).count() <= 2 {
            let base = s.0.join("t");
            let _ = std::fs::remove_dir_all(&base);
            let dirs = [base.clone(), base.join("b"), base.join("b/c")];
            std::fs::create_dir_all(&dirs[2]).unwrap();
            for (i, k) in kinds.iter().enumerate() {
                let p = dirs[i / 2].join(["air.toml", ".air.toml"][i % 2]);
                match k {
                    1 => std::fs::write(p, "").unwrap(),
                    2 => std::fs::create_dir(p).unwrap(),
                    _ => (),
                }
            }
            let here = |i: usize| (0..2).find(|j| kinds[2 * i + j] == 1).map(|j| dirs[i].join(["air.toml", ".air.toml"][j]));
            for i in 0..3 {
                c.case(|| format!("{kinds:?} in {:?}", dirs[i]), || {
                    let got = find_air_toml_in_directory(&dirs[i]);
                    if got != here(i) { Err(format!("find_air_toml_in_directory gives {got:?}, expected {:?}", here(i))) } else { Ok(()) }
                });
                for tail in ["", "x.R", "no/such/dir"] {
                    let from = if tail.is_empty() { dirs[i].clone() } else { dirs[i].join(tail) };
                    let want = (0..=i).rev().find_map(here);
                    c.case(|| format!("{kinds:?} from {from:?}"), || {
                        let got = find_air_toml(&from);
                        if got != want { Err(format!("find_air_toml gives {got:?}, expected {want:?}")) } else { Ok(()) }
                    });
                }
            }
        }
    }
    c.stage("names of configuration files");
    for dir in ["", "a/", "/a/b/", "./", "../", "air.toml/", "a.toml/"] {
        for n in ["air.toml", ".air.toml", "xair.toml", "x.air.toml", "Air.toml", "air.tom", "air.toml.bak", "..air.toml", "air_toml", "air.toml ", "a", "AIR.TOML", "-air.toml", ".AIR.toml"] {
            let p = format!("{dir}{n}");
            let want = n == "air.toml" || n == ".air.toml";
            c.case(|| format!("{p:?}"), || if is_air_toml(&p) != want { Err(format!("is_air_toml gives {}", !want)) } else { Ok(()) });
        }
    }
    c.stage("reading a configuration file");
    for (bytes, ok) in [(&b""[..], true), (b"[format]\nline-width = 100\n", true), (b"[format", false), (b"[format]\nline-width = 0\n", false), (b"\xff\xfe", false), (b"x = 1\n", false)] {
        let p = s.0.join("air.toml");
        std::fs::write(&p, bytes).unwrap();
        c.case(|| format!("{:?}", String::from_utf8_lossy(bytes)), || {
            let r = parse_air_toml(&p);
            if r.is_ok() != ok { return Err(format!("parse_air_toml: {r:?}")); }
            if let Err(e) = r {
                if !e.to_string().contains(&p.display().to_string()) {
                    return Err(format!("the error does not name the file: {e}"));
                }
            }
            Ok(())
        });
    }
    c.case(|| "a missing file".into(), || if parse_air_toml(s.0.join("none.toml")).is_ok() { Err("parse_air_toml accepts it".into()) } else { Ok(()) });
}
