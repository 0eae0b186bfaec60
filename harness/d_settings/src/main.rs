//! Replay driver for S01, S02, S03: the compiled settings crate against plain oracles.
use hx::Ctx;
use settings::*;
use std::num::{NonZeroU8, NonZeroU16};
use std::str::FromStr;

#[derive(serde::Deserialize)]
#[serde(deny_unknown_fields, rename_all = "kebab-case")]
struct O {
    indent_width: Option<IndentWidth>,
    line_width: Option<LineWidth>,
    skip: Option<Skip>,
    table: Option<Table>,
    indent_style: Option<IndentStyle>,
    assignment_style: Option<AssignmentStyle>,
}

macro_rules! ck {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

fn int_text(v: i128) -> String {
    v.to_string()
}

fn s01(c: &mut Ctx) {
    c.stage("defaults");
    c.case(|| "defaults".into(), || {
        ck!(IndentWidth::default().value() == 2, "default indent width {}", IndentWidth::default().value());
        ck!(LineWidth::default().value() == 80, "default line width {}", LineWidth::default().value());
        Ok(())
    });
    c.stage("indent width: every u8");
    for v in 0..=u8::MAX {
        c.case(|| format!("indent width {v}u8"), || {
            let ok = (1..=24).contains(&v);
            let r = IndentWidth::try_from(v);
            ck!(r.is_ok() == ok, "try_from(u8) gives {r:?}");
            if let Ok(w) = r {
                ck!(w.value() == v && u8::from(w) == v && NonZeroU8::from(w).get() == v, "value {} of {v}", w.value());
                ck!(w.to_string() == v.to_string() && format!("{w:?}") == v.to_string(), "shown as {w} / {w:?}");
                ck!(w == IndentWidth::try_from(v).unwrap(), "not equal to itself");
            } else {
                let m = r.unwrap_err().to_string();
                ck!(m.contains("between 1 and 24") && m.contains(&format!("not {v}.")), "message {m:?}");
            }
            if let Some(n) = NonZeroU8::new(v) {
                let r = IndentWidth::try_from(n);
                ck!(r.is_ok() == ok, "try_from(NonZeroU8) gives {r:?}");
                if let Ok(w) = r {
                    ck!(w.value() == v, "value {} of {v}", w.value());
                }
            }
            Ok(())
        });
    }
    c.stage("line width: every u16");
    for v in 0..=u16::MAX {
        c.case(|| format!("line width {v}u16"), || {
            let ok = (1..=320).contains(&v);
            let r = LineWidth::try_from(v);
            ck!(r.is_ok() == ok, "try_from(u16) gives {r:?}");
            if let Ok(w) = r {
                ck!(w.value() == v && u16::from(w) == v && NonZeroU16::from(w).get() == v, "value {} of {v}", w.value());
                ck!(w.to_string() == v.to_string() && format!("{w:?}") == v.to_string(), "shown as {w} / {w:?}");
            } else {
                let m = r.unwrap_err().to_string();
                ck!(m.contains("between 1 and 320") && m.contains(&format!("not {v}.")), "message {m:?}");
            }
            if let Some(n) = NonZeroU16::new(v) {
                let r = LineWidth::try_from(n);
                ck!(r.is_ok() == ok, "try_from(NonZeroU16) gives {r:?}");
                if let Ok(w) = r {
                    ck!(w.value() == v, "value {} of {v}", w.value());
                }
            }
            Ok(())
        });
    }
    c.stage("indent width from usize and both from toml");
    let mut vals: Vec<i128> = (-20..700).collect();
    for k in [8u32, 16, 31, 32, 33, 63] {
        for d in -30..360i128 {
            vals.push((1i128 << k) + d);
        }
    }
    for _ in 0..2000 {
        vals.push((c.rng.next() >> c.rng.below(60)) as i128);
    }
    for v in vals {
        c.case(|| format!("value {v}"), || {
            if let Ok(u) = usize::try_from(v) {
                let r = IndentWidth::try_from(u);
                ck!(r.is_ok() == (1..=24).contains(&v), "try_from({u}usize) gives {r:?}");
                match r {
                    Ok(w) => ck!(w.value() as i128 == v, "value {}", w.value()),
                    Err(e) => ck!(e.to_string().contains(&format!("not {v}.")), "message {e}"),
                }
            }
            if i64::try_from(v).is_ok() {
                let r = toml::from_str::<O>(&format!("indent-width = {}", int_text(v)));
                ck!(r.is_ok() == (1..=24).contains(&v), "indent-width = {v} in air.toml: accepted {}", r.is_ok());
                if let Ok(o) = r {
                    ck!(o.indent_width.unwrap().value() as i128 == v, "read as {}", o.indent_width.unwrap());
                    ck!(o.line_width.is_none(), "line width set");
                }
                let r = toml::from_str::<O>(&format!("line-width = {}", int_text(v)));
                ck!(r.is_ok() == (1..=320).contains(&v), "line-width = {v} in air.toml: accepted {}", r.is_ok());
                if let Ok(o) = r {
                    ck!(o.line_width.unwrap().value() as i128 == v, "read as {}", o.line_width.unwrap());
                }
            }
            Ok(())
        });
    }
}

fn names(c: &mut Ctx, max: usize) -> Vec<String> {
    let n = c.rng.below(max + 1);
    let w = c.rng.range(1, 12);
    (0..n)
        .map(|_| {
            let l = c.rng.below(5);
            (0..l).map(|_| *c.rng.pick(&["a", "b", "A", "Z", "_", ".", "é", "ab", "z", "\u{ffff}", "𝄞", "tribble"][..w.min(12)])).collect::<String>()
        })
        .collect()
}

fn toml_list(v: &[String]) -> String {
    let i: Vec<String> = v.iter().map(|s| format!("{s:?}").replace("\\u{ffff}", "\u{ffff}")).collect();
    format!("[{}]", i.join(", "))
}

fn s02_one(a: &[String], b: &[String], probes: &[String]) -> Result<(), String> {
    let mut w: Vec<String> = a.to_vec();
    w.sort();
    let s = SortedStrings::new(a.to_vec());
    ck!(s.as_slice() == &w[..], "SortedStrings::as_slice {:?}", s.as_slice());
    let t = Table::new(a.to_vec());
    ck!(t.as_slice() == &w[..], "Table::as_slice {:?}", t.as_slice());
    let o = toml::from_str::<O>(&format!("skip = {0}\ntable = {0}", toml_list(a))).map_err(|e| format!("toml: {e}"))?;
    let (sk, tt) = (o.skip.unwrap(), o.table.unwrap());
    ck!(tt == t, "table read from toml differs: {tt:?}");
    ck!(tt.as_slice() == &w[..], "table from toml {:?}", tt.as_slice());
    let m = t.merge(&Table::new(b.to_vec()));
    let mut wm = a.to_vec();
    wm.extend_from_slice(b);
    wm.sort();
    ck!(m.as_slice() == &wm[..], "merge gives {:?}", m.as_slice());
    for p in probes {
        let y = a.contains(p);
        ck!(s.contains(p) == y, "SortedStrings::contains({p:?}) = {}", s.contains(p));
        ck!(t.contains(p) == y, "Table::contains({p:?}) = {}", t.contains(p));
        ck!(sk.contains(p) == y, "Skip::contains({p:?}) = {}", sk.contains(p));
        ck!(m.contains(p) == (y || b.contains(p)), "merged contains({p:?}) = {}", m.contains(p));
    }
    let j = w.join(", ");
    ck!(s.to_string() == j && t.to_string() == j && sk.to_string() == j, "shown as {s}");
    Ok(())
}

fn s02(c: &mut Ctx) {
    c.stage("exhaustive lists over 4 names up to length 5");
    let a = ["a", "b", "B", "é"];
    for len in 0..=5usize {
        for k in 0..4usize.pow(len as u32) {
            let mut k2 = k;
            let l: Vec<String> = (0..len).map(|_| { let x = a[k2 % 4].to_string(); k2 /= 4; x }).collect();
            let probes: Vec<String> = a.iter().map(|s| s.to_string()).chain(["".into(), "ab".into(), "A".into(), "zz".into()]).collect();
            let b: Vec<String> = l.iter().rev().take(2).cloned().chain(["C".to_string()]).take(k % 4).collect();
            c.case(|| format!("{l:?} merged with {b:?}"), || s02_one(&l, &b, &probes));
        }
    }
    c.stage("random lists");
    while c.time_left(1.0) {
        let m = *c.rng.pick(&[3usize, 8, 20, 60, 200]);
        let l = names(c, m);
        let b = names(c, m / 2);
        let mut p = names(c, 10);
        p.extend(l.iter().take(40).cloned());
        p.extend(l.iter().rev().take(20).cloned());
        p.extend(b.iter().take(20).cloned());
        c.case(|| format!("{l:?} merged with {b:?}, probes {p:?}"), || s02_one(&l, &b, &p));
    }
}

fn words(c: &mut Ctx) -> Vec<String> {
    let base = ["arrow", "equal", "preserve", "tab", "space", "respect", "ignore", "", "lf", "auto", "always", "spaces", "tabs"];
    let mut v: Vec<String> = base.iter().map(|s| s.to_string()).collect();
    for b in base {
        v.push(b.to_uppercase());
        v.push(format!(" {b}"));
        v.push(format!("{b} "));
        v.push(format!("{b}\0"));
        v.push(b.chars().rev().collect());
        for i in 0..b.len() {
            v.push(b[..i].to_string());
            v.push(b[i..].to_string());
            let mut s = b.to_string();
            s.remove(i);
            v.push(s);
            for ch in ["x", "A", "é", "-", "_"] {
                let mut s = b.to_string();
                s.replace_range(i..i + 1, ch);
                v.push(s);
                let mut s = b.to_string();
                s.insert_str(i, ch);
                v.push(s);
            }
            let mut s = b.to_string();
            s[i..i + 1].make_ascii_uppercase();
            v.push(s);
        }
    }
    for _ in 0..2000 {
        let n = c.rng.below(9);
        v.push((0..n).map(|_| (b'a' + c.rng.below(26) as u8) as char).collect());
    }
    v
}

fn s03(c: &mut Ctx) {
    c.stage("defaults and predicates");
    c.case(|| "defaults".into(), || {
        ck!(AssignmentStyle::default() == AssignmentStyle::Arrow, "default assignment style {:?}", AssignmentStyle::default());
        ck!(IndentStyle::default() == IndentStyle::Space, "default indent style {:?}", IndentStyle::default());
        ck!(PersistentLineBreaks::default() == PersistentLineBreaks::Respect, "default {:?}", PersistentLineBreaks::default());
        ck!(settings::LineEnding::default() == settings::LineEnding::Lf, "default line ending");
        ck!(IndentStyle::Tab.is_tab() && !IndentStyle::Tab.is_space() && IndentStyle::Space.is_space() && !IndentStyle::Space.is_tab(), "is_tab/is_space");
        ck!(PersistentLineBreaks::Respect.is_respect() && !PersistentLineBreaks::Respect.is_ignore() && PersistentLineBreaks::Ignore.is_ignore() && !PersistentLineBreaks::Ignore.is_respect(), "is_respect/is_ignore");
        let d: Vec<String> = vec![AssignmentStyle::Arrow.to_string(), AssignmentStyle::Equal.to_string(), AssignmentStyle::Preserve.to_string(), IndentStyle::Tab.to_string(), IndentStyle::Space.to_string(), PersistentLineBreaks::Respect.to_string(), PersistentLineBreaks::Ignore.to_string(), settings::LineEnding::Lf.to_string(), settings::LineEnding::Crlf.to_string()];
        ck!(d == ["Arrow", "Equal", "Preserve", "Tab", "Space", "Respect", "Ignore", "LF", "CRLF"], "shown as {d:?}");
        Ok(())
    });
    c.stage("keywords, near misses and random words");
    for w in words(c) {
        c.case(|| format!("{w:?}"), || {
            let a = match w.as_str() { "arrow" => Some(AssignmentStyle::Arrow), "equal" => Some(AssignmentStyle::Equal), "preserve" => Some(AssignmentStyle::Preserve), _ => None };
            let i = match w.as_str() { "tab" => Some(IndentStyle::Tab), "space" => Some(IndentStyle::Space), _ => None };
            let p = match w.as_str() { "respect" => Some(PersistentLineBreaks::Respect), "ignore" => Some(PersistentLineBreaks::Ignore), _ => None };
            ck!(AssignmentStyle::from_str(&w).ok() == a, "assignment style {:?}", AssignmentStyle::from_str(&w));
            ck!(IndentStyle::from_str(&w).ok() == i, "indent style {:?}", IndentStyle::from_str(&w));
            ck!(PersistentLineBreaks::from_str(&w).ok() == p, "persistent line breaks {:?}", PersistentLineBreaks::from_str(&w));
            let q = format!("\"{}\"", w.replace('\0', "\\u0000"));
            ck!(toml::from_str::<O>(&format!("indent-style = {q}")).ok().map(|o| o.indent_style.unwrap()) == i, "indent-style in air.toml");
            ck!(toml::from_str::<O>(&format!("assignment-style = {q}")).ok().map(|o| o.assignment_style.unwrap()) == a, "assignment-style in air.toml");
            Ok(())
        });
    }
}

fn main() {
    hx::main(&[("S01", s01), ("S02", s02), ("S03", s03)]);
}
