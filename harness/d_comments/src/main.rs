//! Replay driver for D01, D02.
use comments::*;
use hx::Ctx;

/// the text after the leading `#`s and blanks
fn payload(s: &[char]) -> Option<&[char]> {
    let n = s.iter().take_while(|c| **c == '#').count();
    if n == 0 {
        return None;
    }
    let s = &s[n..];
    let b = s.iter().take_while(|c| c.is_whitespace()).count();
    Some(&s[b..])
}

fn d01(x: &str) -> Result<(), String> {
    let c: Vec<char> = x.chars().collect();
    let mut want = None;
    if let Some(p) = payload(&c) {
        if p.len() >= 4 && p[..4] == ['f', 'm', 't', ':'] {
            let mut q = &p[4..];
            while q.first().is_some_and(|c| c.is_whitespace()) {
                q = &q[1..];
            }
            while q.last().is_some_and(|c| c.is_whitespace()) {
                q = &q[..q.len() - 1];
            }
            let q: String = q.iter().collect();
            want = match &q[..] {
                "skip" => Some(Directive::Format(FormatDirective::Skip)),
                "skip file" => Some(Directive::Format(FormatDirective::SkipFile)),
                "table" => Some(Directive::Format(FormatDirective::Table)),
                _ => None,
            };
        }
    }
    let got = parse_comment_directive(x);
    if got != want {
        return Err(format!("parse_comment_directive gives {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn d02(x: &str) -> Result<(), String> {
    let c: Vec<char> = x.chars().collect();
    let g: Vec<char> = "Generated by".chars().collect();
    let want = payload(&c).is_some_and(|p| p.len() >= g.len() && p[..g.len()] == g[..]).then_some(Directive::Format(FormatDirective::SkipFile));
    let got = parse_special_skip_file(x);
    if got != want {
        return Err(format!("parse_special_skip_file gives {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn all(c: &mut Ctx, f: fn(&str) -> Result<(), String>, parts: &[&str]) {
    c.stage("every sequence of up to 5 fragments");
    let n = parts.len();
    for len in 0..=5usize {
        let total = n.pow(len as u32);
        // all short ones, a spread of the long ones
        let step = (total / if c.deep { 2_000_000 } else { 200_000 }).max(1);
        let mut k = 0;
        while k < total {
            let mut q = k;
            let s: String = (0..len).map(|_| { let x = parts[q % n]; q /= n; x }).collect();
            c.case(|| format!("{s:?}"), || f(&s));
            k += if step == 1 { 1 } else { c.rng.range(1, 2 * step) };
        }
    }
    c.stage("one edit away from a directive");
    let seeds = ["# fmt: skip", "#fmt:skip file", "## fmt: table ", "#' fmt: skip", "# Generated by roxygen2: do not edit by hand", "#Generated by", "fmt: skip", "# fmt: skip: file", "#fmt::skip"];
    let chars = [' ', '\t', '\u{a0}', '\u{3000}', '#', ':', 'x', 'F', '\u{200b}', '\n', '\r', 'é', '\'', '-', '\u{85}', '\u{b}', '\u{1c}', '\u{feff}', '\u{2028}', '\u{1680}', '\u{180e}'];
    for s in seeds {
        let v: Vec<char> = s.chars().collect();
        for i in 0..=v.len() {
            for ch in chars {
                for two in ["", " ", "\u{a0}", "#", "e"] {
                    let mut w = v.clone();
                    w.insert(i, ch);
                    let t: String = w.iter().collect::<String>() + two;
                    c.case(|| format!("{t:?}"), || f(&t));
                    let t: String = format!("{two}{}", w.iter().collect::<String>());
                    c.case(|| format!("{t:?}"), || f(&t));
                    if i < v.len() {
                        let mut w = v.clone();
                        w[i] = ch;
                        let t: String = w.iter().collect::<String>() + two;
                        c.case(|| format!("{t:?}"), || f(&t));
                    }
                }
            }
            if i < v.len() {
                let mut w = v.clone();
                w.remove(i);
                let t: String = w.iter().collect();
                c.case(|| format!("{t:?}"), || f(&t));
                let mut w = v.clone();
                w[i] = if w[i].is_ascii_uppercase() { w[i].to_ascii_lowercase() } else { w[i].to_ascii_uppercase() };
                let t: String = w.iter().collect();
                c.case(|| format!("{t:?}"), || f(&t));
            }
        }
    }
    c.stage("random sequences of fragments");
    while c.time_left(1.0) {
        let len = c.rng.below(14);
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(*c.rng.pick(parts));
        }
        if c.rng.chance(1, 3) {
            s.insert_str(0, *c.rng.pick(&["#", "# ", "##", "#\t", "#\u{a0}"]));
        }
        c.case(|| format!("{s:?}"), || f(&s));
    }
}

fn main() {
    hx::main(&[
        ("D01", |c| all(c, d01, &["#", " ", "fmt", ":", "skip", "file", "table", "skip file", "fmt: skip", "fmt:", "\t", "\u{a0}", "x", "é", "\n", "'", "fmt: table", "skip "])),
        ("D02", |c| all(c, d02, &["#", " ", "Generated by", "Generated", "by", ":", "\t", "\u{a0}", "x", "generated by", "é", "\n", "'", " by", "Generated by ", "G"])),
    ]);
}
