//! Replay driver for L01, L02: the compiled crates against straightforward oracles.
use hx::Ctx;
use std::borrow::Cow;

#[path = "/repo/crates/workspace/src/settings/line_ending.rs"]
#[allow(dead_code)]
mod ws;

fn strip(x: &str) -> String {
    let c: Vec<char> = x.chars().collect();
    let mut o = String::new();
    for i in 0..c.len() {
        if c[i] == '\r' && i + 1 < c.len() && c[i + 1] == '\n' {
            continue;
        }
        o.push(c[i]);
    }
    o
}

fn has(x: &str) -> bool {
    let c: Vec<char> = x.chars().collect();
    c.windows(2).any(|w| w == ['\r', '\n'])
}

fn first_crlf(x: &str) -> bool {
    let mut prev = ' ';
    for c in x.chars() {
        if c == '\n' {
            return prev == '\r';
        }
        prev = c;
    }
    false
}

fn l01(x: &str) -> Result<(), String> {
    use settings::LineEnding::*;
    let want = strip(x);
    let got = line_ending::normalize(x.to_string());
    if got.as_bytes() != want.as_bytes() {
        return Err(format!("normalize gives {got:?}, expected {want:?}"));
    }
    let inf = line_ending::infer(x);
    if (inf == Crlf) != has(x) || (inf == Lf) == has(x) {
        return Err(format!("infer gives {inf:?}"));
    }
    match line_ending::normalize_ref(x) {
        Cow::Borrowed(b) => {
            if has(x) || b != x {
                return Err(format!("normalize_ref borrows {b:?}"));
            }
        }
        Cow::Owned(o) => {
            if !has(x) || o != want {
                return Err(format!("normalize_ref gives owned {o:?}, expected {want:?}"));
            }
        }
    }
    Ok(())
}

fn l02(x: &str) -> Result<(), String> {
    use settings::LineEnding::*;
    let native = if cfg!(windows) { Crlf } else { Lf };
    let auto = if first_crlf(x) { Crlf } else { Lf };
    for (s, w) in [(ws::LineEnding::Lf, Lf), (ws::LineEnding::Crlf, Crlf), (ws::LineEnding::Native, native), (ws::LineEnding::Auto, auto), (ws::LineEnding::default(), auto)] {
        let g = s.finalize(x);
        if g != w {
            return Err(format!("setting {s:?} resolves to {g:?}, expected {w:?}"));
        }
    }
    Ok(())
}

fn all(c: &mut Ctx, f: fn(&str) -> Result<(), String>) {
    const A: [char; 5] = ['\r', '\n', 'a', 'é', '𝄞'];
    c.stage("exhaustive over 5 characters up to length 7");
    let max = if c.deep { 9 } else { 7 };
    for len in 0..=max {
        let n = 5usize.pow(len as u32);
        for k in 0..n {
            let mut k = k;
            let mut s = String::new();
            for _ in 0..len {
                s.push(A[k % 5]);
                k /= 5;
            }
            c.case(|| format!("{s:?}"), || f(&s));
        }
    }
    c.stage("long texts");
    // sizes around vector widths, page and block boundaries
    for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537] {
        for unit in ["\r\n", "\n", "\r", "a", "ab\r\n", "\r\r\n", "é\r\n"] {
            for pre in ["", "a", "\r", "\r\n"] {
                for post in ["", "\r\n", "\r", "\n"] {
                    let mut s = String::from(pre);
                    while s.len() < n {
                        s.push_str(unit);
                    }
                    s.push_str(post);
                    c.case(|| format!("{pre:?} + {unit:?} repeated to {n} bytes + {post:?}"), || f(&s));
                }
            }
        }
    }
    c.stage("random texts");
    while c.time_left(1.0) {
        let n = match c.rng.below(4) {
            0 => c.rng.below(20),
            1 => c.rng.below(200),
            2 => c.rng.below(2000),
            _ => c.rng.below(12),
        };
        let w = c.rng.range(1, 12);
        let s: String = (0..n)
            .map(|_| match c.rng.below(w + 4) {
                0 => "\r\n",
                1 => "\n",
                2 => "\r",
                3 => *c.rng.pick(&["é", "𝄞", "\u{85}", "\u{2028}", "\0", "\t", "\u{10d}", "\u{10a}", "\u{a0d}", "\u{d0a}"]),
                _ => *c.rng.pick(&["a", "b", " ", "x <- 1", "#"]),
            })
            .collect();
        c.case(|| format!("{s:?}"), || f(&s));
    }
}

fn main() {
    hx::main(&[("L01", |c| all(c, l01)), ("L02", |c| all(c, l02))]);
}
