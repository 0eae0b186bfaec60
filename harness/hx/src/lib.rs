//! Support for the replay drivers: deterministic numbered cases, panic capture,
//! a watchdog for code that stops terminating, and a uniform report.
//!
//! usage: <driver> <PROPERTY> [--seconds N] [--seed N] [--deep] [--only N]
//! output lines:  `COVER {json}`   `CEX {json}`    exit status 0 / 1
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

static CASE: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub deep: bool,
    pub rng: Rng,
    seconds: f64,
    only: Option<u64>,
    start: Instant,
    stage: String,
    stages: BTreeMap<String, u64>,
    notes: Vec<String>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    /// Name the group of cases that follows.
    pub fn stage(&mut self, name: &str) {
        self.stage = name.to_string();
        self.stages.entry(name.to_string()).or_insert(0);
    }

    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }

    /// True while the time budget lasts; random stages loop on this.
    pub fn time_left(&self, share: f64) -> bool {
        if self.only.is_some() {
            // replaying one case: go on until it has been reached
            return CASE.load(Ordering::Relaxed) < self.only.unwrap();
        }
        self.start.elapsed().as_secs_f64() < self.seconds * share
    }

    /// Run one case. `input` is only rendered when the case fails.
    pub fn case(&mut self, input: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        let n = CASE.fetch_add(1, Ordering::Relaxed) + 1;
        if let Some(o) = self.only {
            if n != o {
                return;
            }
            println!("INPUT {}", esc(&input()));
        }
        *self.stages.get_mut(&self.stage).expect("stage") += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => {
                if self.only.is_some() {
                    println!("case {n}: holds");
                    self.finish();
                }
                return;
            }
            Ok(Err(m)) => m,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".to_string());
                format!("the code panicked: {m}")
            }
        };
        println!(
            "CEX {{\"property\":{},\"stage\":{},\"case\":{},\"seed\":{},\"deep\":{},\"input\":{},\"what\":{}}}",
            esc(&self.id),
            esc(&self.stage),
            n,
            self.seed,
            self.deep,
            esc(&input()),
            esc(&msg)
        );
        std::process::exit(1);
    }

    /// One history recorded as a known finding: its failure is reported under its key,
    /// and it is for the caller of the driver to know whether that key is listed.
    pub fn finding(&mut self, key: &str, input: &str, f: impl FnOnce() -> Result<(), String>) {
        let n = CASE.fetch_add(1, Ordering::Relaxed) + 1;
        *self.stages.entry("known findings".to_string()).or_insert(0) += 1;
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err("the code panicked".to_string()));
        if let Err(m) = r {
            println!("KNOWN {{\"key\":{},\"case\":{n},\"seed\":{},\"deep\":{},\"input\":{},\"what\":{}}}", esc(key), self.seed, self.deep, esc(input), esc(&m));
        }
    }

    fn finish(&self) -> ! {
        DONE.store(true, Ordering::Relaxed);
        let total: u64 = self.stages.values().sum();
        let st: Vec<String> = self.stages.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let no: Vec<String> = self.notes.iter().map(|s| esc(s)).collect();
        println!(
            "COVER {{\"property\":{},\"cases\":{},\"stages\":{{{}}},\"notes\":[{}],\"seconds\":{:.2},\"seed\":{},\"deep\":{}}}",
            esc(&self.id),
            total,
            st.join(","),
            no.join(","),
            self.start.elapsed().as_secs_f64(),
            self.seed,
            self.deep
        );
        std::process::exit(0);
    }
}

pub fn main(table: &[(&str, fn(&mut Ctx))]) {
    let mut args = std::env::args().skip(1);
    let id = args.next().expect("property id");
    let (mut seconds, mut seed, mut deep, mut only) = (5.0, 1, false, None);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--seconds" => seconds = args.next().unwrap().parse().unwrap(),
            "--seed" => seed = args.next().unwrap().parse().unwrap(),
            "--deep" => deep = true,
            "--only" => only = Some(args.next().unwrap().parse().unwrap()),
            _ => panic!("unknown argument {a}"),
        }
    }
    let Some(f) = table.iter().find(|(n, _)| *n == id).map(|(_, f)| *f) else {
        eprintln!("no driver for {id}");
        std::process::exit(3);
    };
    if std::env::var("HX_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    // watchdog: a single case may not take longer than 30 s
    let wid = id.clone();
    std::thread::spawn(move || {
        let mut last = (CASE.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(250));
            if DONE.load(Ordering::Relaxed) {
                return;
            }
            let n = CASE.load(Ordering::Relaxed);
            if n != last.0 {
                last = (n, Instant::now());
            } else if n > 0 && last.1.elapsed() > Duration::from_secs(30) {
                println!(
                    "CEX {{\"property\":{},\"stage\":\"watchdog\",\"case\":{n},\"seed\":{seed},\"deep\":{deep},\"input\":\"(see --only {n})\",\"what\":\"no answer after 30 s\"}}",
                    esc(&wid)
                );
                std::process::exit(1);
            }
        }
    });
    let mut c = Ctx {
        id,
        seed,
        deep,
        rng: Rng::new(seed),
        seconds,
        only,
        start: Instant::now(),
        stage: String::new(),
        stages: BTreeMap::new(),
        notes: vec![],
    };
    // a deep stack: some recursions under test follow the input
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            f(&mut c);
            c.finish()
        })
        .unwrap()
        .join();
    match r {
        Ok(()) => {}
        Err(_) => {
            eprintln!("the driver itself panicked");
            std::process::exit(4);
        }
    }
}
