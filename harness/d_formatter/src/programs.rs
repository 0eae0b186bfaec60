//! Random R programs. What is written (`r`) and how it is laid out (`l`) come from two
//! sources, so one program can be laid out in two ways.
use hx::Rng;

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub l: &'a mut Rng,
    /// line ends where they can be put freely: one in so many (0: never)
    pub breaks: usize,
    /// comments in place of such line ends: one in so many (0: never)
    pub comments: usize,
    /// empty lines at such places: one in so many (0: never)
    pub empty: usize,
    /// line ends that decide whether a body gets braces: from `r`, one in so many
    pub body_breaks: usize,
    /// empty lines between expressions
    pub blanks: bool,
    pub strings: bool,
    pub out: String,
    inside: usize,
    n: usize,
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, l: &'a mut Rng) -> Self {
        Gen { r, l, breaks: 4, comments: 0, empty: 0, body_breaks: 5, blanks: true, strings: true, out: String::new(), inside: 0, n: 0 }
    }
    pub fn p_end(&mut self) -> String { std::mem::take(&mut self.out) }
    fn p(&mut self, s: &str) { self.out.push_str(s); }
    fn comment(&mut self) {
        self.n += 1;
        let t = format!("{} c{}", self.r.pick(&["#", "##", "#'", "#"]), self.n);
        self.p(&t);
    }
    fn sp(&mut self) { let s = *self.l.pick(&[" ", " ", " ", "", "  "]); self.p(s); }
    /// a space that must be there
    fn gap(&mut self) { let s = *self.l.pick(&[" ", " ", "  "]); self.p(s); }
    fn eol(&mut self) {
        if self.comments > 0 && self.l.chance(1, self.comments) { self.p(" "); self.comment(); }
        self.p("\n");
        if self.empty > 0 && self.l.chance(1, self.empty) { let n = self.l.range(1, 3); for _ in 0..n { self.p("\n"); } }
        if self.comments > 0 && self.l.chance(1, self.comments) { self.p("  "); self.comment(); self.p("\n"); }
        let s = *self.l.pick(&["", "  ", "    "]);
        self.p(s);
    }
    /// a place where lines can end whatever is around
    fn nl(&mut self) { if self.breaks > 0 && self.l.chance(1, self.breaks) { self.eol() } else { self.sp() } }
    /// a place where lines can end only in parentheses and brackets
    fn free(&mut self) { if self.inside > 0 && self.breaks > 0 && self.l.chance(1, self.breaks * 2) { self.eol() } else { self.sp() } }
    /// in front of the body of an `if`, `else` or function
    fn body_gap(&mut self) { if self.body_breaks > 0 && self.r.chance(1, self.body_breaks) { self.eol() } else { self.gap() } }

    pub fn program(&mut self, n: usize, depth: usize) { self.list(n, depth); }
    fn list(&mut self, n: usize, depth: usize) {
        if self.comments > 0 && self.r.chance(1, self.comments) { self.comment(); self.p("\n"); }
        for i in 0..n {
            if i > 0 {
                if self.comments > 0 && self.r.chance(1, self.comments) { self.p(" "); self.comment(); }
                let k = if self.blanks { *self.r.pick(&[1, 1, 1, 2, 3, 4]) } else { 1 };
                for _ in 0..k { self.p("\n"); }
                if self.comments > 0 && self.r.chance(1, self.comments) { self.comment(); let k = self.r.pick(&[1, 1, 1, 2, 3]).clone(); for _ in 0..k { self.p("\n"); } }
            }
            self.expr(depth, true);
        }
        if self.comments > 0 && self.r.chance(1, self.comments) { self.p("\n"); self.comment(); }
    }
    pub fn name(&mut self) { let s = *self.r.pick(&["x", "y", "z", "foo", "data", "a_rather_long_name", "été", "`a b`", ".v"]); self.p(s); }
    pub fn atom(&mut self) {
        let s = *self.r.pick(&["x", "y", "foo", "1", "2L", "3.25", "1e6", "TRUE", "FALSE", "NULL", "NA", "Inf", "NaN", "NA_real_", "..1", "...", "`a b`", "1i", "0x1F"]);
        if self.strings && self.r.chance(1, 6) { let s = *self.r.pick(&["\"s\"", "'t'", "\"it's\"", "r\"(raw)\"", "\"a # b\"", "\"été\"", "\"\""]); self.p(s); } else { self.p(s); }
    }
    fn braces(&mut self, depth: usize) {
        let n = *self.r.pick(&[0, 1, 1, 2, 3]);
        let was = std::mem::replace(&mut self.inside, 0);
        self.p("{");
        if n == 0 && !(self.comments > 0 && self.r.chance(1, 3)) { self.sp(); self.p("}"); self.inside = was; return; }
        if self.comments > 0 && self.r.chance(1, self.comments) { self.p(" "); self.comment(); self.p("\n"); } else if self.r.chance(3, 4) || n == 0 { self.p("\n"); } else { self.p(" "); }
        if n == 0 { self.comment(); self.p("\n}"); self.inside = was; return; }
        self.list(n, depth);
        if self.out.rsplit('\n').next().is_some_and(|l| l.contains('#')) || self.r.chance(2, 3) { self.p("\n") } else { self.p(" ") }
        self.p("}");
        self.inside = was;
    }
    fn body(&mut self, depth: usize) { if self.r.chance(1, 2) { self.braces(depth) } else { self.expr(depth, false) } }
    pub fn args(&mut self, depth: usize, open: &str, close: &str) {
        self.p(open);
        self.inside += 1;
        let n = *self.r.pick(&[0, 1, 1, 2, 2, 3, 4]);
        let mut named = false;
        for i in 0..n {
            self.nl();
            let last = i + 1 == n;
            if self.r.chance(1, 12) && n > 1 { if !last { self.p(",") } else if self.out.ends_with(' ') || true { } continue; }
            match self.r.below(6) {
                0 | 1 => { named = true; self.name(); self.sp(); self.p("="); self.sp(); self.expr(depth, false); }
                2 if last => { self.p("function("); self.p(*["", "x", "x, y = 2"].get(i % 3).unwrap()); self.p(")"); self.body_gap(); self.body(depth); }
                3 if last => self.braces(depth),
                4 if self.r.chance(1, 3) => { self.p("{{ x }}"); }
                _ => self.expr(depth, false),
            }
            let _ = named;
            if !last { self.free(); self.p(","); }
        }
        if n > 0 { self.free(); }
        self.inside -= 1;
        self.p(close);
    }
    /// `whole`: an expression of a list, where an assignment can be
    pub fn expr(&mut self, depth: usize, whole: bool) {
        if depth == 0 || self.r.chance(1, 7) { return self.atom(); }
        let d = depth - 1;
        match self.r.below(if whole { 22 } else { 17 }) {
            0 | 1 => { self.prim(); self.free(); let o = *self.r.pick(&["+", "-", "*", "/", "&", "&&", "|", "||", "|>", "%>%", "%in%"]); self.p(o); self.nl(); self.expr(d, false); }
            2 => { self.prim(); self.sp(); let o = *self.r.pick(&["<", ">", "<=", ">=", "==", "!="]); self.p(o); self.nl(); self.prim(); }
            3 => { self.prim(); self.sp(); let o = *self.r.pick(&["^", ":", "**"]); self.p(o); self.sp(); self.prim(); }
            4 | 5 | 6 => { let n = *self.r.pick(&["f", "map", "list", "pkg::fun", "test_that", "x$m", "obj@slot", "f()"]); self.p(n); self.args(d, "(", ")"); }
            7 => { self.name(); let (o, c) = *self.r.pick(&[("[", "]"), ("[[", "]]")]); self.args(d, o, c); }
            8 => {
                self.p("(");
                self.inside += 1;
                self.nl();
                if self.r.chance(1, 2) { self.assignment(d) } else { self.expr(d, false) }
                self.free();
                self.inside -= 1;
                self.p(")");
            }
            9 | 10 => {
                self.p("if (");
                self.inside += 1;
                self.nl();
                self.expr(d, false);
                self.inside -= 1;
                self.p(")");
                self.body_gap();
                self.body(d);
                if self.r.chance(1, 2) {
                    self.gap();
                    self.p("else");
                    self.body_gap();
                    self.body(d);
                }
            }
            11 | 12 => {
                let n = *self.r.pick(&["function(", "\\("]);
                self.p(n);
                self.inside += 1;
                let k = self.r.below(4);
                for i in 0..k {
                    self.nl();
                    let s = ["x", "y", "...", "zz"][i];
                    self.p(s);
                    if s != "..." && self.r.chance(1, 2) { self.sp(); self.p("="); self.sp(); self.expr(d.min(1), false); }
                    if i + 1 < k { self.free(); self.p(","); }
                }
                if k > 0 { self.free(); }
                self.inside -= 1;
                self.p(")");
                self.body_gap();
                self.body(d);
            }
            13 => { let o = *self.r.pick(&["-", "!", "~", "+", "?"]); self.p(o); self.sp(); self.prim(); }
            14 => { self.prim(); self.sp(); self.p("~"); self.nl(); self.expr(d, false); }
            15 => { self.prim(); let o = *self.r.pick(&["|>", "+", "%>%"]); for _ in 0..self.r.range(2, 4) { self.free(); self.p(o); self.nl(); self.p("g"); self.args(d.min(1), "(", ")"); } }
            16 => self.prim(),
            17 => { self.p("for (i in "); self.prim(); self.p(")"); self.body_gap(); self.body(d); }
            18 => { self.p("while ("); self.prim(); self.p(")"); self.body_gap(); self.body(d); }
            19 if self.r.chance(1, 3) => { self.p("repeat"); self.body_gap(); self.body(d); }
            _ => self.assignment(d),
        }
    }
    fn prim(&mut self) {
        match self.r.below(6) {
            0 => { self.p("g"); self.args(0, "(", ")"); }
            1 => { let s = *self.r.pick(&["x$y", "x@y", "a::b", "a:::b", "x[1]", "x[[\"k\"]]"]); self.p(s); }
            _ => self.atom(),
        }
    }
    pub fn assignment(&mut self, d: usize) {
        self.name();
        self.sp();
        let o = *self.r.pick(&["<-", "<-", "<-", "=", "=", "<<-", ":=", "->", "->>"]);
        self.p(" ");
        self.p(o);
        self.p(" ");
        self.nl();
        if o.starts_with('-') { self.name() } else if self.r.chance(1, 5) && o == "<-" { self.name(); self.p(" <- "); self.nl(); self.expr(d, false) } else { self.expr(d, false) }
    }
}
