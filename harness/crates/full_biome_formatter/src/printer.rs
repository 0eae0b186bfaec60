use super::*;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PrinterOptions { pub indent_style: IndentStyle, pub indent_width: IndentWidth, pub print_width: LineWidth, pub line_ending: LineEnding }
impl<O: FormatOptions> From<&O> for PrinterOptions {
    fn from(o: &O) -> Self { PrinterOptions { indent_style: o.indent_style(), indent_width: o.indent_width(), print_width: o.line_width(), line_ending: o.line_ending() } }
}
#[derive(Debug, Clone)]
pub struct Printed { code: String }
impl Printed { pub fn as_code(&self) -> &str { &self.code } pub fn into_code(self) -> String { self.code } }

enum Doc { Text(Rc<str>), Space, Line(LineMode), Indent(Rc<[Doc]>), Group(bool, Rc<[Doc]>), If(PrintMode, Rc<[Doc]>), Suffix(Rc<[Doc]>), Best(Vec<Rc<[Doc]>>) }
fn tree(elements: &[FormatElement]) -> Rc<[Doc]> {
    let mut flat = vec![];
    fn flatten<'a>(es: &'a [FormatElement], out: &mut Vec<&'a FormatElement>) { for e in es { if let FormatElement::Interned(i) = e { flatten(i, out) } else { out.push(e) } } }
    flatten(elements, &mut flat);
    let mut stack: Vec<(Option<&Tag>, Vec<Doc>)> = vec![(None, vec![])];
    for e in flat {
        let doc = match e {
            FormatElement::Text(t) => Doc::Text(t.clone()),
            FormatElement::Space => Doc::Space,
            FormatElement::Line(m) => Doc::Line(*m),
            FormatElement::ExpandParent | FormatElement::Tag(Tag::StartEntry | Tag::EndEntry | Tag::StartVerbatim(_) | Tag::EndVerbatim) => continue,
            FormatElement::BestFitting(b) => Doc::Best(b.variants().iter().map(|v| tree(v)).collect()),
            FormatElement::Interned(_) => unreachable!(),
            FormatElement::Tag(t @ (Tag::StartIndent | Tag::StartGroup(_) | Tag::StartConditionalContent(_) | Tag::StartLineSuffix)) => { stack.push((Some(t), vec![])); continue }
            FormatElement::Tag(end) => {
                let (start, body) = stack.pop().unwrap();
                let body: Rc<[Doc]> = body.into();
                match (start, end) {
                    (Some(Tag::StartIndent), Tag::EndIndent) => Doc::Indent(body),
                    (Some(Tag::StartGroup(g)), Tag::EndGroup) => Doc::Group(!g.mode.get().is_flat(), body),
                    (Some(Tag::StartConditionalContent(m)), Tag::EndConditionalContent) => Doc::If(*m, body),
                    (Some(Tag::StartLineSuffix), Tag::EndLineSuffix) => Doc::Suffix(body),
                    (s, e) => panic!("the document is not well formed: {s:?} is ended by {e:?}"),
                }
            }
        };
        stack.last_mut().unwrap().1.push(doc);
    }
    assert_eq!(stack.len(), 1, "the document is not well formed: a tag is left open");
    stack.pop().unwrap().1.into()
}
/// A list with a position in it, the indentation, and the mode.
#[derive(Clone)]
struct Cmd { docs: Rc<[Doc]>, at: usize, indent: usize, mode: PrintMode }
struct Printer { o: PrinterOptions, out: String, width: usize, pending_space: bool, pending_indent: usize, has_empty_line: bool, measured: bool, suffixes: Vec<Cmd> }
fn char_width(c: char) -> usize { match c as u32 { 0x1100..=0x115f | 0x2e80..=0xa4cf | 0xac00..=0xd7a3 | 0xf900..=0xfaff | 0xfe30..=0xfe6f | 0xff00..=0xff60 | 0x1f300..=0x1faff => 2, 0..=0x1f | 0x300..=0x36f | 0x200b..=0x200d => 0, _ => 1 } }
impl Printer {
    fn level(&self) -> usize { self.o.indent_width.value() as usize }
    fn put(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.out.push_str(match self.o.line_ending { LineEnding::Lf => "\n", LineEnding::Crlf => "\r\n", LineEnding::Cr => "\r" });
                self.width = 0;
                self.measured = false;
            } else {
                self.out.push(c);
                self.width += if c == '\t' { self.level() } else { char_width(c) };
                self.has_empty_line = false;
            }
        }
    }
    fn text(&mut self, t: &str) {
        if t.is_empty() { return; }
        for _ in 0..std::mem::take(&mut self.pending_indent) { match self.o.indent_style { IndentStyle::Tab => self.put("\t"), IndentStyle::Space => self.put(&" ".repeat(self.level())) } }
        if std::mem::take(&mut self.pending_space) { self.put(" "); }
        self.put(t);
    }
    fn fits(&self, rest: &[Cmd], next: Cmd) -> bool {
        let (mut width, mut space, mut indent) = (self.width, self.pending_space, self.pending_indent);
        let limit = self.o.print_width.value() as usize;
        let mut stack = vec![next];
        let mut below = rest.len();
        loop {
            let Some(c) = stack.last_mut() else {
                if below == 0 { return true; }
                below -= 1;
                stack.push(rest[below].clone());
                continue;
            };
            if c.at >= c.docs.len() { stack.pop(); continue; }
            let c0 = c.clone();
            c.at += 1;
            let sub = |docs: &Rc<[Doc]>, mode| Cmd { docs: docs.clone(), at: 0, indent: c0.indent, mode };
            match &c0.docs[c0.at] {
                Doc::Space => if width > 0 { space = true },
                Doc::Line(m) => match (c0.mode, m) {
                    (PrintMode::Flat, LineMode::Soft) => {}
                    (PrintMode::Flat, LineMode::SoftOrSpace) => space = true,
                    _ => return true,
                },
                Doc::Text(t) => {
                    if t.is_empty() { continue; }
                    width += std::mem::take(&mut indent) * self.level();
                    if std::mem::take(&mut space) { width += 1; }
                    for ch in t.chars() {
                        if ch == '\n' { return true; }
                        width += if ch == '\t' { self.level() } else { char_width(ch) };
                        if width > limit { return false; }
                    }
                }
                Doc::Indent(d) => { let mut s = sub(d, c0.mode); s.indent += 1; stack.push(s) }
                Doc::Group(expand, d) => { let m = if *expand { PrintMode::Expanded } else { c0.mode }; stack.push(sub(d, m)) }
                Doc::If(m, d) => if *m == c0.mode { stack.push(sub(d, c0.mode)) },
                Doc::Suffix(_) => {}
                Doc::Best(v) => { let d = if c0.mode == PrintMode::Flat { &v[0] } else { &v[v.len() - 1] }; stack.push(sub(d, c0.mode)) }
            }
        }
    }
    fn run(&mut self, docs: Rc<[Doc]>) {
        let mut stack = vec![Cmd { docs, at: 0, indent: 0, mode: PrintMode::Expanded }];
        loop {
            let Some(c) = stack.last_mut() else {
                if self.suffixes.is_empty() { return; }
                stack.extend(self.suffixes.drain(..).rev());
                continue;
            };
            if c.at >= c.docs.len() { stack.pop(); continue; }
            let c0 = c.clone();
            c.at += 1;
            let sub = |docs: &Rc<[Doc]>, mode| Cmd { docs: docs.clone(), at: 0, indent: c0.indent, mode };
            match &c0.docs[c0.at] {
                Doc::Space => if self.width > 0 { self.pending_space = true },
                Doc::Text(t) => self.text(t),
                Doc::Line(m) => {
                    if c0.mode == PrintMode::Flat && matches!(m, LineMode::Soft | LineMode::SoftOrSpace) {
                        if *m == LineMode::SoftOrSpace && self.width > 0 { self.pending_space = true }
                    } else if !self.suffixes.is_empty() {
                        stack.last_mut().unwrap().at = c0.at;
                        stack.extend(self.suffixes.drain(..).rev());
                    } else {
                        if self.width > 0 { self.put("\n"); }
                        if *m == LineMode::Empty && !self.has_empty_line { self.put("\n"); self.has_empty_line = true; }
                        self.pending_space = false;
                        self.pending_indent = c0.indent;
                        self.measured = false;
                    }
                }
                Doc::Indent(d) => { let mut s = sub(d, c0.mode); s.indent += 1; stack.push(s) }
                Doc::Group(expand, d) => {
                    let mode = if *expand { PrintMode::Expanded } else if c0.mode == PrintMode::Flat && self.measured { PrintMode::Flat } else {
                        self.measured = true;
                        if self.fits(&stack, sub(d, PrintMode::Flat)) { PrintMode::Flat } else { PrintMode::Expanded }
                    };
                    stack.push(sub(d, mode))
                }
                Doc::If(m, d) => if *m == c0.mode { stack.push(sub(d, c0.mode)) },
                Doc::Suffix(d) => self.suffixes.push(sub(d, c0.mode)),
                Doc::Best(v) => {
                    if c0.mode == PrintMode::Flat && self.measured { stack.push(sub(&v[0], PrintMode::Flat)); continue; }
                    self.measured = true;
                    let mut chosen = sub(&v[v.len() - 1], PrintMode::Expanded);
                    for d in &v[..v.len() - 1] {
                        let c = sub(d, PrintMode::Flat);
                        if self.fits(&stack, c.clone()) { chosen = c; break; }
                    }
                    stack.push(chosen)
                }
            }
        }
    }
}
pub fn print(d: &Document, o: PrinterOptions) -> Printed {
    let mut p = Printer { o, out: String::new(), width: 0, pending_space: false, pending_indent: 0, has_empty_line: false, measured: false, suffixes: vec![] };
    p.run(tree(d));
    Printed { code: p.out }
}
