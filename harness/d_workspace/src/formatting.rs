//! G01: the answer of format_source; S04: settings as the printer reads them.
use air_r_formatter::context::RFormatOptions;
use biome_formatter::FormatOptions;
use hx::{Ctx, esc};
use settings::*;
use workspace::format::*;

fn answer(src: &str, end: LineEnding) -> Result<(), String> {
    let opts = || RFormatOptions::new().with_line_ending(end);
    let got = format_source(src, opts());
    // what the stand-in parser, formatter and printer do
    let want = air_r_formatter::toy(&opts(), src);
    let ok = match (&got, src.contains("!syntax"), src.contains("!format"), src.contains("!print")) {
        (Err(FormatSourceError::Parse(_)), true, _, _) => true,
        (Err(FormatSourceError::Format(_)), false, true, _) => true,
        (Err(FormatSourceError::Print(_)), false, false, true) => true,
        (Ok(FormattedSource::Unchanged), false, false, false) => want == src,
        (Ok(FormattedSource::Changed(s)), false, false, false) => want != src && *s == want,
        _ => false,
    };
    if !ok {
        return Err(format!("{got:?}; the formatter's own text is {want:?}"));
    }
    if !src.contains("!syntax") {
        let parse = air_r_parser::parse(src, Default::default());
        let got = format_source_with_parse(src, &parse, opts());
        let ok = match (&got, src.contains("!format"), src.contains("!print")) {
            (Err(FormatParseError::Format(_)), true, _) => true,
            (Err(FormatParseError::Print(_)), false, true) => true,
            (Ok(FormattedSource::Unchanged), false, false) => want == src,
            (Ok(FormattedSource::Changed(s)), false, false) => want != src && *s == want,
            _ => false,
        };
        if !ok {
            return Err(format!("format_source_with_parse: {got:?}; the formatter's own text is {want:?}"));
        }
    }
    Ok(())
}

pub fn g01(c: &mut Ctx) {
    c.stage("every sequence of up to 4 pieces");
    let bits = ["", "a", " ", "\n", "\r\n", "é", "!syntax", "!format", "!print", "\t\n"];
    for n in 0..bits.len().pow(4) {
        let (mut q, mut s) = (n, String::new());
        for _ in 0..4 {
            s.push_str(bits[q % bits.len()]);
            q /= bits.len();
        }
        for e in [LineEnding::Lf, LineEnding::Crlf] {
            c.case(|| format!("{} with {e:?}", esc(&s)), || answer(&s, e));
        }
    }
    c.stage("random longer texts");
    while c.time_left(1.0) {
        let n = c.rng.below(40);
        let s: String = (0..n).map(|_| if c.rng.chance(1, 200) { *c.rng.pick(&bits) } else { *c.rng.pick(&["a", "b", "\n", "\r\n", " ", "é", "𝄞"]) }).collect();
        let e = if c.rng.chance(1, 2) { LineEnding::Lf } else { LineEnding::Crlf };
        c.case(|| format!("{} with {e:?}", esc(&s)), || answer(&s, e));
    }
}

#[derive(Debug, Clone, PartialEq)]
struct All {
    style: IndentStyle,
    width: u8,
    end: LineEnding,
    line: u16,
    plb: PersistentLineBreaks,
    assign: AssignmentStyle,
    skip: Option<usize>,
    table: Option<usize>,
}

fn table_of(i: usize) -> Table {
    Table::new([vec![], vec!["f".to_string()], vec!["b".to_string(), "a".to_string()]][i].clone())
}
fn skip_of(i: usize) -> Skip {
    #[derive(serde::Deserialize)]
    struct S {
        skip: Skip,
    }
    ::toml::from_str::<S>(["skip = []", "skip = ['f']", "skip = ['b', 'a']"][i]).unwrap().skip
}

fn read(o: &RFormatOptions, w: &All) -> Result<(), String> {
    let p = o.as_print_options();
    let style = |s: &biome_formatter::IndentStyle| if *s == biome_formatter::IndentStyle::Tab { IndentStyle::Tab } else { IndentStyle::Space };
    let end = |s: &biome_formatter::LineEnding| if *s == biome_formatter::LineEnding::Lf { LineEnding::Lf } else { LineEnding::Crlf };
    let checks = [
        ("indent style", format!("{:?} {:?}", style(&o.indent_style()), style(&p.indent_style)), format!("{:?} {:?}", w.style, w.style)),
        ("indent width", format!("{} {}", o.indent_width().value(), p.indent_width.value()), format!("{} {}", w.width, w.width)),
        ("line ending", format!("{:?} {:?}", end(&o.line_ending()), end(&p.line_ending)), format!("{:?} {:?}", w.end, w.end)),
        ("line width", format!("{} {}", o.line_width().value(), p.print_width.value()), format!("{} {}", w.line, w.line)),
        ("persistent line breaks", format!("{:?}", o.persistent_line_breaks()), format!("{:?}", w.plb)),
        ("assignment style", format!("{:?}", o.assignment_style()), format!("{:?}", w.assign)),
        ("skip", format!("{:?}", o.skip()), format!("{:?}", w.skip.map(skip_of).as_ref())),
        ("table", format!("{:?}", o.table()), format!("{:?}", w.table.map(table_of).as_ref())),
    ];
    for (n, got, want) in checks {
        if got != want {
            return Err(format!("{n} reads back as {got}, set to {want}"));
        }
    }
    Ok(())
}

fn carry(w: &All) -> Result<(), String> {
    let (iw, lw) = (IndentWidth::try_from(w.width).unwrap(), LineWidth::try_from(w.line).unwrap());
    let o = RFormatOptions::new()
        .with_indent_style(w.style)
        .with_indent_width(iw)
        .with_line_ending(w.end)
        .with_line_width(lw)
        .with_persistent_line_breaks(w.plb)
        .with_assignment_style(w.assign)
        .with_skip(w.skip.map(skip_of))
        .with_table(w.table.map(table_of));
    read(&o, w).map_err(|e| format!("with_*: {e}"))?;
    let mut o = RFormatOptions::default();
    o.set_table(w.table.map(table_of));
    o.set_skip(w.skip.map(skip_of));
    o.set_assignment_style(w.assign);
    o.set_persistent_line_breaks(w.plb);
    o.set_line_width(lw);
    o.set_line_ending(w.end);
    o.set_indent_width(iw);
    o.set_indent_style(w.style);
    read(&o, w).map_err(|e| format!("set_*: {e}"))
}

pub fn s04(c: &mut Ctx) {
    let d = All { style: IndentStyle::Space, width: 2, end: LineEnding::Lf, line: 80, plb: PersistentLineBreaks::Respect, assign: AssignmentStyle::Arrow, skip: None, table: None };
    c.stage("the defaults");
    c.case(|| "RFormatOptions::new()".into(), || read(&RFormatOptions::new(), &d));
    c.case(|| "RFormatOptions::default()".into(), || read(&RFormatOptions::default(), &d));
    let (st, en) = ([IndentStyle::Tab, IndentStyle::Space], [LineEnding::Lf, LineEnding::Crlf]);
    let (pl, asg) = ([PersistentLineBreaks::Respect, PersistentLineBreaks::Ignore], [AssignmentStyle::Arrow, AssignmentStyle::Equal, AssignmentStyle::Preserve]);
    let op = [None, Some(0), Some(1), Some(2)];
    c.stage("every width of either kind with every style");
    for style in st {
        for end in en {
            for width in 1..=24 {
                let w = All { style, end, width, ..d.clone() };
                c.case(|| format!("{w:?}"), || carry(&w));
            }
            for line in 1..=320 {
                let w = All { style, end, line, ..d.clone() };
                c.case(|| format!("{w:?}"), || carry(&w));
            }
        }
    }
    c.stage("every combination of the other settings");
    for n in 0..2 * 2 * 2 * 3 * 16 {
        let w = All { style: st[n % 2], end: en[n / 2 % 2], plb: pl[n / 4 % 2], assign: asg[n / 8 % 3], skip: op[n / 24 % 4], table: op[n / 96 % 4], ..d.clone() };
        c.case(|| format!("{w:?}"), || carry(&w));
    }
}
