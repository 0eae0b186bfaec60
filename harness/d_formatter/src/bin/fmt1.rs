//! Formats one file, for comparing the stand-ins with the snapshots of the repository:
//! fmt1 FILE STYLE WIDTH ENDING LINE_WIDTH BREAKS ASSIGN SKIP TABLE (`-` for none)
use settings::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let list = |s: &str| (s != "-").then(|| s.split(',').map(|x| x.to_string()).collect::<Vec<_>>());
    let o = air_r_formatter::context::RFormatOptions::default()
        .with_indent_style(if a[2] == "Tab" { IndentStyle::Tab } else { IndentStyle::Space })
        .with_indent_width(IndentWidth::try_from(a[3].parse::<u8>().unwrap()).unwrap())
        .with_line_ending(if a[4] == "CRLF" { LineEnding::Crlf } else { LineEnding::Lf })
        .with_line_width(LineWidth::try_from(a[5].parse::<u16>().unwrap()).unwrap())
        .with_persistent_line_breaks(if a[6] == "Ignore" { PersistentLineBreaks::Ignore } else { PersistentLineBreaks::Respect })
        .with_assignment_style(match a[7].as_str() { "Equal" => AssignmentStyle::Equal, "Preserve" => AssignmentStyle::Preserve, _ => AssignmentStyle::Arrow })
        .with_skip(list(&a[8]).map(|l| serde_skip(l)))
        .with_table(list(&a[9]).map(|l| Table::new(l)));
    let p = air_r_parser::parse(&src, air_r_parser::RParserOptions::default());
    if p.has_error() { eprintln!("parse error {:?}", p.error()); std::process::exit(3); }
    print!("{}", air_r_formatter::format_node(o, &p.syntax()).unwrap().print().unwrap().as_code());
}
fn serde_skip(l: Vec<String>) -> Skip {
    use serde::de::IntoDeserializer;
    let d: serde::de::value::SeqDeserializer<_, serde::de::value::Error> = l.into_deserializer();
    serde::Deserialize::deserialize(d).unwrap()
}
