//! Stand-in for biome_unicode_table (not available offline): what a byte may begin.
#[allow(clippy::upper_case_acronyms)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dispatch { ERR, WHS, EXL, QOT, IDT, HAS, PRC, AMP, PNO, PNC, MUL, PLS, COM, MIN, PRD, SLH, ZER, DIG, COL, SEM, LSS, EQL, MOR, QST, AT_, BTO, BSL, BTC, CRT, TPL, BEO, PIP, BEC, TLD, UNI, TKN }
pub fn lookup_byte(byte: u8) -> Dispatch {
    use Dispatch::*;
    match byte {
        9..=13 | 32 => WHS,
        b'!' => EXL, b'"' | b'\'' => QOT, b'#' => HAS, b'%' => PRC, b'&' => AMP, b'(' => PNO, b')' => PNC, b'*' => MUL,
        b'+' => PLS, b',' => COM, b'-' => MIN, b'.' => PRD, b'/' => SLH, b'0' => ZER, b'1'..=b'9' => DIG, b':' => COL, b';' => SEM,
        b'<' => LSS, b'=' => EQL, b'>' => MOR, b'?' => QST, b'@' => AT_, b'[' => BTO, b'\\' => BSL, b']' => BTC, b'^' => CRT,
        b'`' => TPL, b'{' => BEO, b'|' => PIP, b'}' => BEC, b'~' => TLD,
        b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => IDT,
        128.. => UNI,
        _ => ERR,
    }
}
