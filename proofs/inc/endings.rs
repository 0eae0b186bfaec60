/// a CRLF pair starts at character i
pub open spec fn crlf_at_c(s: Seq<char>, i: int) -> bool {
    0 <= i && i + 1 < s.len() && s[i] == '\r' && s[i + 1] == '\n'
}

pub open spec fn strip_c(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        s
    } else if crlf_at_c(s, 0) {
        strip_c(s.skip(1))
    } else {
        seq![s[0]] + strip_c(s.skip(1))
    }
}

pub open spec fn has_crlf_c(s: Seq<char>) -> bool {
    exists|i: int| crlf_at_c(s, i)
}
