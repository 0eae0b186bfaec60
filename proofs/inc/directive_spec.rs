/// std: char::is_whitespace (Unicode White_Space)
pub uninterp spec fn ws(c: char) -> bool;

pub open spec fn skip_hashes(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && s[0] == '#' { skip_hashes(s.skip(1)) } else { s }
}

pub open spec fn skip_ws(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && ws(s[0]) { skip_ws(s.skip(1)) } else { s }
}

pub open spec fn drop_ws_end(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && ws(s.last()) { drop_ws_end(s.drop_last()) } else { s }
}

pub open spec fn trimmed(s: Seq<char>) -> Seq<char> {
    drop_ws_end(skip_ws(s))
}

/// what follows the leading `#`s and blanks of a comment
pub open spec fn payload(s: Seq<char>) -> Seq<char> {
    skip_ws(skip_hashes(s))
}

pub open spec fn is_comment(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] == '#'
}

pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}

/// `fmt:` right after the marks, then exactly one command between blanks
pub open spec fn command(s: Seq<char>) -> Option<Seq<char>> {
    if is_comment(s) && starts(payload(s), "fmt:"@) { Some(trimmed(payload(s).skip(4))) } else { None }
}

pub open spec fn directive_of(s: Seq<char>) -> Option<Directive> {
    match command(s) {
        None => None,
        Some(c) =>
            if c == "skip"@ { Some(Directive::Format(FormatDirective::Skip)) }
            else if c == "skip file"@ { Some(Directive::Format(FormatDirective::SkipFile)) }
            else if c == "table"@ { Some(Directive::Format(FormatDirective::Table)) }
            else { None },
    }
}

