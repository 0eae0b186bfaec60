// ---------------------------------------------------------------- the options the rules read
#[verifier::external_body]
pub struct IndentWidth { x: u8 }
#[verifier::external_body]
pub struct LineWidth { x: u8 }
#[verifier::external_body]
pub struct Skip { x: u8 }
impl Skip {
    pub uninterp spec fn names(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn contains(&self, name: &str) -> (r: bool) ensures r == self.names().contains(name@), { unimplemented!() }
}
#[verifier::external_body]
pub struct Table { x: u8 }
impl Table {
    pub uninterp spec fn names(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn contains(&self, name: &str) -> (r: bool) ensures r == self.names().contains(name@), { unimplemented!() }
}
//@@ source crates/settings/src/line_ending.rs
//@@ item enum LineEnding
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/indent_style.rs
//@@ item enum IndentStyle
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/assignment_style.rs
//@@ item enum AssignmentStyle
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/persistent_line_breaks.rs
//@@ item enum PersistentLineBreaks
//@@   derive Clone, Copy
//@@ end
impl PersistentLineBreaks {
//@@ item fn PersistentLineBreaks::is_ignore
//@@   ret r
//@@ + spec
    ensures r == (*self is Ignore),
//@@ end
//@@ item fn PersistentLineBreaks::is_respect
//@@   ret r
//@@ + spec
    ensures r == (*self is Respect),
//@@ end
}
//@@ source crates/air_r_formatter/src/context.rs
//@@ item struct RFormatOptions
//@@   public
//@@ end
impl RFormatOptions {
//@@ item fn RFormatOptions::persistent_line_breaks
//@@   ret r
//@@ + spec
    ensures r == self.persistent_line_breaks,
//@@ end
//@@ item fn RFormatOptions::assignment_style
//@@   ret r
//@@ + spec
    ensures r == self.assignment_style,
//@@ end
//@@ item fn RFormatOptions::skip
//@@   ret r
//@@ + spec
    ensures r == (match self.skip { Some(s) => Some(&s), None => None }),
//@@ end
//@@ item fn RFormatOptions::table
//@@   ret r
//@@ + spec
    ensures r == (match self.table { Some(s) => Some(&s), None => None }),
//@@ end
}
