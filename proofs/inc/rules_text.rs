// ---------------------------------------------------------------- strings
pub mod line_ending {
use super::*;
//@@ source crates/line_ending/src/lib.rs
//@@ assume line_ending normalize_ref
//@@ end
}
#[verifier::external_body]
pub fn syntax_token_cow_slice(s: Cow<'_, str>, t: &SyntaxToken, p: TextSize) -> (r: Dynamic)
    ensures r.t@ == (match s { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ }),
{ unimplemented!() }
//@@ source crates/air_r_formatter/src/string_content.rs
//@@ item fn normalize_string_content_token
//@@   ret r
//@@ + spec
    ensures (match r { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ }) == strip_c(token.whole()),
//@@ end
//@@ item struct FormatStringContentToken
//@@   public
//@@ end
//@@ impl FormatStringContentToken
//@@ item fn FormatStringContentToken::new
//@@   ret r
//@@ + spec
    ensures r.token == token,
//@@ end
//@@ endimpl
pub open spec fn content_ir(t: SyntaxToken) -> Seq<Ir> { seq![Ir::Replaced(t, strip_c(t.whole()))] }
impl Format for FormatStringContentToken<'_> {
    open spec fn ir(&self) -> Seq<Ir> { content_ir(*self.token) }
    open spec fn sure(&self) -> bool { true }
//@@ item fn FormatStringContentToken<Format>::fmt
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/string_value.rs
//@@ item struct FormatRStringValue
//@@   public
//@@ end
impl FormatNodeRule<RStringValue> for FormatRStringValue {
    open spec fn wants(&self, n: RStringValue) -> bool { true }
    open spec fn fields(&self, n: RStringValue) -> Seq<Ir> {
        it(n.node(), 0) + (match n.node().slot(1) { Slot::Token(t) => content_ir(t), _ => Seq::empty() }) + it(n.node(), 2)
    }
//@@ item fn FormatRStringValue<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
