/// std::path::Path, only passed on here
#[verifier::external_body]
pub struct Path { x: u8 }

/// the default value of a type: what its Default gives (S01 and S03 say which)
pub uninterp spec fn def<T>() -> T;

// ---------------------------------------------------------------- dependencies and callees, by their contracts
pub mod anyhow {
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
}

/// biome_formatter: the option types the printer reads
pub mod biome_formatter {
    use super::*;
    #[derive(Clone, Copy)]
    pub enum IndentStyle { Tab, Space }
    #[derive(Clone, Copy)]
    pub enum LineEnding { Lf, Crlf, Cr }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct IndentWidth { x: u8 }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct LineWidth { x: u16 }
    impl IndentWidth { pub uninterp spec fn view(&self) -> u8; }
    impl LineWidth { pub uninterp spec fn view(&self) -> u16; }
    impl core::convert::TryFrom<u8> for IndentWidth {
        type Error = u8;
        #[verifier::external_body]
        fn try_from(v: u8) -> (r: Result<Self, u8>)
            ensures match r { Ok(w) => v <= 24 && w@ == v, Err(_) => v > 24 },
        { unimplemented!() }
    }
    impl core::convert::TryFrom<u16> for LineWidth {
        type Error = u16;
        #[verifier::external_body]
        fn try_from(v: u16) -> (r: Result<Self, u16>)
            ensures match r { Ok(w) => 1 <= v <= 320 && w@ == v, Err(_) => v < 1 || v > 320 },
        { unimplemented!() }
    }
    impl TryFromSpecImpl<u8> for IndentWidth {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: u8) -> Result<Self, u8> { arbitrary() }
    }
    impl TryFromSpecImpl<u16> for LineWidth {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: u16) -> Result<Self, u16> { arbitrary() }
    }
}

/// settings: the widths hold their documented range (S01)
pub mod settings {
    use super::*;
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct IndentWidth { x: u8 }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct LineWidth { x: u16 }
    impl IndentWidth {
        pub uninterp spec fn view(&self) -> u8;
        #[verifier::external_body]
        pub fn value(&self) -> (r: u8)
            ensures r == self@, 1 <= r <= 24,
        { unimplemented!() }
    }
    impl LineWidth {
        pub uninterp spec fn view(&self) -> u16;
        #[verifier::external_body]
        pub fn value(&self) -> (r: u16)
            ensures r == self@, 1 <= r <= 320,
        { unimplemented!() }
    }
    /// settings: name lists, as multisets of names (S02)
    #[verifier::external_body]
    pub struct Skip { x: u8 }
    #[verifier::external_body]
    pub struct Table { x: u8 }
    impl Table {
        pub uninterp spec fn view(&self) -> Multiset<Seq<char>>;
        #[verifier::external_body]
        pub fn new(names: Vec<String>) -> (r: Table)
            ensures
                forall|w: Seq<Seq<char>>| #![trigger w.to_multiset()]
                    w =~= names@.map_values(|s: String| s@) ==> r@ == w.to_multiset(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn merge(&self, t: &Table) -> (r: Table)
            ensures r@ == self@.add(t@),
        { unimplemented!() }
    }
    impl Clone for Table {
        #[verifier::external_body]
        fn clone(&self) -> (r: Table)
            ensures r == *self,
        { unimplemented!() }
    }
    impl Clone for Skip {
        #[verifier::external_body]
        fn clone(&self) -> (r: Skip)
            ensures r == *self,
        { unimplemented!() }
    }
//@@ source crates/settings/src/line_ending.rs
//@@ item enum LineEnding
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/indent_style.rs
//@@ item enum IndentStyle
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/assignment_style.rs
//@@ item enum AssignmentStyle
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/persistent_line_breaks.rs
//@@ item enum PersistentLineBreaks
//@@   derive Clone, Copy
//@@ end
}
pub use settings::{Table, Skip, IndentStyle, IndentWidth, LineWidth, AssignmentStyle, PersistentLineBreaks};

pub type Names = Multiset<Seq<char>>;
pub open spec fn names_opt(o: Option<Table>) -> Option<Names> { match o { Some(t) => Some(t@), None => None } }
/// the documented default set of table calls
pub open spec fn default_names() -> Names { seq!["tribble"@, "fcase"@].to_multiset() }

/// the exclude patterns a list of texts gives under a root, if each is a pattern (W03)
pub uninterp spec fn excluding(root: &Path, texts: Seq<Seq<char>>) -> Option<ExcludePatterns>;

pub mod workspace_line_ending {
    use super::*;
//@@ source crates/workspace/src/settings/line_ending.rs
//@@ item enum LineEnding
//@@   derive Clone, Copy
//@@ end
    /// what a setting comes to for a source (L02)
    pub uninterp spec fn finalized(e: LineEnding, source: Seq<char>) -> super::settings::LineEnding;
    impl LineEnding {
        #[verifier::external_body]
        pub(crate) fn finalize(&self, source: &str) -> (r: super::settings::LineEnding)
            ensures r == finalized(*self, source@),
        { unimplemented!() }
    }
}
pub use workspace_line_ending::{LineEnding, finalized};

#[verifier::external_body]
pub struct ExcludePatterns { x: u8 }
#[verifier::external_body]
pub struct DefaultExcludePatterns { x: u8 }
#[verifier::external_body]
pub struct DefaultIncludePatterns { x: u8 }
impl ExcludePatterns {
    #[verifier::external_body]
    pub fn try_from_iter<'str, I: Iterator<Item = &'str str>>(root: &Path, patterns: I) -> (r: anyhow::Result<ExcludePatterns>)
        requires patterns.obeys_prophetic_iter_laws(),
        ensures match r {
            Ok(e) => forall|w: Seq<Seq<char>>| #![trigger excluding(root, w)]
                patterns.will_return_none() && (w =~= patterns.remaining().map_values(|s: &str| s@) ==> excluding(root, w) == Some(e)),
            // the first text that is no pattern ends the walk
            Err(_) => forall|w: Seq<Seq<char>>| #![trigger excluding(root, w)]
                patterns.remaining().len() <= w.len() && (forall|i: int| 0 <= i < patterns.remaining().len() ==> (#[trigger] patterns.remaining()[i])@ == w[i])
                    ==> excluding(root, w) is None,
        },
    { unimplemented!() }
}
macro_rules! has_default {
    ($($t:ty),*) => { verus! { $(
        impl Default for $t {
            #[verifier::external_body]
            fn default() -> (r: Self)
                ensures r == def::<$t>(),
            { unimplemented!() }
        }
    )* } }
}
has_default!(IndentStyle, IndentWidth, LineEnding, LineWidth, AssignmentStyle, PersistentLineBreaks, DefaultExcludePatterns, DefaultIncludePatterns, settings::LineEnding, Skip, Table);

pub open spec fn or_def<T>(o: Option<T>) -> T { match o { Some(v) => v, None => def::<T>() } }

