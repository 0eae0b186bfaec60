//! Stand-in for tree-sitter-r (not available offline).
pub struct LanguageFn;
impl From<LanguageFn> for tree_sitter::Language { fn from(_: LanguageFn) -> Self { tree_sitter::Language } }
pub const LANGUAGE: LanguageFn = LanguageFn;
