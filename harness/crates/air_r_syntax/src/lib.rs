//! Stand-in (biome_rowan is not available offline).
#[derive(Debug, Clone, Default, PartialEq)]
pub struct RLanguage;
pub type RSyntaxNode = String;
