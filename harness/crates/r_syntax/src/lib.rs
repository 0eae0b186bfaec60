//! The kinds of crates/air_r_syntax (the real file), over the stand-in for biome_rowan.
#[path = "/repo/crates/air_r_syntax/src/generated/kind.rs"]
mod kind;
pub use kind::*;
pub use biome_rowan::{TextLen, TextRange, TextSize, TriviaPieceKind};
use biome_rowan::{AstNode, Language, RawSyntaxKind, SyntaxKind, SyntaxNode};

impl From<u16> for RSyntaxKind {
    fn from(d: u16) -> RSyntaxKind {
        assert!(d <= (RSyntaxKind::__LAST as u16));
        unsafe { std::mem::transmute::<u16, RSyntaxKind>(d) }
    }
}
impl SyntaxKind for RSyntaxKind {
    const EOF: Self = RSyntaxKind::EOF;
    fn to_raw(&self) -> RawSyntaxKind { RawSyntaxKind(*self as u16) }
    fn from_raw(raw: RawSyntaxKind) -> Self { Self::from(raw.0) }
}
#[derive(Debug, Default, Clone, Copy, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct RLanguage;
impl Language for RLanguage { type Kind = RSyntaxKind; }
pub type RSyntaxNode = SyntaxNode<RLanguage>;
#[derive(Debug, Clone)]
pub struct RRoot { syntax: RSyntaxNode }
impl AstNode for RRoot {
    type Language = RLanguage;
    fn cast(n: RSyntaxNode) -> Option<Self> { (n.kind() == RSyntaxKind::R_ROOT).then(|| RRoot { syntax: n }) }
    fn syntax(&self) -> &RSyntaxNode { &self.syntax }
}
