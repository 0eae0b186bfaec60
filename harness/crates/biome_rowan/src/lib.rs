//! Stand-in for biome_rowan (not available offline): an immutable syntax tree.
use std::marker::PhantomData;
use std::sync::Arc;
pub use biome_text_size::{TextLen, TextRange, TextSize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RawSyntaxKind(pub u16);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TriviaPieceKind { Newline, Whitespace, SingleLineComment, MultiLineComment, Skipped }
impl TriviaPieceKind {
    pub fn is_newline(&self) -> bool { matches!(self, Self::Newline) }
    pub fn is_whitespace(&self) -> bool { matches!(self, Self::Whitespace) }
    pub fn is_single_line_comment(&self) -> bool { matches!(self, Self::SingleLineComment) }
}
pub trait SyntaxKind: std::fmt::Debug + PartialEq + Copy {
    const EOF: Self;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
}
pub trait Language: Sized + Clone + Default + std::fmt::Debug { type Kind: SyntaxKind; }
pub trait SyntaxFactory { type Kind: SyntaxKind; }

#[derive(Debug)]
pub struct Green { pub kind: RawSyntaxKind, pub items: Vec<Item> }
#[derive(Debug, Clone)]
pub enum Item { Node(Arc<Green>), Token(GreenToken) }
#[derive(Debug, Clone)]
pub struct GreenToken { pub kind: RawSyntaxKind, pub text: String, pub leading: Vec<(TriviaPieceKind, TextSize)>, pub trailing: Vec<(TriviaPieceKind, TextSize)> }
#[derive(Debug, Clone)]
pub struct SyntaxNode<L>(pub Arc<Green>, PhantomData<L>);
impl<L: Language> SyntaxNode<L> {
    pub fn new(g: Arc<Green>) -> Self { SyntaxNode(g, PhantomData) }
    pub fn kind(&self) -> L::Kind { L::Kind::from_raw(self.0.kind) }
    pub fn as_send(&self) -> Option<SendNode> { Some(SendNode(self.0.clone())) }
}
#[derive(Debug, Clone)]
pub struct SendNode(Arc<Green>);
impl SendNode { pub fn into_node<L: Language>(self) -> Option<SyntaxNode<L>> { Some(SyntaxNode::new(self.0)) } }
pub trait AstNode: Sized {
    type Language: Language;
    fn cast(n: SyntaxNode<Self::Language>) -> Option<Self>;
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn unwrap_cast(n: SyntaxNode<Self::Language>) -> Self { Self::cast(n).expect("cast") }
    fn try_cast(n: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>> { let k = n.clone(); Self::cast(n).ok_or(k) }
}
#[derive(Debug, Default)]
pub struct NodeCache;
