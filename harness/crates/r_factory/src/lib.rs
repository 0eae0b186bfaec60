//! Stand-in (biome_rowan is not available offline).
#[derive(Debug)]
pub struct RSyntaxFactory;
