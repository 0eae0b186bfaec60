//! Stand-in for the list a build script makes of the workspace's crates.
pub const AIR_CRATE_NAMES: &[&str] = &["air", "workspace", "fs", "settings", "line_ending", "comments", "lsp"];
