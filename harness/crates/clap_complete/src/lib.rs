//! Stand-in for `clap_complete` (not available offline): no completion is generated.
#[derive(Clone, Copy, Debug, clap::ValueEnum)]
pub enum Shell { Bash, Zsh }
pub fn generate<W: std::io::Write>(_: Shell, _: &mut clap::Command, _: &str, _: &mut W) {}
