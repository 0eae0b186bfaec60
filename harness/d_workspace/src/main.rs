//! Replay driver for W01..W08, S04, G01.
#[path = "/repo/crates/workspace/src/settings/default_exclude_patterns.rs"]
#[allow(dead_code)]
mod default_exclude_patterns;
#[path = "/repo/crates/workspace/src/settings/default_include_patterns.rs"]
#[allow(dead_code)]
mod default_include_patterns;
#[path = "/repo/crates/workspace/src/settings/exclude_patterns.rs"]
#[allow(dead_code)]
mod exclude_patterns;
#[path = "/repo/crates/workspace/src/file_patterns.rs"]
#[allow(dead_code)]
mod file_patterns;
mod resolver;
mod patterns;
mod toml;
mod discovery;
mod formatting;

fn main() {
    hx::main(&[
        ("W01", resolver::w01),
        ("W02", resolver::w02),
        ("W03", patterns::w03),
        ("W04", patterns::w04),
        ("W05", toml::w05),
        ("W06", toml::w06),
        ("W07", discovery::w07),
        ("W08", discovery::w08),
        ("S04", formatting::s04),
        ("G01", formatting::g01),
    ]);
}
