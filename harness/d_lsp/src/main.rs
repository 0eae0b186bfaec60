//! Replay driver for the editing side: text edits, positions, documents.
mod conf;
mod docs;
mod edits;
mod fmt;
mod proto;
mod ws;

fn main() {
    hx::main(&[("E01", edits::e01), ("E02", edits::e02), ("E03", edits::e03), ("E04", proto::e04), ("E05", proto::e05), ("G02", fmt::g02), ("K01", docs::k01), ("K02", conf::k02), ("K03", ws::k03)]);
}
