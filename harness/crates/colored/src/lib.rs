//! Stand-in for `colored` (not available offline): no colours.
pub trait Colorize: Sized {
    fn underline(self) -> String;
}
impl<T: std::fmt::Display> Colorize for T {
    fn underline(self) -> String { self.to_string() }
}
pub mod control { pub fn set_override(_: bool) {} }
