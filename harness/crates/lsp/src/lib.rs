//! The language server's own files, compiled against stand-ins for the crates that are not available
//! offline. Left out: the event loop and the logging (stand-ins below), the connection (tower-lsp's
//! stand-in), range formatting and the tree viewers.
#![allow(unused_imports, dead_code, unused_variables)]

#[path = "/repo/crates/lsp/src/capabilities.rs"]
mod capabilities;
#[path = "/repo/crates/lsp/src/documents.rs"]
mod documents;
#[path = "/repo/crates/lsp/src/file_patterns.rs"]
mod file_patterns;
#[path = "/repo/crates/lsp/src/handlers_state.rs"]
mod handlers_state;
#[path = "/repo/crates/lsp/src/settings.rs"]
mod settings;
#[path = "/repo/crates/lsp/src/settings_vsc.rs"]
mod settings_vsc;
#[path = "/repo/crates/lsp/src/state.rs"]
mod state;
#[path = "/repo/crates/lsp/src/notifications/sync_file_settings.rs"]
mod sync_file_settings;
#[path = "/repo/crates/lsp/src/workspaces.rs"]
mod workspaces;
mod server;

mod handlers_format {
    include!(concat!(env!("OUT_DIR"), "/handlers_format.rs"));
}
mod logging {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Deserialize, serde::Serialize)]
    #[serde(rename_all = "lowercase")]
    pub(crate) enum LogLevel { Error, Warn, Info, Debug, Trace }
    pub(crate) type LogMessageSender = ();
    #[derive(Default)]
    pub(crate) struct LogState;
    impl LogState { pub(crate) fn reload(&mut self, _: Option<LogLevel>, _: Option<String>) {} }
    pub(crate) fn init_logging(_: LogMessageSender, _: Option<LogLevel>, _: Option<String>, _: Option<&tower_lsp::lsp_types::ClientInfo>) -> LogState { LogState }
}
mod main_loop {
    use crate::workspaces::{WorkspaceSettings, WorkspaceSettingsResolver};
    use url::Url;
    pub(crate) struct LspState {
        pub(crate) client: tower_lsp::Client,
        pub(crate) workspace_settings_resolver: WorkspaceSettingsResolver,
        pub(crate) position_encoding: aether_lsp_utils::proto::PositionEncoding,
        pub(crate) capabilities: crate::capabilities::AirClientCapabilities,
        pub(crate) log_state: Option<crate::logging::LogState>,
        pub(crate) settings: crate::settings::GlobalSettings,
    }
    impl LspState {
        pub(crate) fn new(client: tower_lsp::Client) -> Self {
            Self {
                client,
                workspace_settings_resolver: Default::default(),
                position_encoding: aether_lsp_utils::proto::PositionEncoding::Wide(biome_line_index::WideEncoding::Utf16),
                capabilities: Default::default(),
                log_state: Default::default(),
                settings: Default::default(),
            }
        }
    }
    include!(concat!(env!("OUT_DIR"), "/lsp_state.rs"));
}
pub use crate::server::*;

/// the event loop is left out
pub async fn start_lsp<R, W>(_: R, _: W) {}
