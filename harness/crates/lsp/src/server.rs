//! What the driver sees of the server.
use crate::main_loop::LspState;
use crate::state::WorldState;
use crate::{handlers_format, handlers_state};
use aether_lsp_utils::proto::PositionEncoding;
use std::future::Future;
use std::path::Path;
use tower_lsp::lsp_types::*;

/// what a document looks like to the server
#[derive(Debug, Clone, PartialEq)]
pub struct Doc {
    pub contents: String,
    /// start of every line of the line index
    pub index: biome_line_index::LineIndex,
    pub parsed: String,
    pub crlf: bool,
    pub version: Option<i32>,
    pub indent_style: Option<settings::IndentStyle>,
    pub indent_width: Option<settings::IndentWidth>,
    pub line_width: Option<settings::LineWidth>,
}

pub struct Server { world: WorldState, lsp: LspState }

fn done<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; }
    }
}

impl Server {
    pub fn new(params: InitializeParams, client: tower_lsp::Client) -> (Server, anyhow::Result<InitializeResult>) {
        let mut s = Server { world: WorldState::default(), lsp: LspState::new(client) };
        let r = handlers_state::initialize(params, &mut s.lsp, ());
        (s, r)
    }
    pub fn encoding(&self) -> PositionEncoding { self.lsp.position_encoding }
    pub fn client(&self) -> &tower_lsp::Client { &self.lsp.client }
    pub fn client_mut(&mut self) -> &mut tower_lsp::Client { &mut self.lsp.client }
    pub fn open(&mut self, p: DidOpenTextDocumentParams) -> anyhow::Result<()> { done(handlers_state::did_open(p, &mut self.lsp, &mut self.world)) }
    pub fn change(&mut self, p: DidChangeTextDocumentParams) -> anyhow::Result<()> { handlers_state::did_change(p, &mut self.world) }
    pub fn close(&mut self, p: DidCloseTextDocumentParams) -> anyhow::Result<()> { handlers_state::did_close(p, &mut self.world) }
    pub fn configuration(&mut self) -> anyhow::Result<()> { done(handlers_state::did_change_configuration(DidChangeConfigurationParams {}, &mut self.lsp, &mut self.world)) }
    pub fn folders(&mut self, p: DidChangeWorkspaceFoldersParams) -> anyhow::Result<()> { handlers_state::did_change_workspace_folders(p, &mut self.lsp) }
    pub fn watched(&mut self, p: DidChangeWatchedFilesParams) -> anyhow::Result<()> { done(handlers_state::did_change_watched_files(p, &mut self.lsp, &self.world)) }
    /// as the event loop does it
    pub fn format(&mut self, p: DocumentFormattingParams) -> anyhow::Result<Option<Vec<TextEdit>>> {
        handlers_state::did_change_formatting_options(&p.text_document.uri, &p.options, &mut self.world);
        handlers_format::document_formatting(p, &self.lsp, &self.world)
    }
    pub fn doc(&self, u: &Url) -> Option<Doc> {
        self.world.get_document(u).map(|d| Doc {
            contents: d.contents.clone(), index: d.line_index.clone(), parsed: d.parse.syntax(),
            crlf: matches!(d.endings, settings::LineEnding::Crlf), version: d.version,
            indent_style: d.settings.indent_style, indent_width: d.settings.indent_width, line_width: d.settings.line_width,
        })
    }
    pub fn docs(&self) -> Vec<Url> { let mut v = self.world.workspace_uris(); v.sort(); v }
    /// the settings used for a document: from a configuration file or the fallback
    pub fn settings(&self, u: &Url) -> (bool, &workspace::settings::Settings) {
        match self.lsp.workspace_document_settings(u) {
            crate::workspaces::WorkspaceSettings::Toml(s) => (true, s),
            crate::workspaces::WorkspaceSettings::Fallback(s) => (false, s),
        }
    }
    /// the format options used for a text
    pub fn options(&self, u: &Url, source: &str) -> air_r_formatter::context::RFormatOptions {
        let w = self.lsp.workspace_document_settings(u);
        let d = self.world.get_document(u).map(|d| d.settings.clone()).unwrap_or_default();
        w.to_format_options(source, &d)
    }
}
