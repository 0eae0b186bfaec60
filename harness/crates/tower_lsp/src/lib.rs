//! Stand-in for the part of tower-lsp / lsp-types the checked code uses (not available offline).
pub mod lsp_types {
    pub use url::Url;
    use serde::{Deserialize, Serialize};
    #[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Copy, Clone, Default, Hash, Deserialize, Serialize)]
    pub struct Position { pub line: u32, pub character: u32 }
    impl Position { pub fn new(line: u32, character: u32) -> Position { Position { line, character } } }
    #[derive(Debug, Eq, PartialEq, Copy, Clone, Default, Hash, Deserialize, Serialize)]
    pub struct Range { pub start: Position, pub end: Position }
    impl Range { pub fn new(start: Position, end: Position) -> Range { Range { start, end } } }
    #[derive(Debug, Eq, PartialEq, Clone, Default, Deserialize, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct TextEdit { pub range: Range, pub new_text: String }
    impl TextEdit { pub fn new(range: Range, new_text: String) -> TextEdit { TextEdit { range, new_text } } }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    pub struct TextDocumentIdentifier { pub uri: Url }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct TextDocumentItem { pub uri: Url, pub language_id: String, pub version: i32, pub text: String }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
    #[derive(Debug, Eq, PartialEq, Clone, Default, Deserialize, Serialize)]
    #[serde(rename_all = "camelCase")]
    pub struct FormattingOptions {
        pub tab_size: u32, pub insert_spaces: bool, pub trim_trailing_whitespace: Option<bool>,
        pub insert_final_newline: Option<bool>, pub trim_final_newlines: Option<bool>,
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct WorkDoneProgressParams { pub work_done_token: Option<i32> }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct DocumentFormattingParams { pub text_document: TextDocumentIdentifier, pub options: FormattingOptions, pub work_done_progress_params: WorkDoneProgressParams }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct DocumentRangeFormattingParams { pub text_document: TextDocumentIdentifier, pub range: Range, pub options: FormattingOptions, pub work_done_progress_params: WorkDoneProgressParams }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    pub struct WorkspaceFolder { pub uri: Url, pub name: String }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct WorkspaceFoldersChangeEvent { pub added: Vec<WorkspaceFolder>, pub removed: Vec<WorkspaceFolder> }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct DidChangeWorkspaceFoldersParams { pub event: WorkspaceFoldersChangeEvent }
    #[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
    pub struct PositionEncodingKind(std::borrow::Cow<'static, str>);
    impl PositionEncodingKind {
        pub const UTF8: Self = Self(std::borrow::Cow::Borrowed("utf-8"));
        pub const UTF16: Self = Self(std::borrow::Cow::Borrowed("utf-16"));
        pub const UTF32: Self = Self(std::borrow::Cow::Borrowed("utf-32"));
    }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct ConfigurationItem { pub scope_uri: Option<Url>, pub section: Option<String> }
    #[derive(Debug, Eq, PartialEq, Clone, Default)]
    pub struct DidChangeConfigurationParams {}
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct FileEvent { pub uri: Url, pub typ: FileChangeType }
    #[derive(Debug, Eq, PartialEq, Clone, Copy)]
    pub struct FileChangeType(i32);
    impl FileChangeType { pub const CREATED: FileChangeType = FileChangeType(1); pub const CHANGED: FileChangeType = FileChangeType(2); pub const DELETED: FileChangeType = FileChangeType(3); }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub struct DidChangeWatchedFilesParams { pub changes: Vec<FileEvent> }
    #[derive(Debug, Eq, PartialEq, Clone)]
    pub enum OneOf<A, B> { Left(A), Right(B) }
    #[derive(Debug, Clone, Default)]
    pub struct ClientInfo { pub name: String, pub version: Option<String> }
    #[derive(Debug, Clone, Default)]
    pub struct GeneralClientCapabilities { pub position_encodings: Option<Vec<PositionEncodingKind>> }
    #[derive(Debug, Clone, Copy, Default)]
    pub struct DynamicRegistration { pub dynamic_registration: Option<bool> }
    #[derive(Debug, Clone, Default)]
    pub struct WorkspaceClientCapabilities { pub did_change_configuration: Option<DynamicRegistration>, pub did_change_watched_files: Option<DynamicRegistration>, pub configuration: Option<bool> }
    #[derive(Debug, Clone, Default)]
    pub struct ClientCapabilities { pub general: Option<GeneralClientCapabilities>, pub workspace: Option<WorkspaceClientCapabilities> }
    #[derive(Debug, Clone, Default)]
    pub struct InitializeParams {
        pub initialization_options: Option<serde_json::Value>, pub client_info: Option<ClientInfo>,
        pub workspace_folders: Option<Vec<WorkspaceFolder>>, pub capabilities: ClientCapabilities,
    }
    #[derive(Debug, Clone, Default)]
    pub struct ServerInfo { pub name: String, pub version: Option<String> }
    #[derive(Debug, Eq, PartialEq, Clone, Copy)]
    pub struct TextDocumentSyncKind(i32);
    impl TextDocumentSyncKind {
        pub const NONE: Self = Self(0);
        pub const FULL: Self = Self(1);
        pub const INCREMENTAL: Self = Self(2);
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum TextDocumentSyncCapability { Kind(TextDocumentSyncKind) }
    #[derive(Debug, Clone)]
    pub struct WorkspaceFoldersServerCapabilities { pub supported: Option<bool>, pub change_notifications: Option<OneOf<bool, String>> }
    #[derive(Debug, Clone)]
    pub struct WorkspaceServerCapabilities { pub workspace_folders: Option<WorkspaceFoldersServerCapabilities>, pub file_operations: Option<()> }
    #[derive(Debug, Clone, Default)]
    pub struct ServerCapabilities {
        pub position_encoding: Option<PositionEncodingKind>, pub text_document_sync: Option<TextDocumentSyncCapability>, pub workspace: Option<WorkspaceServerCapabilities>,
        pub document_formatting_provider: Option<OneOf<bool, ()>>, pub document_range_formatting_provider: Option<OneOf<bool, ()>>, pub hover_provider: Option<bool>,
    }
    #[derive(Debug, Clone, Default)]
    pub struct InitializeResult { pub server_info: Option<ServerInfo>, pub capabilities: ServerCapabilities }
    pub mod notification { pub trait Notification { type Params: serde::Serialize; const METHOD: &'static str; } }
}
/// Stand-in for the connection to the client: answers configuration requests, keeps notifications.
type Answer = Box<dyn Fn(&lsp_types::ConfigurationItem) -> serde_json::Value>;
#[derive(Default)]
pub struct Client { pub answer: Option<Answer>, pub sent: std::cell::RefCell<Vec<(String, serde_json::Value)>> }
impl Client {
    pub async fn configuration(&self, items: Vec<lsp_types::ConfigurationItem>) -> Result<Vec<serde_json::Value>, std::io::Error> {
        Ok(items.iter().map(|i| self.answer.as_ref().map_or(serde_json::Value::Null, |f| f(i))).collect())
    }
    pub async fn send_notification<N: lsp_types::notification::Notification>(&self, params: N::Params) {
        self.sent.borrow_mut().push((N::METHOD.to_string(), serde_json::to_value(params).unwrap()));
    }
}
