// Contracts for the documents of the language server: crates/lsp/src/{documents,state,handlers_state}.rs (property K01).
#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_imports, non_snake_case, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::utf8::*;

// panicking does not return; error values carry no meaning here
macro_rules! give_up { ($($t:tt)*) => { refuse() } }
macro_rules! anyhow { ($($t:tt)*) => { anyhow::error() } }

verus! {
//@@ include inc/text_size.rs
//@@ include inc/edits.rs
//@@ include inc/lsp.rs
//@@ include inc/endings.rs
use code::{Indel, PositionEncoding, LineEnding, Document, DocumentSettings, WorldState};
use lsp_types::TextDocumentContentChangeEvent as Change;
//@@ include inc/changes.rs
//@@ include inc/utf8.rs
//@@ include inc/mixed.rs

/// a panic
#[verifier::external_body]
pub fn refuse() -> (r: ())
    ensures false,
{ unimplemented!() }

// ---------------------------------------------------------------- functions of other units, by the contracts proved there
pub mod line_ending {
use super::*;
//@@ source crates/line_ending/src/lib.rs
//@@ assume line_ending normalize
//@@ end
//@@ assume line_ending infer
//@@ end
}
pub mod from_proto {
use super::*;
//@@ source crates/aether_lsp_utils/src/proto/from_proto.rs
//@@ assume proto apply_text_changes
//@@ end
}
/// the R parser is a function of the text (not available offline)
pub mod air_r_parser {
use super::*;
#[verifier::external_body]
pub struct RParserOptions { x: u8 }
impl Default for RParserOptions {
    #[verifier::external_body]
    fn default() -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct Parse { x: u8 }
impl Parse { pub uninterp spec fn source(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn parse(text: &str, options: RParserOptions) -> (r: Parse)
    ensures r.source() == text@,
{ unimplemented!() }
}
pub mod settings {
use vstd::prelude::*;
#[verifier::external_body] #[derive(Clone, Copy)]
pub struct IndentWidth { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)]
pub struct LineWidth { x: u16 }
pub use super::code::{IndentStyle, LineEnding};
}
impl Default for DocumentSettings {
    /// derived
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r == (DocumentSettings { indent_style: None, indent_width: None, line_width: None }),
    { unimplemented!() }
}

// ---------------------------------------------------------------- assumed contracts: std, url
//@@ include inc/world.rs
pub mod lsp_params {
use super::*;
pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
pub struct TextDocumentIdentifier { pub uri: Url }
pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<Change> }
pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
}
pub use lsp_params::*;

// ---------------------------------------------------------------- specification
/// the fields of a document belong together
pub open spec fn wf_doc(d: Document) -> bool { d.line_index.text() == bytes(d.contents@) && d.parse.source() == d.contents@ }
/// the client's changes fit the server's text
pub open spec fn fit(d: Document, v: Seq<Change>) -> bool {
    run(bytes(d.contents@), d.position_encoding, v) is Some && run(bytes(d.contents@), d.position_encoding, v)->Some_0.len() <= u32::MAX
}
/// the server's text is the client's text after the same changes
pub open spec fn follows(d0: Document, d1: Document, v: Seq<Change>, version: i32) -> bool {
    &&& wf_doc(d1)
    &&& forall|c: Seq<u8>| #![trigger client_run(c, d0.position_encoding, v)] mirrors(c, bytes(d0.contents@)) ==> mirrors(client_run(c, d0.position_encoding, v), bytes(d1.contents@))
    &&& Some(bytes(d1.contents@)) == run(bytes(d0.contents@), d0.position_encoding, v)
    &&& d1.version == Some(version) && (d0.version matches Some(old) ==> old <= version)
    &&& d1.endings == d0.endings && d1.position_encoding == d0.position_encoding && d1.settings == d0.settings
}
pub proof fn lemma_follows(t: Seq<u8>, enc: PositionEncoding, v: Seq<Change>)
    requires run(t, enc, v) is Some,
    ensures forall|c: Seq<u8>| #![trigger client_run(c, enc, v)] mirrors(c, t) ==> mirrors(client_run(c, enc, v), run(t, enc, v)->Some_0),
{
    assert forall|c: Seq<u8>| #![trigger client_run(c, enc, v)] mirrors(c, t) implies mirrors(client_run(c, enc, v), run(t, enc, v)->Some_0) by { lemma_mirror_run(c, t, enc, v); }
}
/// the text has no CRLF left
pub proof fn lemma_strip_none(s: Seq<char>)
    ensures !has_crlf_c(s) ==> strip_c(s) == s,
    decreases s.len(),
{
    if s.len() > 0 && !has_crlf_c(s) {
        assert(!crlf_at_c(s, 0));
        assert(!has_crlf_c(s.skip(1))) by {
            if has_crlf_c(s.skip(1)) { let i = choose|i: int| crlf_at_c(s.skip(1), i); assert(crlf_at_c(s, i + 1)); }
        }
        lemma_strip_none(s.skip(1));
        assert(strip_c(s) =~= s);
    }
}

// ---------------------------------------------------------------- the code
pub mod code {
use super::*;

//@@ source crates/aether_lsp_utils/src/text_edit.rs
//@@ item struct Indel
//@@   public
//@@ end
//@@ source crates/aether_lsp_utils/src/proto.rs
//@@ item enum PositionEncoding
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/line_ending.rs
//@@ item enum LineEnding
//@@   derive Clone, Copy
//@@ end
//@@ source crates/settings/src/indent_style.rs
//@@ item enum IndentStyle
//@@   derive Clone, Copy
//@@ end
//@@ source crates/lsp/src/settings.rs
//@@ item struct DocumentSettings
//@@   public
//@@ end
//@@ source crates/lsp/src/documents.rs
//@@ item struct Document
//@@   public
//@@ end
//@@ impl Document
//@@ item fn Document::new
//@@   ret r
//@@   public
//@@ + spec
    requires bytes(contents@).len() <= u32::MAX, bytes(strip_c(contents@)).len() <= u32::MAX,
    ensures
        wf_doc(r), r.contents@ == strip_c(contents@), mirrors(bytes(contents@), bytes(r.contents@)),
        has_crlf_c(contents@) ==> r.endings is Crlf, !has_crlf_c(contents@) ==> r.endings is Lf,
        r.version == version, r.position_encoding == position_encoding,
        r.settings == (DocumentSettings { indent_style: None, indent_width: None, line_width: None }),
//@@ + body
    let ghost c = contents@;
    proof { lemma_strip_none(c); lemma_strip_mirrors(c); }
//@@ end
//@@ item fn Document::on_did_change
//@@   public
//@@   rewrite? `panic !` => `give_up!`
//@@ + spec
    requires wf_doc(*old(self)), fit(*old(self), changes@),
    ensures follows(*old(self), *final(self), changes@, new_version),
//@@ + body
    proof { lemma_follows(bytes(self.contents@), self.position_encoding, changes@); }
//@@ + before `panic !`
    proof { assert(new_version < old_version); }
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/state.rs
//@@ item struct WorldState
//@@   public
//@@ end
//@@ impl WorldState
//@@ item fn WorldState::get_document
//@@   ret r
//@@   public
//@@ + spec
    ensures match r { Some(d) => self.documents@.contains_key(*uri) && *d == self.documents@[*uri], None => !self.documents@.contains_key(*uri) },
//@@ end
//@@ item fn WorldState::get_document_mut
//@@   ret r
//@@   public
//@@ + spec
    ensures
        final(self).console_scopes == old(self).console_scopes, final(self).installed_packages == old(self).installed_packages,
        match r {
            Some(d) => old(self).documents@.contains_key(*uri) && *d == old(self).documents@[*uri] && final(self).documents@ == old(self).documents@.insert(*uri, *final(d)),
            None => !old(self).documents@.contains_key(*uri) && final(self).documents@ == old(self).documents@,
        },
//@@ end
//@@ item fn WorldState::get_document_or_error
//@@   ret r
//@@   public
//@@ + spec
    ensures match r { Ok(d) => self.documents@.contains_key(*uri) && *d == self.documents@[*uri], Err(_) => !self.documents@.contains_key(*uri) },
//@@ end
//@@ item fn WorldState::get_document_mut_or_error
//@@   ret r
//@@   public
//@@ + spec
    ensures
        match r {
            Ok(d) => old(self).documents@.contains_key(*uri) && *d == old(self).documents@[*uri] && final(self).documents@ == old(self).documents@.insert(*uri, *final(d)),
            Err(_) => !old(self).documents@.contains_key(*uri) && final(self).documents@ == old(self).documents@,
        },
//@@ end
//@@ endimpl
//@@ source crates/lsp/src/handlers_state.rs
//@@ item fn did_change
//@@   ret r
//@@   public
//@@ + spec
    requires
        old(state).documents@.contains_key(params.text_document.uri) ==>
            wf_doc(old(state).documents@[params.text_document.uri]) && fit(old(state).documents@[params.text_document.uri], params.content_changes@),
    ensures
        r is Ok <==> old(state).documents@.contains_key(params.text_document.uri),
        r is Err ==> final(state).documents@ == old(state).documents@,
        r is Ok ==> final(state).documents@.contains_key(params.text_document.uri)
            && follows(old(state).documents@[params.text_document.uri], final(state).documents@[params.text_document.uri], params.content_changes@, params.text_document.version),
        // no other document is touched
        final(state).documents@.remove(params.text_document.uri) == old(state).documents@.remove(params.text_document.uri),
//@@ + body
    let ghost u = params.text_document.uri;
    proof {
        assert forall|d: Document| #[trigger] state.documents@.insert(u, d).remove(u) == state.documents@.remove(u) by { assert(state.documents@.insert(u, d).remove(u) =~= state.documents@.remove(u)); }
    }
//@@ end
//@@ item fn did_close
//@@   ret r
//@@   public
//@@ + spec
    ensures
        final(state).documents@ == old(state).documents@.remove(params.text_document.uri),
        r is Ok <==> old(state).documents@.contains_key(params.text_document.uri),
//@@ end
}

fn main() {}
} // verus!
