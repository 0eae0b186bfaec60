//! Takes single functions out of files that, as a whole, need crates that are not available offline.
use quote::ToTokens;
use std::collections::BTreeSet;

fn parse(file: &str) -> syn::File {
    println!("cargo:rerun-if-changed={file}");
    syn::parse_file(&std::fs::read_to_string(file).expect("source")).expect("parse")
}
fn idents(t: proc_macro2::TokenStream, o: &mut BTreeSet<String>) {
    for t in t {
        match t {
            proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), o),
            _ => {}
        }
    }
}
fn name(i: &syn::Item) -> Option<String> {
    Some(match i {
        syn::Item::Fn(f) => f.sig.ident.to_string(),
        syn::Item::Const(f) => f.ident.to_string(),
        syn::Item::Static(f) => f.ident.to_string(),
        syn::Item::Enum(f) => f.ident.to_string(),
        syn::Item::Struct(f) => f.ident.to_string(),
        syn::Item::Type(f) => f.ident.to_string(),
        syn::Item::Trait(f) => f.ident.to_string(),
        syn::Item::Macro(m) => m.ident.as_ref()?.to_string(),
        _ => return None,
    })
}
/// the text of the items a text uses, and of those they use, and so on
fn closure(f: &syn::File, start: &str, leave: &[&str]) -> String {
    let mut used = BTreeSet::new();
    idents(start.parse().unwrap(), &mut used);
    let mut taken = BTreeSet::new();
    loop {
        let n = taken.len();
        for (k, i) in f.items.iter().enumerate() {
            let take = match i {
                syn::Item::Impl(m) => { let t = m.self_ty.to_token_stream().to_string(); f.items.iter().enumerate().any(|(j, x)| taken.contains(&j) && name(x).as_deref() == Some(t.as_str())) }
                _ => name(i).is_some_and(|n| used.contains(&n) && !leave.contains(&n.as_str())),
            };
            if take && taken.insert(k) { idents(i.to_token_stream(), &mut used); }
        }
        if taken.len() == n { break; }
    }
    let mut s = String::new();
    // macros first: they are in scope only below their definition
    for k in taken.iter().filter(|k| matches!(f.items[**k], syn::Item::Macro(_))).chain(taken.iter().filter(|k| !matches!(f.items[**k], syn::Item::Macro(_)))) {
        s.push_str(&f.items[*k].to_token_stream().to_string());
        s.push('\n');
    }
    s
}
/// the imports that can be resolved here
fn uses(f: &syn::File, roots: &[&str]) -> String {
    let mut s = String::new();
    for i in &f.items {
        let syn::Item::Use(u) = i else { continue };
        let t = u.tree.to_token_stream().to_string();
        if roots.iter().any(|r| t == *r || t.starts_with(&format!("{r} ::"))) { s.push_str(&i.to_token_stream().to_string()); s.push('\n'); }
    }
    s
}
fn write(out: &str, s: String) { std::fs::write(format!("{}/{out}", std::env::var("OUT_DIR").unwrap()), s).unwrap(); }

fn main() {
    // the methods of the server's state, without its constructor
    let f = parse("/repo/crates/lsp/src/main_loop.rs");
    let mut m = String::new();
    for item in &f.items {
        let syn::Item::Impl(i) = item else { continue };
        if i.self_ty.to_token_stream().to_string() != "LspState" { continue; }
        let mut i = i.clone();
        if i.trait_.is_none() { i.items.retain(|x| match x { syn::ImplItem::Fn(f) => f.sig.ident != "new", _ => true }); }
        m.push_str(&i.to_token_stream().to_string());
    }
    let rest = closure(&f, &m, &["LspState", "GlobalState", "AuxiliaryState", "Event", "KernelNotification", "AuxiliaryEvent", "AuxiliaryEventSender", "LoopControl"]);
    write("lsp_state.rs", uses(&f, &["std", "core", "anyhow"]) + &m + &rest);
    // formatting a document; range formatting works on biome's syntax trees
    let f = parse("/repo/crates/lsp/src/handlers_format.rs");
    let s = closure(&f, "document_formatting", &["document_range_formatting"]);
    write("handlers_format.rs", uses(&f, &["std", "core", "anyhow", "itertools", "biome_text_size", "settings", "tower_lsp", "workspace", "crate", "aether_lsp_utils", "line_ending", "url", "tracing"]) + &s);
}
