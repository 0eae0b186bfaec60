//! Stand-in for the derive of struct-field-names-as-array (not available offline):
//! the names of the fields, in order, as an associated constant.
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(FieldNamesAsArray)]
pub fn field_names(input: TokenStream) -> TokenStream {
    let item: syn::ItemStruct = syn::parse(input).expect("a struct");
    let name = &item.ident;
    let fields: Vec<String> = item.fields.iter().map(|f| f.ident.as_ref().expect("named").to_string()).collect();
    let n = fields.len();
    quote! { impl #name { pub const FIELD_NAMES_AS_ARRAY: [&'static str; #n] = [#(#fields),*]; } }.into()
}
