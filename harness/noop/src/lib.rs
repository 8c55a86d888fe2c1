//! A derive macro which accepts everything, to show that generated declarations are otherwise fine.

#[proc_macro_derive(Request, attributes(oauth1))]
pub fn request(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    proc_macro::TokenStream::new()
}
