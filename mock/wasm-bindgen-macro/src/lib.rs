//! The functions themselves, without the JavaScript glue; imported functions are left out.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream {
    if let Some(TokenTree::Ident(i)) = item.clone().into_iter().next() {
        if i.to_string() == "extern" {
            return TokenStream::new();
        }
    }
    item
}
