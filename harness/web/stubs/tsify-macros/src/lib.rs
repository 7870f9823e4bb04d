use proc_macro::TokenStream;

#[proc_macro_derive(Tsify, attributes(tsify))]
pub fn tsify(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
