//! Stand-in for the engine's derive macro: being a component means nothing to auburn, so nothing is derived.
use proc_macro::TokenStream;
#[proc_macro_derive(Component, attributes(component, require))]
pub fn component(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
