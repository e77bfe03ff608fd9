extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream { item }
