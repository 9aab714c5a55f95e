use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn main(_a: TokenStream, i: TokenStream) -> TokenStream {
    let f: syn::ItemFn = syn::parse(i).unwrap(); let b = &f.block;
    quote::quote! { pub fn main() { tokio::block_on(async #b) } }.into()
}
