//! `rpc`: the server side trait of an RPC interface, named as jsonrpsee names it.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
#[proc_macro_attribute]
pub fn rpc(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut t: syn::ItemTrait = syn::parse(item).unwrap();
    for i in &mut t.items { if let syn::TraitItem::Fn(f) = i { f.attrs.retain(|a| !a.path().is_ident("method")) } }
    t.ident = format_ident!("{}Server", t.ident);
    t.items.push(syn::parse_quote! { fn into_rpc(self) -> jsonrpsee::RpcModule where Self: Send + Sync + Sized + 'static { jsonrpsee::RpcModule::new(self) } });
    quote! { #[jsonrpsee::core::async_trait] #t }.into()
}
