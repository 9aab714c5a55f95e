use proc_macro::TokenStream;
#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn parser(i: TokenStream) -> TokenStream {
    let s: syn::ItemStruct = syn::parse(i).unwrap(); let n = &s.ident; let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    quote::quote! { impl clap::Parser for #n { fn parse() -> Self { Self { #(#f: clap::FromArg::from_arg(stringify!(#f))),* } } } }.into()
}
