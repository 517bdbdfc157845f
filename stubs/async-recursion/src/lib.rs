use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_attribute]
pub fn async_recursion(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut f: syn::ItemFn = syn::parse(item).unwrap();
    f.sig.asyncness = None;
    let ret = match &f.sig.output {
        syn::ReturnType::Default => quote!(()),
        syn::ReturnType::Type(_, t) => quote!(#t),
    };
    f.sig.output = syn::parse2(quote!(-> ::std::pin::Pin<Box<dyn ::std::future::Future<Output = #ret>>>)).unwrap();
    let (attrs, vis, sig, block) = (&f.attrs, &f.vis, &f.sig, &f.block);
    quote!(#(#attrs)* #vis #sig { Box::pin(async move #block) }).into()
}
