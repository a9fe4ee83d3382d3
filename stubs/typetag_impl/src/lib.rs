use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Item, Type};
/// trait: leaves it, adds the registration macro; impl without generics: leaves it, adds its registration
#[proc_macro_attribute]
pub fn serde(_: TokenStream, item: TokenStream) -> TokenStream {
    let it = syn::parse_macro_input!(item as Item);
    match &it {
        Item::Trait(t) => {
            let name = &t.ident;
            let reg = format_ident!("register_{}", name.to_string().to_lowercase());
            quote! { #it
                #[allow(unused_macros)] #[macro_export] macro_rules! #reg { ($t:ty) => { const _: () = { fn __typetag_tag() { <dyn #name>::typetag_register(stringify!($t), deserialize::<$t>()); } }; } }
            }.into()
        }
        Item::Impl(i) => {
            let tr = i.trait_.as_ref().unwrap().1.segments.last().unwrap().ident.to_string();
            let ty = &i.self_ty;
            let n = i.generics.params.len();
            let s = match &**ty { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => "?".to_string() };
            quote! { #it const _: () = { fn __typetag_impl() { typetag::__private::impl_of(#tr, #s, #n); } }; }.into()
        }
        _ => quote! { #it }.into(),
    }
}
