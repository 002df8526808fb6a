//! A stand-in for `async-trait`: `async fn`s of an `impl` become functions returning boxed futures.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, parse_quote, FnArg, ImplItem, ItemImpl, Lifetime, ReturnType, Type};

#[proc_macro_attribute]
pub fn async_trait(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut item = parse_macro_input!(input as ItemImpl);
    for i in &mut item.items {
        let ImplItem::Fn(f) = i else { continue };
        if f.sig.asyncness.take().is_none() {
            continue;
        }
        let mut lifes: Vec<Lifetime> = vec![];
        for a in &mut f.sig.inputs {
            let l = Lifetime::new(&format!("'life{}", lifes.len()), proc_macro2::Span::call_site());
            match a {
                FnArg::Receiver(r) => {
                    if let Some((_, lt)) = &mut r.reference {
                        *lt = Some(l.clone());
                        let m = &r.mutability;
                        r.ty = Box::new(parse_quote!(& #l #m Self));
                        lifes.push(l);
                    }
                }
                FnArg::Typed(t) => {
                    if let Type::Reference(r) = &mut *t.ty {
                        if r.lifetime.is_none() {
                            r.lifetime = Some(l.clone());
                            lifes.push(l);
                        }
                    }
                }
            }
        }
        for l in &lifes {
            f.sig.generics.params.push(parse_quote!(#l));
        }
        f.sig.generics.params.push(parse_quote!('async_trait));
        let w = f.sig.generics.make_where_clause();
        for l in &lifes {
            w.predicates.push(parse_quote!(#l: 'async_trait));
        }
        w.predicates.push(parse_quote!(Self: 'async_trait));
        let out: Type = match &f.sig.output {
            ReturnType::Default => parse_quote!(()),
            ReturnType::Type(_, t) => (**t).clone(),
        };
        f.sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> + ::core::marker::Send + 'async_trait>>);
        let body = &f.block;
        let r = format_ident!("__ret");
        f.block = parse_quote!({ Box::pin(async move { let #r: #out = #body; #r }) });
    }
    quote!(#item).into()
}
