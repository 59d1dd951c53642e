//! `#[derive(Module)]` of the stand-in `burn` crate: visits every field.
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, Fields, parse_macro_input};

#[proc_macro_derive(Module, attributes(module))]
pub fn module(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wg) = input.generics.split_for_impl();
    let Data::Struct(d) = &input.data else {
        panic!("struct expected")
    };
    let Fields::Named(f) = &d.fields else {
        panic!("named fields expected")
    };
    let visits = f.named.iter().map(|f| {
        let id = f.ident.as_ref().unwrap();
        let s = id.to_string();
        quote! { burn::module::ModuleField::visit_field(&mut self.#id, #s, v); }
    });
    let clones = f.named.iter().map(|f| {
        let id = f.ident.as_ref().unwrap();
        quote! { #id: self.#id.clone(), }
    });
    let sname = name.to_string();
    quote! {
        impl #ig burn::module::ModuleField for #name #tg #wg {
            fn visit_field(&mut self, name: &str, v: &mut dyn burn::module::ParamVisitor) {
                if !name.is_empty() { v.enter(name, concat!("Struct:", #sname)); }
                #(#visits)*
                if !name.is_empty() { v.exit(); }
            }
        }
        impl #ig burn::module::Module for #name #tg #wg {}
        impl #ig Clone for #name #tg #wg {
            fn clone(&self) -> Self { Self { #(#clones)* } }
        }
    }
    .into()
}
