//! Stand-in for clap's derive: the struct is built from values the harness supplies; the
//! value parsers and defaults written in the attributes are run.
use proc_macro::TokenStream;
use quote::quote;
use syn::{punctuated::Punctuated, *};

fn generic<'a>(t: &'a Type, name: &str) -> Option<&'a Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == name { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(t)) = a.args.first() { return Some(t) } } }
    }
    None
}

#[proc_macro_derive(Parser, attributes(arg, command, clap, group))]
pub fn parser(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let Data::Struct(s) = &d.data else { panic!("only structs") };
    let mut out = vec![];
    for f in &s.fields {
        let id = f.ident.as_ref().unwrap();
        let ty = &f.ty;
        let (mut long, mut parser, mut dflt_t, mut dflt) = (id.to_string().replace('_', "-"), None, None, None);
        for a in &f.attrs {
            if !a.path().is_ident("arg") && !a.path().is_ident("clap") { continue }
            for m in a.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).expect("arg attribute") {
                match &m {
                    Meta::NameValue(n) if n.path.is_ident("long") => { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &n.value { long = s.value() } }
                    Meta::NameValue(n) if n.path.is_ident("value_parser") => parser = Some(n.value.clone()),
                    Meta::NameValue(n) if n.path.is_ident("default_value_t") => dflt_t = Some(Some(n.value.clone())),
                    Meta::NameValue(n) if n.path.is_ident("default_value") => dflt = Some(n.value.clone()),
                    Meta::Path(p) if p.is_ident("default_value_t") => dflt_t = Some(None),
                    _ => {}
                }
            }
        }
        let is_bool = matches!(ty, Type::Path(p) if p.path.is_ident("bool"));
        out.push(if is_bool { quote!(#id: ::clap::flag(#long)) }
        else if let Some(t) = generic(ty, "Option") {
            match parser { Some(p) => quote!(#id: ::clap::option_with::<#t, _, _>(#long, #p)), None => quote!(#id: ::clap::option::<#t>(#long)) }
        } else {
            let dft = match (&dflt_t, &dflt) { (Some(None), _) => Some(quote!(::std::string::ToString::to_string(&<#ty as ::std::default::Default>::default()))), (Some(Some(e)), _) => Some(quote!({ let v: #ty = #e; ::std::string::ToString::to_string(&v) })), (_, Some(e)) => Some(quote!(::std::string::String::from(#e))), _ => None };
            match (parser, dft) {
                (Some(p), Some(d)) => quote!(#id: ::clap::required_with::<#ty, _, _, _>(#long, Some(|| #d), #p)),
                (Some(p), None) => quote!(#id: ::clap::required_with::<#ty, _, _, _>(#long, None::<fn() -> String>, #p)),
                (None, Some(d)) => quote!(#id: ::clap::required::<#ty, _>(#long, Some(|| #d))),
                (None, None) => quote!(#id: ::clap::required::<#ty, _>(#long, None::<fn() -> String>)),
            }
        });
    }
    quote!(impl ::clap::Parser for #name { fn parse() -> Self { #name { #(#out),* } } }).into()
}
