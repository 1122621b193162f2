//! Derives of the stand-in for clap. That of `Parser` also makes the program's
//! main function callable from outside, as `stub_main`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, Meta, Token};

fn kebab(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    for i in 0..c.len() {
        if c[i] == '_' {
            out.push('-');
            continue;
        }
        if i > 0 && c[i].is_uppercase() && (!c[i - 1].is_uppercase() || c.get(i + 1).is_some_and(|n| n.is_lowercase())) {
            out.push('-');
        }
        out.extend(c[i].to_lowercase());
    }
    out
}
fn has(attrs: &[Attribute], word: &str) -> bool {
    value(attrs, word).is_some()
}
/// `word` or `word = "text"` in one of clap's attributes.
fn value(attrs: &[Attribute], word: &str) -> Option<Option<String>> {
    for a in attrs {
        if !["arg", "command", "clap"].iter().any(|n| a.path().is_ident(n)) {
            continue;
        }
        let Ok(l) = a.parse_args_with(syn::punctuated::Punctuated::<Meta, Token![,]>::parse_terminated) else { continue };
        for m in l {
            match m {
                Meta::Path(p) if p.is_ident(word) => return Some(None),
                Meta::NameValue(n) if n.path.is_ident(word) => {
                    return Some(match &n.value {
                        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(c), .. }) => Some(c.value().to_string()),
                        _ => None,
                    })
                }
                _ => {}
            }
        }
    }
    None
}
fn build(path: T, f: &Fields) -> T {
    match f {
        Fields::Unit => quote!(#path),
        Fields::Named(n) => {
            // what has a name is taken out first
            let (mut named, mut rest, mut names, mut vars) = (vec![], vec![], vec![], vec![]);
            for f in &n.named {
                let (i, t) = (f.ident.as_ref().unwrap(), &f.ty);
                let v = format_ident!("f_{}", i);
                if has(&f.attrs, "subcommand") {
                    rest.push(quote!(let #v: #t = ::clap::Subcommand::take(w);));
                } else if has(&f.attrs, "long") || has(&f.attrs, "short") {
                    let long = value(&f.attrs, "long").map(|l| format!("--{}", l.unwrap_or_else(|| kebab(&i.to_string())))).unwrap_or_default();
                    let short = value(&f.attrs, "short").map(|s| format!("-{}", s.unwrap_or_else(|| i.to_string()[..1].into()))).unwrap_or_default();
                    named.push(quote!(let #v: #t = ::clap::stub::Named::take(w, #long, #short);));
                } else {
                    rest.push(quote!(let #v: #t = w.word();));
                }
                names.push(i.clone());
                vars.push(v);
            }
            quote!({ #(#named)* #(#rest)* #path { #(#names: #vars),* } })
        }
        Fields::Unnamed(n) => {
            let a = n.unnamed.iter().map(|_| quote!(::clap::Args::take(w)));
            quote!(#path(#(#a),*))
        }
    }
}
fn parser(d: &DeriveInput, tr: T, main: bool) -> T {
    let n = &d.ident;
    let b = match &d.data {
        Data::Struct(s) => build(quote!(#n), &s.fields),
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let i = &v.ident;
                let name = value(&v.attrs, "name").flatten().unwrap_or_else(|| kebab(&i.to_string()));
                let b = build(quote!(#n::#i), &v.fields);
                let cfg: Vec<_> = v.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
                quote!(#(#cfg)* #name => #b,)
            });
            quote!({ let c: String = w.word(); match c.as_str() { #(#arms)* _ => ::clap::stub::wrong() } })
        }
        _ => panic!("unions"),
    };
    let entry = if main {
        quote!(
            #[doc(hidden)]
            pub fn stub_main() -> bool {
                ::std::process::Termination::report(crate::main()) == ::std::process::ExitCode::SUCCESS
            }
        )
    } else {
        quote!()
    };
    quote!(
        impl ::clap::#tr for #n {
            fn take(w: &mut ::clap::stub::Words) -> Self { #b }
        }
        #entry
    )
}
#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn derive_parser(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    parser(&d, quote!(Parser), true).into()
}
#[proc_macro_derive(Subcommand, attributes(command, arg, clap))]
pub fn derive_subcommand(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    parser(&d, quote!(Subcommand), false).into()
}
#[proc_macro_derive(Args, attributes(command, arg, clap))]
pub fn derive_args(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    parser(&d, quote!(Args), false).into()
}
