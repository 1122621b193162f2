//! Attributes of the stand-in crates. `main` turns the async main function into
//! a public function returning its future; the others change nothing.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn instrument(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
#[proc_macro_attribute]
pub fn debug_handler(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut head = String::new();
    let mut ret = String::new();
    let mut body = String::new();
    let mut arrow = 0;
    for t in item {
        match &t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => body = g.to_string(),
            TokenTree::Ident(i) if i.to_string() == "async" || i.to_string() == "pub" => {}
            TokenTree::Punct(p) if arrow == 0 && p.as_char() == '-' => arrow = 1,
            TokenTree::Punct(p) if arrow == 1 && p.as_char() == '>' => arrow = 2,
            _ if arrow == 2 => ret.push_str(&format!("{t} ")),
            TokenTree::Ident(i) if i.to_string() == "fn" => head.push_str("pub fn "),
            _ => head.push_str(&format!("{t} ")),
        }
    }
    if ret.is_empty() {
        ret = "()".into();
    }
    format!("{head} -> impl ::core::future::Future<Output = {ret}> {{ async move {body} }}").parse().unwrap()
}
