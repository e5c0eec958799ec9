// Stand-in for the derive macro of the enum-map crate (not available offline): unit-variant enums only.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Enum)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut variants = vec![];
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            if i.to_string() == "enum" {
                name = it.next().unwrap().to_string();
            }
        }
        if let TokenTree::Group(g) = &t {
            if !name.is_empty() {
                for x in g.stream() {
                    if let TokenTree::Ident(v) = x {
                        variants.push(v.to_string());
                    }
                }
            }
        }
    }
    let arms: String = variants.iter().enumerate().map(|(i, v)| format!("{}::{} => {},", name, v, i)).collect();
    format!(
        "impl ::enum_map::Enum for {} {{ const LENGTH: usize = {}; fn into_usize(self) -> usize {{ match self {{ {} }} }} }}",
        name, variants.len(), arms
    ).parse().unwrap()
}
