// Stand-in for pyo3's attributes: the items stay, the attributes go.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut k = 0;
    while k < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[k], v.get(k + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                if let Some(TokenTree::Ident(i)) = g.stream().into_iter().next() {
                    let s = i.to_string();
                    if ["pyo3", "new", "getter", "setter", "pyclass", "pyfunction", "pymethods", "staticmethod"].contains(&s.as_str()) {
                        k += 2;
                        continue;
                    }
                }
            }
        }
        out.push(match &v[k] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            },
            t => t.clone(),
        });
        k += 1;
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, i: TokenStream) -> TokenStream { strip(i) }
#[proc_macro_attribute]
pub fn pyclass(_: TokenStream, i: TokenStream) -> TokenStream { strip(i) }
#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, i: TokenStream) -> TokenStream { strip(i) }
#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, _: TokenStream) -> TokenStream { TokenStream::new() }
