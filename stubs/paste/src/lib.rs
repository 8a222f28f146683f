//! Stand-in for the crate paste (not available here): [<a b:snake:upper>] becomes one identifier.
use proc_macro::*;
fn one(g: &Group) -> Option<Ident> {
    let t: Vec<TokenTree> = g.stream().into_iter().collect();
    if g.delimiter() != Delimiter::Bracket || t.len() < 3 || !matches!(&t[0], TokenTree::Punct(p) if p.as_char() == '<') || !matches!(&t[t.len() - 1], TokenTree::Punct(p) if p.as_char() == '>') { return None; }
    let (mut s, mut span, mut i, mut part) = (String::new(), None, 1, String::new());
    while i < t.len() - 1 {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == ':' => { i += 1; match t[i].to_string().as_str() {
                "snake" => { let (mut a, mut prev) = (String::new(), '_'); for c in part.chars() { if c.is_uppercase() && prev != '_' { a.push('_') } a.push(c); prev = c; } part = a.to_lowercase(); }
                "upper" => part = part.to_uppercase(), "lower" => part = part.to_lowercase(), x => panic!("paste modifier {x}") } }
            x => { s += &part; part = x.to_string().trim_matches('"').to_string(); if span.is_none() { span = Some(x.span()); } }
        }
        i += 1;
    }
    s += &part; Some(Ident::new(&s, span?))
}
fn walk(t: TokenStream) -> TokenStream { t.into_iter().map(|x| match x { TokenTree::Group(g) => match one(&g) { Some(i) => TokenTree::Ident(i), None => { let mut n = Group::new(g.delimiter(), walk(g.stream())); n.set_span(g.span()); TokenTree::Group(n) } }, x => x }).collect() }
#[proc_macro]
pub fn paste(t: TokenStream) -> TokenStream { walk(t) }
