//! A small macro_rules expander: enough for the crate's one item macro (single `$( $x:ident ),*` patterns and `@tag, $x:tt` rules).
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone)]
pub struct Rule { pat: Vec<TokenTree>, body: TokenStream }
pub fn parse_rules(ts: TokenStream) -> Result<Vec<Rule>, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let TokenTree::Group(p) = &v[i] else { return Err("macro pattern".into()) };
        let Some(TokenTree::Group(b)) = v.get(i + 3) else { return Err("macro body".into()) };
        out.push(Rule { pat: p.stream().into_iter().collect(), body: b.stream() });
        i += 4;
        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') { i += 1; }
    }
    Ok(out)
}
#[derive(Clone)]
enum B { One(TokenTree), Many(Vec<TokenTree>) }
fn is_p(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
fn matches_rule(r: &Rule, input: &[TokenTree]) -> Option<HashMap<String, B>> {
    let mut b = HashMap::new();
    let p = &r.pat;
    let (mut i, mut j) = (0, 0);
    while i < p.len() {
        if is_p(&p[i], '$') {
            if let Some(TokenTree::Group(g)) = p.get(i + 1) {
                // $( $x:kind ) sep *
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let TokenTree::Ident(name) = inner.get(1)? else { return None };
                let mut many = vec![];
                while j < input.len() { many.push(input[j].clone()); j += 1; if j < input.len() { if !is_p(&input[j], ',') { return None; } j += 1; } }
                if many.iter().any(|t| !matches!(t, TokenTree::Ident(_))) { return None; }
                b.insert(name.to_string(), B::Many(many));
                return if j == input.len() { Some(b) } else { None };
            }
            let TokenTree::Ident(name) = p.get(i + 1)? else { return None };
            b.insert(name.to_string(), B::One(input.get(j)?.clone()));
            i += 4;
            j += 1;
        } else {
            if input.get(j)?.to_string() != p[i].to_string() { return None; }
            i += 1;
            j += 1;
        }
    }
    if j == input.len() { Some(b) } else { None }
}
pub fn expand(rules: &[Rule], input: TokenStream, all: &HashMap<String, Vec<Rule>>) -> Result<TokenStream, String> {
    let input: Vec<TokenTree> = input.into_iter().filter(|_| true).collect();
    for r in rules {
        if let Some(b) = matches_rule(r, &input) { let t = subst(r.body.clone(), &b, None)?; return post(t, all); }
    }
    Err("no macro rule matches".into())
}
fn subst(ts: TokenStream, b: &HashMap<String, B>, idx: Option<usize>) -> Result<TokenStream, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if is_p(&v[i], '$') {
            match v.get(i + 1) {
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let mut k = i + 2;
                    let mut sep = None;
                    if !is_p(&v[k], '*') { sep = Some(v[k].clone()); k += 1; }
                    let n = used(g.stream(), b).ok_or("macro repetition without variable")?;
                    for q in 0..n { out.extend(subst(g.stream(), b, Some(q))?); if let Some(s) = &sep { if q + 1 < n { out.extend([s.clone()]); } } }
                    i = k + 1;
                    continue;
                }
                Some(TokenTree::Ident(n)) if n == "crate" => { out.extend([TokenTree::Ident(Ident::new("crate", Span::call_site()))]); i += 2; continue; }
                Some(TokenTree::Ident(n)) => {
                    match (b.get(&n.to_string()), idx) { (Some(B::One(t)), _) => out.extend([t.clone()]), (Some(B::Many(m)), Some(q)) => out.extend([m[q].clone()]), _ => return Err(format!("macro variable {n}")) }
                    i += 2;
                    continue;
                }
                _ => {}
            }
        }
        match &v[i] {
            TokenTree::Group(g) => { let mut ng = Group::new(g.delimiter(), subst(g.stream(), b, idx)?); ng.set_span(Span::call_site()); out.extend([TokenTree::Group(ng)]); }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    Ok(out)
}
fn used(ts: TokenStream, b: &HashMap<String, B>) -> Option<usize> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if is_p(t, '$') { if let Some(TokenTree::Ident(n)) = v.get(i + 1) { if let Some(B::Many(m)) = b.get(&n.to_string()) { return Some(m.len()); } } }
        if let TokenTree::Group(g) = t { if let Some(n) = used(g.stream(), b) { return Some(n); } }
    }
    None
}
/// paste! and nested uses of the crate's own macros
fn post(ts: TokenStream, all: &HashMap<String, Vec<Rule>>) -> Result<TokenStream, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Ident(n), Some(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if is_p(p, '!') {
                let n = n.to_string();
                if n == "paste" { out.extend(paste(g.stream())?); i += 3; continue; }
                if let Some(r) = all.get(&n) { out.extend(expand(r, g.stream(), all)?); i += 3; continue; }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => { let mut ng = Group::new(g.delimiter(), post(g.stream(), all)?); ng.set_span(Span::call_site()); out.extend([TokenTree::Group(ng)]); }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    Ok(out)
}
fn paste(ts: TokenStream) -> Result<TokenStream, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    for t in v {
        if let TokenTree::Group(g) = &t {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            if g.delimiter() == Delimiter::Bracket && inner.first().map_or(false, |t| is_p(t, '<')) && inner.last().map_or(false, |t| is_p(t, '>')) {
                let mut s = String::new();
                let mut k = 1;
                while k + 1 < inner.len() {
                    let mut w = inner[k].to_string();
                    if k + 3 <= inner.len() && is_p(&inner[k + 1], ':') { match inner[k + 2].to_string().as_str() { "lower" => w = w.to_lowercase(), "upper" => w = w.to_uppercase(), x => return Err(format!("paste :{x}")) } k += 2; }
                    s.push_str(&w);
                    k += 1;
                }
                out.extend([TokenTree::Ident(Ident::new(&s, Span::call_site()))]);
                continue;
            }
            out.extend([TokenTree::Group(Group::new(g.delimiter(), paste(g.stream())?))]);
            continue;
        }
        out.extend([t]);
    }
    let _ = (Literal::usize_unsuffixed(0), Punct::new(',', Spacing::Alone));
    Ok(out)
}
