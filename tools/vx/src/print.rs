//! Token printer with line breaks; puts the contract texts in place.
use crate::lower::Text;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Default)]
pub struct Out { pub s: String, pub line: usize, pub marks: Vec<(usize, usize, Vec<String>)> }
impl Out {
    pub fn put(&mut self, t: &str) { for c in t.chars() { if c == '\n' { self.line += 1; } } self.s.push_str(t); }
    pub fn nl(&mut self) { if !self.s.ends_with('\n') { self.put("\n"); } }
}
fn placeholder(v: &[TokenTree], i: usize) -> Option<usize> {
    if let (TokenTree::Ident(n), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
        if (n == "vx_text" || n == "vx_loop") && p.as_char() == '!' { return g.stream().to_string().parse().ok(); }
    }
    None
}
fn text(o: &mut Out, t: &Text) {
    o.nl();
    let base = o.line;
    for (a, b, l) in &t.clauses { o.marks.push((base + a, base + b, l.clone())); }
    o.put(&t.text);
    o.nl();
}
pub fn print(ts: TokenStream, texts: &[Text], o: &mut Out, brace: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut joint = true;
    while i < v.len() {
        if let Some(n) = placeholder(&v, i) {
            text(o, &texts[n]);
            i += 3;
            if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') { i += 1; }
            joint = true;
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{", "}"), Delimiter::None => ("", "") };
                let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                if g.delimiter() == Delimiter::Brace {
                    if let Some(n) = if inner.is_empty() { None } else { placeholder(&inner, 0) } {
                        if texts[n].is_loop {
                            text(o, &texts[n]);
                            let skip = if matches!(inner.get(3), Some(TokenTree::Punct(p)) if p.as_char() == ';') { 4 } else { 3 };
                            inner.drain(..skip);
                        }
                    }
                    o.put(" "); o.put(a); if !inner.is_empty() { o.put("\n"); }
                    print(inner.into_iter().collect(), texts, o, true);
                    if o.s.ends_with('\n') { o.put(b) } else { o.put(" "); o.put(b) }
                    // a line of its own, unless the statement goes on
                    match v.get(i + 1) { Some(TokenTree::Punct(_)) => {} Some(TokenTree::Ident(n)) if n == "else" => {} _ => if brace { o.put("\n"); } }
                } else {
                    o.put(a);
                    print(inner.into_iter().collect(), texts, o, false);
                    o.put(b);
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !joint && !matches!(c, ',' | ';' | '.' | '?') { o.put(" "); }
                o.put(&c.to_string());
                if c == ';' && brace { o.put("\n"); }
                joint = p.spacing() == Spacing::Joint || matches!(c, '.');
                if c == '\'' { joint = true; }
            }
            t => {
                if !joint && !o.s.ends_with(['(', '[', '\n', ' ']) { o.put(" "); }
                else if joint && o.s.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') { o.put(" "); }
                o.put(&t.to_string());
                joint = false;
            }
        }
        i += 1;
    }
}
