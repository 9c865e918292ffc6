//! Reads the crate under verification.
use crate::db::*;
use quote::ToTokens;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

pub struct Loaded { pub db: Db, pub uses: HashMap<String, Vec<syn::ItemUse>>, pub traits: HashMap<String, Vec<syn::ItemTrait>>, pub structs: HashMap<String, Vec<String>>, pub fns: HashMap<String, Vec<String>>, pub consts: HashMap<String, Vec<(String, syn::ItemConst)>>, pub errors: Vec<String> }

const DROPPED_TRAITS: &[&str] = &["Debug", "Display", "Hash", "PtrMutReallocExt", "ClonedExtension"];

fn cfg_test(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) }

pub fn load(src: &Path) -> Result<Loaded, String> {
    let mut l = Loaded { db: Db::default(), uses: HashMap::new(), traits: HashMap::new(), structs: HashMap::new(), fns: HashMap::new(), consts: HashMap::new(), errors: vec![] };
    let mut files: Vec<(String, Vec<syn::Item>)> = vec![];
    collect(src, &src.join("lib.rs"), "", src, &mut files)?;
    // macro-generated impls
    let mut out = vec![];
    for (m, items) in files {
        let mut macros: HashMap<String, Vec<crate::mac::Rule>> = HashMap::new();
        let mut v = vec![];
        for it in items {
            match it {
                syn::Item::Macro(im) => {
                    if im.mac.path.is_ident("macro_rules") { let n = im.ident.as_ref().unwrap().to_string(); macros.insert(n, crate::mac::parse_rules(im.mac.tokens.clone())?); }
                    else {
                        let n = last_seg(&im.mac.path);
                        match macros.get(&n) {
                            Some(r) => { let t = crate::mac::expand(r, im.mac.tokens.clone(), &macros)?; let f: syn::File = syn::parse2(t).map_err(|e| format!("expansion of {n}!: {e}"))?; v.extend(f.items); }
                            None => l.errors.push(format!("{m}: macro {n}! not expanded")),
                        }
                    }
                }
                x => v.push(x),
            }
        }
        out.push((m, v));
    }
    // type aliases stand for what they abbreviate
    let mut al = Aliases(HashMap::new());
    for (_, items) in &out { for it in items { if let syn::Item::Type(t) = it { if !cfg_test(&t.attrs) { al.0.insert(t.ident.to_string(), (t.generics.type_params().map(|p| p.ident.to_string()).collect(), (*t.ty).clone())); } } } }
    for (_, items) in out.iter_mut() { for it in items.iter_mut() { if !matches!(it, syn::Item::Use(_)) { syn::visit_mut::VisitMut::visit_item_mut(&mut al, it); } } }
    for (m, items) in &out {
        l.db.order.push(m.clone());
        for it in items { if let syn::Item::Struct(s) = it { if !cfg_test(&s.attrs) {
            let name = s.ident.to_string();
            let key = format!("{m}::{name}");
            let fields = s.fields.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.clone())).collect();
            let lifetime = s.generics.lifetimes().next().map(|x| x.lifetime.to_string());
            l.structs.entry(m.clone()).or_default().push(key.clone());
            l.db.structs.insert(key.clone(), StructInfo { key, name, module: m.clone(), fields, item: s.clone(), lifetime });
        } } }
    }
    for (m, items) in &out {
        for it in items {
            match it {
                syn::Item::Use(u) => l.uses.entry(m.clone()).or_default().push(u.clone()),
                syn::Item::Const(c) => { l.db.consts.insert(c.ident.to_string(), (*c.ty).clone()); l.consts.entry(m.clone()).or_default().push((String::new(), c.clone())); }
                syn::Item::Fn(f) if !cfg_test(&f.attrs) => {
                    let key = l.db.fn_key(m, None, &f.sig.ident.to_string());
                    add(&mut l, FnInfo { key, module: m.clone(), self_ty: None, self_name: None, generics: f.sig.generics.clone(), impl_generics: None, trait_name: None, assoc: HashMap::new(), sig: f.sig.clone(), block: Some((*f.block).clone()), has_self: false, is_trait_decl: false });
                }
                syn::Item::Trait(t) => {
                    let tn = t.ident.to_string();
                    if DROPPED_TRAITS.contains(&tn.as_str()) { l.db.dropped.push(format!("trait {tn}")); continue; }
                    for i in &t.items { if let syn::TraitItem::Fn(f) = i {
                        add(&mut l, FnInfo { key: format!("{tn}::{}", f.sig.ident), module: m.clone(), self_ty: None, self_name: Some(tn.clone()), generics: f.sig.generics.clone(), impl_generics: None, trait_name: Some(tn.clone()), assoc: HashMap::new(), sig: f.sig.clone(), block: f.default.clone(), has_self: f.sig.receiver().is_some(), is_trait_decl: true });
                    } }
                    l.traits.entry(m.clone()).or_default().push(t.clone());
                }
                syn::Item::Impl(i) => {
                    let tr = i.trait_.as_ref().map(|t| last_seg(&t.1));
                    if let Some(t) = &tr { if DROPPED_TRAITS.contains(&t.as_str()) || t == "Copy" { if t == "Copy" { l.db.copies.push(format!("{m}::{}", match &*i.self_ty { syn::Type::Path(p) => last_seg(&p.path), x => toks(x) })); } l.db.dropped.push(format!("impl {} for {}", t, toks(&i.self_ty))); continue; } }
                    let self_name = match &*i.self_ty { syn::Type::Path(p) => last_seg(&p.path), syn::Type::Tuple(t) => format!("tuple{}", t.elems.len()), syn::Type::Paren(_) => "tuple1".into(), x => toks(x) };
                    // methods of a type are keyed by the module the type lives in
                    let home = l.db.find_struct(&self_name, m).map(|s| s.module.clone()).unwrap_or(m.clone());
                    let mut assoc = HashMap::new();
                    for x in &i.items { if let syn::ImplItem::Type(t) = x { assoc.insert(t.ident.to_string(), t.ty.clone()); } }
                    // methods of std traits become methods of the type: its associated types are put in
                    let mut subst = SubstAssoc(HashMap::new());
                    if !matches!(tr.as_deref(), Some("ComponentTuple") | Some("ComponentQueryAccess") | None) {
                        if tr.as_deref() == Some("IndexMut") { for j in items { if let syn::Item::Impl(j) = j { if toks(&j.self_ty) == toks(&i.self_ty) { for x in &j.items { if let syn::ImplItem::Type(t) = x { subst.0.insert(t.ident.to_string(), t.ty.clone()); } } } } } }
                        subst.0.extend(assoc.clone());
                    }
                    for x in &i.items {
                        match x {
                            syn::ImplItem::Fn(f) if !cfg_test(&f.attrs) => {
                                let mut f = f.clone();
                                syn::visit_mut::VisitMut::visit_impl_item_fn_mut(&mut subst, &mut f);
                                if matches!(tr.as_deref(), Some("ComponentTuple") | Some("ComponentQueryAccess")) { let mut v = SelfAssoc(toks(&i.self_ty), tr.clone().unwrap()); syn::visit_mut::VisitMut::visit_impl_item_fn_mut(&mut v, &mut f); }
                                let f = &f;
                                let key = l.db.fn_key(&home, Some(&self_name), &f.sig.ident.to_string());
                                add(&mut l, FnInfo { key, module: m.clone(), self_ty: Some((*i.self_ty).clone()), self_name: Some(self_name.clone()), generics: f.sig.generics.clone(), impl_generics: Some(i.generics.clone()), trait_name: tr.clone(), assoc: assoc.clone(), sig: f.sig.clone(), block: Some(f.block.clone()), has_self: f.sig.receiver().is_some(), is_trait_decl: false });
                            }
                            syn::ImplItem::Const(c) => { l.db.consts.insert(c.ident.to_string(), c.ty.clone()); let ic: syn::ItemConst = { let (n, t, e) = (&c.ident, &c.ty, &c.expr); syn::parse_quote!(pub const #n: #t = #e;) }; l.consts.entry(m.clone()).or_default().push((toks(&i.self_ty), ic)); }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    Ok(l)
}
/// `<Me as Trait>::Name` inside the impl of Trait for Me is `Self::Name`
struct SelfAssoc(String, String);
impl syn::visit_mut::VisitMut for SelfAssoc {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if let Some(q) = &p.qself { let n = p.path.segments.len(); if q.position == n - 1 && n >= 2 && toks(&q.ty) == self.0 && p.path.segments[n - 2].ident == self.1 { let l = p.path.segments.last().unwrap().clone(); *t = syn::parse_quote!(Self::#l); return; } }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}
struct Aliases(HashMap<String, (Vec<String>, syn::Type)>);
struct SubstParams(HashMap<String, syn::Type>);
impl syn::visit_mut::VisitMut for SubstParams {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t { if p.qself.is_none() && p.path.segments.len() == 1 { if let Some(x) = self.0.get(&p.path.segments[0].ident.to_string()) { *t = x.clone(); return; } } }
        syn::visit_mut::visit_type_mut(self, t);
    }
}
impl syn::visit_mut::VisitMut for Aliases {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        syn::visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t { if p.qself.is_none() {
            let s = p.path.segments.last().unwrap();
            if let Some((ps, x)) = self.0.get(&s.ident.to_string()) {
                let args: Vec<syn::Type> = match &s.arguments { syn::PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect(), _ => vec![] };
                let mut x = x.clone();
                SubstParams(ps.iter().cloned().zip(args).collect()).visit_type_mut(&mut x);
                self.visit_type_mut(&mut x);
                *t = x;
            }
        } }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let n = p.segments.len();
        if n >= 2 { if let Some((_, syn::Type::Path(x))) = self.0.get(&p.segments[n - 2].ident.to_string()) {
            let mut s = x.path.segments.last().unwrap().clone();
            s.arguments = syn::PathArguments::None;
            let m = p.segments.last().unwrap().clone();
            *p = syn::parse_quote!(#s::#m);
        } }
        syn::visit_mut::visit_path_mut(self, p);
    }
}
struct SubstAssoc(HashMap<String, syn::Type>);
impl syn::visit_mut::VisitMut for SubstAssoc {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            let s = &p.path.segments;
            if p.qself.is_none() && s.len() == 2 && s[0].ident == "Self" { if let Some(x) = self.0.get(&s[1].ident.to_string()) { *t = x.clone(); return; } }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}
fn add(l: &mut Loaded, mut f: FnInfo) {
    if let Some(b) = f.block.as_mut() { crate::lower::desugar(&f.sig, b); }
    l.fns.entry(f.module.clone()).or_default().push(f.key.clone());
    if l.db.fns.contains_key(&f.key) { l.errors.push(format!("two functions with key {}", f.key)); }
    l.db.fns.insert(f.key.clone(), f);
}
fn collect(dir: &Path, file: &Path, module: &str, root: &Path, out: &mut Vec<(String, Vec<syn::Item>)>) -> Result<(), String> {
    let t = std::fs::read_to_string(file).map_err(|e| format!("{}: {e}", file.display()))?;
    let f = syn::parse_file(&t).map_err(|e| format!("{}: {e}", file.display()))?;
    walk(dir, f.items, module, root, out)
}
fn walk(dir: &Path, file_items: Vec<syn::Item>, module: &str, root: &Path, out: &mut Vec<(String, Vec<syn::Item>)>) -> Result<(), String> {
    let mut items = vec![];
    let mut subs: Vec<(String, PathBuf, PathBuf)> = vec![];
    for it in file_items {
        if let syn::Item::Mod(m) = &it {
            let n = m.ident.to_string();
            if n == "tests" || cfg_test(&m.attrs) { continue; }
            let sub = if module.is_empty() { n.clone() } else { format!("{module}::{n}") };
            if let Some((_, c)) = &m.content { walk(&dir.join(&n), c.clone(), &sub, root, out)?; continue; }
            let a = dir.join(format!("{n}.rs"));
            let b = dir.join(&n).join("mod.rs");
            subs.push((sub, if a.exists() { a } else { b }, dir.join(&n)));
            continue;
        }
        items.push(it);
    }
    out.push((module.to_string(), items));
    for (m, f, d) in subs { collect(&d, &f, &m, root, out)?; }
    Ok(())
}
