//! What the crate under verification declares: types, functions, constants.
use quote::ToTokens;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unk,
    Ptr(bool, Box<Ty>), // raw pointer into a buffer with one owner
    Page,               // raw pointer into page memory
    CPtr(Box<Ty>),      // typed raw pointer into page memory
    Ref(bool, Box<Ty>),
    Vec(Box<Ty>),
    Slice(Box<Ty>),
    Opt(Box<Ty>),
    Res(Box<Ty>, Box<Ty>),
    Tuple(Vec<Ty>),
    Range(Box<Ty>),
    Named(String, Vec<Ty>),
    Prim(String),
}
impl Ty {
    pub fn strip(&self) -> &Ty { let mut t = self; while let Ty::Ref(_, x) = t { t = x } t }
    pub fn is_ptr(&self) -> bool { matches!(self, Ty::Ptr(..)) }
    pub fn is_prim(&self) -> bool { matches!(self, Ty::Prim(_)) }
    pub fn elem(&self) -> Option<Ty> { match self.strip() { Ty::Vec(x) | Ty::Slice(x) => Some((**x).clone()), _ => None } }
}
pub fn rf(m: bool, t: Ty) -> Ty { Ty::Ref(m, Box::new(t)) }

#[derive(Clone)]
pub struct StructInfo { pub key: String, pub name: String, pub module: String, pub fields: Vec<(String, syn::Type)>, pub item: syn::ItemStruct, pub lifetime: Option<String> }
#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub module: String,
    pub self_ty: Option<syn::Type>,
    pub self_name: Option<String>,
    pub generics: syn::Generics,
    pub impl_generics: Option<syn::Generics>,
    pub trait_name: Option<String>,
    pub assoc: HashMap<String, syn::Type>,
    pub sig: syn::Signature,
    pub block: Option<syn::Block>,
    pub has_self: bool,
    pub is_trait_decl: bool,
}
#[derive(Default)]
pub struct Db {
    pub structs: HashMap<String, StructInfo>,
    pub fns: HashMap<String, FnInfo>,
    pub order: Vec<String>, // modules in order
    pub consts: HashMap<String, syn::Type>,
    pub dropped: Vec<String>,
    pub copies: Vec<String>, // types with an explicit impl of Copy
}
pub fn last_seg(p: &syn::Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
/// modules whose tuples and references are places in pages
pub fn tup_mod(m: &str) -> bool { m == "component_tuple" || m == "query::access" }
/// a type parameter of a component tuple: T0, T1, ..
pub fn is_tn(t: &syn::Type) -> bool { matches!(t, syn::Type::Path(p) if p.path.segments.len() == 1 && { let s = p.path.segments[0].ident.to_string(); s.starts_with('T') && s.len() > 1 && s[1..].chars().all(|c| c.is_ascii_digit()) }) }
pub fn toks<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

impl Db {
    pub fn find_struct(&self, name: &str, module: &str) -> Option<&StructInfo> {
        if let Some(s) = self.structs.get(&format!("{module}::{name}")) { return Some(s); }
        let mut v: Vec<&StructInfo> = self.structs.values().filter(|s| s.name == name).collect();
        if v.len() == 1 { return v.pop(); }
        // duplicated names are resolved only inside their module
        None
    }
    pub fn dup(&self, name: &str) -> bool { self.structs.values().filter(|s| s.name == name).count() > 1 }
    pub fn fn_key(&self, module: &str, self_name: Option<&str>, name: &str) -> String {
        let m = module.rsplit("::").next().unwrap();
        match self_name {
            Some(t) => if self.dup(t) { format!("{m}::{t}::{name}") } else { format!("{t}::{name}") },
            None => format!("{m}::{name}"),
        }
    }
    pub fn ty(&self, t: &syn::Type, module: &str, fi: Option<&FnInfo>) -> Ty {
        match t {
            syn::Type::Ptr(p) => {
                let e = self.ty(&p.elem, module, fi);
                if e == Ty::Prim("u8".into()) { return Ty::Page; }
                if module == "component_tuple" || module.starts_with("query::access") { return Ty::CPtr(Box::new(e)); }
                Ty::Ptr(p.mutability.is_some(), Box::new(e))
            }
            syn::Type::Reference(r) if tup_mod(module) && is_tn(&r.elem) => Ty::CPtr(Box::new(self.ty(&r.elem, module, fi))),
            syn::Type::Macro(_) => Ty::Prim("usize".into()),
            syn::Type::Reference(r) => rf(r.mutability.is_some(), self.ty(&r.elem, module, fi)),
            syn::Type::Slice(s) => Ty::Slice(Box::new(self.ty(&s.elem, module, fi))),
            syn::Type::Array(s) => Ty::Slice(Box::new(self.ty(&s.elem, module, fi))),
            syn::Type::Paren(p) => self.ty(&p.elem, module, fi),
            syn::Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|e| self.ty(e, module, fi)).collect()),
            syn::Type::Path(p) => {
                let seg = p.path.segments.last().unwrap();
                let n = seg.ident.to_string();
                let args: Vec<Ty> = match &seg.arguments { syn::PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(self.ty(t, module, fi)) } else { None }).collect(), _ => vec![] };
                let a0 = || Box::new(args.first().cloned().unwrap_or(Ty::Unk));
                if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                    if let Some(x) = fi.and_then(|f| f.assoc.get(&n)) { return self.ty(x, module, fi); }
                    return Ty::Named(format!("Self::{n}"), vec![]);
                }
                match n.as_str() {
                    "Self" => match fi.and_then(|f| f.self_ty.as_ref()) { Some(s) => self.ty(s, module, None), None => Ty::Named("Self".into(), vec![]) },
                    "Vec" => Ty::Vec(a0()),
                    "Option" => Ty::Opt(a0()),
                    "Range" => Ty::Range(a0()),
                    "Result" => Ty::Res(a0(), Box::new(args.get(1).cloned().unwrap_or(Ty::Unk))),
                    "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64" | "isize" | "bool" => Ty::Prim(n),
                    _ => match self.find_struct(&n, module) { Some(s) => Ty::Named(s.key.clone(), args), None => Ty::Named(n, args) },
                }
            }
            syn::Type::ImplTrait(it) => {
                for b in &it.bounds { if let syn::TypeParamBound::Trait(tb) = b { let s = tb.path.segments.last().unwrap(); if s.ident == "Iterator" || s.ident == "ExactSizeIterator" || s.ident == "DoubleEndedIterator" {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments { for x in &a.args { if let syn::GenericArgument::AssocType(at) = x { return Ty::Vec(Box::new(self.ty(&at.ty, module, fi))); } } }
                } } }
                Ty::Unk
            }
            _ => Ty::Unk,
        }
    }
    pub fn field_ty(&self, t: &Ty, f: &str) -> Ty {
        match t.strip() {
            Ty::Named(k, args) => match self.structs.get(k) {
                Some(s) => match s.fields.iter().find(|x| x.0 == f) {
                    Some((_, ft)) => {
                        let t = self.ty(ft, &s.module, None);
                        // substitute type parameters
                        let ps: Vec<String> = s.item.generics.type_params().map(|p| p.ident.to_string()).collect();
                        subst(&t, &ps, args)
                    }
                    None => Ty::Unk,
                },
                None => Ty::Unk,
            },
            Ty::Tuple(v) => f.parse::<usize>().ok().and_then(|i| v.get(i).cloned()).unwrap_or(Ty::Unk),
            Ty::Range(t) => (**t).clone(),
            _ => Ty::Unk,
        }
    }
}
fn subst(t: &Ty, ps: &[String], args: &[Ty]) -> Ty {
    let s = |x: &Ty| subst(x, ps, args);
    match t {
        Ty::Named(n, a) => match ps.iter().position(|p| p == n) { Some(i) if a.is_empty() && i < args.len() => args[i].clone(), _ => Ty::Named(n.clone(), a.iter().map(s).collect()) },
        Ty::Ptr(m, x) => Ty::Ptr(*m, Box::new(s(x))),
        Ty::CPtr(x) => Ty::CPtr(Box::new(s(x))),
        Ty::Ref(m, x) => Ty::Ref(*m, Box::new(s(x))),
        Ty::Vec(x) => Ty::Vec(Box::new(s(x))),
        Ty::Slice(x) => Ty::Slice(Box::new(s(x))),
        Ty::Opt(x) => Ty::Opt(Box::new(s(x))),
        Ty::Range(x) => Ty::Range(Box::new(s(x))),
        Ty::Tuple(v) => Ty::Tuple(v.iter().map(s).collect()),
        x => x.clone(),
    }
}
