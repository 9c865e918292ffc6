//! Lowers one function body of the crate to the verifier's dialect.
use crate::db::*;
use crate::spec::*;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::{parse_quote, Block, Expr, Pat, Stmt};

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub enum Alias {
    /// the variable holds the pointer that `place` holds
    Own(Expr, bool, String), // place, place is a `&mut RawBuf` expression, ghost name
    /// the variable points to (or borrows) one element of the buffer at `place`
    Elem(Expr, bool, Expr, String),
    /// the variable borrows an element of a const-pointer snapshot
    CElem(Expr, Expr),
    /// the variable borrows the place
    Place(Expr),
}
#[derive(Clone, Debug)]
pub enum Kind { Plain, OwnVar, MutRefBuf, Al(Alias) }
#[derive(Clone, Debug)]
pub struct Var { pub ty: Ty, pub kind: Kind }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum PK { OwnPlace, RefVar, ConstVal, OwnVal }
#[derive(Clone, Debug)]
pub struct PtrE { pub base: Expr, pub off: Option<Expr>, pub pk: PK }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want { Val, Own, Mut, Const }
pub enum P { Elem(PtrE), Plain(Expr) }

pub struct Text { pub text: String, pub clauses: Vec<(usize, usize, Vec<String>)>, pub is_loop: bool }

pub struct Lower<'a> {
    pub db: &'a Db,
    pub specs: &'a Specs,
    pub fi: &'a FnInfo,
    pub spec: Option<&'a FnSpec>,
    pub module: String,
    pub scopes: Vec<HashMap<String, Var>>,
    pub pre: Vec<Vec<Stmt>>,
    pub post: Vec<Vec<Stmt>>,
    pub texts: &'a mut Vec<Text>,
    pub loops: usize,
    pub n: usize,
    pub calls: HashMap<String, usize>,
    pub own_decl: Vec<Vec<String>>,
    pub ret: Ty,
    pub ret_unit: bool,
    pub inline_depth: usize,
    pub used: Vec<String>,
    pub inlined: Vec<String>,
    /// the loops in order, to tell whether the written invariants are about these loops
    pub shape: Vec<String>,
    pub notes: Vec<String>,
    pub lazy_iters: bool,
    pub srcs: Vec<usize>,
}

pub fn stmt(e: Expr) -> Stmt { Stmt::Expr(e, Some(Default::default())) }
fn id(s: &str) -> syn::Ident { syn::Ident::new(s, proc_macro2::Span::call_site()) }
pub fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] { Stmt::Expr(x, None) => peel(x), _ => e },
        Expr::Block(u) if u.label.is_none() && u.block.stmts.len() == 1 => match &u.block.stmts[0] { Stmt::Expr(x, None) => peel(x), _ => e },
        _ => e,
    }
}
fn simple_path(e: &Expr) -> Option<String> { match peel(e) { Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()), _ => None } }
fn is_trivial(e: &Expr) -> bool { match e { Expr::Path(_) | Expr::Lit(_) => true, _ => false } }
fn pat_name(p: &Pat) -> Option<String> { match p { Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()), Pat::Type(t) => pat_name(&t.pat), Pat::Paren(p) => pat_name(&p.pat), _ => None } }
pub fn strip_lifetimes_gat(t: &mut syn::Type) {
    use syn::visit_mut::VisitMut;
    struct V;
    impl VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            let n = p.segments.len();
            for (i, s) in p.segments.iter_mut().enumerate() {
                if i + 1 == n && n >= 2 {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments { if a.args.iter().all(|x| matches!(x, syn::GenericArgument::Lifetime(_))) { s.arguments = syn::PathArguments::None; } }
                }
            }
            syn::visit_mut::visit_path_mut(self, p);
        }
    }
    V.visit_type_mut(t);
}

impl<'a> Lower<'a> {
    pub fn fresh(&mut self, p: &str) -> syn::Ident { self.n += 1; format_ident!("vx_{}{}", p, self.n) }
    fn push(&mut self, s: Stmt) { self.pre.last_mut().unwrap().push(s) }
    pub fn text(&mut self, t: &str) -> Stmt {
        self.texts.push(Text { text: t.to_string(), clauses: vec![], is_loop: false });
        let n = proc_macro2::Literal::usize_unsuffixed(self.texts.len() - 1);
        parse_quote!(vx_text!(#n);)
    }
    pub fn bind(&mut self, n: &str, v: Var) { self.scopes.last_mut().unwrap().insert(n.to_string(), v); }
    pub fn lookup(&self, n: &str) -> Option<&Var> { self.scopes.iter().rev().find_map(|s| s.get(n)) }
    fn opt(&self, k: &str) -> Option<&str> { self.spec.and_then(|s| s.opts.get(k)).map(|s| s.as_str()) }

    // ---------------------------------------------------------------- types
    pub fn ty(&self, e: &Expr) -> Ty {
        match peel(e) {
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if n == "self" { return self.lookup("self").map(|v| v.ty.clone()).unwrap_or(Ty::Unk); }
                    if let Some(v) = self.lookup(&n) { return v.ty.clone(); }
                }
                let n = last_seg(&p.path);
                if let Some(t) = self.db.consts.get(&n) { return self.db.ty(t, &self.module, Some(self.fi)); }
                Ty::Unk
            }
            Expr::Field(f) => { let b = self.ty(&f.base); self.db.field_ty(&b, &toks(&f.member)) }
            Expr::Unary(u) => match u.op {
                syn::UnOp::Deref(_) => match self.ty(&u.expr) { Ty::Ref(_, t) | Ty::Ptr(_, t) | Ty::CPtr(t) => *t, t => t },
                _ => self.ty(&u.expr),
            },
            Expr::Reference(r) => rf(r.mutability.is_some(), self.ty(&r.expr)),
            Expr::Index(i) => { let b = self.ty(&i.expr); if matches!(peel(&i.index), Expr::Range(_)) { return match b.elem() { Some(t) => Ty::Slice(Box::new(t)), None => Ty::Unk }; } b.elem().unwrap_or(Ty::Unk) }
            Expr::Cast(c) => self.db.ty(&c.ty, &self.module, Some(self.fi)),
            Expr::Lit(l) => match &l.lit { syn::Lit::Bool(_) => Ty::Prim("bool".into()), syn::Lit::Int(_) => Ty::Prim("usize".into()), _ => Ty::Unk },
            Expr::Binary(b) => match b.op {
                syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::And(_) | syn::BinOp::Or(_) => Ty::Prim("bool".into()),
                _ => { let t = self.ty(&b.left); t.strip().clone() }
            },
            Expr::Tuple(t) => Ty::Tuple(t.elems.iter().map(|e| self.ty(e)).collect()),
            Expr::Struct(s) => {
                let n = last_seg(&s.path);
                if n == "Self" { return self.self_ty(); }
                match self.db.find_struct(&n, &self.module) { Some(s) => Ty::Named(s.key.clone(), vec![]), None => Ty::Named(n, vec![]) }
            }
            Expr::If(i) => { let t = self.block_ty(&i.then_branch); if t != Ty::Unk { return t; } i.else_branch.as_ref().map(|e| self.ty(&e.1)).unwrap_or(Ty::Unk) }
            Expr::Block(b) => self.block_ty(&b.block),
            Expr::Unsafe(b) => self.block_ty(&b.block),
            Expr::Match(m) => { for a in &m.arms { let t = self.ty(&a.body); if t != Ty::Unk { return t; } } Ty::Unk }
            Expr::Range(r) => Ty::Range(Box::new(r.start.as_ref().map(|s| self.ty(s)).unwrap_or(Ty::Unk))),
            Expr::Call(c) => self.call_ty(c),
            Expr::MethodCall(m) => self.mcall_ty(m),
            Expr::Macro(m) if last_seg(&m.mac.path) == "component_types" => Ty::Slice(Box::new(Ty::Named("component_type::ComponentType".into(), vec![]))),
            Expr::Macro(m) if last_seg(&m.mac.path) == "type_ids" => Ty::Slice(Box::new(Ty::Named("TypeId".into(), vec![]))),
            Expr::Array(a) => Ty::Slice(Box::new(a.elems.first().map(|e| self.ty(e)).unwrap_or(Ty::Unk))),
            _ => Ty::Unk,
        }
    }
    fn block_ty(&self, b: &Block) -> Ty {
        // only sound for blocks whose tail does not depend on block-local variables; enough for classification
        let mut me_scopes: HashMap<String, Ty> = HashMap::new();
        for s in &b.stmts { if let Stmt::Local(l) = s { if let (Some(n), Some(i)) = (pat_name(&l.pat), &l.init) { me_scopes.insert(n, self.ty(&i.expr)); } } }
        match b.stmts.last() {
            Some(Stmt::Expr(e, None)) => { if let Some(n) = simple_path(e) { if let Some(t) = me_scopes.get(&n) { return t.clone(); } } self.ty(e) }
            _ => Ty::Unk,
        }
    }
    fn self_ty(&self) -> Ty { match &self.fi.self_ty { Some(t) => self.db.ty(t, &self.module, Some(self.fi)), None => Ty::Unk } }
    /// the crate function a call refers to
    fn callee(&self, c: &syn::ExprCall) -> Option<&'a FnInfo> {
        let p = match peel(&c.func) { Expr::Path(p) => p, _ => return None };
        if p.qself.is_some() { return None; }
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.last()?.clone();
        if segs.len() == 1 { return self.db.fns.get(&self.db.fn_key(&self.module, None, &n)); }
        let q = &segs[segs.len() - 2];
        if q == "Self" { let s = self.fi.self_name.clone()?; return self.db.fns.get(&self.db.fn_key(&self.module, Some(&s), &n)); }
        if q == "self" { return self.db.fns.get(&self.db.fn_key(&self.module, None, &n)); }
        if segs[0] == "std" || segs[0] == "core" { return None; }
        if let Some(f) = self.db.fns.get(&format!("{q}::{n}")) { return Some(f); }
        // a type parameter: the trait's declaration
        if let Some(tr) = self.bound_of(q) { return self.db.fns.get(&format!("{tr}::{n}")); }
        None
    }
    pub fn bound_of(&self, p: &str) -> Option<String> {
        for g in [Some(&self.fi.generics), self.fi.impl_generics.as_ref()].into_iter().flatten() {
            for tp in g.type_params() { if tp.ident == p { for b in &tp.bounds { if let syn::TypeParamBound::Trait(t) = b { let n = last_seg(&t.path); if n == "ComponentTuple" || n == "ComponentQueryAccess" { return Some(n); } } } } }
            if let Some(w) = &g.where_clause { for pr in &w.predicates { if let syn::WherePredicate::Type(t) = pr { if toks(&t.bounded_ty) == p { for b in &t.bounds { if let syn::TypeParamBound::Trait(t) = b { let n = last_seg(&t.path); if n == "ComponentTuple" || n == "ComponentQueryAccess" { return Some(n); } } } } } } }
        }
        None
    }
    fn mcallee(&self, m: &syn::ExprMethodCall) -> Option<&'a FnInfo> {
        let t = self.ty(&m.receiver);
        match t.strip() {
            Ty::Named(k, _) => {
                let s = self.db.structs.get(k)?;
                self.db.fns.get(&self.db.fn_key(&s.module, Some(&s.name), &m.method.to_string()))
            }
            _ => None,
        }
    }
    fn out_ty(&self, f: &FnInfo, recv: Option<Ty>) -> Ty {
        match &f.sig.output {
            syn::ReturnType::Default => Ty::Tuple(vec![]),
            syn::ReturnType::Type(_, t) => {
                let t = self.db.ty(t, &f.module, Some(f));
                // substitute the receiver's type arguments
                if let (Some(Ty::Named(k, args)), Ty::Ref(m, x)) = (recv.map(|r| r.strip().clone()), &t) {
                    if let Some(s) = self.db.structs.get(&k) { let ps: Vec<String> = s.item.generics.type_params().map(|p| p.ident.to_string()).collect(); if let Ty::Named(n, _) = &**x { if let Some(i) = ps.iter().position(|p| p == n) { if i < args.len() { return rf(*m, args[i].clone()); } } } }
                }
                t
            }
        }
    }
    fn call_ty(&self, c: &syn::ExprCall) -> Ty {
        if let Some(f) = self.callee(c) {
            let t = self.out_ty(f, None);
            // mem_utils::alloc::<u32>
            if let Ty::Ptr(m, x) = &t { if let Ty::Named(_, _) = &**x { if let Expr::Path(p) = peel(&c.func) { if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments { if let Some(syn::GenericArgument::Type(gt)) = a.args.first() { return Ty::Ptr(*m, Box::new(self.db.ty(gt, &self.module, Some(self.fi)))); } } } } }
            return t;
        }
        let p = match peel(&c.func) { Expr::Path(p) => p, _ => return Ty::Unk };
        let s = toks(&p.path).replace(' ', "");
        match s.as_str() {
            "Some" => Ty::Opt(Box::new(c.args.first().map(|a| self.ty(a)).unwrap_or(Ty::Unk))),
            _ if s.ends_with("slice::from_raw_parts") => match self.ty(&c.args[0]) { Ty::Ptr(_, t) => rf(false, Ty::Slice(t)), _ => Ty::Unk },
            _ if s.ends_with("slice_from_raw_parts") => match self.ty(&c.args[0]) { Ty::Ptr(_, t) => rf(false, Ty::Slice(t)), _ => Ty::Unk },
            _ if s.contains("size_of") || s.contains("align_of") => Ty::Prim("usize".into()),
            "std::cmp::max" | "std::cmp::min" => self.ty(&c.args[0]),
            "TypeId::of" | "std::any::TypeId::of" => Ty::Named("TypeId".into(), vec![]),
            _ if s.starts_with("std::any::TypeId::of") || s.starts_with("TypeId::of") => Ty::Named("TypeId".into(), vec![]),
            _ if s.starts_with("Vec::") => Ty::Vec(Box::new(Ty::Unk)),
            _ if s.contains("ptr::null_mut") => Ty::Ptr(true, Box::new(Ty::Unk)),
            _ if s.contains("ptr::null") => Ty::Ptr(false, Box::new(Ty::Unk)),
            _ => Ty::Unk,
        }
    }
    fn mcall_ty(&self, m: &syn::ExprMethodCall) -> Ty {
        let n = m.method.to_string();
        let t = self.ty(&m.receiver);
        if let Some(f) = self.mcallee(m) { return self.out_ty(f, Some(t)); }
        let s = t.strip();
        match (n.as_str(), s) {
            ("add" | "offset" | "wrapping_add", Ty::Ptr(..) | Ty::Page | Ty::CPtr(_)) => s.clone(),
            ("read", Ty::Ptr(_, x)) => (**x).clone(),
            ("as_ref" | "as_mut", Ty::Ptr(_, x)) => Ty::Opt(Box::new(rf(n == "as_mut", (**x).clone()))),
            ("len" | "capacity", _) => Ty::Prim("usize".into()),
            ("get_unchecked", _) => t.elem().map(|e| rf(false, e)).unwrap_or(Ty::Unk),
            ("get_unchecked_mut", _) => t.elem().map(|e| rf(true, e)).unwrap_or(Ty::Unk),
            ("get" | "first" | "last", Ty::Vec(_) | Ty::Slice(_)) => t.elem().map(|e| Ty::Opt(Box::new(rf(false, e)))).unwrap_or(Ty::Unk),
            ("as_ptr", Ty::Vec(x) | Ty::Slice(x)) => Ty::Ptr(false, x.clone()),
            ("as_slice", Ty::Vec(x)) => rf(false, Ty::Slice(x.clone())),
            ("pop", Ty::Vec(x)) => Ty::Opt(x.clone()),
            ("remove" | "swap_remove", Ty::Vec(x)) => (**x).clone(),
            ("unwrap" | "unwrap_unchecked" | "expect" | "unwrap_or", Ty::Opt(x)) => (**x).clone(),
            ("unwrap_or", Ty::Unk) => m.args.first().map(|a| self.ty(a)).unwrap_or(Ty::Unk),
            ("binary_search", _) => Ty::Res(Box::new(Ty::Prim("usize".into())), Box::new(Ty::Prim("usize".into()))),
            ("ok", Ty::Res(a, _)) => Ty::Opt(a.clone()),
            ("position", _) => Ty::Opt(Box::new(Ty::Prim("usize".into()))),
            ("iter" | "into_iter" | "iter_mut" | "rev", Ty::Vec(_) | Ty::Slice(_)) => t.clone(),
            ("contains" | "is_some" | "is_none" | "is_ok" | "is_err" | "is_empty", _) => Ty::Prim("bool".into()),
            ("clone" | "copied" | "cloned" | "to_owned", _) => s.clone(),
            ("min" | "max", Ty::Prim(_)) => s.clone(),
            ("map", Ty::Opt(x)) => match m.args.first().map(peel) {
                Some(Expr::Closure(c)) => { let mut l = self.shadow(); if let Some(p) = c.inputs.first() { l.bind_pat_ty(p, x); } Ty::Opt(Box::new(l.ty(&c.body))) }
                _ => Ty::Opt(Box::new(Ty::Unk)),
            },
            ("and_then", Ty::Opt(x)) => match m.args.first().map(peel) { Some(Expr::Closure(c)) => { let mut l = self.shadow(); if let Some(p) = c.inputs.first() { l.bind_pat_ty(p, x); } l.ty(&c.body) } _ => Ty::Unk },
            ("saturating_sub" | "saturating_add" | "next_multiple_of" | "div_ceil" | "wrapping_add" | "wrapping_sub" | "pow", _) => s.clone(),
            _ => Ty::Unk,
        }
    }
    /// a throw-away copy that only answers type questions
    fn shadow(&self) -> TyOnly<'_> { TyOnly { l: self, extra: HashMap::new() } }

    // ------------------------------------------------------------- pointers
    fn ghost_check(&mut self, place: &Expr, g: &str) {
        if g.is_empty() { return; }
        let sp = spec_place(place);
        let t = format!("assert({sp}.id() == {g});");
        let s = self.text(&t);
        self.push(s);
    }
    fn tmp_index(&mut self, e: &Expr) -> Expr {
        if is_trivial(e) { return e.clone(); }
        let t = self.fresh("i");
        self.push(parse_quote!(let #t = #e;));
        parse_quote!(#t)
    }
    pub fn is_ptr(&self, e: &Expr) -> bool { self.ty(e).is_ptr() }
    pub fn ptr(&mut self, e: &Expr) -> R<PtrE> {
        let e = peel(e);
        match e {
            Expr::Path(_) => {
                let n = simple_path(e).ok_or("pointer path")?;
                let v = self.lookup(&n).cloned().ok_or_else(|| format!("pointer variable {n} unknown"))?;
                let me = id(&n);
                Ok(match v.kind {
                    Kind::Al(Alias::Own(p, r, g)) => { self.ghost_check(&p, &g); PtrE { base: p, off: None, pk: if r { PK::RefVar } else { PK::OwnPlace } } }
                    Kind::Al(Alias::Elem(p, r, o, g)) => { self.ghost_check(&p, &g); PtrE { base: p, off: Some(o), pk: if r { PK::RefVar } else { PK::OwnPlace } } }
                    Kind::Al(Alias::CElem(p, o)) => PtrE { base: p, off: Some(o), pk: PK::ConstVal },
                    Kind::Al(Alias::Place(p)) => PtrE { base: p, off: None, pk: PK::OwnPlace },
                    Kind::OwnVar => PtrE { base: parse_quote!(#me), off: None, pk: PK::OwnPlace },
                    Kind::MutRefBuf => PtrE { base: parse_quote!(#me), off: None, pk: PK::RefVar },
                    Kind::Plain => PtrE { base: parse_quote!(#me), off: None, pk: PK::ConstVal },
                })
            }
            Expr::Field(f) => {
                let bt = self.ty(&f.base);
                let t = self.ty(e);
                let b = self.recv(&f.base)?;
                let m = &f.member;
                let base: Expr = parse_quote!(#b.#m);
                let lifetimed = match bt.strip() { Ty::Named(k, _) => self.db.structs.get(k).map_or(false, |s| s.lifetime.is_some()), _ => false };
                Ok(match t.strip() { Ty::Ptr(true, _) => PtrE { base, off: None, pk: if lifetimed { PK::RefVar } else { PK::OwnPlace } }, Ty::Ptr(false, _) => PtrE { base, off: None, pk: PK::ConstVal }, _ => return Err("field is no pointer".into()) })
            }
            Expr::MethodCall(m) if (m.method == "add" || m.method == "wrapping_add") && self.is_ptr(&m.receiver) || m.method == "add" && self.ty(&m.receiver).strip().is_ptr() => {
                let mut p = self.ptr(&m.receiver)?;
                let o = self.lower(&m.args[0])?;
                p.off = Some(match p.off { None => o, Some(a) => parse_quote!(#a + (#o)) });
                Ok(p)
            }
            Expr::MethodCall(m) if m.method == "as_ptr" && toks(&m.receiver).contains("dangling") => Ok(PtrE { base: parse_quote!(RawBuf::dangling(vx_dangling_len)), off: None, pk: PK::OwnVal }),
            Expr::MethodCall(m) if m.method == "as_ptr" => { let b = self.recv(&m.receiver)?; Ok(PtrE { base: parse_quote!(vx_vec_as_ptr(&#b)), off: None, pk: PK::ConstVal }) }
            Expr::MethodCall(m) if (m.method == "get_unchecked" || m.method == "get_unchecked_mut") && matches!(self.ty(e).strip(), Ty::Ptr(true, _)) => { let b = self.recv(e)?; Ok(PtrE { base: b, off: None, pk: PK::OwnPlace }) }
            Expr::MethodCall(_) | Expr::Call(_) | Expr::Unsafe(_) | Expr::Block(_) | Expr::If(_) | Expr::Match(_) => {
                let t = self.ty(e);
                let v = self.lower(e)?;
                let v: Expr = if matches!(v, Expr::Reference(_)) { parse_quote!((#v)) } else { v };
                Ok(match t.strip() { Ty::Ptr(true, _) => PtrE { base: v, off: None, pk: PK::OwnVal }, Ty::Ptr(false, _) => PtrE { base: v, off: None, pk: PK::ConstVal }, _ => return Err("call returns no pointer".into()) })
            }
            Expr::Cast(c) if matches!(peel(&c.expr), Expr::Call(k) if toks(&k.func).replace(' ', "").contains("alloc::alloc")) => { let v = self.lower(e)?; Ok(PtrE { base: v, off: None, pk: PK::OwnVal }) }
            Expr::Cast(c) => self.ptr(&c.expr),
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => match self.place(e)? { P::Plain(x) => Ok(PtrE { base: x, off: None, pk: PK::OwnPlace }), P::Elem(_) => Err("pointer inside a buffer".into()) },
            Expr::Index(_) => match self.place(e)? { P::Plain(x) => Ok(PtrE { base: x, off: None, pk: PK::OwnPlace }), P::Elem(_) => Err("pointer inside a buffer".into()) },
            Expr::Reference(r) => match peel(&r.expr) { Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is_ptr(&u.expr) => self.ptr(&u.expr), _ => Err("reference as pointer".into()) },
            _ => Err(format!("pointer expression not supported: {}", toks(e))),
        }
    }
    fn ptr_as(&mut self, e: &Expr, w: Want) -> R<Expr> {
        let p = self.ptr(e)?;
        self.ptre_as(p, w)
    }
    fn ptre_as(&mut self, p: PtrE, w: Want) -> R<Expr> {
        let b = &p.base;
        Ok(match (w, p.pk, &p.off) {
            (Want::Own | Want::Val, PK::OwnPlace, None) => parse_quote!(vx_take(&mut #b)),
            (Want::Own | Want::Val, PK::RefVar, None) => parse_quote!(vx_take(#b)),
            (_, PK::OwnVal, None) => b.clone(),
            (Want::Mut, PK::OwnPlace, None) => parse_quote!(&mut #b),
            (Want::Mut, PK::RefVar, None) => b.clone(),
            (Want::Const, PK::OwnPlace | PK::RefVar, None) => parse_quote!(#b.as_const()),
            (Want::Const, PK::OwnPlace | PK::RefVar, Some(o)) => parse_quote!(#b.as_const_at(#o)),
            (_, PK::ConstVal, None) => b.clone(),
            (_, PK::ConstVal, Some(o)) => parse_quote!(#b.add(#o)),
            _ => return Err(format!("pointer use not supported: {} as {:?}", toks(b), w)),
        })
    }
    fn off(p: &PtrE) -> Expr { p.off.clone().unwrap_or(parse_quote!(0)) }
    fn rd(&mut self, p: &PtrE) -> Expr { let (b, o) = (&p.base, Self::off(p)); parse_quote!(#b.rd(#o)) }

    // --------------------------------------------------------------- places
    pub fn place(&mut self, e: &Expr) -> R<P> {
        let e = peel(e);
        match e {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                let inner = peel(&u.expr);
                if let Some(n) = simple_path(inner) {
                    if let Some(v) = self.lookup(&n).cloned() {
                        match v.kind {
                            Kind::Al(Alias::Place(p)) if !v.ty.is_ptr() => return Ok(P::Plain(p)),
                            Kind::Al(Alias::Elem(..)) | Kind::Al(Alias::CElem(..)) => return Ok(P::Elem(self.ptr(inner)?)),
                            _ => {}
                        }
                    }
                }
                if self.is_ptr(inner) { return Ok(P::Elem(self.ptr(inner)?)); }
                if let Expr::MethodCall(m) = inner {
                    if m.method == "get_unchecked" || m.method == "get_unchecked_mut" {
                        let b = self.recv(&m.receiver)?;
                        let i = self.lower(&m.args[0])?;
                        let i = self.tmp_index(&i);
                        return Ok(P::Plain(parse_quote!(#b[#i])));
                    }
                }
                if let Expr::Reference(r) = inner { return self.place(&r.expr); }
                let x = self.lower(inner)?;
                Ok(P::Plain(parse_quote!(*#x)))
            }
            Expr::Field(f) => { let b = self.recv(&f.base)?; let m = &f.member; Ok(P::Plain(parse_quote!(#b.#m))) }
            Expr::Index(i) => {
                let b = self.recv(&i.expr)?;
                let x = self.lower(&i.index)?;
                let x = if matches!(x, Expr::Range(_)) { x } else { self.tmp_index(&x) };
                Ok(P::Plain(parse_quote!(#b[#x])))
            }
            Expr::Path(_) => {
                if let Some(n) = simple_path(e) { if let Some(v) = self.lookup(&n) { if let Kind::Al(Alias::Place(p)) = &v.kind { if matches!(v.ty, Ty::Ref(..)) { return Ok(P::Plain(p.clone())); } } } }
                Ok(P::Plain(e.clone()))
            }
            _ => Ok(P::Plain(self.lower(e)?)),
        }
    }
    /// an expression usable as a method receiver or field base
    pub fn recv(&mut self, e: &Expr) -> R<Expr> {
        let e = peel(e);
        match e {
            Expr::Path(_) => {
                if let Some(n) = simple_path(e) {
                    if let Some(v) = self.lookup(&n).cloned() {
                        match v.kind {
                            Kind::Al(Alias::Place(p)) => return Ok(p),
                            Kind::Al(Alias::Elem(..)) => { let p = self.ptr(e)?; let (b, o) = (&p.base, Self::off(&p)); return Ok(if matches!(v.ty, Ty::Ref(true, _)) { parse_quote!(#b.borrow_mut(#o)) } else { parse_quote!(#b.borrow(#o)) }); }
                            _ => {}
                        }
                    }
                }
                Ok(e.clone())
            }
            Expr::Field(_) | Expr::Index(_) => match self.place(e)? { P::Plain(x) => Ok(x), P::Elem(_) => Err("receiver".into()) },
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => match self.place(e)? { P::Plain(x) => Ok(parse_quote!((#x))), P::Elem(p) => { let (b, o) = (&p.base, Self::off(&p)); Ok(if p.pk == PK::ConstVal { parse_quote!(#b.borrow(#o)) } else { parse_quote!(#b.borrow_mut(#o)) }) } },
            Expr::Reference(r) => self.recv(&r.expr),
            Expr::MethodCall(m) if m.method == "get_unchecked" || m.method == "get_unchecked_mut" => { let b = self.recv(&m.receiver)?; let i = self.lower(&m.args[0])?; Ok(parse_quote!(#b[#i])) }
            _ => { let x = self.lower(e)?; Ok(match x { Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) | Expr::Field(_) | Expr::Index(_) => x, x => parse_quote!((#x)) }) }
        }
    }
    /// the place in a page that `*p` names
    fn page_deref(&mut self, e: &Expr) -> R<Option<Expr>> {
        if let Expr::Unary(u) = peel(e) { if matches!(u.op, syn::UnOp::Deref(_)) && matches!(self.ty(&u.expr).strip(), Ty::CPtr(_)) { let x = self.recv(&u.expr)?; return Ok(Some(x)); } }
        Ok(None)
    }
    fn borrow(&mut self, m: bool, e: &Expr) -> R<Expr> {
        let inner = peel(e);
        if let Some(x) = self.page_deref(inner)? { return Ok(parse_quote!(#x.to_ref())); }
        // &*slice_from_raw_parts(..)
        if let Expr::Unary(u) = inner { if matches!(u.op, syn::UnOp::Deref(_)) { if let Expr::Call(c) = peel(&u.expr) { if toks(&c.func).contains("slice_from_raw_parts") { return self.lower(&u.expr); } } } }
        match self.place(inner)? {
            P::Elem(p) => { let (b, o) = (&p.base, Self::off(&p)); Ok(if m { parse_quote!(#b.borrow_mut(#o)) } else { parse_quote!(#b.borrow(#o)) }) }
            P::Plain(x) => {
                // &*x where x is already a reference variable
                if let (Expr::Unary(u), false) = (&x, m) { if matches!(u.op, syn::UnOp::Deref(_)) { if let Expr::Path(_) = &*u.expr { let y = &u.expr; return Ok(parse_quote!(#y)); } } }
                Ok(if m { parse_quote!(&mut #x) } else { parse_quote!(&#x) })
            }
        }
    }

    // ---------------------------------------------------------- expressions
    pub fn lower_scoped(&mut self, e: &Expr) -> R<Expr> {
        self.pre.push(vec![]);
        let r = self.lower(e);
        let p = self.pre.pop().unwrap();
        let r = r?;
        if p.is_empty() { return Ok(r); }
        Ok(parse_quote!({ #(#p)* #r }))
    }
    /// operands keep their brackets: what is built from them goes through tokens again
    pub fn lower(&mut self, e: &Expr) -> R<Expr> {
        let mut x = self.lower0(e)?;
        use syn::BinOp::*;
        let asg = matches!(&x, Expr::Binary(b) if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)));
        if matches!(x, Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_)) && !asg && !has_let(&x) { wrap(&mut x); }
        Ok(x)
    }
    fn lower0(&mut self, e: &Expr) -> R<Expr> {
        match e {
            Expr::Paren(p) => { let x = self.lower(&p.expr)?; Ok(parse_quote!((#x))) }
            Expr::Group(p) => self.lower(&p.expr),
            Expr::Lit(_) | Expr::Continue(_) => Ok(e.clone()),
            Expr::Break(b) => if b.expr.is_some() { Err("break with a value".into()) } else { Ok(e.clone()) },
            Expr::Path(p) => {
                if let Some(n) = simple_path(e) {
                    if let Some(v) = self.lookup(&n).cloned() {
                        match v.kind {
                            Kind::Plain | Kind::MutRefBuf => return Ok(e.clone()),
                            Kind::OwnVar => { let me = id(&n); return Ok(parse_quote!(vx_take(&mut #me))); }
                            Kind::Al(Alias::Own(..)) => return self.ptr_as(e, Want::Own),
                            Kind::Al(Alias::Place(p)) => {
                                return Ok(match &v.ty { Ty::Ref(true, _) => parse_quote!(&mut #p), Ty::Ref(false, _) => parse_quote!(&#p), _ => p });
                            }
                            Kind::Al(Alias::Elem(..)) | Kind::Al(Alias::CElem(..)) => {
                                if v.ty.is_ptr() { return Err("pointer to an element as a value".into()); }
                                let p = self.ptr(e)?;
                                let (b, o) = (&p.base, Self::off(&p));
                                return Ok(if matches!(v.ty, Ty::Ref(true, _)) { parse_quote!(#b.borrow_mut(#o)) } else { parse_quote!(#b.borrow(#o)) });
                            }
                        }
                    }
                }
                let mut p = p.clone();
                if p.qself.is_none() && p.path.segments.len() > 1 && p.path.segments[0].ident == "PhantomData" { return Ok(parse_quote!(PhantomData)); }
                for s in p.path.segments.iter_mut() { if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments { for x in a.args.iter_mut() { if let syn::GenericArgument::Type(t) = x { *t = self.lower_ty(t)?; } } } }
                Ok(Expr::Path(p))
            }
            Expr::Unsafe(u) => self.lower_block_expr(&u.block),
            Expr::Block(b) => { if b.label.is_some() { return Err("labelled block".into()); } self.lower_block_expr(&b.block) }
            Expr::Unary(u) => match u.op {
                syn::UnOp::Deref(_) => {
                    if let Some(x) = self.page_deref(e)? { let h = self.heap_ref()?; return Ok(parse_quote!(#x.read(#h))); }
                    if self.ty(e).is_ptr() { return self.ptr_as(e, Want::Own); }
                    match self.place(e)? { P::Elem(p) => Ok(self.rd(&p)), P::Plain(x) => Ok(x) }
                }
                _ => { let x = self.lower(&u.expr)?; let op = &u.op; Ok(parse_quote!(#op #x)) }
            },
            Expr::Reference(r) => self.borrow(r.mutability.is_some(), &r.expr),
            Expr::Field(_) => {
                if self.ty(e).is_ptr() { let w = if self.ty(e).strip().clone() == Ty::Unk { Want::Val } else if matches!(self.ty(e), Ty::Ptr(false, _)) { Want::Const } else { Want::Own }; return self.ptr_as(e, w); }
                match self.place(e)? { P::Plain(x) => Ok(x), P::Elem(p) => Ok(self.rd(&p)) }
            }
            Expr::Index(_) => match self.place(e)? { P::Plain(x) => Ok(x), P::Elem(p) => Ok(self.rd(&p)) },
            Expr::Cast(c) => {
                let t = self.db.ty(&c.ty, &self.module, Some(self.fi));
                let it = self.ty(&c.expr);
                if let Expr::Call(k) = peel(&c.expr) {
                    let f = toks(&k.func).replace(' ', "");
                    if f.ends_with("alloc::alloc") || f.ends_with("alloc::alloc_zeroed") {
                        if let Ty::Ptr(true, _) = t {
                            let a = self.lower(&k.args[0])?;
                            let el = match &*c.ty { syn::Type::Ptr(p) => self.lower_ty(&p.elem)?, _ => return Err("cast".into()) };
                            return Ok(if f.ends_with("zeroed") { parse_quote!(vx_std_alloc_zeroed::<#el>(#a)) } else { parse_quote!(vx_std_alloc::<#el>(#a)) });
                        }
                    }
                }
                match (&t, it.strip()) {
                    (Ty::CPtr(_), Ty::Page) => { let x = self.lower(&c.expr)?; let el = match &*c.ty { syn::Type::Ptr(p) => self.lower_ty(&p.elem)?, _ => return Err("cast".into()) }; Ok(parse_quote!(#x.cast::<#el>())) }
                    (Ty::CPtr(_), Ty::CPtr(_)) => self.lower(&c.expr),
                    (Ty::Ptr(..), Ty::Ptr(..)) => self.ptr_as(&c.expr, Want::Own),
                    (Ty::Prim(_), _) => { let x = self.lower(&c.expr)?; let ty = &c.ty; Ok(parse_quote!((#x as #ty))) }
                    _ => Err(format!("cast not supported: {}", toks(e))),
                }
            }
            Expr::Binary(b) => self.lower_binary(b),
            Expr::Assign(a) => self.lower_assign(&a.left, &a.right),
            Expr::Tuple(t) => {
                let mut v: Vec<Expr> = vec![];
                for x in &t.elems { v.push(self.lower(x)?); }
                Ok(self.mk_tuple(v))
            }
            Expr::Array(t) => { let mut v: Vec<Expr> = vec![]; for x in &t.elems { v.push(self.lower(x)?); } Ok(parse_quote!([#(#v),*])) }
            Expr::Range(r) => {
                let a = match &r.start { Some(x) => Some(self.lower(x)?), None => None };
                let b = match &r.end { Some(x) => Some(self.lower(x)?), None => None };
                match (r.limits, a, b) { (syn::RangeLimits::HalfOpen(_), Some(a), Some(b)) => Ok(parse_quote!(#a..#b)), _ => Err(format!("range {}", toks(e))) }
            }
            Expr::Struct(s) => self.lower_struct(s),
            Expr::If(i) => self.lower_if(i),
            Expr::Match(m) => self.lower_match(m),
            Expr::Return(r) => {
                let v = match &r.expr { Some(x) => Some(self.lower_ret(x)?), None => None };
                let st = self.exit_stmts(v, true)?;
                Ok(parse_quote!({ #(#st)* }))
            }
            Expr::While(w) => self.lower_while(w),
            Expr::ForLoop(f) => self.lower_for(f),
            Expr::Loop(l) => {
                if l.label.is_some() { return Err("labelled loop".into()); }
                let (k, sp) = self.next_loop(&format!("loop{}", assigned(&l.body).len()));
                let mut body = self.lower_loop_body(&l.body, &sp, vec![])?;
                let ph = self.loop_ph(k, &sp, &[], "");
                body.stmts.insert(0, ph);
                let (b, a) = self.loop_around(&sp);
                Ok(self.seq(b, parse_quote!(loop #body), a))
            }
            Expr::Call(c) => self.lower_call(c),
            Expr::MethodCall(m) => self.lower_mcall(m),
            Expr::Macro(m) => self.lower_macro(&m.mac),
            Expr::Let(l) => { let x = self.lower(&l.expr)?; let p = self.lower_pat(&l.pat, &self.ty(&l.expr))?; Ok(parse_quote!(let #p = #x)) }
            Expr::Closure(_) => Err("closure outside a known combinator".into()),
            _ => Err(format!("expression not supported: {}", toks(e))),
        }
    }
    fn seq(&mut self, before: Vec<Stmt>, e: Expr, after: Vec<Stmt>) -> Expr {
        if before.is_empty() && after.is_empty() { return e; }
        parse_quote!({ #(#before)* #e #(#after)* })
    }
    fn mk_tuple(&self, v: Vec<Expr>) -> Expr {
        if v.len() == 1 { let x = &v[0]; return parse_quote!((#x)); }
        if self.tup() && v.len() > 1 { let n = format_ident!("Tup{}", v.len()); return parse_quote!(#n(#(#v),*)); }
        parse_quote!((#(#v),*))
    }
    fn tup(&self) -> bool { self.module == "component_tuple" || self.module == "query::access" }
    fn lower_ret(&mut self, e: &Expr) -> R<Expr> {
        match self.ret.clone() {
            Ty::Ptr(true, _) => self.ptr_as(e, Want::Own),
            Ty::Ptr(false, _) => { if matches!(peel(e), Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Unsafe(_)) { self.lower(e) } else { self.ptr_as(e, Want::Const) } }
            Ty::Vec(_) if self.lazy_iters => self.lower_iter_fn(e),
            // a reference to a value that is not dropped automatically stands for one to the value
            Ty::Ref(m, x) if !matches!(x.strip(), Ty::Named(n, _) if n == "ManuallyDrop") && matches!(self.ty(e), Ty::Ref(_, y) if matches!(&*y, Ty::Named(n, _) if n == "ManuallyDrop")) => {
                if matches!(peel(e), Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Unsafe(_)) { return self.lower(e); }
                let x = self.lower(e)?;
                if matches!(&x, Expr::MethodCall(c) if c.method.to_string().starts_with("vx_inner")) { return Ok(x); }
                Ok(if m { parse_quote!(#x.vx_inner_mut()) } else { parse_quote!(#x.vx_inner()) })
            }
            _ => self.lower(e),
        }
    }
    fn numeric(&mut self, e: &Expr) -> R<Expr> {
        let t = self.ty(e);
        if let Ty::Ref(_, x) = &t { if x.strip().is_prim() || matches!(x.strip(), Ty::Named(n, _) if n == "TypeId") { let d: Expr = parse_quote!(*#e); return self.lower(&d); } }
        self.lower(e)
    }
    fn lower_binary(&mut self, b: &syn::ExprBinary) -> R<Expr> {
        use syn::BinOp::*;
        let op = &b.op;
        match b.op {
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_) => {
                let r = self.numeric(&b.right)?;
                match self.place(&b.left)? {
                    P::Elem(p) => { let r = self.tmp_val(r); let (x, o) = (&p.base, Self::off(&p)); Ok(parse_quote!(*#x.borrow_mut(#o) #op #r)) }
                    P::Plain(x) => Ok(parse_quote!(#x #op #r)),
                }
            }
            And(_) | Or(_) => { let l = self.lower(&b.left)?; let r = self.lower_scoped(&b.right)?; Ok(parse_quote!(#l #op #r)) }
            Eq(_) | Ne(_) => {
                let t = self.ty(&b.left);
                let t2 = self.ty(&b.right);
                let st = t.strip();
                if let Ty::Named(k, _) = st {
                    if let Some(s) = self.db.structs.get(k) {
                        if self.db.fns.contains_key(&self.db.fn_key(&s.module, Some(&s.name), "eq")) {
                            let l = self.recv(&b.left)?;
                            let r = self.recv(&b.right)?;
                            let r: Expr = if matches!(t2, Ty::Ref(..)) && matches!(peel(&b.right), Expr::Path(_)) && self.is_plain(&b.right) { r } else { parse_quote!(&#r) };
                            let x: Expr = parse_quote!(#l.eq(#r));
                            return Ok(if matches!(b.op, Ne(_)) { parse_quote!(!#x) } else { x });
                        }
                    }
                    if k == "TypeId" {
                        let l = self.numeric(&b.left)?; let r = self.numeric(&b.right)?;
                        return Ok(if matches!(b.op, Ne(_)) { parse_quote!(!vx_tid_eq(#l, #r)) } else { parse_quote!(vx_tid_eq(#l, #r)) });
                    }
                }
                if let Some(Ty::Named(k, _)) = t.elem() { if k == "TypeId" {
                    let l = self.lower(&b.left)?; let r = self.lower(&b.right)?;
                    return Ok(if matches!(b.op, Ne(_)) { parse_quote!(!vx_tids_eq(#l, #r)) } else { parse_quote!(vx_tids_eq(#l, #r)) });
                } }
                let l = self.numeric(&b.left)?; let r = self.numeric(&b.right)?;
                Ok(parse_quote!(#l #op #r))
            }
            Lt(_) | Gt(_) | Le(_) | Ge(_) => {
                let t = self.ty(&b.left);
                if matches!(t.strip(), Ty::Named(k, _) if k == "TypeId") {
                    let l = self.numeric(&b.left)?; let r = self.numeric(&b.right)?;
                    return Ok(match b.op { Lt(_) => parse_quote!(vx_tid_lt(#l, #r)), Gt(_) => parse_quote!(vx_tid_lt(#r, #l)), Le(_) => parse_quote!(!vx_tid_lt(#r, #l)), _ => parse_quote!(!vx_tid_lt(#l, #r)) });
                }
                let l = self.numeric(&b.left)?; let r = self.numeric(&b.right)?;
                Ok(parse_quote!(#l #op #r))
            }
            BitAnd(_) | BitOr(_) if self.ty(&b.left) == Ty::Prim("bool".into()) => {
                // on booleans: both sides are evaluated, no short cut
                let l = self.lower(&b.left)?;
                let l = self.tmp_val(l);
                let r = self.lower(&b.right)?;
                let r = self.tmp_val(r);
                Ok(if matches!(b.op, BitAnd(_)) { parse_quote!((#l && #r)) } else { parse_quote!((#l || #r)) })
            }
            Div(_) | Rem(_) if self.opt("div") == Some("refuse") => { let l = self.numeric(&b.left)?; let r = self.numeric(&b.right)?; Ok(if matches!(b.op, Div(_)) { parse_quote!(vx_div(#l, #r)) } else { parse_quote!(vx_rem(#l, #r)) }) }
            _ => { let l = self.numeric(&b.left)?; let r = self.numeric(&b.right)?; Ok(parse_quote!(#l #op #r)) }
        }
    }
    fn is_plain(&self, e: &Expr) -> bool { simple_path(e).and_then(|n| self.lookup(&n).map(|v| matches!(v.kind, Kind::Plain))).unwrap_or(false) }
    fn tmp_val(&mut self, e: Expr) -> Expr {
        if is_trivial(&e) { return e; }
        let t = self.fresh("t");
        self.push(parse_quote!(let #t = #e;));
        parse_quote!(#t)
    }
    fn lower_assign(&mut self, l: &Expr, r: &Expr) -> R<Expr> {
        if self.ty(l).is_ptr() && matches!(self.ty(l), Ty::Ptr(true, _)) {
            let rv = self.ptr_as(r, Want::Own)?;
            let rv = self.tmp_val(rv);
            let p = self.ptr(l)?;
            let b = &p.base;
            return match p.pk { PK::OwnPlace if p.off.is_none() => Ok(parse_quote!(vx_put(&mut #b, #rv))), _ => Err("pointer assignment".into()) };
        }
        let rv = self.lower(r)?;
        if let Some(x) = self.page_deref(l)? { let h = self.heap_mut()?; return Ok(parse_quote!(#x.write(#rv, #h))); }
        match self.place(l)? {
            P::Elem(p) => { let rv = self.tmp_val(rv); let (x, o) = (&p.base, Self::off(&p)); Ok(parse_quote!(#x.wr(#o, #rv))) }
            P::Plain(x) => Ok(parse_quote!(#x = #rv)),
        }
    }
    fn lower_struct(&mut self, s: &syn::ExprStruct) -> R<Expr> {
        if s.rest.is_some() { return Err("struct update".into()); }
        let n = last_seg(&s.path);
        let key = if n == "Self" { match self.self_ty() { Ty::Named(k, _) => k, _ => String::new() } } else { self.db.find_struct(&n, &self.module).map(|s| s.key.clone()).unwrap_or_default() };
        let info = self.db.structs.get(&key).cloned();
        let mut fields: Vec<proc_macro2::TokenStream> = vec![];
        for f in &s.fields {
            let m = &f.member;
            let name = toks(m);
            let mut want = Want::Val;
            if let Some(i) = &info { if let Some((_, ft)) = i.fields.iter().find(|x| x.0 == name) { match self.db.ty(ft, &i.module, None) { Ty::Ptr(true, _) => want = if i.lifetime.is_some() { Want::Mut } else { Want::Own }, Ty::Ptr(false, _) => want = Want::Const, _ => {} } } }
            let v = if want == Want::Val { self.lower(&f.expr)? } else { self.ptr_or_null(&f.expr, want)? };
            fields.push(quote!(#m: #v));
        }
        let sn = info.as_ref().map(|i| i.name.clone()).unwrap_or(n);
        if let Some(extra) = self.specs.fields.get(&sn) {
            for (f, _) in extra {
                let lit = self.spec.and_then(|s| s.lits.get(&format!("{sn}.{f}"))).cloned().ok_or_else(|| format!("no ghost value for {sn}.{f}"))?;
                let fi = id(f);
                let e: proc_macro2::TokenStream = lit.parse().map_err(|_| "ghost literal")?;
                fields.push(quote!(#fi: #e));
            }
        }
        let mut path = s.path.clone();
        for seg in path.segments.iter_mut() { seg.arguments = syn::PathArguments::None; }
        Ok(parse_quote!(#path { #(#fields),* }))
    }
    fn ptr_or_null(&mut self, e: &Expr, w: Want) -> R<Expr> {
        if let Expr::Call(c) = peel(e) { let f = toks(&c.func).replace(' ', ""); if f.contains("null_mut") || f.ends_with("null") || f.contains("ptr::null") { return Ok(if w == Want::Const { parse_quote!(ConstPtr::null()) } else { parse_quote!(RawBuf::null()) }); } }
        self.ptr_as(e, w)
    }
    fn lower_if(&mut self, i: &syn::ExprIf) -> R<Expr> {
        self.scopes.push(HashMap::new());
        let r = (|| -> R<Expr> {
            let c = match &*i.cond {
                Expr::Let(l) => {
                    let t = self.ty(&l.expr);
                    let x = self.lower(&l.expr)?;
                    let p = self.lower_pat(&l.pat, &t)?;
                    parse_quote!(let #p = #x)
                }
                c => self.lower(c)?,
            };
            let b = self.lower_block(&i.then_branch, true)?;
            Ok(match &i.else_branch {
                Some((_, e)) => {
                    let e2 = match &**e { Expr::Block(b) => { let b = self.lower_block(&b.block, true)?; parse_quote!(#b) } x => { let y = self.lower_scoped(x)?; match y { Expr::If(_) | Expr::Block(_) => y, y => parse_quote!({ #y }) } } };
                    let e2: Expr = e2;
                    parse_quote!(if #c #b else #e2)
                }
                None => parse_quote!(if #c #b),
            })
        })();
        self.scopes.pop();
        r
    }
    fn lower_match(&mut self, m: &syn::ExprMatch) -> R<Expr> {
        let t = self.ty(&m.expr);
        let x = self.lower(&m.expr)?;
        let mut arms: Vec<proc_macro2::TokenStream> = vec![];
        for a in &m.arms {
            self.scopes.push(HashMap::new());
            let r = (|| -> R<proc_macro2::TokenStream> {
                let p = self.lower_pat(&a.pat, &t)?;
                let g = match &a.guard { Some((_, g)) => { let g = self.lower_scoped(g)?; quote!(if #g) } None => quote!() };
                let b = self.lower_scoped(&a.body)?;
                Ok(quote!(#p #g => #b,))
            })();
            self.scopes.pop();
            arms.push(r?);
        }
        Ok(parse_quote!(match #x { #(#arms)* }))
    }
    /// binds the variables of a pattern; the pattern itself keeps its form
    pub fn lower_pat(&mut self, p: &Pat, t: &Ty) -> R<Pat> {
        Ok(match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                let first = n.chars().next().unwrap();
                if first.is_uppercase() { return Ok(p.clone()); }
                let kind = if let Ty::Ptr(true, _) = t { Kind::OwnVar } else { Kind::Plain };
                self.bind(&n, Var { ty: t.clone(), kind: kind.clone() });
                if i.subpat.is_some() { return Err("@ pattern".into()); }
                if matches!(kind, Kind::OwnVar) { let nm = &i.ident; self.own_decl.last_mut().unwrap().push(n); parse_quote!(mut #nm) } else { p.clone() }
            }
            Pat::Type(pt) => { let tt = self.db.ty(&pt.ty, &self.module, Some(self.fi)); self.lower_pat(&pt.pat, &tt)? }
            Pat::Paren(pp) => self.lower_pat(&pp.pat, t)?,
            Pat::Wild(_) | Pat::Lit(_) | Pat::Path(_) | Pat::Rest(_) => p.clone(),
            Pat::Reference(r) => { let inner = match t { Ty::Ref(_, x) => (**x).clone(), _ => Ty::Unk }; let q = self.lower_pat(&r.pat, &inner)?; parse_quote!(&#q) }
            Pat::Tuple(tp) => {
                let (isref, ts) = match t { Ty::Tuple(v) => (None, v.clone()), Ty::Ref(m, x) => match &**x { Ty::Tuple(v) => (Some(*m), v.clone()), _ => (Some(*m), vec![]) }, _ => (None, vec![]) };
                let mut v: Vec<Pat> = vec![];
                for (i, q) in tp.elems.iter().enumerate() { let mut et = ts.get(i).cloned().unwrap_or(Ty::Unk); if let Some(m) = isref { et = rf(m, et); } v.push(self.lower_pat(q, &et)?); }
                if self.tup() && v.len() > 1 { let n = format_ident!("Tup{}", v.len()); parse_quote!(#n(#(#v),*)) } else if v.len() == 1 { let q = &v[0]; parse_quote!((#q,)) } else { parse_quote!((#(#v),*)) }
            }
            Pat::TupleStruct(ts) => {
                let n = last_seg(&ts.path);
                let (isref, inner) = match t { Ty::Ref(m, x) => (Some(*m), (**x).clone()), x => (None, x.clone()) };
                let et = match (&inner, n.as_str()) { (Ty::Opt(x), "Some") => (**x).clone(), (Ty::Res(a, _), "Ok") => (**a).clone(), (Ty::Res(_, b), "Err") => (**b).clone(), _ => Ty::Unk };
                let et = match isref { Some(m) => rf(m, et), None => et };
                let mut v: Vec<Pat> = vec![];
                for q in &ts.elems { v.push(self.lower_pat(q, &et)?); }
                let path = &ts.path;
                parse_quote!(#path(#(#v),*))
            }
            Pat::Struct(ps) => {
                let n = last_seg(&ps.path);
                let info = self.db.find_struct(&n, &self.module).cloned();
                let mut v: Vec<proc_macro2::TokenStream> = vec![];
                for f in &ps.fields {
                    let name = toks(&f.member);
                    let ft = info.as_ref().and_then(|i| i.fields.iter().find(|x| x.0 == name).map(|x| self.db.ty(&x.1, &i.module, None))).unwrap_or(Ty::Unk);
                    if let Ty::Ptr(true, _) = ft {
                        if info.as_ref().map_or(false, |i| i.lifetime.is_some()) {
                            let vn = pat_name(&f.pat).ok_or("pattern")?;
                            self.bind(&vn, Var { ty: ft, kind: Kind::MutRefBuf });
                            let m = &f.member; let vi = id(&vn);
                            v.push(quote!(#m: #vi));
                            continue;
                        }
                    }
                    let q = self.lower_pat(&f.pat, &ft)?;
                    let m = &f.member;
                    v.push(quote!(#m: #q));
                }
                if ps.rest.is_some() || info.as_ref().map_or(false, |i| self.specs.fields.contains_key(&i.name)) { v.push(quote!(..)); }
                let path = &ps.path;
                parse_quote!(#path { #(#v),* })
            }
            Pat::Or(o) => { let mut v: Vec<Pat> = vec![]; for q in &o.cases { v.push(self.lower_pat(q, t)?); } parse_quote!(#(#v)|*) }
            _ => return Err(format!("pattern {}", toks(p))),
        })
    }
    fn lower_block_expr(&mut self, b: &Block) -> R<Expr> {
        let b = self.lower_block(b, true)?;
        if b.stmts.len() == 1 { if let Stmt::Expr(e, None) = &b.stmts[0] { if !matches!(e, Expr::If(_) | Expr::Match(_)) { return Ok(e.clone()); } else { return Ok(e.clone()); } } }
        Ok(parse_quote!(#b))
    }
    pub fn lower_block(&mut self, b: &Block, scoped: bool) -> R<Block> {
        if scoped { self.scopes.push(HashMap::new()); self.own_decl.push(vec![]); }
        let r = self.lower_stmts(&b.stmts);
        let mut own = vec![];
        if scoped { self.scopes.pop(); own = self.own_decl.pop().unwrap(); }
        let mut stmts = r?;
        if !own.is_empty() {
            // owned raw buffers must not go out of scope alive
            let diverges = matches!(stmts.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), _)));
            let tail = match stmts.last() { Some(Stmt::Expr(e, None)) if !diverges => { let e = e.clone(); stmts.pop(); Some(e) } _ => None };
            if let Some(e) = tail {
                let t = self.fresh("v");
                stmts.push(parse_quote!(let #t = #e;));
                for o in &own { let s = self.text(&leak_text(o)); stmts.push(s); }
                stmts.push(Stmt::Expr(parse_quote!(#t), None));
            } else if !diverges { for o in &own { let s = self.text(&leak_text(o)); stmts.push(s); } }
        }
        Ok(Block { brace_token: Default::default(), stmts })
    }
    fn with_frames<T>(&mut self, out: &mut Vec<Stmt>, f: impl FnOnce(&mut Self) -> R<T>) -> R<(T, Vec<Stmt>)> {
        self.pre.push(vec![]);
        self.post.push(vec![]);
        let r = f(self);
        let p = self.pre.pop().unwrap();
        let q = self.post.pop().unwrap();
        out.extend(p);
        Ok((r?, q))
    }
    pub fn lower_stmts(&mut self, stmts: &[Stmt]) -> R<Vec<Stmt>> {
        let mut out: Vec<Stmt> = vec![];
        for s in stmts {
            match s {
                Stmt::Local(l) => {
                    let (v, post) = self.with_frames(&mut out, |me| me.lower_let(l))?;
                    out.extend(v);
                    out.extend(post);
                }
                Stmt::Expr(e, semi) => {
                    if let Expr::Macro(m) = e { let (x, _) = self.with_frames(&mut out, |me| me.lower_macro(&m.mac))?; out.push(stmt(x)); continue; }
                    let is_ret = matches!(peel(e), Expr::Return(_));
                    let (x, post) = self.with_frames(&mut out, |me| me.lower(e))?;
                    if is_ret { if let Expr::Block(b) = &x { out.extend(b.block.stmts.clone()); continue; } }
                    if post.is_empty() { out.push(Stmt::Expr(x, *semi)); }
                    else if semi.is_some() || matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_)) && self.ty(e) == Ty::Unk { out.push(stmt(x)); out.extend(post); }
                    else { let t = self.fresh("v"); out.push(parse_quote!(let #t = #x;)); out.extend(post); out.push(Stmt::Expr(parse_quote!(#t), None)); }
                }
                Stmt::Macro(m) => { let (x, post) = self.with_frames(&mut out, |me| me.lower_macro(&m.mac))?; out.push(if m.semi_token.is_some() { stmt(x) } else { Stmt::Expr(x, None) }); out.extend(post); }
                Stmt::Item(syn::Item::Const(_)) | Stmt::Item(syn::Item::Use(_)) => out.push(s.clone()),
                Stmt::Item(_) => return Err("nested item".into()),
            }
        }
        Ok(out)
    }
    fn lower_let(&mut self, l: &syn::Local) -> R<Vec<Stmt>> {
        let mut out = vec![];
        let Some(init) = &l.init else {
            let n = pat_name(&l.pat).ok_or("let pattern")?;
            let t = if let Pat::Type(p) = &l.pat { self.db.ty(&p.ty, &self.module, Some(self.fi)) } else { Ty::Unk };
            if t.is_ptr() { return Err("late initialised pointer".into()); }
            self.bind(&n, Var { ty: t, kind: Kind::Plain });
            return Ok(vec![Stmt::Local(l.clone())]);
        };
        let e = peel(&init.expr);
        let mut t = self.ty(e);
        if let Pat::Type(p) = &l.pat { let d = self.db.ty(&p.ty, &self.module, Some(self.fi)); if t == Ty::Unk || matches!(d, Ty::Ptr(..) | Ty::Tuple(_)) { t = d; } }
        if let Some((_, els)) = &init.diverge {
            let x = self.lower(e)?;
            let els = self.lower_scoped(els)?;
            let p = self.lower_pat(&l.pat, &t)?;
            let els: Expr = match els { Expr::Block(_) => els, x => parse_quote!({ #x }) };
            return Ok(vec![parse_quote!(let #p = #x else #els;)]);
        }
        // tuple of pointers: one binding at a time
        if let (Pat::Tuple(tp), Expr::Tuple(te)) = (strip_pt(&l.pat), e) {
            if tp.elems.len() == te.elems.len() && (te.elems.iter().any(|x| self.is_ptr(x) || self.elem_ref(x)) || matches!(&t, Ty::Tuple(v) if v.iter().any(|x| x.is_ptr()))) {
                let ts = if let Ty::Tuple(v) = &t { v.clone() } else { vec![] };
                for (i, (p, x)) in tp.elems.iter().zip(&te.elems).enumerate() {
                    out.extend(self.let_one(p, x, ts.get(i).cloned().unwrap_or(Ty::Unk))?);
                    let pre = std::mem::take(self.pre.last_mut().unwrap());
                    let k = out.len();
                    let _ = k;
                    // statements produced for this element come first
                    let mut o2 = pre; o2.append(&mut out); out = o2;
                }
                return Ok(out);
            }
        }
        let e2: &Expr = e;
        self.let_one(&l.pat, e2, t)
    }
    fn elem_ref(&self, e: &Expr) -> bool { if let Expr::Reference(r) = peel(e) { if let Expr::Unary(u) = peel(&r.expr) { return matches!(u.op, syn::UnOp::Deref(_)) && self.is_ptr(&u.expr); } } false }
    fn let_one(&mut self, pat: &Pat, e: &Expr, t: Ty) -> R<Vec<Stmt>> {
        let mut out = vec![];
        if let Some(n) = pat_name(pat) {
            let nm = id(&n);
            if self.elem_ref(e) {
                let Expr::Reference(r) = peel(e) else { unreachable!() };
                let Expr::Unary(u) = peel(&r.expr) else { unreachable!() };
                let p = self.ptr(&u.expr)?;
                let a = self.mk_alias(&n, p, true)?;
                let et = match self.ty(&u.expr) { Ty::Ptr(_, x) => *x, _ => Ty::Unk };
                self.bind(&n, Var { ty: rf(r.mutability.is_some(), et), kind: Kind::Al(a) });
                return Ok(out);
            }
            let block_init = matches!(peel(e), Expr::Block(_) | Expr::Unsafe(_) | Expr::If(_) | Expr::Match(_));
            if t.is_ptr() && !block_init {
                let p = self.ptr(e)?;
                if p.pk == PK::ConstVal && self.changes(e) { return Err(format!("the read-only address `{n}` is kept while its owner may change")); }
                match p.pk {
                    PK::OwnVal => { let b = &p.base; let ann = if let Pat::Type(p) = pat { let tt = self.lower_ty(&p.ty)?; quote!(: #tt) } else { quote!() }; out.push(parse_quote!(let mut #nm #ann = #b;)); self.bind(&n, Var { ty: t, kind: Kind::OwnVar }); self.own_decl.last_mut().unwrap().push(n); }
                    PK::ConstVal => { let b = self.ptre_as(p, Want::Const)?; out.push(parse_quote!(let #nm = #b;)); self.bind(&n, Var { ty: t, kind: Kind::Plain }); }
                    _ => { let a = self.mk_alias(&n, p, false)?; self.bind(&n, Var { ty: t, kind: Kind::Al(a) }); }
                }
                return Ok(out);
            }
            if matches!(t, Ty::Ptr(true, _)) { return Err("pointer from a block".into()); }
            // collections of iterators
            let x = self.lower(e)?;
            let mutable = is_mut_pat(pat);
            self.bind(&n, Var { ty: t, kind: Kind::Plain });
            let ann = if let Pat::Type(p) = pat { let tt = self.lower_ty(&p.ty)?; quote!(: #tt) } else { quote!() };
            out.push(if mutable { parse_quote!(let mut #nm #ann = #x;) } else { parse_quote!(let #nm #ann = #x;) });
            return Ok(out);
        }
        let x = self.lower(e)?;
        let p = self.lower_pat(pat, &t)?;
        out.push(parse_quote!(let #p = #x;));
        Ok(out)
    }
    /// the function could change or release what this address points into
    fn changes(&self, e: &Expr) -> bool {
        let mutable = |t: &syn::Type| { let mut s = toks(t); s.retain(|c| c != ' '); s.contains("&mut") || (s.starts_with("&'") && s.contains("mut")) || s.contains("*mut") };
        let root = { let mut x = peel(e); loop { x = peel(match x { Expr::MethodCall(m) => &m.receiver, Expr::Field(f) => &f.base, Expr::Reference(r) => &r.expr, Expr::Unary(u) => &u.expr, Expr::Cast(c) => &c.expr, Expr::Index(i) => &i.expr, _ => break }) } if let Expr::Path(p) = x { p.path.get_ident().map(|i| i.to_string()) } else { None } };
        let mut any = false;
        for a in &self.fi.sig.inputs {
            let (n, m, shared) = match a {
                syn::FnArg::Receiver(r) => ("self".to_string(), r.mutability.is_some(), r.reference.is_some() && r.mutability.is_none()),
                syn::FnArg::Typed(t) => (pat_name(&t.pat).unwrap_or_default(), mutable(&t.ty), matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_none()) && !mutable(&t.ty)),
            };
            if shared && root.as_deref() == Some(n.as_str()) { return false; }
            any |= m;
        }
        any
    }
    fn mk_alias(&mut self, n: &str, p: PtrE, elem: bool) -> R<Alias> {
        let g = format!("{}_vxid{}", n, { self.n += 1; self.n });
        match p.pk {
            PK::OwnPlace | PK::RefVar => {
                let sp = spec_place(&p.base);
                let s = self.text(&format!("let ghost {g} = {sp}.id();"));
                match &p.off {
                    None if !elem => { self.push(s); Ok(Alias::Own(p.base, p.pk == PK::RefVar, g)) }
                    o => { let o = o.clone().unwrap_or(parse_quote!(0)); let o = self.tmp_index(&o); self.push(s); Ok(Alias::Elem(p.base, p.pk == PK::RefVar, o, g)) }
                }
            }
            PK::ConstVal => {
                let b = if is_trivial(&p.base) { p.base.clone() } else { let t = self.fresh("p"); let b = &p.base; self.push(parse_quote!(let #t = #b;)); parse_quote!(#t) };
                let o = p.off.clone().unwrap_or(parse_quote!(0));
                let o = self.tmp_index(&o);
                Ok(Alias::CElem(b, o))
            }
            PK::OwnVal => Err("element of a temporary buffer".into()),
        }
    }

    // ---------------------------------------------------------------- exits
    pub fn exit_stmts(&mut self, v: Option<Expr>, is_return: bool) -> R<Vec<Stmt>> {
        let mut out: Vec<Stmt> = vec![];
        let epi = self.spec.map(|s| s.epilogue.clone()).unwrap_or_default();
        let own: Vec<String> = self.own_decl.iter().flatten().cloned().collect();
        if self.inline_depth > 0 && is_return { return Err("return inside an inlined helper".into()); }
        let r = id(self.spec.map(|s| s.ret.as_str()).unwrap_or("r"));
        let need = !epi.trim().is_empty() || !own.is_empty();
        match v {
            Some(x) if need => {
                out.push(parse_quote!(let #r = #x;));
                if !epi.trim().is_empty() { let s = self.text(&epi); out.push(s); }
                for o in &own { let s = self.text(&leak_text(o)); out.push(s); }
                out.push(if is_return { parse_quote!(return #r;) } else { Stmt::Expr(parse_quote!(#r), None) });
            }
            Some(x) => out.push(if is_return { parse_quote!(return #x;) } else { Stmt::Expr(x, None) }),
            None => {
                if !epi.trim().is_empty() { let s = self.text(&epi); out.push(s); }
                for o in &own { let s = self.text(&leak_text(o)); out.push(s); }
                if is_return { out.push(parse_quote!(return;)); }
            }
        }
        Ok(out)
    }
    pub fn lower_body(&mut self, b: &Block) -> R<Vec<Stmt>> {
        self.own_decl.push(vec![]);
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        let tail = match b.stmts.last() { Some(Stmt::Expr(e, None)) => Some(e.clone()), Some(Stmt::Expr(e @ Expr::Return(_), Some(_))) => Some(e.clone()), _ => None };
        match tail {
            Some(Expr::Return(rt)) => {
                out.extend(self.lower_stmts(&b.stmts[..n - 1])?);
                let v = match &rt.expr { Some(x) => { let (x, post) = self.with_frames(&mut out, |me| me.lower_ret(x))?; let x = self.post_val(&mut out, x, post); Some(x) } None => None };
                out.extend(self.exit_stmts(v, false)?);
            }
            Some(e) if !self.ret_unit => {
                out.extend(self.lower_stmts(&b.stmts[..n - 1])?);
                let (x, post) = self.with_frames(&mut out, |me| me.lower_ret(&e))?;
                let x = self.post_val(&mut out, x, post);
                out.extend(self.exit_stmts(Some(x), false)?);
            }
            _ => {
                out.extend(self.lower_stmts(&b.stmts)?);
                if let Some(Stmt::Expr(e, semi @ None)) = out.last_mut() { if self.ret_unit && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Block(_) | Expr::Loop(_)) { *semi = Some(Default::default()); } }
                if self.ret_unit { out.extend(self.exit_stmts(None, false)?); }
            }
        }
        self.own_decl.pop();
        Ok(out)
    }
    fn post_val(&mut self, out: &mut Vec<Stmt>, x: Expr, post: Vec<Stmt>) -> Expr {
        if post.is_empty() { return x; }
        let t = self.fresh("v");
        out.push(parse_quote!(let #t = #x;));
        out.extend(post);
        parse_quote!(#t)
    }

    // ---------------------------------------------------------------- loops
    fn next_loop(&mut self, kind: &str) -> (usize, LoopSpec) {
        self.shape.push(kind.to_string());
        let k = self.loops;
        self.loops += 1;
        (k, self.spec.and_then(|s| s.loops.get(&k)).cloned().unwrap_or_default())
    }
    fn loop_ph(&mut self, _k: usize, sp: &LoopSpec, auto_inv: &[String], auto_dec: &str) -> Stmt {
        let mut t = String::new();
        let mut cl = vec![];
        let mut line = 0usize;
        let mut add = |t: &mut String, kw: &str, cs: &[Clause], auto: &[String]| {
            if cs.is_empty() && auto.is_empty() { return; }
            t.push_str(kw); t.push('\n'); line += 1;
            for a in auto { t.push_str(a); t.push_str(",\n"); line += 1; }
            for c in cs { let n = c.text.lines().count(); cl.push((line, line + n - 1, c.labels.clone())); t.push_str(&c.text); line += n; }
        };
        add(&mut t, "invariant_except_break", &sp.inv_except, &[]);
        add(&mut t, "invariant", &sp.inv, auto_inv);
        add(&mut t, "ensures", &sp.ens, &[]);
        let d = if sp.dec.trim().is_empty() { auto_dec } else { sp.dec.trim() };
        if !d.is_empty() { t.push_str(&format!("decreases {}\n", d.trim_end_matches(','))); }
        self.texts.push(Text { text: t, clauses: cl, is_loop: true });
        let n = proc_macro2::Literal::usize_unsuffixed(self.texts.len() - 1);
        parse_quote!(vx_loop!(#n);)
    }
    fn loop_around(&mut self, sp: &LoopSpec) -> (Vec<Stmt>, Vec<Stmt>) {
        let b = if sp.before.trim().is_empty() { vec![] } else { vec![self.text(&sp.before)] };
        let a = if sp.after.trim().is_empty() { vec![] } else { vec![self.text(&sp.after)] };
        (b, a)
    }
    fn lower_loop_body(&mut self, b: &Block, sp: &LoopSpec, head: Vec<Stmt>) -> R<Block> {
        self.scopes.push(HashMap::new());
        self.own_decl.push(vec![]);
        let r = self.lower_stmts(&b.stmts);
        self.scopes.pop();
        let own = self.own_decl.pop().unwrap();
        let mut st = head;
        if !sp.start.trim().is_empty() { let s = self.text(&sp.start); st.push(s); }
        let mut body = r?;
        if let Some(Stmt::Expr(e, semi @ None)) = body.last_mut() { if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Block(_) | Expr::Loop(_)) { *semi = Some(Default::default()); } }
        st.extend(body);
        for o in &own { let s = self.text(&leak_text(o)); st.push(s); }
        if !sp.end.trim().is_empty() { let s = self.text(&sp.end); st.push(s); }
        Ok(Block { brace_token: Default::default(), stmts: st })
    }
    fn lower_while(&mut self, w: &syn::ExprWhile) -> R<Expr> {
        if w.label.is_some() { return Err("labelled loop".into()); }
        let (k, sp) = self.next_loop(&format!("while{}", assigned(&w.body).len()));
        if let Expr::Let(l) = &*w.cond {
            let t = self.ty(&l.expr);
            self.pre.push(vec![]);
            let x = self.lower(&l.expr);
            let pre = self.pre.pop().unwrap();
            let x = x?;
            self.scopes.push(HashMap::new());
            let o = self.fresh("o");
            let mut head: Vec<Stmt> = pre;
            head.push(parse_quote!(let #o = #x;));
            let p = self.lower_pat(&l.pat, &t)?;
            let body = self.lower_loop_body(&w.body, &sp, vec![]);
            self.scopes.pop();
            let body = body?;
            head.push(Stmt::Expr(parse_quote!(if let #p = #o #body else { break; }), None));
            let ph = self.loop_ph(k, &sp, &[], "");
            head.insert(0, ph);
            let (b, a) = self.loop_around(&sp);
            return Ok(self.seq(b, parse_quote!(loop { #(#head)* }), a));
        }
        self.pre.push(vec![]);
        let c = self.lower(&w.cond);
        let pre = self.pre.pop().unwrap();
        let c = c?;
        let ph = self.loop_ph(k, &sp, &[], "");
        let (b, a) = self.loop_around(&sp);
        if pre.is_empty() {
            let mut body = self.lower_loop_body(&w.body, &sp, vec![])?;
            body.stmts.insert(0, ph);
            return Ok(self.seq(b, parse_quote!(while #c #body), a));
        }
        let mut head = pre;
        head.push(parse_quote!(if !(#c) { break; }));
        let mut body = self.lower_loop_body(&w.body, &sp, head)?;
        body.stmts.insert(0, ph);
        Ok(self.seq(b, parse_quote!(loop #body), a))
    }
    /// `for` and iterator chains become an index loop
    fn lower_for(&mut self, f: &syn::ExprForLoop) -> R<Expr> {
        if f.label.is_some() { return Err("labelled loop".into()); }
        let mut setup: Vec<Stmt> = vec![];
        self.pre.push(vec![]);
        let it = self.iter_src(&f.expr);
        setup.extend(self.pre.pop().unwrap());
        let it = it?;
        let (k, sp) = self.next_loop(&format!("for{}", assigned(&f.body).len()));
        // variables that count the iterations by hand
        let mut auto = vec![format!("vx_n{k} <= vx_end{k}")];
        for c in counters(&f.body) {
            if self.lookup(&c).map_or(true, |v| !matches!(v.kind, Kind::Plain)) { continue; }
            let s = self.text(&format!("let ghost vx_c{k}_{c} = {c} as int;"));
            setup.push(s);
            auto.push(format!("{c} as int == vx_c{k}_{c} + vx_n{k}"));
        }
        let (mut n, mut e, mut i) = (format_ident!("vx_n{}", k), format_ident!("vx_end{}", k), format_ident!("vx_k{}", k));
        for x in [&mut n, &mut e, &mut i] { x.set_span(proc_macro2::Span::call_site()); }
        let len = it.len_expr();
        setup.push(parse_quote!(let #e: usize = #len;));
        setup.push(parse_quote!(let mut #n: usize = 0;));
        let mut head: Vec<Stmt> = vec![];
        head.push(if it.rev { parse_quote!(let #i: usize = #e - 1 - #n;) } else { parse_quote!(let #i: usize = #n;) });
        head.push(parse_quote!(#n = #n + 1;));
        self.scopes.push(HashMap::new());
        self.own_decl.push(vec![]);
        let r = (|| -> R<Block> {
            self.pre.push(vec![]);
            let b = self.bind_item(&f.pat, &it.item, &parse_quote!(#i), &it.rev);
            let p = self.pre.pop().unwrap();
            head.extend(p);
            head.extend(b?);
            self.lower_loop_body(&f.body, &sp, head.clone())
        })();
        self.scopes.pop();
        self.own_decl.pop();
        let mut body = r?;
        let ph = self.loop_ph(k, &sp, &auto, &format!("vx_end{k} - vx_n{k}"));
        body.stmts.insert(0, ph);
        let (b, a) = self.loop_around(&sp);
        setup.extend(b);
        // the block keeps the loop's own variables local
        Ok(parse_quote!({ #(#setup)* while #n < #e #body #(#a)* }))
    }
    fn iter_src(&mut self, e: &Expr) -> R<It> {
        let e = peel(e);
        match e {
            Expr::Range(r) => {
                let (a, b) = match (&r.start, &r.end) { (Some(a), Some(b)) => (self.lower(a)?, self.lower(b)?), _ => return Err("range".into()) };
                if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return Err("inclusive range".into()); }
                let t = self.ty(r.start.as_ref().unwrap());
                let t2 = self.ty(r.end.as_ref().unwrap());
                let bt = if matches!(peel(r.start.as_ref().unwrap()), Expr::Lit(_)) { t2 } else { t };
                let a = self.tmp_val(a);
                let b = self.tmp_val(b);
                let zero = toks(&a) == "0";
                let len: Expr = if zero && bt == Ty::Prim("usize".into()) { b.clone() } else if bt == Ty::Prim("usize".into()) { parse_quote!(if #b > #a { #b - #a } else { 0 }) } else { parse_quote!(if #b > #a { (#b - #a) as usize } else { 0 }) };
                Ok(It { lens: vec![len], item: Item::Range(if zero { None } else { Some(a) }, bt), rev: false })
            }
            Expr::Reference(r) => {
                let t = self.ty(&r.expr);
                let p = match self.place(&r.expr)? { P::Plain(x) => x, _ => return Err("iterating an element".into()) };
                self.seq_src(p, t, r.mutability.is_some())
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" => {
                        let t = self.ty(&m.receiver);
                        if matches!(peel(&m.receiver), Expr::Range(_)) || matches!(t, Ty::Range(_)) { return self.iter_src(&m.receiver); }
                        if matches!(t.strip(), Ty::Vec(_) | Ty::Slice(_)) {
                            let p = self.recv(&m.receiver)?;
                            let p = if matches!(p, Expr::Path(_) | Expr::Field(_) | Expr::Index(_)) { p } else { self.tmp_val(p) };
                            return self.seq_src(p, t, n == "iter_mut");
                        }
                        if matches!(t, Ty::Unk) { return self.iter_src(&m.receiver); }
                        Err("iterator source".into())
                    }
                    "rev" => { let mut i = self.iter_src(&m.receiver)?; i.rev = !i.rev; self.shape.push("rev".into()); Ok(i) }
                    "enumerate" => { let i = self.iter_src(&m.receiver)?; if i.rev { return Err("enumerate after rev".into()); } Ok(It { lens: i.lens, item: Item::Enum(Box::new(i.item)), rev: false }) }
                    "zip" => { let a = self.iter_src(&m.receiver)?; let b = self.iter_src(&m.args[0])?; if a.rev || b.rev { return Err("zip after rev".into()); } let mut l = a.lens; l.extend(b.lens); Ok(It { lens: l, item: Item::Zip(Box::new(a.item), Box::new(b.item)), rev: false }) }
                    "map" => { let i = self.iter_src(&m.receiver)?; match peel(&m.args[0]) { Expr::Closure(c) => Ok(It { lens: i.lens, item: Item::Map(Box::new(i.item), c.clone()), rev: i.rev }), _ => Err("map without closure".into()) } }
                    "copied" | "cloned" => { let i = self.iter_src(&m.receiver)?; Ok(It { lens: i.lens, item: Item::Copied(Box::new(i.item)), rev: i.rev }) }
                    _ => {
                        // a crate function that returns an iterator is lowered to one that returns its items
                        let t = self.ty(e);
                        if let Ty::Vec(_) | Ty::Slice(_) = t.strip() { let x = self.lower(e)?; let x = self.src_val(x); return self.seq_src_val(x, t.strip().clone()); }
                        Err(format!("iterator {n}"))
                    }
                }
            }
            Expr::Call(c) => {
                let f = toks(&c.func).replace(' ', "");
                if f.ends_with("zip") && c.args.len() == 2 { let a = self.iter_src(&c.args[0])?; let b = self.iter_src(&c.args[1])?; let mut l = a.lens; l.extend(b.lens); return Ok(It { lens: l, item: Item::Zip(Box::new(a.item), Box::new(b.item)), rev: false }); }
                let t = self.ty(e);
                if matches!(t.strip(), Ty::Vec(_) | Ty::Slice(_)) { let x = self.lower(e)?; let x = self.src_val(x); return if matches!(t, Ty::Ref(..)) { self.seq_src(x, t, false) } else { self.seq_src_val(x, t) }; }
                Err("iterator call".into())
            }
            Expr::Path(_) | Expr::Field(_) | Expr::Index(_) => {
                let t = self.ty(e);
                let p = self.recv(e)?;
                match &t { Ty::Ref(m, _) => self.seq_src(p, t.clone(), *m), Ty::Vec(_) | Ty::Slice(_) => self.seq_src_val(p, t), Ty::Range(_) => Err("range variable".into()), _ => Err("iterator source".into()) }
            }
            _ => Err(format!("iterator source {}", toks(e))),
        }
    }
    /// the items a loop goes through get a name the contract can use
    fn src_val(&mut self, e: Expr) -> Expr {
        if is_trivial(&e) { return e; }
        let t = format_ident!("vx_src{}", self.loops);
        if self.srcs.contains(&self.loops) { return self.tmp_val(e); }
        self.srcs.push(self.loops);
        self.push(parse_quote!(let #t = #e;));
        parse_quote!(#t)
    }
    fn seq_src(&mut self, p: Expr, t: Ty, m: bool) -> R<It> {
        let el = t.elem().ok_or_else(|| format!("no element type of {}", toks(&p)))?;
        Ok(It { lens: vec![parse_quote!(#p.len())], item: Item::Seq(p, el, m), rev: false })
    }
    fn seq_src_val(&mut self, p: Expr, t: Ty) -> R<It> {
        let el = t.elem().ok_or("element type")?;
        Ok(It { lens: vec![parse_quote!(#p.len())], item: Item::SeqVal(p, el), rev: false })
    }
    fn bind_item(&mut self, pat: &Pat, it: &Item, i: &Expr, _rev: &bool) -> R<Vec<Stmt>> {
        match it {
            Item::Range(start, t) => {
                let Some(n) = pat_name(pat) else { return if matches!(pat, Pat::Wild(_)) { Ok(vec![]) } else { Err("range pattern".into()) } };
                let nm = id(&n);
                self.bind(&n, Var { ty: t.clone(), kind: Kind::Plain });
                let v: Expr = match (start, t) { (None, Ty::Prim(p)) if p == "usize" => i.clone(), (Some(s), Ty::Prim(p)) if p == "usize" => parse_quote!(#s + #i), (None, Ty::Prim(p)) => { let p = id(p); parse_quote!(#i as #p) } (Some(s), Ty::Prim(p)) => { let p = id(p); parse_quote!(#s + (#i as #p)) } _ => return Err("range type".into()) };
                Ok(vec![parse_quote!(let #nm = #v;)])
            }
            Item::Seq(p, el, m) => {
                match strip_pt(pat) {
                    Pat::Reference(r) => {
                        let n = pat_name(&r.pat).ok_or("pattern")?;
                        let nm = id(&n);
                        if el.is_ptr() { self.bind(&n, Var { ty: el.clone(), kind: Kind::Al(Alias::Own(parse_quote!(#p[#i]), false, String::new())) }); return Ok(vec![]); }
                        self.bind(&n, Var { ty: el.clone(), kind: Kind::Plain });
                        Ok(vec![parse_quote!(let #nm = #p[#i];)])
                    }
                    Pat::Wild(_) => Ok(vec![]),
                    _ => {
                        let n = pat_name(pat).ok_or("pattern")?;
                        self.bind(&n, Var { ty: rf(*m, el.clone()), kind: Kind::Al(Alias::Place(parse_quote!(#p[#i]))) });
                        Ok(vec![])
                    }
                }
            }
            Item::SeqVal(p, el) => { let n = pat_name(pat).ok_or("pattern")?; let nm = id(&n); self.bind(&n, Var { ty: el.clone(), kind: Kind::Plain }); Ok(vec![parse_quote!(let #nm = #p[#i];)]) }
            Item::Copied(inner) => match &**inner { Item::Seq(p, el, _) => { let n = pat_name(pat).ok_or("pattern")?; let nm = id(&n); self.bind(&n, Var { ty: el.clone(), kind: Kind::Plain }); Ok(vec![parse_quote!(let #nm = #p[#i];)]) } _ => Err("copied".into()) },
            Item::Enum(inner) => {
                let Pat::Tuple(t) = strip_pt(pat) else { return Err("enumerate pattern".into()) };
                let mut v = vec![];
                if let Some(n) = pat_name(&t.elems[0]) { let nm = id(&n); self.bind(&n, Var { ty: Ty::Prim("usize".into()), kind: Kind::Plain }); v.push(parse_quote!(let #nm = #i;)); }
                v.extend(self.bind_item(&t.elems[1], inner, i, &false)?);
                Ok(v)
            }
            Item::Zip(a, b) => {
                let Pat::Tuple(t) = strip_pt(pat) else { return Err("zip pattern".into()) };
                let mut v = self.bind_item(&t.elems[0], a, i, &false)?;
                v.extend(self.bind_item(&t.elems[1], b, i, &false)?);
                Ok(v)
            }
            Item::Map(inner, c) => {
                let mut v = match c.inputs.first() { Some(p) => self.bind_item(p, inner, i, &false)?, None => vec![] };
                let t = self.ty(&c.body);
                self.pre.push(vec![]);
                let x = self.lower(&c.body);
                v.extend(self.pre.pop().unwrap());
                let x = x?;
                let q = self.lower_pat(pat, &t)?;
                v.push(parse_quote!(let #q = #x;));
                Ok(v)
            }
        }
    }
    fn is_iter_expr(&self, e: &Expr) -> bool {
        match peel(e) {
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "iter" | "iter_mut" => true,
                "into_iter" => true,
                "map" | "rev" | "enumerate" | "zip" | "copied" | "cloned" | "filter" => self.is_iter_expr(&m.receiver),
                _ => false,
            },
            Expr::Range(_) => true,
            Expr::Call(c) => toks(&c.func).ends_with("zip"),
            _ => false,
        }
    }
    fn item_ty(&self, it: &Item) -> Ty {
        match it { Item::Range(_, t) => t.clone(), Item::Seq(_, t, _) | Item::SeqVal(_, t) => t.clone(), Item::Copied(i) => self.item_ty(i), Item::Map(_, c) => self.ty(&c.body).strip().clone(), _ => Ty::Unk }
    }
    fn lower_iter_fn(&mut self, e: &Expr) -> R<Expr> { self.consume("collect", e, None) }
    /// consumers of an iterator chain
    fn consume(&mut self, what: &str, src: &Expr, arg: Option<&Expr>) -> R<Expr> {
        let mut setup: Vec<Stmt> = vec![];
        self.pre.push(vec![]);
        let it = self.iter_src(src);
        setup.extend(self.pre.pop().unwrap());
        let it = it?;
        let (k, sp) = self.next_loop(what);
        let (n, e, i, r) = (format_ident!("vx_n{}", k), format_ident!("vx_end{}", k), format_ident!("vx_k{}", k), format_ident!("vx_r{}", k));
        let len = it.len_expr();
        setup.push(parse_quote!(let #e: usize = #len;));
        setup.push(parse_quote!(let mut #n: usize = 0;));
        let init: Stmt = match what {
            "position" => parse_quote!(let mut #r: Option<usize> = None;),
            "any" => parse_quote!(let mut #r = false;),
            "all" => parse_quote!(let mut #r = true;),
            "min" | "max" => match self.item_ty(&it.item) { Ty::Prim(t) => { let t = id(&t); parse_quote!(let mut #r: Option<#t> = None;) } _ => parse_quote!(let mut #r = None;) },
            "collect" => match &self.fi.sig.output {
                syn::ReturnType::Type(_, t) if self.lazy_iters => { let t = self.lower_ty(t)?; parse_quote!(let mut #r: #t = Vec::new();) }
                _ => match self.item_ty(&it.item) {
                    Ty::Named(n, a) if a.is_empty() && self.db.structs.get(&n).map_or(false, |s| s.lifetime.is_none()) => { let t = id(&self.db.structs[&n].name); parse_quote!(let mut #r: Vec<#t> = Vec::new();) }
                    _ => parse_quote!(let mut #r = Vec::new();),
                },
            },
            "sum" | "count" => parse_quote!(let mut #r = 0;),
            _ => return Err(format!("iterator consumer {what}")),
        };
        setup.push(init);
        let mut head: Vec<Stmt> = vec![];
        head.push(if it.rev { parse_quote!(let #i: usize = #e - 1 - #n;) } else { parse_quote!(let #i: usize = #n;) });
        head.push(parse_quote!(#n = #n + 1;));
        self.scopes.push(HashMap::new());
        self.own_decl.push(vec![]);
        let res = (|| -> R<()> {
            self.pre.push(vec![]);
            let rr = (|| -> R<Vec<Stmt>> {
                let mut v = vec![];
                match what {
                    "position" | "any" | "all" => {
                        let Some(Expr::Closure(c)) = arg.map(peel) else { return Err("closure expected".into()) };
                        // position and all/any: the closure takes an item (any/all/position pass it by value)
                        v.extend(self.bind_item(&c.inputs[0], &it.item, &parse_quote!(#i), &false)?);
                        self.pre.push(vec![]);
                        let x = self.lower(&c.body);
                        v.extend(self.pre.pop().unwrap());
                        let x = x?;
                        v.push(match what { "position" => parse_quote!(if #x { #r = Some(#i); break; }), "any" => parse_quote!(if #x { #r = true; break; }), _ => parse_quote!(if !(#x) { #r = false; break; }) });
                    }
                    _ => {
                        let x = format_ident!("vx_x{}", k);
                        let byref = matches!(it.item, Item::Seq(..));
                        let item = if byref { Item::Copied(Box::new(it.item.clone())) } else { it.item.clone() };
                        v.extend(self.bind_item(&parse_quote!(#x), &item, &parse_quote!(#i), &false)?);
                        v.push(match what {
                            "collect" => parse_quote!(#r.push(#x);),
                            "min" => parse_quote!(#r = match #r { None => Some(#x), Some(vx_m) => if #x < vx_m { Some(#x) } else { Some(vx_m) } };),
                            "max" => parse_quote!(#r = match #r { None => Some(#x), Some(vx_m) => if #x >= vx_m { Some(#x) } else { Some(vx_m) } };),
                            "count" => parse_quote!(#r = #r + 1;),
                            _ => parse_quote!(#r = #r + #x;),
                        });
                    }
                }
                Ok(v)
            })();
            head.extend(self.pre.pop().unwrap());
            head.extend(rr?);
            Ok(())
        })();
        self.scopes.pop();
        self.own_decl.pop();
        res?;
        let mut body: Vec<Stmt> = vec![];
        let auto = if matches!(what, "position" | "any" | "all") { vec![format!("vx_n{k} <= vx_end{k}")] } else { vec![format!("vx_n{k} <= vx_end{k}")] };
        body.push(self.loop_ph(k, &sp, &auto, &format!("vx_end{k} - vx_n{k}")));
        if !sp.start.trim().is_empty() { let s = self.text(&sp.start); head.insert(2, s); }
        body.extend(head);
        if !sp.end.trim().is_empty() { let s = self.text(&sp.end); body.push(s); }
        let (b, a) = self.loop_around(&sp);
        setup.extend(b);
        for s in setup { self.push(s); }
        self.push(Stmt::Expr(parse_quote!(while #n < #e { #(#body)* }), None));
        for s in a { self.push(s); }
        Ok(parse_quote!(#r))
    }

    // ---------------------------------------------------------------- calls
    fn arg_want(&self, f: &FnInfo, idx: usize) -> Want {
        let ps: Vec<&syn::PatType> = f.sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        let Some(p) = ps.get(idx) else { return Want::Val };
        match self.db.ty(&p.ty, &f.module, Some(f)) {
            Ty::Ptr(false, _) => Want::Const,
            Ty::Ptr(true, _) => { let sp = self.specs.fns.get(&f.key); let off = if f.has_self { 1 } else { 0 }; let n = sp.and_then(|s| s.params.get(idx + off).cloned()).unwrap_or_default(); match sp.and_then(|s| s.ptr.get(&n)).map(|s| s.as_str()) { Some("own") => Want::Own, _ => Want::Mut } }
            _ => Want::Val,
        }
    }
    fn ghost_args(&mut self, f: &FnInfo) -> R<Vec<proc_macro2::TokenStream>> {
        let mut v = vec![];
        if let Some(s) = self.specs.fns.get(&f.key) {
            for (_, _, m) in &s.ghost {
                let h = self.spec.map(|s| s.heap.clone()).unwrap_or_default();
                if h.is_empty() { return Err(format!("{} needs the page memory, which {} has no access to", f.key, self.fi.key)); }
                let (hm, hr) = h.split_once('|').map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).unwrap_or((h.clone(), h));
                v.push((if *m { hm } else { hr }).parse().map_err(|_| "heap expression")?);
            }
        }
        Ok(v)
    }
    fn note_call(&mut self, name: &str) {
        let c = self.calls.entry(name.to_string()).or_insert(0);
        let k = *c;
        *c += 1;
        if let Some(s) = self.spec {
            for (n, i, t) in s.before.clone() { if n == name && i == k { let st = self.text(&t); self.push(st); } }
            for (n, i, t) in s.after.clone() { if n == name && i == k { let st = self.text(&t); self.post.last_mut().unwrap().push(st); } }
        }
    }
    fn args_for(&mut self, f: &FnInfo, args: &syn::punctuated::Punctuated<Expr, syn::Token![,]>) -> R<Vec<Expr>> {
        let mut v = vec![];
        for (i, a) in args.iter().enumerate() {
            let w = self.arg_want(f, i);
            v.push(if w == Want::Val { self.lower(a)? } else { self.ptr_or_null(a, w)? });
        }
        Ok(v)
    }
    fn lower_call(&mut self, c: &syn::ExprCall) -> R<Expr> {
        if let Some(f) = self.callee(c) {
            self.used.push(f.key.clone());
            if self.needs_inline(f) { return self.inline(f, None, &c.args, &c.func); }
            let a = self.args_for(f, &c.args)?;
            let g = self.ghost_args(f)?;
            self.note_call(&f.sig.ident.to_string());
            let fun = self.lower_callee_path(&c.func)?;
            return Ok(parse_quote!(#fun(#(#a,)* #(#g),*)));
        }
        let fp = match peel(&c.func) { Expr::Path(p) => p.clone(), _ => return Err("computed callee".into()) };
        let s = toks(&fp.path).replace(' ', "");
        let base = s.split("::<").next().unwrap_or(&s).to_string();
        if base.ends_with("slice::from_raw_parts") || base.ends_with("slice_from_raw_parts") {
            let p = self.ptr(&c.args[0])?;
            let n = self.lower(&c.args[1])?;
            let b = match p.pk { PK::ConstVal if p.off.is_some() => self.ptre_as(p, Want::Const)?, _ if p.off.is_none() => p.base, _ => return Err("slice of an offset pointer".into()) };
            return Ok(parse_quote!(#b.as_slice(#n)));
        }
        // free functions of std::ptr are the methods of the same meaning
        if let Some(n) = base.strip_prefix("std::").unwrap_or(&base).strip_prefix("ptr::") {
            let x: Vec<&Expr> = c.args.iter().collect();
            match (n, x.as_slice()) {
                ("copy_nonoverlapping", [s, d, k]) => return self.lower(&parse_quote!((#s).copy_to_nonoverlapping(#d, #k))),
                ("write", [d, v]) => return self.lower(&parse_quote!((#d).write(#v))),
                ("read", [s]) => return self.lower(&parse_quote!((#s).read())),
                ("write_bytes", [d, v, k]) => return self.lower(&parse_quote!((#d).write_bytes(#v, #k))),
                _ => {}
            }
        }
        let mut a: Vec<Expr> = vec![];
        match base.as_str() {
            "ManuallyDrop::take" | "ManuallyDrop::drop" | "ManuallyDrop::into_inner" | "std::mem::drop" | "drop" => {
                // the argument is `&mut <temporary>`: the temporary is consumed
                let x = match peel(&c.args[0]) {
                    // or a place in a buffer: the value is moved out of it
                    Expr::Reference(r) => match peel(&r.expr) {
                        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is_ptr(&u.expr) => { let p = &u.expr; self.lower(&parse_quote!((#p).read()))? }
                        _ => self.lower(&r.expr)?,
                    },
                    x => self.lower(x)?,
                };
                return Ok(match base.as_str() { "ManuallyDrop::take" | "ManuallyDrop::into_inner" => parse_quote!(vx_md_take(#x)), "ManuallyDrop::drop" => { let h = self.heap_mut()?; parse_quote!(vx_md_drop(#x, #h)) } _ => match self.heap_mut() { Ok(h) => parse_quote!(vx_drop_logged(#x, #h)), Err(_) => parse_quote!(vx_drop(#x)) } });
            }
            "PhantomData::default" => return Ok(parse_quote!(PhantomData)),
            "std::alloc::dealloc" | "alloc::dealloc" => {
                // dealloc(ptr as *mut u8, layout)
                let pe = match peel(&c.args[0]) { Expr::Cast(k) => (*k.expr).clone(), x => x.clone() };
                let l = self.lower(&c.args[1])?;
                if self.ty(&pe).is_ptr() { let p = self.ptr_as(&pe, Want::Own)?; return Ok(parse_quote!(vx_std_dealloc(#p, #l))); }
                let h = self.heap_mut()?;
                let p = self.lower(&pe)?;
                return Ok(parse_quote!(vx_page_dealloc(#p, #l, #h)));
            }
            _ => {}
        }
        for x in &c.args { a.push(self.lower(x)?); }
        Ok(match base.as_str() {
            "std::cmp::max" | "cmp::max" | "max" => parse_quote!(vx_max(#(#a),*)),
            "std::cmp::min" | "cmp::min" | "min" => parse_quote!(vx_min(#(#a),*)),
            "std::alloc::alloc" | "alloc::alloc" => { let h = self.heap_mut()?; parse_quote!(vx_page_alloc(#(#a,)* #h)) }
            "std::alloc::alloc_zeroed" | "alloc::alloc_zeroed" => { let h = self.heap_mut()?; parse_quote!(vx_page_alloc(#(#a,)* #h)) }
            "Layout::from_size_align_unchecked" => parse_quote!(Layout::from_size_align_unchecked(#(#a),*)),
            "std::mem::size_of" | "std::mem::align_of" | "mem::size_of" | "mem::align_of" | "size_of" | "align_of" => {
                let args = match &fp.path.segments.last().unwrap().arguments { syn::PathArguments::AngleBracketed(a) => a.clone(), _ => return Err("size_of".into()) };
                if base.ends_with("size_of") { parse_quote!(vx_size_of #args()) } else { parse_quote!(vx_align_of #args()) }
            }
            "std::any::type_name" => { let args = fp.path.segments.last().unwrap().arguments.clone(); parse_quote!(vx_type_name #args()) }
            "std::any::TypeId::of" | "TypeId::of" | "any::TypeId::of" => { let args = fp.path.segments.last().unwrap().arguments.clone(); parse_quote!(TypeId::of #args()) }
            "std::ptr::NonNull::dangling" | "NonNull::dangling" => parse_quote!(RawBuf::dangling()),
            "std::ptr::null" | "std::ptr::null_mut" | "null" | "null_mut" | "ptr::null" | "ptr::null_mut" => {
                if self.tup() { let args = fp.path.segments.last().unwrap().arguments.clone(); parse_quote!(CPtr #args::null()) } else if base.ends_with("mut") { parse_quote!(RawBuf::null()) } else { parse_quote!(ConstPtr::null()) }
            }
            "Some" | "Ok" | "Err" | "Vec::new" | "Vec::with_capacity" | "ManuallyDrop::new" => { let f = &fp; parse_quote!(#f(#(#a),*)) }
            "std::mem::swap" | "std::mem::replace" | "std::mem::take" => { let f = &fp; parse_quote!(#f(#(#a),*)) }
            _ => {
                // T::method of a type parameter, or a crate type's trait method
                if fp.path.segments.len() == 2 || fp.qself.is_some() {
                    let q = fp.path.segments[0].ident.to_string();
                    if self.bound_of(&q).is_some() || q == "Self" { let f = self.lower_callee_path(&c.func)?; return Ok(parse_quote!(#f(#(#a),*))); }
                }
                return Err(format!("call of unknown function {s}"));
            }
        })
    }
    fn heap_mut(&mut self) -> R<proc_macro2::TokenStream> {
        let h = self.spec.map(|s| s.heap.clone()).unwrap_or_default();
        let h = h.split('|').next().unwrap_or("").trim().to_string();
        if h.is_empty() { return Err("page memory not accessible here".into()); }
        h.parse().map_err(|_| "heap expression".to_string())
    }
    fn heap_ref(&mut self) -> R<proc_macro2::TokenStream> {
        let h = self.spec.map(|s| s.heap.clone()).unwrap_or_default();
        let h = h.split_once('|').map(|x| x.1.trim().to_string()).unwrap_or(h);
        if h.is_empty() { return Err("page memory not accessible here".into()); }
        h.parse().map_err(|_| "heap expression".to_string())
    }
    fn lower_callee_path(&mut self, e: &Expr) -> R<Expr> {
        let mut p = match peel(e) { Expr::Path(p) => p.clone(), _ => return Err("callee".into()) };
        let n = p.path.segments.len();
        if n >= 2 && p.path.segments[n - 2].ident == "self" { let l = p.path.segments.last().unwrap().clone(); return Ok(parse_quote!(#l)); }
        for s in p.path.segments.iter_mut() { if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments { for x in a.args.iter_mut() { if let syn::GenericArgument::Type(t) = x { *t = self.lower_ty(t)?; } } } }
        Ok(Expr::Path(p))
    }
    fn needs_inline(&self, f: &FnInfo) -> bool { f.block.is_some() && !f.is_trait_decl && f.trait_name.as_deref().map_or(true, |t| !matches!(t, "ComponentTuple" | "ComponentQueryAccess")) && !self.specs.fns.contains_key(&f.key) }

    fn lower_mcall(&mut self, m: &syn::ExprMethodCall) -> R<Expr> {
        let name = m.method.to_string();
        let rt = self.ty(&m.receiver);
        let me = &m.method;
        let tf = &m.turbofish;
        // crate methods
        if let Some(f) = self.mcallee(m) {
            self.used.push(f.key.clone());
            if self.needs_inline(f) { return self.inline(f, Some(&m.receiver), &m.args, &Expr::MethodCall(m.clone())); }
            let r = self.recv(&m.receiver)?;
            let a = self.args_for(f, &m.args)?;
            let g = self.ghost_args(f)?;
            self.note_call(&name);
            let tf = match tf { Some(t) => { let mut t = t.clone(); for x in t.args.iter_mut() { if let syn::GenericArgument::Type(y) = x { *y = self.lower_ty(y)?; } } Some(t) } None => None };
            return Ok(parse_quote!(#r.#me #tf(#(#a,)* #(#g),*)));
        }
        // raw pointers
        if rt.strip().is_ptr() {
            match name.as_str() {
                "add" => { let p = self.ptr(&Expr::MethodCall(m.clone()))?; return self.ptre_as(p, Want::Const); }
                "copy_to_nonoverlapping" => {
                    let s = self.ptr(&m.receiver)?;
                    let d = self.ptr(&m.args[0])?;
                    let n = self.lower(&m.args[1])?;
                    let (sb, so, dof) = (&s.base, Self::off(&s), Self::off(&d));
                    let db: Expr = match d.pk { PK::OwnPlace => { let b = &d.base; parse_quote!(&mut #b) } PK::RefVar => d.base.clone(), _ => return Err("copy into a const pointer".into()) };
                    return Ok(parse_quote!(#sb.copy_to(#so, #db, #dof, #n)));
                }
                "copy_from_nonoverlapping" => {
                    let d = self.ptr(&m.receiver)?;
                    let s = self.ptr(&m.args[0])?;
                    let n = self.lower(&m.args[1])?;
                    let (sb, so, dof) = (&s.base, Self::off(&s), Self::off(&d));
                    let db: Expr = match d.pk { PK::OwnPlace => { let b = &d.base; parse_quote!(&mut #b) } PK::RefVar => d.base.clone(), _ => return Err("copy into a const pointer".into()) };
                    return Ok(parse_quote!(#sb.copy_to(#so, #db, #dof, #n)));
                }
                "write" => { let v = self.lower(&m.args[0])?; let v = self.tmp_val(v); let p = self.ptr(&m.receiver)?; let (b, o) = (&p.base, Self::off(&p)); return Ok(parse_quote!(#b.wr(#o, #v))); }
                "read" => {
                    let p = self.ptr(&m.receiver)?;
                    let (b, o) = (&p.base, Self::off(&p));
                    let copy = matches!(rt.strip(), Ty::Ptr(_, x) if x.is_prim());
                    return Ok(if copy { parse_quote!(#b.rd(#o)) } else { parse_quote!(#b.read_move(#o)) });
                }
                "write_bytes" => { let v = self.lower(&m.args[0])?; let n = self.lower(&m.args[1])?; let p = self.ptr(&m.receiver)?; let (b, o) = (&p.base, Self::off(&p)); return Ok(parse_quote!(#b.write_bytes(#o, #v, #n))); }
                _ => return Err(format!("pointer method {name}")),
            }
        }
        if let (Ty::Page, "copy_to_nonoverlapping") = (rt.strip(), name.as_str()) {
            let s = self.lower(&m.receiver)?;
            let d = self.lower(&m.args[0])?;
            let n = self.lower(&m.args[1])?;
            let h = self.heap_mut()?;
            return Ok(parse_quote!(#s.copy_to(#d, #n, #h)));
        }
        match name.as_str() {
            "unwrap_unchecked" | "unwrap" | "expect" => {
                // element references: ptr.as_ref().unwrap_unchecked()
                if let Expr::MethodCall(i) = peel(&m.receiver) {
                    if (i.method == "as_ref" || i.method == "as_mut") && self.ty(&i.receiver).strip().is_ptr() {
                        let p = self.ptr(&i.receiver)?;
                        let (b, o) = (&p.base, Self::off(&p));
                        let md = matches!(self.ty(&i.receiver).strip(), Ty::Ptr(_, x) if matches!(&**x, Ty::Named(n, _) if n == "ManuallyDrop"));
                        return Ok(match (i.method == "as_mut", md) { (true, true) => parse_quote!(#b.borrow_mut(#o).vx_inner_mut()), (false, true) => parse_quote!(#b.borrow(#o).vx_inner()), (true, false) => parse_quote!(#b.borrow_mut(#o)), _ => parse_quote!(#b.borrow(#o)) });
                    }
                }
                let r = self.lower(&m.receiver)?;
                return Ok(parse_quote!(#r.unwrap()));
            }
            "get_unchecked" => { let b = self.recv(&m.receiver)?; let i = self.lower(&m.args[0])?; return Ok(parse_quote!(&#b[#i])); }
            "get_unchecked_mut" => { let b = self.recv(&m.receiver)?; let i = self.lower(&m.args[0])?; return Ok(parse_quote!(&mut #b[#i])); }
            "binary_search" => {
                let b = self.recv(&m.receiver)?;
                let b: Expr = match rt.strip() { Ty::Vec(_) => parse_quote!(#b.as_slice()), Ty::Slice(_) if matches!(rt, Ty::Ref(..)) && matches!(peel(&m.receiver), Expr::Path(_)) => b, _ => parse_quote!(&#b) };
                let x = self.lower(&m.args[0])?;
                return Ok(parse_quote!(vx_binary_search(#b, #x)));
            }
            "map" | "and_then" | "map_or" | "unwrap_or_else" | "is_some_and" | "is_none_or" | "is_ok_and" | "map_or_else" | "filter" | "or_else" | "map_err" if !self.is_iter_expr(&m.receiver) => return self.option_combinator(&name, m),
            "ok" if m.args.is_empty() => { let r = self.lower(&m.receiver)?; return Ok(parse_quote!(match #r { Ok(vx_x) => Some(vx_x), Err(_) => None })); }
            "unwrap_or" if matches!(rt.strip(), Ty::Opt(_) | Ty::Res(..)) => {
                let r = self.lower(&m.receiver)?;
                let d = self.lower(&m.args[0])?;
                return Ok(if matches!(rt.strip(), Ty::Opt(_)) { parse_quote!(match #r { Some(vx_x) => vx_x, None => #d }) } else { parse_quote!(match #r { Ok(vx_x) => vx_x, Err(_) => #d }) });
            }
            "then_some" => { let r = self.lower(&m.receiver)?; let d = self.lower(&m.args[0])?; return Ok(parse_quote!(if #r { Some(#d) } else { None })); }
            "then" if matches!(m.args.first().map(peel), Some(Expr::Closure(_))) => { let r = self.lower(&m.receiver)?; let Some(Expr::Closure(c)) = m.args.first().map(peel) else { unreachable!() }; let b = self.closure_body(c)?; return Ok(parse_quote!(if #r { Some(#b) } else { None })); }
            "position" | "any" | "all" if self.is_iter_expr(&m.receiver) => return self.consume(&name, &m.receiver, Some(&m.args[0])),
            "min" | "max" | "collect" | "sum" | "count" if m.args.is_empty() && self.is_iter_expr(&m.receiver) => return self.consume(&name, &m.receiver, None),
            "contains" => {
                if let Some(el) = rt.elem() {
                    if let Ty::Named(k, _) = &el { if let Some(s) = self.db.structs.get(k) { if self.db.fns.contains_key(&self.db.fn_key(&s.module, Some(&s.name), "eq")) {
                        // [T]::contains calls T::eq
                        let a = m.args[0].clone();
                        let rcv = m.receiver.clone();
                        let cmp: Expr = match peel(&a) { Expr::Reference(r) => { let x = &r.expr; parse_quote!(|vx_c| *vx_c == #x) } x => parse_quote!(|vx_c| *vx_c == *#x) };
                        return self.consume("any", &parse_quote!(#rcv.iter()), Some(&cmp));
                    } } }
                    let b = self.recv(&m.receiver)?;
                    let x = self.lower(&m.args[0])?;
                    return Ok(parse_quote!(vx_contains(&#b, #x)));
                }
            }
            "sort_by_key" | "sort_unstable_by_key" | "sort_by" | "sort_unstable_by" => {
                let Some(Expr::Closure(c)) = m.args.first().map(peel) else { return Err("sort closure".into()) };
                let body = toks(&c.body).replace(' ', "");
                let ps: Vec<String> = c.inputs.iter().filter_map(pat_name).collect();
                let ok = match ps.len() { 1 => body == format!("{}.id()", ps[0]), 2 => body == format!("{}.id().cmp(&{}.id())", ps[0], ps[1]), _ => false };
                if !ok { return Err("sort key".into()); }
                let b = self.recv(&m.receiver)?;
                self.note_call("sort");
                return Ok(if matches!(rt.strip(), Ty::Slice(_)) { parse_quote!(vx_sort_slice_by_id(#b)) } else { parse_quote!(vx_sort_by_id(&mut #b)) });
            }
            "push" | "insert" if matches!(rt.strip(), Ty::Vec(x) if x.is_ptr()) => {
                let b = self.recv(&m.receiver)?;
                let mut a = vec![];
                let k = m.args.len() - 1;
                for (i, x) in m.args.iter().enumerate() { a.push(if i == k { self.ptr_as(x, Want::Own)? } else { self.lower(x)? }); }
                return Ok(parse_quote!(#b.#me(#(#a),*)));
            }
            "iter" | "into_iter" | "iter_mut" if matches!(rt.strip(), Ty::Vec(_) | Ty::Slice(_) | Ty::Range(_)) => return Err("iterator as a value".into()),
            "saturating_sub" => { let r = self.recv(&m.receiver)?; let x = self.lower(&m.args[0])?; return Ok(parse_quote!(vx_saturating_sub(#r, #x))); }
            "capacity" if matches!(rt.strip(), Ty::Vec(_)) => { let b = self.recv(&m.receiver)?; return Ok(parse_quote!(vx_vec_capacity(&#b))); }
            "next_multiple_of" | "div_ceil" if m.args.len() == 1 => { let f = id(&format!("vx_{name}")); let r = self.recv(&m.receiver)?; let x = self.lower(&m.args[0])?; return Ok(parse_quote!(#f(#r, #x))); }
            "reserve" | "reserve_exact" => { let b = self.recv(&m.receiver)?; let x = self.lower(&m.args[0])?; return Ok(parse_quote!(#b.reserve(#x))); }
            "as_ptr" => return self.ptr_as(&Expr::MethodCall(m.clone()), Want::Const),
            "into" | "try_into" | "as_ref" | "as_mut" | "by_ref" | "skip" | "take" | "filter_map" | "find" | "fold" | "chain" | "for_each" => return Err(format!("method {name}")),
            _ => {}
        }
        let r = self.recv(&m.receiver)?;
        let mut a = vec![];
        for x in &m.args { a.push(self.lower(x)?); }
        self.note_call(&name);
        if name == "size" && a.is_empty() { return Ok(parse_quote!(#r.size())); }
        Ok(parse_quote!(#r.#me #tf(#(#a),*)))
    }
    fn option_combinator(&mut self, name: &str, m: &syn::ExprMethodCall) -> R<Expr> {
        let t = self.ty(&m.receiver);
        let (it, et, res_) = match t.strip() { Ty::Opt(x) => ((**x).clone(), Ty::Unk, false), Ty::Res(x, y) => ((**x).clone(), (**y).clone(), true), _ => (Ty::Unk, Ty::Unk, matches!(name, "is_ok_and" | "map_err")) };
        let r = self.lower(&m.receiver)?;
        let clo = |a: Option<&Expr>| -> R<syn::ExprClosure> { match a.map(peel) { Some(Expr::Closure(c)) => Ok(c.clone()), Some(Expr::Path(p)) if matches!(name, "map" | "and_then") => { let p = p.clone(); Ok(parse_quote!(|vx_x| #p(vx_x))) } _ => Err(format!("{name} without closure")) } };
        self.scopes.push(HashMap::new());
        self.own_decl.push(vec![]);
        let res = (|| -> R<Expr> {
            let (some, none): (Expr, Pat) = if res_ { (parse_quote!(Ok), parse_quote!(Err(vx_e))) } else { (parse_quote!(Some), parse_quote!(None)) };
            // the branch without a value: a closure with the error, or without an argument
            let other = |l: &mut Self, c: &syn::ExprClosure| -> R<Expr> {
                l.scopes.push(HashMap::new());
                let x = (|| { let p = match c.inputs.first() { Some(p) => Some(l.lower_pat(p, &et)?), None => None }; let b = l.closure_body(c)?; Ok(match p { Some(p) => parse_quote!({ let #p = vx_e; #b }), None => b }) })();
                l.scopes.pop();
                x
            };
            let last = clo(m.args.last())?;
            match name {
                "unwrap_or_else" => { let b = other(self, &last)?; return Ok(parse_quote!(match #r { #some(vx_x) => vx_x, #none => #b })); }
                "or_else" => { let b = other(self, &last)?; return Ok(parse_quote!(match #r { #some(vx_x) => #some(vx_x), #none => #b })); }
                "map_err" => { let b = other(self, &last)?; return Ok(parse_quote!(match #r { Ok(vx_x) => Ok(vx_x), Err(vx_e) => Err(#b) })); }
                _ => {}
            }
            let input = last.inputs.first().ok_or("closure input")?;
            if name == "filter" {
                if res_ { return Err("filter of a Result".into()); }
                let p = self.lower_pat(input, &rf(false, it.clone()))?;
                let b = self.closure_body(&last)?;
                return Ok(parse_quote!(match #r { Some(vx_v) => { let vx_keep = { let #p = &vx_v; #b }; if vx_keep { Some(vx_v) } else { None } } None => None }));
            }
            let p = self.lower_pat(input, &it)?;
            let b = self.closure_body(&last)?;
            Ok(match name {
                "map" if res_ => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }),
                "and_then" if res_ => parse_quote!(match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }),
                "map" => parse_quote!(match #r { Some(#p) => Some(#b), None => None }),
                "and_then" => parse_quote!(match #r { Some(#p) => #b, None => None }),
                "is_some_and" => parse_quote!(match #r { Some(#p) => #b, None => false }),
                "is_none_or" => parse_quote!(match #r { Some(#p) => #b, None => true }),
                "is_ok_and" => parse_quote!(match #r { Ok(#p) => #b, Err(_) => false }),
                "map_or" => { let d = self.lower_scoped(&m.args[0])?; parse_quote!(match #r { #some(#p) => #b, #none => #d }) }
                "map_or_else" => { let d = other(self, &clo(m.args.first())?)?; parse_quote!(match #r { #some(#p) => #b, #none => #d }) }
                _ => return Err(format!("combinator {name}")),
            })
        })();
        self.scopes.pop();
        self.own_decl.pop();
        res
    }
    fn closure_body(&mut self, c: &syn::ExprClosure) -> R<Expr> {
        // `return e` at the very end of the closure's body is its value
        let body = strip_tail_return(&c.body)?;
        self.lower_scoped(&body)
    }
    fn lower_macro(&mut self, m: &syn::Macro) -> R<Expr> {
        let n = last_seg(&m.path);
        let args = || m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).map(|a| a.into_iter().collect::<Vec<_>>()).map_err(|e| e.to_string());
        Ok(match n.as_str() {
            "debug_assert" | "assert" | "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let a = args()?;
                let c: Expr = if n.ends_with("_eq") { let (x, y) = (&a[0], &a[1]); parse_quote!(#x == #y) } else if n.ends_with("_ne") { let (x, y) = (&a[0], &a[1]); parse_quote!(#x != #y) } else { a[0].clone() };
                // a checked build runs what the condition does besides answering, an unchecked one does not
                let guard = n.starts_with("debug") && self.effects(&c);
                let c = if guard { self.lower_scoped(&c)? } else { self.lower(&c)? };
                let mode = if n.starts_with("debug") { self.opt("dassert").unwrap_or("prove") } else { self.opt("assert").unwrap_or("refuse") };
                let x: Expr = if mode == "prove" { parse_quote!(vx_require(#c)) } else { parse_quote!(vx_refuse_unless(#c)) };
                if guard { parse_quote!(if vx_checked_build() { #x; }) } else { x }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => if self.opt("panic").unwrap_or("prove") == "refuse" { parse_quote!(vx_refuse()) } else { parse_quote!(vx_unreachable()) },
            "component_types" => { let t = m.parse_body_with(syn::punctuated::Punctuated::<syn::Type, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())?; let t: Vec<_> = t.into_iter().collect(); parse_quote!([#(crate::component_type::ComponentType::of::<#t>()),*]) }
            "type_ids" => { let t = m.parse_body_with(syn::punctuated::Punctuated::<syn::Type, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())?; let t: Vec<_> = t.into_iter().collect(); parse_quote!([#(TypeId::of::<#t>()),*]) }
            "matches" => {
                let (e, pat, guard) = m.parse_body_with(|i: syn::parse::ParseStream| { let e: Expr = i.parse()?; i.parse::<syn::Token![,]>()?; let p = syn::Pat::parse_multi_with_leading_vert(i)?; let g: Option<Expr> = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<syn::Token![,]>>()?; Ok((e, p, g)) }).map_err(|e| e.to_string())?;
                let x: Expr = match guard { Some(g) => parse_quote!(match #e { #pat if #g => true, _ => false }), None => parse_quote!(match #e { #pat => true, _ => false }) };
                self.lower(&x)?
            }
            "cfg" => if toks(&m.tokens) == "debug_assertions" { parse_quote!(vx_checked_build()) } else { return Err("cfg!".into()) },
            "vec" => { let a = args()?; if !a.is_empty() { return Err("vec!".into()); } parse_quote!(Vec::new()) }
            _ => return Err(format!("macro {n}!")),
        })
    }
    /// whether evaluating `e` may change anything
    fn effects(&self, e: &Expr) -> bool {
        use syn::visit::Visit;
        struct V<'x, 'a>(&'x Lower<'a>, bool);
        fn muts(f: &FnInfo) -> bool {
            f.sig.inputs.iter().any(|a| match a {
                syn::FnArg::Receiver(r) => r.reference.is_none() || r.mutability.is_some(),
                syn::FnArg::Typed(t) => matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()) || matches!(&*t.ty, syn::Type::Ptr(r) if r.mutability.is_some()),
            })
        }
        impl<'x, 'a, 'b> Visit<'b> for V<'x, 'a> {
            fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
                match self.0.mcallee(m) {
                    Some(f) => self.1 |= muts(f),
                    None => self.1 |= !["len", "is_empty", "contains", "get", "get_unchecked", "is_some", "is_none", "is_ok", "is_err", "binary_search", "iter", "any", "all", "add", "read", "first", "last", "id", "capacity", "as_ref", "map", "unwrap", "cloned", "copied", "clone", "is_null"].contains(&m.method.to_string().as_str()),
                }
                syn::visit::visit_expr_method_call(self, m)
            }
            fn visit_expr_call(&mut self, c: &'b syn::ExprCall) { if let Some(f) = self.0.callee(c) { self.1 |= muts(f) && !f.sig.ident.to_string().starts_with("is_"); } syn::visit::visit_expr_call(self, c) }
            fn visit_expr_assign(&mut self, e: &'b syn::ExprAssign) { self.1 = true; syn::visit::visit_expr_assign(self, e) }
            fn visit_expr_reference(&mut self, e: &'b syn::ExprReference) { self.1 |= e.mutability.is_some(); syn::visit::visit_expr_reference(self, e) }
        }
        let mut v = V(self, false);
        v.visit_expr(e);
        v.1
    }
    // -------------------------------------------------------------- helpers
    /// A crate function without a contract is verified as part of its caller.
    fn inline(&mut self, f: &FnInfo, recv: Option<&Expr>, args: &syn::punctuated::Punctuated<Expr, syn::Token![,]>, site: &Expr) -> R<Expr> {
        if self.inline_depth > 4 { return Err(format!("helper {} is too deep", f.key)); }
        let mut body = elim_returns(f.block.as_ref().unwrap()).map_err(|e| format!("helper {}: {e}", f.key))?;
        // type parameters given by turbofish
        let tf: Option<Vec<syn::Type>> = match site { Expr::MethodCall(m) => m.turbofish.as_ref().map(|t| t.args.iter().filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect()), Expr::Path(p) => match &p.path.segments.last().unwrap().arguments { syn::PathArguments::AngleBracketed(a) => Some(a.args.iter().filter_map(|a| if let syn::GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect()), _ => None }, _ => None };
        let gp: Vec<String> = f.generics.type_params().map(|p| p.ident.to_string()).collect();
        if !gp.is_empty() {
            match tf { Some(t) if t.len() == gp.len() => { let mut v = SubstTy(gp.iter().cloned().zip(t).collect()); syn::visit_mut::VisitMut::visit_block_mut(&mut v, &mut body); } _ => { if !gp.iter().all(|g| self.fi.generics.type_params().any(|p| p.ident == g)) { return Err(format!("helper {}: type parameters", f.key)); } } }
        }
        if f.module != self.module && f.self_name.is_none() { body = qualify(&body, f, self.db); }
        let mut stmts: Vec<Stmt> = vec![];
        let ps: Vec<&syn::PatType> = f.sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        let mut second: Vec<Stmt> = vec![];
        let mut a: Vec<Expr> = args.iter().cloned().collect();
        if f.has_self {
            let r = match recv { Some(r) => r.clone(), None => { if a.is_empty() { return Err("receiver".into()); } a.remove(0) } };
            if toks(&r) != "self" {
                let r = peel(&r).clone();
                if !matches!(r, Expr::Path(_) | Expr::Field(_) | Expr::Index(_)) { return Err(format!("helper {}: receiver", f.key)); }
                let mut v = SubstSelf(r);
                syn::visit_mut::VisitMut::visit_block_mut(&mut v, &mut body);
            }
        }
        if a.len() != ps.len() { return Err("argument count".into()); }
        for (p, x) in ps.iter().zip(&a) {
            let t = self.fresh("a");
            let pat = &p.pat;
            // the name of a variable is passed on as it is, so that it stays known where it points to
            stmts.push(parse_quote!(let #t = #x;));
            second.push(parse_quote!(let #pat = #t;));
        }
        stmts.extend(second);
        stmts.extend(body.stmts);
        let b = Block { brace_token: Default::default(), stmts };
        self.inline_depth += 1;
        self.inlined.push(f.key.clone());
        let saved_ret = (self.ret.clone(), self.ret_unit);
        let r = self.lower_block_expr(&b);
        self.ret = saved_ret.0;
        self.ret_unit = saved_ret.1;
        self.inline_depth -= 1;
        r
    }
    pub fn lower_ty(&self, t: &syn::Type) -> R<syn::Type> { lower_ty(self.db, t, &self.module, None) }
}
/// puts the brackets back that the tree implies
pub struct Paren;
fn wrap(e: &mut Expr) {
    let need = match e { Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Range(_) | Expr::Assign(_) | Expr::Reference(_) | Expr::Closure(_) | Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::Loop(_) | Expr::While(_) | Expr::Struct(_) => true, _ => false };
    if need { let x = e.clone(); *e = Expr::Paren(syn::ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) }); }
}
fn has_let(e: &Expr) -> bool { match e { Expr::Let(_) => true, Expr::Binary(b) => has_let(&b.left) || has_let(&b.right), _ => false } }
impl syn::visit_mut::VisitMut for Paren {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let lets = has_let(e);
        match e {
            Expr::Binary(b) => {
                use syn::BinOp::*;
                let asg = matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_));
                if !lets { if !asg { wrap(&mut b.left); } wrap(&mut b.right); }
            }
            Expr::Unary(u) => { if !matches!(&*u.expr, Expr::Unary(_)) { wrap(&mut u.expr) } }
            Expr::Cast(c) => wrap(&mut c.expr),
            Expr::MethodCall(m) => wrap(&mut m.receiver),
            Expr::Field(f) => wrap(&mut f.base),
            Expr::Index(f) => wrap(&mut f.expr),
            Expr::Reference(r) => { if matches!(&*r.expr, Expr::Binary(_) | Expr::Cast(_) | Expr::Range(_)) { wrap(&mut r.expr) } }
            Expr::Range(r) => { if let Some(x) = &mut r.start { wrap(x) } if let Some(x) = &mut r.end { wrap(x) } }
            _ => {}
        }
    }
}
fn leak_text(o: &str) -> String { format!("assert(!{o}.live() || {o}.blk() == Blk::No); // the buffer `{o}` is released or handed on") }

struct SubstTy(HashMap<String, syn::Type>);
impl syn::visit_mut::VisitMut for SubstTy {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t { if p.qself.is_none() && p.path.segments.len() == 1 { if let Some(x) = self.0.get(&p.path.segments[0].ident.to_string()) { *t = x.clone(); return; } } }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.segments.len() >= 2 { if let Some(syn::Type::Path(x)) = self.0.get(&p.segments[0].ident.to_string()) { if x.path.segments.len() == 1 { p.segments[0] = x.path.segments[0].clone(); } } }
        syn::visit_mut::visit_path_mut(self, p);
    }
}
struct SubstSelf(Expr);
impl syn::visit_mut::VisitMut for SubstSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.0.clone(); return; } }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
fn qualify(b: &Block, f: &FnInfo, db: &Db) -> Block {
    struct Q<'a>(&'a FnInfo, &'a Db);
    impl<'a> syn::visit_mut::VisitMut for Q<'a> {
        fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
            if let Expr::Path(p) = &mut *c.func { if p.path.segments.len() == 1 { let n = p.path.segments[0].ident.to_string(); if self.1.fns.contains_key(&self.1.fn_key(&self.0.module, None, &n)) { let m = id(self.0.module.rsplit("::").next().unwrap()); let s = p.path.segments[0].clone(); p.path = parse_quote!(#m::#s); } } }
            syn::visit_mut::visit_expr_call_mut(self, c);
        }
    }
    let mut b = b.clone();
    syn::visit_mut::VisitMut::visit_block_mut(&mut Q(f, db), &mut b);
    b
}
pub fn strip_tail_return(e: &Expr) -> R<Expr> {
    match e {
        Expr::Return(r) => r.expr.as_ref().map(|x| (**x).clone()).ok_or("return".into()),
        Expr::Block(b) => Ok({ let bb = elim_returns(&b.block)?; parse_quote!(#bb) }),
        Expr::Unsafe(b) => Ok({ let bb = elim_returns(&b.block)?; parse_quote!(#bb) }),
        _ => { if has_return(e) { Err("return in a closure".into()) } else { Ok(e.clone()) } }
    }
}
fn has_return(e: &impl ToTokens) -> bool { let s = e.to_token_stream().to_string(); s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "return") || s.contains('?') }
/// `x?` in a function that returns an Option, and `for_each`, spelled out
pub fn desugar(sig: &syn::Signature, b: &mut Block) {
    struct D(bool, usize);
    impl syn::visit_mut::VisitMut for D {
        fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            syn::visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::Try(t) if self.0 => { self.1 += 1; let v = format_ident!("vx_try{}", self.1); let x = (*t.expr).clone(); *e = parse_quote!(match #x { Some(#v) => #v, None => return None, }); }
                Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => {
                    if let Expr::Closure(c) = peel(&m.args[0]) { if c.inputs.len() == 1 && !has_return(&c.body) { let (p, x, b) = (&c.inputs[0], &m.receiver, &c.body); *e = match &**b { Expr::Block(b) => { let b = &b.block; parse_quote!(for #p in #x #b) } y => parse_quote!(for #p in #x { #y; }) }; } }
                }
                _ => {}
            }
        }
        // `let x = e?` and `e?` in a tail keep their match in place; elsewhere it is bound first
        fn visit_stmt_mut(&mut self, s: &mut Stmt) { syn::visit_mut::visit_stmt_mut(self, s); }
    }
    let opt = matches!(&sig.output, syn::ReturnType::Type(_, t) if toks(t).starts_with("Option"));
    syn::visit_mut::VisitMut::visit_block_mut(&mut D(opt, 0), b);
}
/// Turns early returns into the value of the block, where that needs no jumps.
pub fn elim_returns(b: &Block) -> R<Block> {
    if !has_return(b) { return Ok(b.clone()); }
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
        if !has_return(s) { continue; }
        let head: Vec<Stmt> = b.stmts[..i].to_vec();
        let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
        return match s {
            Stmt::Expr(Expr::Return(r), _) => { let x = r.expr.clone(); Ok(match x { Some(x) => parse_quote!({ #(#head)* #x }), None => parse_quote!({ #(#head)* }) }) }
            Stmt::Expr(Expr::If(f), _) => {
                let then = &f.then_branch;
                let c = &f.cond;
                let (t, e): (Block, Block) = match &f.else_branch {
                    None => {
                        if !ends_in_return(then) { return Err("return inside a branch that goes on".into()); }
                        (elim_returns(then)?, elim_returns(&rest)?)
                    }
                    Some((_, eb)) => {
                        let ebl: Block = match &**eb { Expr::Block(b) => b.block.clone(), x => parse_quote!({ #x }) };
                        if i + 1 == n { (elim_returns(then)?, elim_returns(&ebl)?) }
                        else if ends_in_return(then) { let mut st = ebl.stmts.clone(); if let Some(Stmt::Expr(_, s @ None)) = st.last_mut() { *s = Some(Default::default()); } st.extend(rest.stmts.clone()); (elim_returns(then)?, elim_returns(&Block { brace_token: Default::default(), stmts: st })?) }
                        else { return Err("return inside a branch that goes on".into()); }
                    }
                };
                Ok(parse_quote!({ #(#head)* if #c #t else #e }))
            }
            // let PAT = E else { leave }
            Stmt::Local(l) if l.init.as_ref().map_or(false, |x| x.diverge.is_some() && !has_return(&x.expr)) => {
                let init = l.init.as_ref().unwrap();
                let (p, x) = (&l.pat, &init.expr);
                let els: Block = match &**init.diverge.as_ref().map(|d| &d.1).unwrap() { Expr::Block(b) => b.block.clone(), y => parse_quote!({ #y }) };
                if !ends_in_return(&els) { return Err("return inside a binding".into()); }
                let (t, e) = (elim_returns(&rest)?, elim_returns(&els)?);
                Ok(parse_quote!({ #(#head)* if let #p = #x #t else #e }))
            }
            // let PAT = match E { one arm that goes on, the others leave }
            Stmt::Local(l) if matches!(l.init.as_ref().map(|x| peel(&x.expr)), Some(Expr::Match(_))) => {
                let Some(Expr::Match(m)) = l.init.as_ref().map(|x| peel(&x.expr)) else { return Err("return inside a binding".into()) };
                let p = &l.pat;
                let mut m = m.clone();
                let mut on = 0;
                for a in &mut m.arms {
                    if has_return(&a.body) { *a.body = strip_tail_return(&a.body)?; }
                    else { on += 1; let (x, st) = (&a.body, &rest.stmts); let b: Block = parse_quote!({ let #p = #x; #(#st)* }); let b = elim_returns(&b)?; *a.body = parse_quote!(#b); }
                    if a.comma.is_none() { a.comma = Some(Default::default()); }
                }
                if on != 1 { return Err("return inside a binding".into()); }
                Ok(parse_quote!({ #(#head)* #m }))
            }
            Stmt::Expr(Expr::Match(m), _) if i + 1 == n => {
                let mut m = m.clone();
                for a in &mut m.arms { *a.body = strip_tail_return(&a.body)?; if a.comma.is_none() { a.comma = Some(Default::default()); } }
                Ok(parse_quote!({ #(#head)* #m }))
            }
            Stmt::Expr(Expr::Unsafe(u), _) if i + 1 == n => { let x = elim_returns(&u.block)?; Ok(parse_quote!({ #(#head)* #x })) }
            Stmt::Expr(Expr::Block(u), _) if i + 1 == n => { let x = elim_returns(&u.block)?; Ok(parse_quote!({ #(#head)* #x })) }
            _ => Err("return inside a loop or binding".into()),
        };
    }
    Ok(b.clone())
}
fn ends_in_return(b: &Block) -> bool { match b.stmts.last() { Some(Stmt::Expr(Expr::Return(_), _)) => true, Some(Stmt::Expr(Expr::Unsafe(u), _)) => ends_in_return(&u.block), Some(Stmt::Expr(Expr::Block(u), _)) => ends_in_return(&u.block), _ => false } }
fn is_mut_pat(p: &Pat) -> bool { match p { Pat::Ident(i) => i.mutability.is_some(), Pat::Type(t) => is_mut_pat(&t.pat), Pat::Paren(t) => is_mut_pat(&t.pat), _ => false } }
fn strip_pt(p: &Pat) -> &Pat { match p { Pat::Type(t) => strip_pt(&t.pat), Pat::Paren(t) => strip_pt(&t.pat), p => p } }

/// Spec-mode form of a place expression.
pub fn spec_place(e: &Expr) -> String {
    match e {
        Expr::Index(i) => format!("{}@[{} as int]", spec_place(&i.expr), toks(&i.index)),
        Expr::Field(f) => format!("{}.{}", spec_place(&f.base), toks(&f.member)),
        Expr::Paren(p) => spec_place(&p.expr),
        x => toks(x),
    }
}
pub fn lower_ty(db: &Db, t: &syn::Type, module: &str, lifetime: Option<&str>) -> R<syn::Type> {
    Ok(match t {
        syn::Type::Ptr(p) => {
            let d = db.ty(t, module, None);
            match d {
                Ty::Page => parse_quote!(PagePtr),
                Ty::CPtr(_) => { let e = lower_ty(db, &p.elem, module, lifetime)?; parse_quote!(CPtr<#e>) }
                Ty::Ptr(true, _) => { let e = lower_ty(db, &p.elem, module, lifetime)?; match lifetime { Some(l) => { let l = syn::Lifetime::new(l, proc_macro2::Span::call_site()); parse_quote!(&#l mut RawBuf<#e>) } None => parse_quote!(RawBuf<#e>) } }
                _ => { let e = lower_ty(db, &p.elem, module, lifetime)?; parse_quote!(ConstPtr<#e>) }
            }
        }
        syn::Type::Reference(r) => {
            let mut r = r.clone();
            if tup_mod(module) && is_tn(&r.elem) {
                let e = &r.elem;
                return Ok(parse_quote!(CPtr<#e>));
            }
            *r.elem = lower_ty(db, &r.elem, module, lifetime)?;
            syn::Type::Reference(r)
        }
        syn::Type::Paren(p) => { let e = lower_ty(db, &p.elem, module, lifetime)?; parse_quote!((#e)) }
        syn::Type::Slice(s) => { let e = lower_ty(db, &s.elem, module, lifetime)?; parse_quote!([#e]) }
        syn::Type::Array(s) => { let e = lower_ty(db, &s.elem, module, lifetime)?; let l = &s.len; parse_quote!([#e; #l]) }
        syn::Type::Tuple(tt) => {
            let mut v = vec![];
            for e in &tt.elems { v.push(lower_ty(db, e, module, lifetime)?); }
            if v.len() == 1 { let x = &v[0]; parse_quote!((#x)) } else if (module == "component_tuple" || module == "query::access") && v.len() > 1 { let n = format_ident!("Tup{}", v.len()); parse_quote!(#n<#(#v),*>) } else { parse_quote!((#(#v),*)) }
        }
        syn::Type::Path(p) => {
            let mut p = p.clone();
            for s in p.path.segments.iter_mut() { if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments { for x in a.args.iter_mut() { if let syn::GenericArgument::Type(y) = x { *y = lower_ty(db, y, module, lifetime)?; } } } }
            let mut t = syn::Type::Path(p);
            strip_lifetimes_gat(&mut t);
            t
        }
        syn::Type::ImplTrait(_) => match db.ty(t, module, None) {
            Ty::Vec(x) => match &*x { Ty::Named(n, _) => { let n = id(n.rsplit("::").next().unwrap()); parse_quote!(Vec<#n>) } Ty::Prim(n) => { let n = id(n); parse_quote!(Vec<#n>) } _ => return Err("impl trait".into()) },
            _ => return Err("impl trait".into()),
        },
        syn::Type::Macro(_) => parse_quote!(usize),
        _ => return Err(format!("type {}", toks(t))),
    })
}

#[derive(Clone)]
pub enum Item { Range(Option<Expr>, Ty), Seq(Expr, Ty, bool), SeqVal(Expr, Ty), Copied(Box<Item>), Enum(Box<Item>), Zip(Box<Item>, Box<Item>), Map(Box<Item>, syn::ExprClosure) }
pub struct It { lens: Vec<Expr>, item: Item, rev: bool }
impl It { fn len_expr(&self) -> Expr { let mut v = self.lens.clone(); let mut e = v.remove(0); for x in v { e = parse_quote!(vx_min(#e, #x)); } e } }

struct TyOnly<'b> { l: &'b Lower<'b>, extra: HashMap<String, Ty> }
impl<'b> TyOnly<'b> {
    fn bind_pat_ty(&mut self, p: &Pat, t: &Ty) {
        match p {
            Pat::Ident(i) => { self.extra.insert(i.ident.to_string(), t.clone()); }
            Pat::Tuple(tp) => if let Ty::Tuple(v) = t { for (q, t) in tp.elems.iter().zip(v) { self.bind_pat_ty(q, t); } },
            Pat::Reference(r) => if let Ty::Ref(_, x) = t { self.bind_pat_ty(&r.pat, x) },
            Pat::Type(pt) => self.bind_pat_ty(&pt.pat, t),
            _ => {}
        }
    }
    fn ty(&self, e: &Expr) -> Ty {
        if let Some(n) = simple_path(e) { if let Some(t) = self.extra.get(&n) { return t.clone(); } }
        match peel(e) { Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => match self.ty(&u.expr) { Ty::Ref(_, x) => *x, t => t }, _ => self.l.ty(e) }
    }
}

/// the local variables from outside that a loop body assigns
fn assigned(b: &Block) -> std::collections::BTreeSet<String> {
    use syn::visit::Visit;
    #[derive(Default)]
    struct A { set: std::collections::BTreeSet<String>, own: std::collections::BTreeSet<String> }
    impl<'a> Visit<'a> for A {
        fn visit_expr_assign(&mut self, e: &'a syn::ExprAssign) { if let Some(n) = simple_path(peel(&e.left)) { self.set.insert(n); } syn::visit::visit_expr_assign(self, e) }
        fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
            use syn::BinOp::*;
            if matches!(e.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) { if let Some(n) = simple_path(peel(&e.left)) { self.set.insert(n); } }
            syn::visit::visit_expr_binary(self, e)
        }
        fn visit_local(&mut self, l: &'a syn::Local) { if l.init.is_some() { self.visit_pat(&l.pat) } syn::visit::visit_local(self, l) }
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.own.insert(p.ident.to_string()); }
    }
    let mut a = A::default();
    a.visit_block(b);
    a.set.difference(&a.own).cloned().collect()
}
/// the variables the body increments by one exactly once, in each iteration that ends, and touches in no other way
fn counters(b: &Block) -> Vec<String> {
    use syn::visit::Visit;
    struct C { cont: bool, n: HashMap<String, usize> }
    impl<'a> Visit<'a> for C {
        fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) { self.cont = true; }
        fn visit_expr_assign(&mut self, e: &'a syn::ExprAssign) { if let Some(n) = simple_path(peel(&e.left)) { *self.n.entry(n).or_default() += 1; } syn::visit::visit_expr_assign(self, e) }
        fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) { if toks(&e.op).ends_with('=') && !matches!(e.op, syn::BinOp::Eq(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_) | syn::BinOp::Ne(_)) { if let Some(n) = simple_path(peel(&e.left)) { *self.n.entry(n).or_default() += 1; } } syn::visit::visit_expr_binary(self, e) }
        fn visit_expr_reference(&mut self, e: &'a syn::ExprReference) { if e.mutability.is_some() { if let Some(n) = simple_path(peel(&e.expr)) { *self.n.entry(n).or_default() += 2; } } syn::visit::visit_expr_reference(self, e) }
    }
    let mut c = C { cont: false, n: HashMap::new() };
    c.visit_block(b);
    if c.cont { return vec![]; }
    let own = assigned(b);
    let mut out = vec![];
    for s in &b.stmts {
        if let Stmt::Expr(Expr::Binary(e), _) = s {
            if matches!(e.op, syn::BinOp::AddAssign(_)) && toks(&e.right) == "1" { if let Some(n) = simple_path(peel(&e.left)) { if own.contains(&n) && c.n.get(&n) == Some(&1) { out.push(n); } } }
        }
    }
    out
}
