//! Writes the verifier's input: the crate's items with their contracts.
use crate::db::*;
use crate::load::Loaded;
use crate::lower::*;
use crate::print::*;
use crate::spec::*;
use quote::quote;
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::{Block, Expr, Stmt};

pub struct FnOut { pub key: String, pub file: String, pub start: usize, pub end: usize, pub status: String, pub reason: String, pub props: Vec<String>, pub calls: Vec<String>, pub inlined: Vec<String>, pub external: bool, pub shape: Vec<String>, pub loose: String }

pub struct Emit<'a> { pub l: &'a Loaded, pub specs: &'a Specs, pub o: Out, pub fns: Vec<FnOut>, pub force_ext: &'a HashSet<String>, pub known: HashSet<String>, pub errors: Vec<String>, pub done: HashSet<String>, pub names: HashMap<String, Vec<String>> }

fn clause_block(o: &mut Out, kw: &str, cs: &[Clause]) {
    if cs.is_empty() { return; }
    o.nl();
    o.put(&format!("    {kw}\n"));
    for c in cs { let a = o.line; o.put(&c.text); let b = o.line; o.marks.push((a, b.saturating_sub(1), c.labels.clone())); }
}
/// renames a parameter in the body
struct Rename(HashMap<String, String>);
impl syn::visit_mut::VisitMut for Rename {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 { if let Some(n) = self.0.get(&p.path.segments[0].ident.to_string()) { p.path.segments[0].ident = syn::Ident::new(n, proc_macro2::Span::call_site()); } }
        syn::visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } syn::visit_mut::visit_field_value_mut(self, f); }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) { p.ident = syn::Ident::new(n, proc_macro2::Span::call_site()); }
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } syn::visit_mut::visit_field_pat_mut(self, f); }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // arguments of assert-like macros
        if let Ok(mut a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) { for x in a.iter_mut() { self.visit_expr_mut(x); } m.tokens = quote!(#a); }
    }
}
use syn::visit_mut::VisitMut;
/// the names bound in a body, in order
pub fn local_names(b: &Block) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for N { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { let n = p.ident.to_string(); if n.chars().next().map_or(false, |c| c.is_lowercase()) { self.0.push(n); } } }
    let mut n = N(vec![]);
    syn::visit::Visit::visit_block(&mut n, b);
    n.0
}
/// every identifier used as a name of its own
fn idents(b: &Block) -> HashSet<String> {
    struct N(HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for N { fn visit_path(&mut self, p: &'a syn::Path) { if p.segments.len() == 1 { self.0.insert(p.segments[0].ident.to_string()); } syn::visit::visit_path(self, p) } }
    let mut n = N(HashSet::new());
    syn::visit::Visit::visit_block(&mut n, b);
    n.0
}
/// current name -> name in the baseline, for names that changed one for one between names that stayed
fn realign(base: &[String], cur: &[String], used: &HashSet<String>) -> HashMap<String, String> {
    let mut m: HashMap<String, String> = HashMap::new();
    if base == cur { return m; }
    let (a, b) = (base.len(), cur.len());
    let mut t = vec![vec![0usize; b + 1]; a + 1];
    for i in (0..a).rev() { for j in (0..b).rev() { t[i][j] = if base[i] == cur[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) }; } }
    let (mut i, mut j) = (0, 0);
    let (mut ga, mut gb): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let close = |ga: &mut Vec<&String>, gb: &mut Vec<&String>, m: &mut HashMap<String, String>| {
        if ga.len() == gb.len() { for (x, y) in ga.iter().zip(gb.iter()) { m.entry((*y).clone()).or_insert((*x).clone()); } }
        ga.clear();
        gb.clear();
    };
    while i < a || j < b {
        if i < a && j < b && base[i] == cur[j] { close(&mut ga, &mut gb, &mut m); i += 1; j += 1; }
        else if j == b || (i < a && t[i + 1][j] >= t[i][j + 1]) { ga.push(&base[i]); i += 1 } else { gb.push(&cur[j]); j += 1 }
    }
    close(&mut ga, &mut gb, &mut m);
    // only names that are new here, onto names that are free here, one to one
    let mut seen = HashSet::new();
    m.retain(|c, x| !base.contains(c) && !cur.contains(x) && !used.contains(x) && seen.insert(x.clone()));
    m
}

fn lower_generics(g: &syn::Generics) -> syn::Generics {
    let mut g = g.clone();
    for p in g.params.iter_mut() { if let syn::GenericParam::Type(t) = p { t.bounds = t.bounds.iter().filter(|b| !matches!(b, syn::TypeParamBound::Trait(t) if matches!(t.modifier, syn::TraitBoundModifier::Maybe(_)))).cloned().collect(); } }
    g
}

impl<'a> Emit<'a> {
    pub fn run(&mut self, prelude: &str) {
        let mut mods: Vec<String> = self.l.db.order.iter().filter(|m| self.specs.mods.contains_key(*m)).cloned().collect();
        // written theorems about the crate: modules that no source file has
        let clients: Vec<String> = self.specs.mods.keys().filter(|m| m.starts_with("history")).cloned().collect();
        if std::env::var("VX_NO_CLIENTS").is_err() { mods.extend(clients); }
        for m in &mods {
            self.known.insert(format!("{m}::"));
            self.known.insert(m.clone());
            for k in self.l.structs.get(m).into_iter().flatten() { self.knows(m, self.l.db.structs[k].name.clone()); }
            for t in self.l.traits.get(m).into_iter().flatten() { self.knows(m, t.ident.to_string()); }
            for c in self.l.consts.get(m).into_iter().flatten() { self.knows(m, c.1.ident.to_string()); }
            for f in self.l.fns.get(m).into_iter().flatten() { let i = &self.l.db.fns[f]; if i.self_name.is_none() && self.specs.fns.contains_key(f) { self.knows(m, i.sig.ident.to_string()); } }
            self.known.insert(m.rsplit("::").next().unwrap().to_string());
        }
        self.o.line = 1;
        self.o.put("#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces)]\nuse vstd::prelude::*;\n");
        self.o.put("pub mod prelude {\n");
        self.o.put(prelude);
        self.o.put("}\n");
        // tree of modules
        let mut tree: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut parents: HashSet<String> = HashSet::new();
        for m in &mods { if let Some((p, _)) = m.rsplit_once("::") { tree.entry(p.to_string()).or_default().push(m.clone()); parents.insert(p.into()); } }
        let top: Vec<String> = { let mut v: Vec<String> = vec![]; for m in &mods { let t = m.split("::").next().unwrap().to_string(); if !t.is_empty() && !v.contains(&t) { v.push(t); } } v };
        self.root_uses();
        for t in top {
            self.o.nl();
            self.o.put(&format!("pub mod {t} {{\n"));
            if mods.contains(&t) { self.module(&t); }
            for s in tree.get(&t).cloned().unwrap_or_default() {
                let n = s.rsplit("::").next().unwrap().to_string();
                self.o.nl();
                self.o.put(&format!("pub mod {n} {{\n"));
                self.module(&s);
                self.o.nl();
                self.o.put("}\n");
            }
            self.o.nl();
            self.o.put("}\n");
        }
        self.o.nl();
        self.o.put("fn main() {}\n");
        for (k, s) in &self.specs.fns { if !self.done.contains(k) { self.fns.push(FnOut { key: k.clone(), file: s.file.clone(), start: 0, end: 0, status: "missing".into(), reason: "the function does not exist any more".into(), props: s.props.clone(), calls: vec![], inlined: vec![], external: true, shape: vec![], loose: String::new() }); } }
    }
    fn knows(&mut self, m: &str, n: String) { self.known.insert(format!("{m}::{n}")); self.known.insert(n); }
    fn root_uses(&mut self) {
        for u in self.l.uses.get("").cloned().unwrap_or_default() { self.emit_use(&u, ""); }
    }
    fn emit_use(&mut self, u: &syn::ItemUse, module: &str) {
        let mut leaves: Vec<(Vec<String>, Option<String>)> = vec![];
        fn flat(t: &syn::UseTree, pre: &[String], out: &mut Vec<(Vec<String>, Option<String>)>) {
            match t {
                syn::UseTree::Path(p) => { let mut v = pre.to_vec(); v.push(p.ident.to_string()); flat(&p.tree, &v, out) }
                syn::UseTree::Name(n) => { let mut v = pre.to_vec(); v.push(n.ident.to_string()); out.push((v, None)) }
                syn::UseTree::Rename(n) => { let mut v = pre.to_vec(); v.push(n.ident.to_string()); out.push((v, Some(n.rename.to_string()))) }
                syn::UseTree::Group(g) => for x in &g.items { flat(x, pre, out) },
                syn::UseTree::Glob(_) => {}
            }
        }
        flat(&u.tree, &[], &mut leaves);
        for (v, r) in leaves {
            if matches!(v[0].as_str(), "std" | "core" | "paste" | "division_ecs_attributes" | "alloc") { continue; }
            let last = v.last().unwrap();
            let home: Option<Vec<String>> = match v[0].as_str() { "crate" => Some(v[1..v.len() - 1].to_vec()), "super" => Some(module.rsplit_once("::").map(|x| x.0.split("::").map(String::from).collect::<Vec<_>>()).unwrap_or_default().into_iter().chain(v[1..v.len() - 1].iter().cloned()).collect()), _ if module.is_empty() => Some(v[..v.len() - 1].to_vec()), _ => None };
            match home.map(|h| h.join("::")) { Some(h) if !h.is_empty() && self.l.db.order.contains(&h) => if !self.known.contains(&format!("{h}::{last}")) { continue; }, _ => if !self.known.contains(last) { continue; } }
            let vis = "pub ";
            let mut p = v.join("::");
            if module.is_empty() && v[0] != "crate" && v[0] != "self" { p = format!("crate::{p}"); }
            match r { Some(r) => self.o.put(&format!("{vis}use {p} as {r};\n")), None => self.o.put(&format!("{vis}use {p};\n")) }
        }
    }
    fn module(&mut self, m: &str) {
        self.o.put("use vstd::prelude::*;\nuse crate::prelude::*;\n");
        for u in self.l.uses.get(m).cloned().unwrap_or_default() { self.emit_use(&u, m); }
        let ms = self.specs.mods.get(m).cloned().unwrap_or_default();
        for u in &ms.uses { self.o.put(&format!("use {u};\n")); }
        self.o.put("verus! {\n");
        for (ty, c) in self.l.consts.get(m).cloned().unwrap_or_default() { let (n, t, e) = (&c.ident, &c.ty, &c.expr); let k = format!("pub const {}: {} = {};\n", n, toks(t), toks(e)); self.o.put(&if ty.is_empty() { k } else { format!("impl {ty} {{ {k} }}\n") }); }
        for k in self.l.structs.get(m).cloned().unwrap_or_default() { self.emit_struct(&k); }
        for t in self.l.traits.get(m).cloned().unwrap_or_default() { self.emit_trait(&t, m, &ms); }
        for r in &ms.raw { self.o.nl(); let a = self.o.line; self.o.put(r); self.o.nl(); let b = self.o.line; self.fns.push(FnOut { key: format!("raw:{m}"), file: String::new(), start: a, end: b, status: "ghost".into(), reason: String::new(), props: vec![], calls: vec![], inlined: vec![], external: false, shape: vec![], loose: String::new() }); }
        let fns = self.l.fns.get(m).cloned().unwrap_or_default();
        let mut i = 0;
        let mut tuple_impls: Vec<(String, Vec<String>)> = vec![];
        while i < fns.len() {
            let f = &self.l.db.fns[&fns[i]];
            if !f.is_trait_decl {
                if f.trait_name.as_deref().map_or(false, |t| matches!(t, "ComponentTuple" | "ComponentQueryAccess")) {
                    let g = f.self_name.clone().unwrap();
                    match tuple_impls.iter_mut().find(|x| x.0 == g) { Some(x) => x.1.push(fns[i].clone()), None => tuple_impls.push((g, vec![fns[i].clone()])) }
                } else if self.specs.fns.contains_key(&fns[i]) { self.emit_fn(&fns[i].clone()); }
            }
            i += 1;
        }
        for (_, ks) in tuple_impls { self.emit_trait_impl(&ks, &ms); }
        self.o.nl();
        self.o.put("}\n");
    }
    fn emit_struct(&mut self, k: &str) {
        let s = &self.l.db.structs[k];
        let mut g = lower_generics(&s.item.generics);
        let mut body = String::new();
        let mut ok = true;
        for (n, t) in &s.fields {
            match lower_ty(&self.l.db, t, &s.module, s.lifetime.as_deref()) { Ok(t) => body.push_str(&format!("    pub {n}: {},\n", toks(&t))), Err(e) => { self.errors.push(format!("struct {k}: {e}")); ok = false; } }
        }
        let _ = ok;
        for (f, t) in self.specs.fields.get(&s.name).cloned().unwrap_or_default() { body.push_str(&format!("    pub {f}: {t},\n")); }
        let derives: String = s.item.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| toks(a)).collect();
        let copy = derives.contains("Copy");
        self.o.nl();
        if let Some(a) = self.specs.attrs.get(&s.name) { self.o.put(&format!("{a}\n")); }
        if copy { self.o.put("#[derive(Clone, Copy)]\n"); }
        let w = g.where_clause.take();
        self.o.put(&format!("pub struct {}{} {} {{\n{}}}\n", s.name, toks(&g), w.map(|w| toks(&w)).unwrap_or_default(), body));
        if self.l.db.copies.contains(&s.key) { let (_, tg, _) = g.split_for_impl(); self.o.put(&format!("impl{} Copy for {}{} {{}}\n", toks(&g), s.name, toks(&tg))); }
    }
    fn emit_trait(&mut self, t: &syn::ItemTrait, m: &str, ms: &ModSpec) {
        let n = t.ident.to_string();
        let sup = &t.supertraits;
        let sup = if sup.is_empty() { "Sized".to_string() } else { toks(sup) };
        self.o.nl();
        self.o.put(&format!("pub trait {n}: {sup} {{\n"));
        for i in &t.items { if let syn::TraitItem::Type(ty) = i {
            let b: Vec<String> = ty.bounds.iter().map(|b| toks(b)).filter(|b| b != "Default").collect();
            self.o.put(&format!("    type {}{};\n", ty.ident, if b.is_empty() { String::new() } else { format!(": {}", b.join(" + ")) }));
        } }
        if let Some(r) = ms.trait_raw.get(&n) { self.o.put(r); }
        for i in &t.items { if let syn::TraitItem::Fn(f) = i {
            let k = format!("{n}::{}", f.sig.ident);
            if !self.specs.fns.contains_key(&k) { continue; }
            let fi = self.l.db.fns[&k].clone();
            let start = self.o.line;
            match self.signature(&fi, self.specs.fns.get(&k)) { Ok((s, _)) => { self.o.put(&format!("    {s}\n")); let sp = self.specs.fns[&k].clone(); clause_block(&mut self.o, "requires", &sp.requires); clause_block(&mut self.o, "ensures", &sp.ensures); self.o.put("    ;\n"); let end = self.o.line; self.done.insert(k.clone()); self.fns.push(FnOut { key: k, file: m.into(), start, end, status: "trait contract".into(), reason: String::new(), props: sp.props, calls: vec![], inlined: vec![], external: false, shape: vec![], loose: String::new() }); } Err(e) => self.errors.push(format!("{k}: {e}")) }
        } }
        self.o.put("}\n");
    }
    /// the lowered signature, and the statements that bind the original names
    fn signature(&self, f: &FnInfo, sp: Option<&FnSpec>) -> Result<(String, Vec<(String, Ty, Kind)>), String> {
        let db = &self.l.db;
        let mut ps: Vec<String> = vec![];
        let mut binds: Vec<(String, Ty, Kind)> = vec![];
        let mut n = 0;
        for (i, a) in f.sig.inputs.iter().enumerate() {
            match a {
                syn::FnArg::Receiver(r) => {
                    ps.push(match (&r.reference, r.mutability.is_some()) { (Some((_, Some(l))), true) => format!("&{l} mut self"), (Some((_, Some(l))), false) => format!("&{l} self"), (Some(_), true) => "&mut self".into(), (Some(_), false) => "&self".into(), (None, _) => "self".into() });
                    let st = f.self_ty.as_ref().map(|t| db.ty(t, &f.module, Some(f))).unwrap_or(Ty::Unk);
                    binds.push(("self".into(), if r.reference.is_some() { rf(r.mutability.is_some(), st) } else { st }, Kind::Plain));
                }
                syn::FnArg::Typed(t) => {
                    let name = sp.and_then(|s| s.params.get(i).cloned()).or_else(|| match &*t.pat { syn::Pat::Ident(p) => Some(p.ident.to_string()), _ => None }).unwrap_or(format!("vx_p{n}"));
                    n += 1;
                    let ty = db.ty(&t.ty, &f.module, Some(f));
                    let own = sp.and_then(|s| s.ptr.get(&name)).map_or(false, |s| s == "own");
                    let lt = lower_ty(db, &t.ty, &f.module, None)?;
                    let (s, k) = match &ty { Ty::Ptr(true, _) if !own => (format!("{name}: &mut {}", toks(&lt)), Kind::MutRefBuf), Ty::Ptr(true, _) => (format!("{name}: {}", toks(&lt)), Kind::OwnVar), _ => (format!("{name}: {}", toks(&lt)), Kind::Plain) };
                    ps.push(s);
                    binds.push((name, ty, k));
                }
            }
        }
        if let Some(s) = sp { for (n, t, m) in &s.ghost { ps.push(if *m { format!("Tracked({n}): Tracked<&mut {t}>") } else { format!("Tracked({n}): Tracked<&{t}>") }); } }
        let mut g = lower_generics(&f.generics);
        let w = g.where_clause.take();
        let ret = match &f.sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => { let l = lower_ty(db, t, &f.module, None)?; format!("-> ({}: {})", sp.map(|s| s.ret.clone()).unwrap_or("r".into()), toks(&l)) } };
        Ok((format!("fn {}{}({}) {} {}", f.sig.ident, toks(&g), ps.join(", "), ret, w.map(|w| toks(&w)).unwrap_or_default()), binds))
    }
    /// original parameter patterns that differ from the contract's names
    fn body_of(&self, f: &FnInfo, sp: Option<&FnSpec>, binds: &[(String, Ty, Kind)]) -> Block {
        let mut b = f.block.clone().unwrap();
        let mut ren = HashMap::new();
        let mut head: Vec<Stmt> = vec![];
        for (a, (name, _, k)) in f.sig.inputs.iter().zip(binds) {
            if let syn::FnArg::Typed(t) = a {
                let nm = syn::Ident::new(name, proc_macro2::Span::call_site());
                match &*t.pat {
                    syn::Pat::Ident(p) => {
                        if p.ident != name.as_str() { ren.insert(p.ident.to_string(), name.clone()); }
                        if p.mutability.is_some() && !matches!(k, Kind::OwnVar) { head.push(syn::parse_quote!(let mut #nm = #nm;)); }
                    }
                    syn::Pat::Wild(_) => {}
                    pat => head.push(syn::parse_quote!(let #pat = #nm;)),
                }
            }
        }
        if !ren.is_empty() { Rename(ren).visit_block_mut(&mut b); }
        // local variables that only changed their names get back the ones the written proof uses
        if let (Some(_), Some(base)) = (sp, self.names.get(&f.key)) {
            let m = realign(base, &local_names(&b), &idents(&b));
            if !m.is_empty() { Rename(m).visit_block_mut(&mut b); }
        }
        if !head.is_empty() { head.extend(b.stmts); b.stmts = head; }
        b
    }
    fn lower_fn(&self, f: &FnInfo, sp: Option<&FnSpec>, binds: &[(String, Ty, Kind)], texts: &mut Vec<Text>) -> Result<(Vec<Stmt>, Vec<String>, Vec<String>, Vec<String>, String), String> {
        let body = self.body_of(f, sp, binds);
        let mut sc = HashMap::new();
        for (n, t, k) in binds { sc.insert(n.clone(), Var { ty: t.clone(), kind: k.clone() }); }
        let ret = match &f.sig.output { syn::ReturnType::Default => Ty::Tuple(vec![]), syn::ReturnType::Type(_, t) => self.l.db.ty(t, &f.module, Some(f)) };
        let lazy = matches!(&f.sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::ImplTrait(_)));
        let unit = ret == Ty::Tuple(vec![]);
        let mut l = Lower { db: &self.l.db, specs: self.specs, fi: f, spec: sp, module: f.module.clone(), scopes: vec![sc], pre: vec![vec![]], post: vec![vec![]], texts, loops: 0, n: 0, calls: HashMap::new(), own_decl: vec![vec![]], ret, ret_unit: unit, inline_depth: 0, used: vec![], inlined: vec![], notes: vec![], lazy_iters: lazy, srcs: vec![], shape: vec![] };
        let mut head: Vec<Stmt> = vec![];
        for (n, _, k) in binds { if let Kind::OwnVar = k { let i = syn::Ident::new(n, proc_macro2::Span::call_site()); head.push(syn::parse_quote!(let mut #i = #i;)); l.own_decl[0].push(n.clone()); } }
        if let Some(s) = sp { if !s.prologue.trim().is_empty() { let t = l.text(&s.prologue); head.push(t); } }
        // for the vacuity guard: this must be refused in every function
        if std::env::var("VX_REACH").is_ok() { let t = l.text("assert(false); // vx_reach"); head.push(t); }
        let mut b = l.lower_body(&body)?;
        for x in b.iter_mut() { syn::visit_mut::VisitMut::visit_stmt_mut(&mut crate::lower::Paren, x); }
        head.extend(b);
        // where a loop or a call the written proof is attached to is gone, the proof is incomplete
        let mut loose = String::new();
        if let Some(s) = sp {
            for k in s.loops.keys() { if *k >= l.loops { loose = format!("loop {k} of the written proof does not exist any more"); } }
            for (n, k, _) in s.after.iter().chain(s.before.iter()) { if l.calls.get(n).copied().unwrap_or(0) <= *k { loose = format!("call {k} of {n} of the written proof does not exist any more"); } }
        }
        Ok((head, l.used.clone(), l.inlined.clone(), l.shape.clone(), loose))
    }
    fn emit_fn(&mut self, key: &str) {
        let f = self.l.db.fns[key].clone();
        let sp = self.specs.fns.get(key).cloned();
        self.done.insert(key.to_string());
        let sig = match self.signature(&f, sp.as_ref()) { Ok(s) => s, Err(e) => { self.errors.push(format!("{key}: {e}")); self.fns.push(FnOut { key: key.into(), file: f.module.clone(), start: 0, end: 0, status: "failed".into(), reason: e, props: sp.map(|s| s.props).unwrap_or_default(), calls: vec![], inlined: vec![], external: true, shape: vec![], loose: String::new() }); return; } };
        let mut open = String::new();
        if let Some(st) = &f.self_ty {
            let mut g = f.impl_generics.as_ref().map(lower_generics).unwrap_or_default();
            let w = g.where_clause.take();
            let sname = match lower_ty(&self.l.db, st, &f.module, None) { Ok(t) => toks(&t), Err(_) => toks(st) };
            let tr = if f.trait_name.as_deref() == Some("Clone") && f.self_name.as_deref() == Some("ComponentPageIterView") { "Clone for " } else { "" };
            open = format!("impl{} {}{} {} {{\n", toks(&g), tr, sname, w.map(|w| toks(&w)).unwrap_or_default());
        }
        self.o.nl();
        // a specification function read off the body: what the function computes is the measure, its contract is that it does
        if let Some(name) = sp.as_ref().and_then(|s| s.opts.get("reflect")) {
            let s = sp.as_ref().unwrap();
            let e = reflect(&self.l.db, &f).unwrap_or_else(|| s.opts.get("default").cloned().unwrap_or("0".into()));
            self.o.put(&format!("pub open spec fn {name}({}: int) -> int {{ {e} }}\n", f.sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(toks(&t.pat)), _ => None }).collect::<Vec<_>>().join(": int, ")));
        }
        self.o.put(&open);
        let mut fo = self.emit_fn_inner(key, &f, sp.as_ref(), &sig, !open.is_empty() && open.contains(" for "));
        if !open.is_empty() { self.o.nl(); self.o.put("}\n"); }
        fo.file = f.module.clone();
        self.fns.push(fo);
    }
    fn emit_fn_inner(&mut self, key: &str, f: &FnInfo, sp: Option<&FnSpec>, sig: &(String, Vec<(String, Ty, Kind)>), in_trait: bool) -> FnOut {
        let mut texts: Vec<Text> = vec![];
        let forced = self.force_ext.contains(key);
        let body = if forced { Err("rejected by the verifier's front end".to_string()) } else { self.lower_fn(f, sp, &sig.1, &mut texts) };
        let assumed = sp.map_or(false, |s| s.opts.contains_key("assumed"));
        self.o.nl();
        let start = self.o.line;
        if let Some(s) = sp { for a in &s.attrs { self.o.put(&format!("#[{a}]\n")); } }
        let ext = body.is_err() || assumed;
        if ext { self.o.put("#[verifier::external_body]\n"); } else { self.o.put("#[verifier::loop_isolation(false)]\n"); if texts.iter().any(|t| t.is_loop && t.text.lines().any(|l| l == "invariant_except_break" || l == "ensures")) { self.o.put("#[verifier::allow_complex_invariants]\n"); } }
        self.o.put(if in_trait { "" } else { "pub " });
        self.o.put(&sig.0);
        if let Some(s) = sp {
            if !in_trait || f.trait_name.as_deref() == Some("Clone") {
                if f.trait_name.as_deref() != Some("Clone") || !in_trait { clause_block(&mut self.o, "requires", &s.requires); }
                clause_block(&mut self.o, "ensures", &s.ensures);
            }
            if let Some(d) = s.opts.get("decreases") { self.o.nl(); self.o.put(&format!("    decreases {d}\n")); }
        }
        self.o.nl();
        let (status, reason, calls, inlined, shape, loose) = match body {
            Ok((st, c, i, sh, lo)) if !assumed => {
                self.o.put("{\n");
                crate::print::print(quote!(#(#st)*), &texts, &mut self.o, true);
                self.o.nl();
                self.o.put("}\n");
                ("extracted".to_string(), String::new(), c, i, sh, lo)
            }
            Ok(_) => { self.o.put("{ unimplemented!() }\n"); ("assumed".into(), String::new(), vec![], vec![], vec![], String::new()) }
            Err(e) => { self.o.put("{ unimplemented!() }\n"); ("failed".into(), e, vec![], vec![], vec![], String::new()) }
        };
        let end = self.o.line;
        FnOut { key: key.into(), file: String::new(), start, end, status, reason, props: sp.map(|s| s.props.clone()).unwrap_or_default(), calls, inlined, external: ext, shape, loose }
    }
    fn emit_trait_impl(&mut self, keys: &[String], ms: &ModSpec) {
        let f0 = self.l.db.fns[&keys[0]].clone();
        let tr = f0.trait_name.clone().unwrap();
        let me = f0.self_name.clone().unwrap();
        let mut g = f0.impl_generics.as_ref().map(lower_generics).unwrap_or_default();
        let w = g.where_clause.take();
        let st = f0.self_ty.clone().unwrap();
        let n_el = match &st { syn::Type::Tuple(t) => t.elems.len(), syn::Type::Paren(_) => 1, _ => 0 };
        self.o.nl();
        self.o.put(&format!("impl{} {tr} for {} {} {{\n", toks(&g), lower_ty(&self.l.db, &st, &f0.module, None).map(|t| toks(&t)).unwrap_or(toks(&st)), w.map(|w| toks(&w)).unwrap_or_default()));
        let mut types: Vec<&String> = f0.assoc.keys().collect();
        types.sort();
        for t in types { match lower_ty(&self.l.db, &f0.assoc[t], &f0.module, None) { Ok(x) => self.o.put(&format!("    type {t} = {};\n", toks(&x))), Err(e) => self.errors.push(format!("{me}: type {t}: {e}")) } }
        let raw = ms.trait_raw.get(&format!("impl {me}")).or_else(|| ms.trait_raw.get(if n_el > 0 { "impl tuple" } else { "impl" })).cloned().unwrap_or_default();
        self.o.put(&expand_arity(&raw, n_el));
        for k in keys {
            let f = self.l.db.fns[k].clone();
            let decl = format!("{tr}::{}", f.sig.ident);
            if !self.specs.fns.contains_key(&decl) { continue; }
            let base = self.specs.fns.get(&decl).cloned().unwrap();
            let gen = format!("{}::{}", if n_el > 0 { "tuple".to_string() } else { me.clone() }, f.sig.ident);
            let mut sp = self.specs.fns.get(k).or_else(|| self.specs.fns.get(&gen)).cloned().unwrap_or_else(|| FnSpec { props: base.props.clone(), ..Default::default() });
            self.done.insert(k.clone());
            self.done.insert(gen);
            sp.params = base.params.clone();
            sp.ret = base.ret.clone();
            sp.props = if sp.props.is_empty() { base.props.clone() } else { sp.props };
            sp.prologue = expand_arity(&sp.prologue, n_el);
            sp.epilogue = expand_arity(&sp.epilogue, n_el);
            for x in sp.after.iter_mut().chain(sp.before.iter_mut()) { x.2 = expand_arity(&x.2, n_el); }
            sp.ghost = base.ghost.clone();
            if sp.heap.is_empty() { sp.heap = base.heap.clone(); }
            match self.signature(&f, Some(&sp)) {
                Ok(sig) => { let mut fo = self.emit_fn_inner(k, &f, Some(&sp), &sig, true); fo.file = f.module.clone(); self.fns.push(fo); }
                Err(e) => { self.errors.push(format!("{k}: {e}")); }
            }
        }
        self.o.nl();
        self.o.put("}\n");
    }
}
/// a body that is one arithmetic expression over its parameters (and over functions of that kind), over the integers
fn reflect(db: &crate::db::Db, f: &FnInfo) -> Option<String> {
    fn ex(db: &crate::db::Db, e: &syn::Expr, names: &[String]) -> Option<String> {
        use syn::{BinOp::*, Expr};
        Some(match e {
            Expr::Paren(p) => format!("({})", ex(db, &p.expr, names)?),
            Expr::Binary(b) => {
                let (l, r) = (ex(db, &b.left, names)?, ex(db, &b.right, names)?);
                match b.op {
                    Add(_) => format!("({l} + {r})"), Sub(_) => format!("({l} - {r})"), Mul(_) => format!("({l} * {r})"), Div(_) => format!("({l} / {r})"), Rem(_) => format!("({l} % {r})"),
                    Shr(_) => format!("({l} / {})", 1u64.checked_shl(r.trim_end_matches("int").parse().ok()?)?),
                    _ => return None,
                }
            }
            Expr::Lit(l) => match &l.lit { syn::Lit::Int(i) => format!("{}int", i.base10_digits()), _ => return None },
            Expr::Path(p) => { let n = p.path.get_ident()?.to_string(); if !names.contains(&n) { return None } n }
            Expr::MethodCall(m) if m.method == "div_ceil" && m.args.len() == 1 => { let (a, b) = (ex(db, &m.receiver, names)?, ex(db, &m.args[0], names)?); format!("(({a} + {b} - 1) / {b})") }
            Expr::Call(c) if c.args.is_empty() => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.last()?.ident.to_string();
                if n == "size_of" { return (toks(&p.path.segments.last()?.arguments).replace(' ', "").contains("<u32>")).then(|| "4int".to_string()) }
                let g = db.fns.values().find(|g| g.self_ty.is_none() && g.sig.ident == n)?;
                body(db, g)?
            }
            _ => return None,
        })
    }
    fn body(db: &crate::db::Db, f: &FnInfo) -> Option<String> {
        let mut names: Vec<String> = f.sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(toks(&t.pat)), _ => None }).collect();
        let mut out = String::new();
        let stmts = &f.block.as_ref()?.stmts;
        for (i, s) in stmts.iter().enumerate() {
            match s {
                syn::Stmt::Local(l) => {
                    let syn::Pat::Ident(p) = &l.pat else { return None };
                    if p.mutability.is_some() { return None }
                    let v = ex(db, &l.init.as_ref()?.expr, &names)?;
                    names.push(p.ident.to_string());
                    out.push_str(&format!("let {} = {v}; ", p.ident));
                }
                syn::Stmt::Expr(e, None) if i + 1 == stmts.len() => return Some(format!("{{ {out}{} }}", ex(db, &e, &names)?)),
                _ => return None,
            }
        }
        None
    }
    body(db, f)
}
/// `$*( text with $i and $T ),*` style repetition over the arity of a tuple: `#[ ... #]sep` with `#i`
pub fn expand_arity(s: &str, n: usize) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(a) = rest.find("#[[") {
        out.push_str(&rest[..a]);
        let Some(b) = rest[a..].find("]]") else { break };
        let body = &rest[a + 3..a + b];
        let after = &rest[a + b + 2..];
        let (sep, after) = if after.starts_with("&&") { (" && ", &after[2..]) } else if after.starts_with(',') && after[1..].starts_with('*') { (", ", &after[2..]) } else if after.starts_with('+') && after[1..].starts_with('*') { (" + ", &after[2..]) } else { (" ", after) };
        let v: Vec<String> = (0..n).map(|i| { let acc = if n == 1 { String::new() } else { format!(".{i}") }; body.replace("#acc", &acc).replace("#i", &i.to_string()) }).collect();
        out.push_str(&v.join(sep));
        rest = after;
    }
    out.push_str(rest);
    out.replace("#n", &n.to_string())
}
