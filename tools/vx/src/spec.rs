//! Parser of the contract files (specs/*.vspec).
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Default)]
pub struct Clause { pub labels: Vec<String>, pub text: String }
#[derive(Clone, Debug, Default)]
pub struct LoopSpec { pub inv: Vec<Clause>, pub inv_except: Vec<Clause>, pub ens: Vec<Clause>, pub dec: String, pub before: String, pub start: String, pub end: String, pub after: String }
#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub key: String,
    pub params: Vec<String>,
    pub ret: String,
    pub props: Vec<String>,
    pub opts: HashMap<String, String>,
    pub ptr: HashMap<String, String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub prologue: String,
    pub epilogue: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub after: Vec<(String, usize, String)>,
    pub before: Vec<(String, usize, String)>,
    pub ghost: Vec<(String, String, bool)>, // name, type, mutable
    pub heap: String,
    pub lits: HashMap<String, String>, // struct name -> extra fields text
    pub attrs: Vec<String>,
    pub file: String,
    pub line: usize,
}
#[derive(Clone, Debug, Default)]
pub struct ModSpec { pub raw: Vec<String>, pub trait_raw: HashMap<String, String>, pub uses: Vec<String> }
#[derive(Clone, Debug, Default)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub mods: HashMap<String, ModSpec>,
    pub fields: HashMap<String, Vec<(String, String)>>, // ghost fields of a struct
    pub attrs: HashMap<String, String>,
}

fn clauses(lines: &[String], def: &[String]) -> Vec<Clause> {
    // a clause ends with a line whose last character is ','
    let mut v = vec![];
    let mut cur = Clause { labels: def.to_vec(), text: String::new() };
    let mut labels = def.to_vec();
    for l in lines {
        let t = l.trim();
        if t.is_empty() || t.starts_with("//") { continue; }
        let mut t2 = t.to_string();
        if t.starts_with('[') && t.contains(']') && t[1..].starts_with('C') {
            let (a, b) = t[1..].split_once(']').unwrap();
            labels = a.split_whitespace().map(|s| s.to_string()).collect();
            cur.labels = labels.clone();
            t2 = b.trim().to_string();
            if t2.is_empty() { continue; }
        } else if t.starts_with("[*]") {
            labels = def.to_vec();
            cur.labels = labels.clone();
            t2 = t[3..].trim().to_string();
            if t2.is_empty() { continue; }
        }
        cur.text.push_str(&t2);
        cur.text.push('\n');
        if t2.ends_with(',') && balanced(&cur.text) { v.push(cur); cur = Clause { labels: labels.clone(), text: String::new() }; }
    }
    if !cur.text.trim().is_empty() { if !cur.text.trim_end().ends_with(',') { let t = cur.text.trim_end().to_string() + ",\n"; cur.text = t; } v.push(cur); }
    v
}
fn balanced(s: &str) -> bool {
    let mut d = 0i32;
    for c in s.chars() { match c { '(' | '[' | '{' => d += 1, ')' | ']' | '}' => d -= 1, _ => {} } }
    d == 0
}

pub fn parse(specs: &mut Specs, file: &str, text: &str) -> Result<(), String> {
    let lines: Vec<&str> = text.lines().collect();
    let mut module = String::new();
    let mut i = 0;
    let mut macros: HashMap<String, String> = HashMap::new();
    while i < lines.len() {
        let l = lines[i].trim_end();
        if l.starts_with("@@module ") { module = l[9..].trim().to_string(); specs.mods.entry(module.clone()).or_default(); i += 1; continue; }
        if l.starts_with("@@use ") { specs.mods.entry(module.clone()).or_default().uses.push(l[6..].trim().to_string()); i += 1; continue; }
        if l.starts_with("@@raw") {
            let mut b = String::new();
            i += 1;
            while i < lines.len() && !lines[i].starts_with("@@") { b.push_str(lines[i]); b.push('\n'); i += 1; }
            specs.mods.entry(module.clone()).or_default().raw.push(b);
            continue;
        }
        if let Some(r) = l.strip_prefix("@@trait ") {
            let n = r.trim().to_string();
            let mut b = String::new();
            i += 1;
            while i < lines.len() && !lines[i].starts_with("@@") { b.push_str(lines[i]); b.push('\n'); i += 1; }
            specs.mods.entry(module.clone()).or_default().trait_raw.insert(n, b);
            continue;
        }
        if let Some(r) = l.strip_prefix("@@field ") {
            let (n, rest) = r.split_once('.').ok_or("field")?;
            let (f, t) = rest.split_once(':').ok_or("field")?;
            specs.fields.entry(n.trim().into()).or_default().push((f.trim().into(), t.trim().into()));
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("@@attr ") {
            let (n, rest) = r.split_once(' ').ok_or("attr")?;
            specs.attrs.insert(n.into(), rest.into());
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("@@macro ") {
            let n = r.trim().to_string();
            let mut b = String::new();
            i += 1;
            while i < lines.len() && !lines[i].starts_with("@@") { b.push_str(lines[i]); b.push('\n'); i += 1; }
            macros.insert(n, b);
            continue;
        }
        if let Some(r) = l.strip_prefix("@@fn ") {
            let mut f = FnSpec { file: file.into(), line: i + 1, ..Default::default() };
            let (k, rest) = r.split_once('(').ok_or_else(|| format!("{file}:{}: fn header", i + 1))?;
            f.key = k.trim().to_string();
            let (ps, rest) = rest.split_once(')').ok_or("fn header")?;
            f.params = ps.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
            f.ret = rest.trim().strip_prefix("->").map(|s| s.trim().to_string()).unwrap_or_else(|| "r".into());
            i += 1;
            let mut sect = String::new();
            let mut buf: Vec<String> = vec![];
            let mut lp: usize = 0;
            let mut done = false;
            // expand macros
            let mut body: Vec<String> = vec![];
            while i < lines.len() && !lines[i].starts_with("@@") {
                let t = lines[i].trim();
                if let Some(m) = t.strip_prefix("%%") {
                    let m = m.trim();
                    body.extend(macros.get(m).ok_or_else(|| format!("{file}: macro {m}"))?.lines().map(|s| s.to_string()));
                } else { body.push(lines[i].to_string()); }
                i += 1;
            }
            body.push("@end".into());
            for l in body {
                let t = l.trim();
                if t.starts_with('@') && !t.starts_with("@[") {
                    // flush
                    let txt = buf.join("\n");
                    match sect.as_str() {
                        "" => {}
                        "requires" => f.requires.extend(clauses(&buf, &f.props)),
                        "ensures" => f.ensures.extend(clauses(&buf, &f.props)),
                        "prologue" => f.prologue.push_str(&txt),
                        "epilogue" => f.epilogue.push_str(&txt),
                        "invariant" => f.loops.entry(lp).or_default().inv.extend(clauses(&buf, &f.props)),
                        "invariant_except_break" => f.loops.entry(lp).or_default().inv_except.extend(clauses(&buf, &f.props)),
                        "loopensures" => f.loops.entry(lp).or_default().ens.extend(clauses(&buf, &f.props)),
                        "decreases" => f.loops.entry(lp).or_default().dec.push_str(&txt),
                        "loopbefore" => f.loops.entry(lp).or_default().before.push_str(&txt),
                        "loopstart" => f.loops.entry(lp).or_default().start.push_str(&txt),
                        "loopend" => f.loops.entry(lp).or_default().end.push_str(&txt),
                        "loopafter" => f.loops.entry(lp).or_default().after.push_str(&txt),
                        s if s.starts_with("after ") || s.starts_with("before ") => {
                            let p: Vec<&str> = s.split_whitespace().collect();
                            let n = p.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
                            if p[0] == "after" { f.after.push((p[1].into(), n, txt)) } else { f.before.push((p[1].into(), n, txt)) }
                        }
                        s => return Err(format!("{file}: {}: section {s}", f.key)),
                    }
                    buf.clear();
                    let d = &t[1..];
                    let (w, r) = d.split_once(' ').unwrap_or((d, ""));
                    sect = String::new();
                    match w {
                        "props" => f.props = r.split_whitespace().map(|s| s.into()).collect(),
                        "opt" => for o in r.split_whitespace() { let (a, b) = o.split_once('=').unwrap_or((o, "1")); f.opts.insert(a.into(), b.into()); },
                        "ptr" => for o in r.split_whitespace() { let (a, b) = o.split_once('=').unwrap(); f.ptr.insert(a.into(), b.into()); },
                        "ghost" => { let (n, ty) = r.split_once(':').unwrap(); let ty = ty.trim(); let m = ty.starts_with("mut "); f.ghost.push((n.trim().into(), ty.trim_start_matches("mut ").into(), m)); }
                        "heap" => f.heap = r.trim().into(),
                        "lit" => { let (n, x) = r.split_once(' ').unwrap(); f.lits.insert(n.into(), x.into()); }
                        "attr" => f.attrs.push(r.into()),
                        "loop" => { lp = r.trim().parse().map_err(|_| "loop number")?; f.loops.entry(lp).or_default(); }
                        "end" => done = true,
                        "after" | "before" => sect = format!("{w} {r}"),
                        _ => sect = w.to_string(),
                    }
                    if !r.trim().is_empty() && matches!(w, "requires" | "ensures" | "invariant" | "decreases" | "prologue" | "epilogue") { buf.push(r.to_string()); }
                } else { buf.push(l.clone()); }
            }
            let _ = done;
            if specs.fns.insert(f.key.clone(), f.clone()).is_some() { return Err(format!("{file}: duplicate contract for {}", f.key)); }
            continue;
        }
        if l.trim().is_empty() || l.starts_with("//") || l.starts_with("@@end") { i += 1; continue; }
        return Err(format!("{file}:{}: unexpected line: {l}", i + 1));
    }
    Ok(())
}
