mod db;
mod emit;
mod load;
mod lower;
mod mac;
mod print;
mod spec;
use std::collections::HashSet;
use std::path::Path;

fn main() {
    // vx SRC SPECDIR OUT.rs OUT.json [key of a function to leave out]...
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("vx SRC SPECS OUT.rs OUT.json [--ext key]..."); std::process::exit(2); }
    let ext: HashSet<String> = a[5..].iter().cloned().collect();
    match run(Path::new(&a[1]), Path::new(&a[2]), Path::new(&a[3]), Path::new(&a[4]), &ext) { Ok(()) => {} Err(e) => { eprintln!("vx: {e}"); std::process::exit(3); } }
}
fn run(src: &Path, specs: &Path, out: &Path, map: &Path, ext: &HashSet<String>) -> Result<(), String> {
    let mut s = spec::Specs::default();
    let mut files: Vec<_> = std::fs::read_dir(specs).map_err(|e| e.to_string())?.filter_map(|x| x.ok()).map(|x| x.path()).filter(|p| p.extension().map_or(false, |e| e == "vspec")).collect();
    files.sort();
    for f in &files { let t = std::fs::read_to_string(f).map_err(|e| e.to_string())?; spec::parse(&mut s, &f.file_name().unwrap().to_string_lossy(), &t)?; }
    let prelude = std::fs::read_to_string(specs.join("prelude.rs")).map_err(|e| e.to_string())?;
    let l = load::load(src)?;
    // the local names the written proofs were written against
    let mut names = std::collections::HashMap::new();
    if let Ok(t) = std::fs::read_to_string(specs.join("shapes.json")) { let v: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?; for (k, x) in v.as_object().into_iter().flatten() { names.insert(k.clone(), x["names"].as_array().into_iter().flatten().filter_map(|n| n.as_str().map(String::from)).collect::<Vec<_>>()); } }
    let mut e = emit::Emit { l: &l, specs: &s, o: Default::default(), fns: vec![], force_ext: ext, known: HashSet::new(), errors: l.errors.clone(), done: HashSet::new(), names };
    e.run(&prelude);
    std::fs::write(out, &e.o.s).map_err(|e| e.to_string())?;
    let fns: Vec<serde_json::Value> = e.fns.iter().map(|f| serde_json::json!({"key": f.key, "module": f.file, "start": f.start, "end": f.end, "status": f.status, "reason": f.reason, "props": f.props, "inlined": f.inlined, "external": f.external, "shape": f.shape, "loose": f.loose, "names": l.db.fns.get(&f.key).and_then(|i| i.block.as_ref()).map(emit::local_names).unwrap_or_default()})).collect();
    let marks: Vec<serde_json::Value> = e.o.marks.iter().map(|m| serde_json::json!([m.0, m.1, m.2])).collect();
    let contracts: HashSet<&String> = s.fns.keys().collect();
    let without: Vec<&String> = { let mut v: Vec<&String> = l.db.fns.iter().filter(|(k, f)| f.block.is_some() && !contracts.contains(k) && !e.done.contains(*k)).map(|x| x.0).collect(); v.sort(); v };
    let j = serde_json::json!({"functions": fns, "marks": marks, "errors": e.errors, "dropped": l.db.dropped, "without_contract": without});
    std::fs::write(map, serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}
