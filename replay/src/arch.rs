//! Archetype algebra against sets (C12).
use crate::comps::*;
use division_ecs::*;
use std::collections::BTreeSet;
#[derive(Clone, Debug)]
pub struct Case { pub a: Vec<usize>, pub b: Vec<usize>, pub c: Vec<usize>, pub ta: usize, pub tb: usize }
impl Case {
    pub fn show(&self) -> String { format!("Case {:?} {:?} {:?} {} {}", self.a, self.b, self.c, self.ta, self.tb).replace(", ", ",") }
    pub fn parse(l: &str) -> Option<Case> {
        let p: Vec<&str> = l.split_whitespace().collect();
        if *p.first()? != "Case" { return None; }
        let list = |s: &str| s.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.parse().ok()).collect::<Vec<usize>>();
        Some(Case { a: list(p.get(1)?), b: list(p.get(2)?), c: list(p.get(3)?), ta: p.get(4)?.parse().ok()?, tb: p.get(5)?.parse().ok()? })
    }
}
macro_rules! ensure { ($c:expr, $($f:tt)*) => { if !($c) { return Err(format!($($f)*)); } } }
fn tys(l: &[usize]) -> Vec<ComponentType> { l.iter().map(|i| ctype(*i)).collect() }
fn set(l: &[usize]) -> BTreeSet<usize> { l.iter().copied().collect() }
fn is(a: &Archetype, s: &BTreeSet<usize>, what: &str) -> Result<(), String> {
    ensure!(a.component_count() == s.len(), "{what}: {} types, expected {:?}", a.component_count(), s);
    for i in 0..NC { ensure!(has(a, i) == s.contains(&i), "{what}: K{i} is {}, expected set {:?}", has(a, i), s);
        ensure!(find(a, i).is_some() == s.contains(&i), "{what}: index of K{i}"); }
    let got: Vec<_> = a.components_iter().collect();
    ensure!(got.len() == s.len(), "{what}: iterates {} components", got.len());
    for i in s {
        let n = got.iter().filter(|c| c.id() == tid(*i)).count();
        ensure!(n == 1, "{what}: K{i} listed {n} times");
        let c = got.iter().find(|c| c.id() == tid(*i)).unwrap();
        ensure!(c.size() == SIZES[*i] && c.align() == ALIGNS[*i], "{what}: size or alignment of K{i}");
        ensure!(got[find(a, *i).unwrap()].id() == tid(*i), "{what}: K{i} found at the wrong index");
    }
    Ok(())
}
/// Different types whose names, sizes and alignments are the same.
fn namesakes() -> [ComponentType; 3] {
    let a = { #[derive(Clone, Copy)] #[allow(dead_code)] struct Same(u64); impl Component for Same {} ComponentType::of::<Same>() };
    let b = { #[derive(Clone, Copy)] #[allow(dead_code)] struct Same(u64); impl Component for Same {} ComponentType::of::<Same>() };
    let c = { #[derive(Clone, Copy)] #[allow(dead_code)] struct Same([u32; 2], [u64; 0]); impl Component for Same {} ComponentType::of::<Same>() };
    [a, b, c]
}
fn check_namesakes(k: &Case) -> Result<(), String> {
    let n = namesakes();
    let mut l: Vec<ComponentType> = tys(&k.a);
    for i in 0..3 { l.insert((k.ta + i * k.tb) % (l.len() + 1), n[i].clone()); }
    let a = ArchetypeBuilder::new().include_component_types(&l).build();
    ensure!(a.component_count() == set(&k.a).len() + 3, "{} types, of which 3 have the same name, make a set of {}", set(&k.a).len() + 3, a.component_count());
    for c in &n { ensure!(a.components_iter().filter(|x| x.id() == c.id()).count() == 1, "one of 3 types with the same name is missing"); }
    let one = ArchetypeBuilder::new().include_component_types(&[n[0].clone()]).build();
    let two = ArchetypeBuilder::new().include_component_types(&[n[1].clone()]).build();
    ensure!(!one.is_same_as(&two) && !one.is_include(&two) && one.is_exclude(&two), "two types with the same name are confused");
    ensure!(!one.is_include_ids(&[n[1].id()]) && !one.is_include_only_ids(&[n[1].id()]) && one.is_exclude_ids(&[n[1].id()]), "two types with the same name are confused (ids)");
    let rest = ArchetypeBuilder::new().include_archetype(&a).exclude_component_types(&[n[k.tb % 3].clone()]).build();
    ensure!(rest.component_count() + 1 == a.component_count() && rest.is_exclude_ids(&[n[k.tb % 3].id()]), "excluding one of 3 types with the same name");
    let j = ArchetypeBuilder::new().include_archetype(&one).include_archetype(&two).build();
    ensure!(j.component_count() == 2, "the union of two types with the same name has {}", j.component_count());
    Ok(())
}
pub fn run(k: &Case) -> Result<(), String> {
    let t = tuples();
    check_namesakes(k)?;
    if k.a.is_empty() || k.b.is_empty() { return Ok(()); }
    let (sa, sb, sc) = (set(&k.a), set(&k.b), set(&k.c));
    let aa = ArchetypeBuilder::new().include_component_types(&tys(&k.a)).build();
    let ab = ArchetypeBuilder::new().include_component_types(&tys(&k.b)).build();
    is(&aa, &sa, "built from types")?;
    is(&aa.clone(), &sa, "clone")?;
    let mut rev = k.a.clone(); rev.reverse();
    let ar = ArchetypeBuilder::new().include_component_types(&tys(&rev)).build();
    ensure!(aa.is_same_as(&ar) && ar.is_same_as(&aa), "sameness depends on the listing order");
    ensure!(aa.is_same_as(&ab) == (sa == sb), "is_same_as of {:?} and {:?}", sa, sb);
    ensure!(aa.is_include(&ab) == sb.is_subset(&sa), "is_include of {:?} and {:?}", sa, sb);
    ensure!(aa.is_exclude(&ab) == sa.is_disjoint(&sb), "is_exclude of {:?} and {:?}", sa, sb);
    let ids: Vec<_> = k.b.iter().map(|i| tid(*i)).collect();
    ensure!(aa.is_include_ids(&ids) == sb.is_subset(&sa), "is_include_ids of {:?} and {:?}", sa, k.b);
    ensure!(aa.is_include_only_ids(&ids) == (sa == sb), "is_include_only_ids of {:?} and {:?}", sa, k.b);
    ensure!(aa.is_exclude_ids(&ids) == sa.is_disjoint(&sb), "is_exclude_ids of {:?} and {:?}", sa, k.b);
    // builder: (a + archetype b + tuple ta) - c - tuple tb
    let (ta, tb) = (&t[k.ta % t.len()], &t[k.tb % t.len()]);
    for order in 0..3 {
        let mut b = ArchetypeBuilder::new();
        match order {
            0 => { b.include_component_types(&tys(&k.a)).include_archetype(&ab); (ta.inc)(&mut b); }
            1 => { (ta.inc)(&mut b); b.include_archetype(&ab).include_component_types(&tys(&k.a)); }
            _ => { b.include_archetype(&ab).include_archetype(&aa); (ta.inc)(&mut b); b.include_component_types(&tys(&k.b)); }
        }
        b.exclude_component_types(&tys(&k.c));
        (tb.exc)(&mut b);
        let want: BTreeSet<usize> = sa.union(&sb).copied().chain(ta.idxs.iter().copied()).filter(|x| !sc.contains(x) && !tb.idxs.contains(x)).collect();
        if !want.is_empty() { is(&b.build(), &want, "built by include/exclude")?; is(&b.build(), &want, "built twice")?; }
    }
    is(&(ta.arch)(), &set(&ta.idxs), "with_components")
}
