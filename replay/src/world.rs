//! Executes a history of operations on the real store next to an abstract model and checks the
//! executable form of the properties' contracts.
use crate::comps::*;
use division_ecs::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Bare(usize),
    Arch(u32, usize),
    Destroy(usize),
    DestroyEvery(usize, usize), // start, step over alive entities
    Add(usize, usize, u64),
    Rem(usize, usize),
    Write(usize, usize, u64),
    TagAdd(usize, usize),
    TagRem(usize, usize),
    TagEvery(usize, usize, usize), // tag, start, step
    OAdd(usize, usize),
    OAddAll(usize),
    ONext(usize, usize, usize), // group, entity, member position
    OPrev(usize, usize, usize),
    ORem(usize, usize),
    OBad(usize, usize, usize), // group, member position, kind
    Stale(usize, usize, usize), // kind, dead handle, argument
    Churn(usize, usize), // alive handle, number of times its id is handed out again
    Check,
}
impl Op {
    pub fn show(&self) -> String { format!("{:?}", self).replace(['(', ')', ','], " ").split_whitespace().collect::<Vec<_>>().join(" ") }
    pub fn parse(l: &str) -> Option<Op> {
        let p: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok());
        let u = |i: usize| n(i).map(|x| x as usize);
        Some(match *p.first()? {
            "Bare" => Op::Bare(u(1)?), "Arch" => Op::Arch(n(1)? as u32, u(2)?), "Destroy" => Op::Destroy(u(1)?), "DestroyEvery" => Op::DestroyEvery(u(1)?, u(2)?),
            "Add" => Op::Add(u(1)?, u(2)?, n(3)?), "Rem" => Op::Rem(u(1)?, u(2)?), "Write" => Op::Write(u(1)?, u(2)?, n(3)?),
            "TagAdd" => Op::TagAdd(u(1)?, u(2)?), "TagRem" => Op::TagRem(u(1)?, u(2)?), "TagEvery" => Op::TagEvery(u(1)?, u(2)?, u(3)?),
            "OAdd" => Op::OAdd(u(1)?, u(2)?), "OAddAll" => Op::OAddAll(u(1)?), "ONext" => Op::ONext(u(1)?, u(2)?, u(3)?), "OPrev" => Op::OPrev(u(1)?, u(2)?, u(3)?),
            "ORem" => Op::ORem(u(1)?, u(2)?), "OBad" => Op::OBad(u(1)?, u(2)?, u(3)?), "Stale" => Op::Stale(u(1)?, u(2)?, u(3)?), "Churn" => Op::Churn(u(1)?, u(2)?), "Check" => Op::Check,
            _ => return None,
        })
    }
}

#[derive(Clone, Default)]
struct Ent { alive: bool, comps: Option<BTreeMap<usize, u64>>, tags: BTreeSet<usize> }

pub struct World {
    pub prop: String,
    store: Store,
    handles: Vec<Entity>,
    ents: Vec<Ent>,
    alive: Vec<usize>, // indices of alive handles
    dead: Vec<usize>,
    groups: Vec<Vec<usize>>,
    tags_used: BTreeSet<usize>,
    masks_used: BTreeSet<u32>,
    tuples: Vec<TupleOps>,
    rws: Vec<RwOps>,
    vctr: u64,
    ids_alive: std::collections::HashSet<u32>,
    issued: std::collections::HashSet<(u32, u32)>,
    pub effective: usize,
    pub stop: bool,
}
type R = Result<(), String>;
macro_rules! ensure { ($c:expr, $($f:tt)*) => { if !($c) { return Err(format!($($f)*)); } } }

pub fn members(mask: u32) -> Vec<usize> { (0..NC).filter(|i| mask >> i & 1 == 1).collect() }
/// Sets whose columns fit a page whatever the order of the columns: these must be accepted.
pub fn fits(mask: u32) -> bool {
    let m = members(mask);
    if m.is_empty() { return false; }
    let page = Store::data_page_size();
    let row = page / m.len() - m.iter().map(|i| ALIGNS[*i]).max().unwrap() % 8;
    let cap = m.iter().map(|i| row / SIZES[*i]).min().unwrap();
    cap >= 1 && m.iter().map(|i| SIZES[*i] * cap + ALIGNS[*i] - 1).sum::<usize>() <= page
}
fn mask_of(c: &BTreeMap<usize, u64>) -> u32 { c.keys().fold(0, |a, i| a | 1 << i) }

impl World {
    pub fn new(prop: &str, cap: usize) -> World {
        World { prop: prop.into(), store: if cap == 10 { Store::new() } else { Store::with_capacity(cap) }, handles: vec![], ents: vec![], alive: vec![], dead: vec![], groups: vec![vec![]; NG],
            tags_used: Default::default(), masks_used: Default::default(), tuples: tuples(), rws: rws(), vctr: 0, ids_alive: Default::default(), issued: Default::default(), effective: 0, stop: false }
    }
    fn p(&self, l: &[&str]) -> bool { l.contains(&self.prop.as_str()) }
    fn pick_alive(&self, h: usize) -> Option<usize> { if self.alive.is_empty() { None } else { Some(self.alive[h % self.alive.len()]) } }
    fn pick_dead(&self, h: usize) -> Option<usize> { if self.dead.is_empty() { None } else { Some(self.dead[h % self.dead.len()]) } }
    fn val(&mut self) -> u64 { self.vctr += 1; self.vctr * 7919 }

    fn created(&mut self, e: Entity, comps: Option<BTreeMap<usize, u64>>) -> R {
        if self.p(&["C01"]) {
            ensure!(self.store.is_alive(e), "a newly created entity {:?} is not alive", e);
            ensure!(self.ids_alive.insert(e.id()), "new entity {:?} shares its id with an alive entity", e);
            ensure!(self.issued.insert((e.id(), e.version())), "new handle {:?} was handed out before", e);
        }
        self.handles.push(e);
        self.ents.push(Ent { alive: true, comps, tags: Default::default() });
        self.alive.push(self.handles.len() - 1);
        Ok(())
    }
    fn destroyed(&mut self, i: usize) {
        self.ents[i] = Ent::default();
        self.ids_alive.remove(&self.handles[i].id());
        self.alive.retain(|x| *x != i);
        self.dead.push(i);
        for g in &mut self.groups { g.retain(|x| *x != i) }
    }
    /// a large population: checks look at a sample of it
    fn large(&self) -> bool { self.handles.len() > 3000 }
    pub fn step(&mut self, op: &Op) -> R {
        self.effective += 1;
        match *op {
            Op::Bare(n) => for _ in 0..n { let e = self.store.create_entity(); self.created(e, None)? },
            Op::Arch(mask, n) => {
                if !fits(mask) {
                    if !self.p(&["C05"]) || mask == 0 { self.effective -= 1; return Ok(()); }
                    // must be refused by a panic, or else work
                    let (s, m) = (&mut self.store, members(mask));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let a = ArchetypeBuilder::new().include_component_types(&m.iter().map(|i| ctype(*i)).collect::<Vec<_>>()).build();
                        (0..n).map(|_| s.create_entity_with_archetype(&a)).collect::<Vec<_>>()
                    }));
                    match r {
                        Err(_) => { self.stop = true; return Ok(()); }
                        Ok(v) => for e in v { self.fill(e, &m)?; },
                    }
                    return Ok(());
                }
                let m = members(mask);
                self.masks_used.insert(mask);
                let mut tys: Vec<_> = m.iter().map(|i| ctype(*i)).collect();
                if n % 2 == 1 { tys.reverse(); }
                let a = ArchetypeBuilder::new().include_component_types(&tys).build();
                for _ in 0..n { let e = self.store.create_entity_with_archetype(&a); self.fill(e, &m)?; }
            }
            Op::Destroy(h) => if let Some(i) = self.pick_alive(h) { self.store.destroy_entity(self.handles[i]); self.destroyed(i); } else { self.effective -= 1 },
            Op::DestroyEvery(a, s) => {
                let l: Vec<usize> = self.alive.iter().copied().skip(a).step_by(s.max(1)).collect();
                let gone: std::collections::HashSet<usize> = l.iter().copied().collect();
                for i in l { self.store.destroy_entity(self.handles[i]); self.ents[i] = Ent::default(); self.ids_alive.remove(&self.handles[i].id()); self.dead.push(i); }
                self.alive.retain(|x| !gone.contains(x));
                for g in &mut self.groups { g.retain(|x| !gone.contains(x)) }
            }
            Op::Add(h, t, v) => {
                let t = t % self.tuples.len();
                let Some(i) = self.pick_alive(h) else { self.effective -= 1; return Ok(()) };
                let mut c = self.ents[i].comps.clone().unwrap_or_default();
                let idxs = self.tuples[t].idxs.clone();
                let vals: Vec<u64> = (0..idxs.len() as u64).map(|k| v * 31 + k * 977 + self.vctr).collect();
                for (k, ix) in idxs.iter().enumerate() { c.insert(*ix, vals[k]); }
                if !fits(mask_of(&c)) { self.effective -= 1; return Ok(()); }
                self.vctr += 1;
                (self.tuples[t].add)(&mut self.store, self.handles[i], &vals);
                self.masks_used.insert(mask_of(&c));
                self.ents[i].comps = Some(c);
            }
            Op::Rem(h, t) => {
                let t = t % self.tuples.len();
                let Some(i) = self.pick_alive(h) else { self.effective -= 1; return Ok(()) };
                (self.tuples[t].rem)(&mut self.store, self.handles[i]);
                if let Some(c) = &mut self.ents[i].comps {
                    for ix in &self.tuples[t].idxs { c.remove(ix); }
                    if c.is_empty() { self.ents[i].comps = None; }
                }
            }
            Op::Write(h, k, v) => {
                let Some(i) = self.pick_alive(h) else { self.effective -= 1; return Ok(()) };
                let Some(c) = &mut self.ents[i].comps else { self.effective -= 1; return Ok(()) };
                let ks: Vec<usize> = c.keys().copied().collect();
                let ix = ks[k % ks.len()];
                c.insert(ix, v);
                ensure!(wr(&mut self.store, self.handles[i], ix, v).is_some(), "no mutable reference to component K{} of {:?}", ix, self.handles[i]);
            }
            Op::TagAdd(h, t) => { let t = t % NT; let Some(i) = self.pick_alive(h) else { self.effective -= 1; return Ok(()) }; tag_add(&mut self.store, self.handles[i], t); self.ents[i].tags.insert(t); self.tags_used.insert(t); }
            Op::TagRem(h, t) => { let t = t % NT; let Some(i) = self.pick_alive(h) else { self.effective -= 1; return Ok(()) }; tag_rem(&mut self.store, self.handles[i], t); self.ents[i].tags.remove(&t); }
            Op::TagEvery(t, a, s) => { let t = t % NT; let l: Vec<usize> = self.alive.iter().copied().skip(a).step_by(s.max(1)).collect(); for i in l { tag_add(&mut self.store, self.handles[i], t); self.ents[i].tags.insert(t); self.tags_used.insert(t); } }
            Op::OAdd(g, h) => {
                let g = g % NG;
                match self.pick_alive(h) { Some(i) if !self.groups[g].contains(&i) => { g_add(&mut self.store, self.handles[i], g); self.groups[g].push(i); } _ => self.effective -= 1 }
            }
            Op::OAddAll(g) => { let g = g % NG; let have: std::collections::HashSet<usize> = self.groups[g].iter().copied().collect(); for i in self.alive.clone() { if !have.contains(&i) { g_add(&mut self.store, self.handles[i], g); self.groups[g].push(i); } } }
            Op::ONext(g, h, k) | Op::OPrev(g, h, k) => {
                let g = g % NG;
                let next = matches!(op, Op::ONext(..));
                match self.pick_alive(h) {
                    Some(i) if !self.groups[g].contains(&i) && !self.groups[g].is_empty() => {
                        let k = k % self.groups[g].len();
                        let m = self.handles[self.groups[g][k]];
                        if next { g_next(&mut self.store, self.handles[i], m, g); self.groups[g].insert(k + 1, i); } else { g_prev(&mut self.store, self.handles[i], m, g); self.groups[g].insert(k, i); }
                    }
                    _ => self.effective -= 1,
                }
            }
            Op::ORem(g, h) => { let g = g % NG; let Some(i) = self.pick_alive(h) else { self.effective -= 1; return Ok(()) }; g_rem(&mut self.store, self.handles[i], g); self.groups[g].retain(|x| *x != i); }
            Op::OBad(g, k, kind) => {
                let g = g % NG;
                let n = self.groups[g].len();
                if n == 0 || !cfg!(debug_assertions) { self.effective -= 1; return Ok(()); }
                let e = self.handles[self.groups[g][k % n]];
                let o = self.handles[self.groups[g][(k + 1) % n]];
                let s = &mut self.store;
                if kind % 3 != 0 && n == 1 { self.effective -= 1; return Ok(()); }
                let r = catch_unwind(AssertUnwindSafe(|| match kind % 3 { 0 => g_add(s, e, g), 1 => g_next(s, e, o, g), _ => g_prev(s, e, o, g) }));
                ensure!(r.is_err(), "adding {:?}, already a member of group {}, was not refused", e, g);
            }
            Op::Stale(kind, h, x) => {
                let Some(i) = self.pick_dead(h) else { self.effective -= 1; return Ok(()) };
                let e = self.handles[i];
                let g = x % NG;
                let other = if self.groups[g].is_empty() { None } else { Some(self.handles[self.groups[g][x % self.groups[g].len()]]) };
                let fresh = self.alive.iter().copied().filter(|a| !self.groups[g].contains(a)).nth(x % 3).map(|a| self.handles[a]);
                let nt = self.tuples.len();
                match kind % 10 {
                    0 => { let t = &self.tuples[x % nt]; let v = vec![x as u64 + 5; t.idxs.len()]; (t.add)(&mut self.store, e, &v) }
                    1 => (self.tuples[x % nt].rem)(&mut self.store, e),
                    2 => tag_add(&mut self.store, e, x % NT),
                    3 => tag_rem(&mut self.store, e, x % NT),
                    4 => g_add(&mut self.store, e, g),
                    5 => if let Some(o) = other { g_next(&mut self.store, e, o, g) },
                    6 => if let Some(o) = other { g_prev(&mut self.store, e, o, g) },
                    7 => if let Some(f) = fresh { if x % 2 == 0 { g_next(&mut self.store, f, e, g) } else { g_prev(&mut self.store, f, e, g) } },
                    8 => g_rem(&mut self.store, e, g),
                    // refused in builds with checks, which this one is
                    _ => { let s = &mut self.store; if cfg!(debug_assertions) { ensure!(catch_unwind(AssertUnwindSafe(|| s.destroy_entity(e))).is_err(), "destroying the dead {:?} again was not refused", e) } }
                }
                self.check()?;
            }
            Op::Churn(h, n) => {
                let Some(i) = self.pick_alive(h) else { self.effective -= 1; return Ok(()) };
                let first = self.handles[i];
                let vast = n > 1 << 20;
                if vast && cfg!(debug_assertions) { self.effective -= 1; return Ok(()); }
                self.store.destroy_entity(first);
                self.destroyed(i);
                for k in 0..n {
                    let e = self.store.create_entity();
                    if vast { ensure!(!self.store.is_alive(first) && e != first, "destroyed {:?} is alive again", first); }
                    if self.p(&["C01"]) && !vast {
                        ensure!(if k + 1 == n { !self.issued.contains(&(e.id(), e.version())) } else { self.issued.insert((e.id(), e.version())) }, "new handle {:?} was handed out before", e);
                        ensure!(self.store.is_alive(e), "a newly created entity {:?} is not alive", e);
                    }
                    if self.p(&["C01", "C02"]) && !vast && (k < 300 || k % 251 == 0 || k + 300 > n) { ensure!(!self.store.is_alive(first), "destroyed {:?} is alive again", first); }
                    if k + 1 == n { self.created(e, None)?; } else { self.store.destroy_entity(e); }
                    if self.p(&["C01"]) && k + 1 < n { ensure!(!self.store.is_alive(e), "destroyed {:?} is alive", e); }
                }
            }
            Op::Check => self.check()?,
        }
        Ok(())
    }
    fn fill(&mut self, e: Entity, m: &[usize]) -> R {
        let mut c = BTreeMap::new();
        for ix in m { let v = self.val(); c.insert(*ix, v); }
        self.created(e, Some(c.clone()))?;
        for (ix, v) in &c { ensure!(wr(&mut self.store, e, *ix, *v).is_some(), "no mutable reference to component K{} of {:?} created with it", ix, e); }
        Ok(())
    }
    fn check_item(&self, what: &str, i: usize, it: &Item, idxs: &[usize]) -> R {
        let e = self.handles[i];
        if let Some(ie) = it.0 { ensure!(ie == e, "{} yields handle {:?} with the components of {:?}", what, ie, e); }
        for (k, ix) in idxs.iter().enumerate() {
            let (a, b) = rd(&self.store, e, *ix).ok_or_else(|| format!("component K{} of {:?} unreadable", ix, e))?;
            ensure!(it.1[k].1 == a, "{}: item for {:?} does not refer to its component K{}", what, e, ix);
            ensure!(it.1[k].2 == b, "{}: item for {:?} shows a different value for K{}", what, e, ix);
        }
        Ok(())
    }
    fn has_all(&self, i: usize, idxs: &[usize]) -> bool { self.ents[i].comps.as_ref().map_or(false, |c| idxs.iter().all(|x| c.contains_key(x))) }
    /// unordered comparison (component query)
    fn same_set(&self, what: &str, items: &[Item], expect: &[usize], idxs: &[usize]) -> R {
        let mut by_addr: BTreeMap<usize, usize> = BTreeMap::new();
        for i in expect {
            let (a, _) = rd(&self.store, self.handles[*i], idxs[0]).ok_or_else(|| "unreadable".to_string())?;
            by_addr.insert(a, *i);
        }
        let mut seen = BTreeSet::new();
        for it in items {
            let i = *by_addr.get(&it.1[0].1).ok_or_else(|| format!("{} yields an item {:?} that is no matching entity's component", what, it.0))?;
            ensure!(seen.insert(i), "{} yields {:?} more than once", what, self.handles[i]);
            self.check_item(what, i, it, idxs)?;
        }
        for i in expect { ensure!(seen.contains(i), "{} does not yield {:?}", what, self.handles[*i]); }
        Ok(())
    }
    fn same_seq(&self, what: &str, items: &[Item], expect: &[usize], idxs: &[usize]) -> R {
        ensure!(items.len() == expect.len(), "{} yields {} items, expected {}", what, items.len(), expect.len());
        for (it, i) in items.iter().zip(expect) { self.check_item(what, *i, it, idxs)?; }
        Ok(())
    }
    pub fn check(&mut self) -> R {
        if self.p(&["C01"]) {
            for (i, e) in self.handles.iter().enumerate() {
                ensure!(self.store.is_alive(*e) == self.ents[i].alive, "{:?} should be {}", e, if self.ents[i].alive { "alive" } else { "dead" });
            }
        }
        if self.p(&["C02"]) {
            for i in &self.dead {
                let e = self.handles[*i];
                if self.large() && *i % 29 != 0 { continue; }
                ensure!(!self.store.is_alive(e), "destroyed {:?} is alive", e);
                ensure!(self.store.get_entity_archetype(e).is_none(), "component set of dead {:?} found", e);
                for ix in 0..NC { ensure!(rd(&self.store, e, ix).is_none(), "component K{} of dead {:?} found", ix, e); }
                for t in 0..NT { ensure!(!tag_has(&self.store, e, t), "tag {} of dead {:?} found", t, e); }
                for g in 0..NG { ensure!(g_nx(&self.store, e, g).is_none() && g_pv(&self.store, e, g).is_none(), "order links of dead {:?} found", e); }
                for t in &self.tuples { ensure!((t.refs)(&self.store, e).is_none(), "components of dead {:?} found", e); }
                let s = &mut self.store;
                for t in &self.tuples { ensure!((t.refs_mut)(s, e).is_none(), "components of dead {:?} found (mutable)", e); }
            }
        }
        if self.p(&["C03", "C02"]) {
            for i in &self.alive { if let Some(c) = &self.ents[*i].comps { for (ix, v) in c {
                let e = self.handles[*i];
                let (_, b) = rd(&self.store, e, *ix).ok_or_else(|| format!("component K{} of {:?} is gone", ix, e))?;
                ensure!(b == bytes_of_value(*ix, *v), "component K{} of {:?} changed its value", ix, e);
            } } }
        }
        if self.p(&["C04", "C02"]) {
            for i in &self.alive {
                let e = self.handles[*i];
                match (&self.ents[*i].comps, self.store.get_entity_archetype(e)) {
                    (None, None) => {}
                    (Some(c), Some(a)) => {
                        ensure!(a.component_count() == c.len(), "{:?} has {} component types, expected {}", e, a.component_count(), c.len());
                        if self.large() && *i % 37 != 0 { continue; }
                        for ix in 0..NC { ensure!(has(a, ix) == c.contains_key(&ix), "component K{} in the set of {:?}: {}", ix, e, has(a, ix)); }
                    }
                    (x, y) => return Err(format!("{:?} should have components: {}, has archetype: {}", e, x.is_some(), y.is_some())),
                }
                if self.alive.len() > 40 && *i % 37 != 0 { continue; }
                for ti in 0..self.tuples.len() {
                    let want = self.has_all(*i, &self.tuples[ti].idxs);
                    let (f, fm, idxs) = (self.tuples[ti].refs, self.tuples[ti].refs_mut, self.tuples[ti].idxs.clone());
                    for (m, r) in [(0, f(&self.store, e)), (1, fm(&mut self.store, e))] {
                        ensure!(r.is_some() == want, "references to {:?} of {:?}: {} (mode {})", idxs, e, r.is_some(), m);
                        if let Some(r) = r { self.check_item("get_components_refs", *i, &(None, r), &idxs)?; }
                    }
                }
            }
        }
        if self.p(&["C05"]) {
            let mut iv: Vec<(usize, usize, Entity, usize)> = vec![];
            for i in &self.alive { if let Some(c) = &self.ents[*i].comps { for ix in c.keys() {
                let e = self.handles[*i];
                let (a, _) = rd(&self.store, e, *ix).ok_or_else(|| format!("component K{} of {:?} is gone", ix, e))?;
                ensure!(a % ALIGNS[*ix] == 0, "component K{} of {:?} is not aligned to {}", ix, e, ALIGNS[*ix]);
                iv.push((a, a + SIZES[*ix], e, *ix));
            } } }
            iv.sort_by_key(|x| x.0);
            for w in iv.windows(2) { ensure!(w[0].1 <= w[1].0, "component K{} of {:?} overlaps component K{} of {:?}", w[0].3, w[0].2, w[1].3, w[1].2); }
        }
        // in a large population: one tuple that some entity has, and one more
        let sample: Vec<usize> = if !self.large() || !self.p(&["C06", "C09", "C10"]) { (0..self.tuples.len()).collect() } else {
            let nt = self.tuples.len();
            let k = self.effective * 7;
            let top = self.ents.iter().rev().step_by(self.ents.len() / 200).filter_map(|e| e.comps.as_ref()).next();
            let had = (0..nt).map(|d| (k + d) % nt).find(|ti| top.map_or(false, |c| self.tuples[*ti].idxs.iter().all(|x| c.contains_key(x))));
            [had, Some(k / 2 % nt)].into_iter().flatten().collect()
        };
        if self.p(&["C06", "C09", "C10"]) && self.effective % 5 == 0 {
            // the same query objects, in an empty store
            let other = Store::new();
            for t in &self.tuples {
                let n = match self.prop.as_str() { "C06" => (t.query)(&other, 2).1.len(), "C09" => (0..NG).map(|g| { let r = (t.ordered)(&other, g, 2); r.0.max(r.1.len()) }).sum(), _ => (t.listed)(&other, &[], 2).len() };
                ensure!(n == 0, "a query over {:?} of an empty store, with a query object used before, yields or reports {}", t.idxs, n);
            }
        }
        if self.p(&["C06"]) {
            for (ti, t) in self.tuples.iter().enumerate() {
                if !sample.contains(&ti) { continue; }
                let expect: Vec<usize> = self.alive.iter().copied().filter(|i| self.has_all(*i, &t.idxs)).collect();
                for m in 0..3 {
                    let (n, items) = (t.query)(&self.store, m);
                    ensure!(n == items.len(), "component query over {:?} reports length {} and yields {}", t.idxs, n, items.len());
                    self.same_set("component query", &items, &expect, &t.idxs)?;
                }
                for tag in &self.tags_used {
                    let ex: Vec<usize> = expect.iter().copied().filter(|i| self.ents[*i].tags.contains(tag)).collect();
                    for m in 0..2 { self.same_set("tag-filtered query", &(t.filter)(&self.store, *tag, m), &ex, &t.idxs)?; }
                }
            }
            for t in &self.rws {
                let idxs: Vec<usize> = t.r.iter().chain(&t.w).copied().collect();
                let expect: Vec<usize> = self.alive.iter().copied().filter(|i| self.has_all(*i, &idxs)).collect();
                let (n, items) = (t.query)(&self.store);
                ensure!(n == items.len(), "component query over {:?} reports length {} and yields {}", idxs, n, items.len());
                self.same_set("component query", &items, &expect, &idxs)?;
            }
        }
        if self.p(&["C07", "C02"]) {
            for i in &self.alive { for t in 0..NT {
                ensure!(tag_has(&self.store, self.handles[*i], t) == self.ents[*i].tags.contains(&t), "tag {} of {:?} should be {}", t, self.handles[*i], self.ents[*i].tags.contains(&t));
            } }
        }
        if self.p(&["C08", "C02"]) {
            for g in 0..NG {
                let want: Vec<Entity> = self.groups[g].iter().map(|i| self.handles[*i]).collect();
                ensure!(g_first(&self.store, g) == want.first().copied(), "first of group {} is {:?}, expected {:?}", g, g_first(&self.store, g), want.first());
                ensure!(g_last(&self.store, g) == want.last().copied(), "last of group {} is {:?}, expected {:?}", g, g_last(&self.store, g), want.last());
                let pos: BTreeMap<usize, usize> = self.groups[g].iter().enumerate().map(|(p, i)| (*i, p)).collect();
                for i in &self.alive {
                    let e = self.handles[*i];
                    let (n, p) = match pos.get(i) { Some(p) => (want.get(p + 1).copied(), if *p > 0 { Some(want[p - 1]) } else { None }), None => (None, None) };
                    ensure!(g_nx(&self.store, e, g) == n, "next of {:?} in group {} is {:?}, expected {:?}", e, g, g_nx(&self.store, e, g), n);
                    ensure!(g_pv(&self.store, e, g) == p, "previous of {:?} in group {} is {:?}, expected {:?}", e, g, g_pv(&self.store, e, g), p);
                }
            }
        }
        if self.p(&["C09"]) {
            // (the groups in use, and one that is not)
            let top = (0..NG).rev().find(|g| !self.groups[*g].is_empty()).map_or(1, |g| (g + 2).min(NG));
            for g in 0..top {
                for (ti, t) in self.tuples.iter().enumerate() {
                    if !sample.contains(&ti) { continue; }
                    let expect: Vec<usize> = self.groups[g].iter().copied().filter(|i| self.has_all(*i, &t.idxs)).collect();
                    for m in 0..3 {
                        let (n, items) = (t.ordered)(&self.store, g, m);
                        ensure!(n == items.len(), "ordered query over {:?} reports length {} and yields {}", t.idxs, n, items.len());
                        self.same_seq("ordered query", &items, &expect, &t.idxs)?;
                    }
                }
                for t in &self.rws {
                    let idxs: Vec<usize> = t.r.iter().chain(&t.w).copied().collect();
                    let expect: Vec<usize> = self.groups[g].iter().copied().filter(|i| self.has_all(*i, &idxs)).collect();
                    let (n, items) = (t.ordered)(&self.store, g);
                    ensure!(n == items.len(), "ordered query over {:?} reports length {} and yields {}", idxs, n, items.len());
                    self.same_seq("ordered query", &items, &expect, &idxs)?;
                }
            }
        }
        if self.p(&["C10"]) {
            // several lists: all handles in issue order, reversed, interleaved
            let n = self.handles.len();
            let mut lists: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
            let mut sh: Vec<usize> = (0..n).collect();
            let mut x = 12345u64 + n as u64;
            for i in (1..n).rev() { x = x.wrapping_mul(6364136223846793005).wrapping_add(1); sh.swap(i, (x >> 33) as usize % (i + 1)); }
            lists.push(sh);
            lists.push(self.alive.clone());
            for l in &lists {
                let hs: Vec<Entity> = l.iter().map(|i| self.handles[*i]).collect();
                for (ti, t) in self.tuples.iter().enumerate() {
                    if !sample.contains(&ti) { continue; }
                    let expect: Vec<usize> = l.iter().copied().filter(|i| self.ents[*i].alive && self.has_all(*i, &t.idxs)).collect();
                    for m in 0..3 { self.same_seq("entity-list query", &(t.listed)(&self.store, &hs, m), &expect, &t.idxs)?; }
                }
                for t in &self.rws {
                    let idxs: Vec<usize> = t.r.iter().chain(&t.w).copied().collect();
                    let expect: Vec<usize> = l.iter().copied().filter(|i| self.ents[*i].alive && self.has_all(*i, &idxs)).collect();
                    self.same_seq("entity-list query", &(t.listed)(&self.store, &hs), &expect, &idxs)?;
                }
            }
        }
        Ok(())
    }
    pub fn alive_count(&self) -> usize { self.alive.len() }
}
