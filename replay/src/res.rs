//! Resource store histories (C11, C13).
use division_ecs::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! { static DROPS: RefCell<BTreeMap<u64, usize>> = RefCell::new(BTreeMap::new()); static ZDROPS: RefCell<usize> = RefCell::new(0); }
#[derive(Debug, Clone, PartialEq)]
pub enum ROp { Create, Release(usize), Write(usize), Check }
impl ROp {
    pub fn show(&self) -> String { match self { ROp::Create => "RCreate".into(), ROp::Release(h) => format!("RRelease {h}"), ROp::Write(h) => format!("RWrite {h}"), ROp::Check => "RCheck".into() } }
    pub fn parse(l: &str) -> Option<ROp> {
        let p: Vec<&str> = l.split_whitespace().collect();
        let u = |i: usize| p.get(i).and_then(|x| x.parse::<usize>().ok());
        Some(match *p.first()? { "RCreate" => ROp::Create, "RRelease" => ROp::Release(u(1)?), "RWrite" => ROp::Write(u(1)?), "RCheck" => ROp::Check, _ => return None })
    }
}
trait Res { fn mk(v: u64) -> Self; fn val(&self) -> u64; const ZST: bool = false; }
struct Boxed(Box<u64>);
struct Big([u64; 37]);
struct Small(u8);
struct Zst;
impl Res for Boxed { fn mk(v: u64) -> Self { Boxed(Box::new(v)) } fn val(&self) -> u64 { *self.0 } }
impl Res for Big { fn mk(v: u64) -> Self { let mut a = [0; 37]; for (i, x) in a.iter_mut().enumerate() { *x = v.wrapping_mul(i as u64 + 1) } Big(a) }
    fn val(&self) -> u64 { let v = self.0[0]; for (i, x) in self.0.iter().enumerate() { if *x != v.wrapping_mul(i as u64 + 1) { return u64::MAX } } v } }
impl Res for Small { fn mk(v: u64) -> Self { Small(v as u8) } fn val(&self) -> u64 { self.0 as u64 } }
impl Res for Zst { fn mk(_: u64) -> Self { Zst } fn val(&self) -> u64 { 0 } const ZST: bool = true; }
struct Tracked<T: Res>(T);
impl<T: Res> Drop for Tracked<T> { fn drop(&mut self) { if T::ZST { ZDROPS.with(|z| *z.borrow_mut() += 1) } else { DROPS.with(|d| *d.borrow_mut().entry(self.0.val()).or_insert(0) += 1) } } }

fn go<T: Res>(cap: usize, ops: &[ROp], checks: bool) -> Result<(), String> {
    DROPS.with(|d| d.borrow_mut().clear());
    ZDROPS.with(|z| *z.borrow_mut() = 0);
    let mut next = 1u64;
    let small = std::mem::size_of::<T>() == 1;
    let mut made: Vec<u64> = vec![];
    let mut released = 0usize;
    {
        let mut s: ResourceStore<Tracked<T>> = if cap == 0 { ResourceStore::new() } else { ResourceStore::with_capacity(cap - 1) };
        let mut live: Vec<(Entity, u64)> = vec![];
        for op in ops {
            match op {
                ROp::Create => {
                    if small && next > 255 { continue; }
                    let v = if T::ZST { 0 } else { next };
                    next += 1;
                    made.push(v);
                    let e = s.create(Tracked(T::mk(v)));
                    if checks && live.iter().any(|(o, _)| *o == e) { return Err(format!("handle {:?} handed out twice", e)); }
                    live.push((e, v));
                }
                ROp::Release(h) => if !live.is_empty() {
                    let k = h % live.len();
                    let (e, v) = live.remove(k);
                    let r = s.release(e);
                    if checks && !T::ZST {
                        if r.0.val() != v { return Err(format!("release of {:?} returned resource {} instead of {}", e, r.0.val(), v)); }
                        if DROPS.with(|d| d.borrow().get(&v).copied().unwrap_or(0)) != 0 { return Err(format!("resource {} dropped by release", v)); }
                    }
                    drop(r);
                    released += 1;
                },
                ROp::Write(h) => if !live.is_empty() && !T::ZST && !(small && next > 255) {
                    let k = h % live.len();
                    let v = next;
                    next += 1;
                    made.push(v);
                    s[live[k].0] = Tracked(T::mk(v)); // drops the old value
                    live[k].1 = v;
                    released += 1;
                },
                ROp::Check => if checks { for (e, v) in &live {
                    if s[*e].0.val() != *v { return Err(format!("resource of {:?} is {} instead of {}", e, s[*e].0.val(), v)); }
                } },
            }
            if checks {
                let d = if T::ZST { ZDROPS.with(|z| *z.borrow()) } else { DROPS.with(|d| d.borrow().values().sum()) };
                if d != released { return Err(format!("{} resources dropped after {:?}, expected {}", d, op, released)); }
            }
        }
    }
    if checks {
        if T::ZST { let z = ZDROPS.with(|z| *z.borrow()); if z != made.len() { return Err(format!("{} of {} resources dropped", z, made.len())); } }
        else { for v in &made { let n = DROPS.with(|d| d.borrow().get(v).copied().unwrap_or(0)); if n != 1 { return Err(format!("resource {} dropped {} times", v, n)); } } }
    }
    DROPS.with(|d| { *d.borrow_mut() = BTreeMap::new() });
    Ok(())
}
pub fn run(kind: usize, cap: usize, ops: &[ROp], checks: bool) -> Result<(), String> {
    match kind % 4 { 0 => go::<Boxed>(cap, ops, checks), 1 => go::<Big>(cap, ops, checks), 2 => go::<Small>(cap, ops, checks), _ => go::<Zst>(cap, ops, checks) }
}
