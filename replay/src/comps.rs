//! Component, tag and group types used by the histories, and monomorphic access tables.
use division_ecs::*;
use std::any::TypeId;

pub fn fill(buf: &mut [u8], v: u64) {
    let mut x = v ^ 0x9e3779b97f4a7c15;
    for b in buf.iter_mut() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *b = (x >> 33) as u8;
    }
}
pub fn bytes_of_value(idx: usize, v: u64) -> Vec<u8> {
    let mut b = vec![0u8; SIZES[idx]];
    fill(&mut b, v);
    b
}

pub trait Comp: Component + 'static {
    const IDX: usize;
    fn mk(v: u64) -> Self;
    fn bytes(&self) -> Vec<u8>;
}
macro_rules! comps { ($(($i:expr,$n:ident,$a:literal,$s:expr)),*) => {
    $(#[repr(C, align($a))] #[derive(Clone, Copy)] pub struct $n([u8; $s]);
      impl Component for $n {}
      impl Comp for $n {
        const IDX: usize = $i;
        fn mk(v: u64) -> Self { let mut b = [0u8; $s]; fill(&mut b, v); $n(b) }
        fn bytes(&self) -> Vec<u8> { self.0.to_vec() }
      })*
    pub const NC: usize = [$($i),*].len();
    pub const SIZES: [usize; NC] = [$($s),*];
    pub const ALIGNS: [usize; NC] = [$($a),*];
    pub fn ctype(i: usize) -> ComponentType { match i { $($i => ComponentType::of::<$n>(),)* _ => unreachable!() } }
    pub fn tid(i: usize) -> TypeId { match i { $($i => TypeId::of::<$n>(),)* _ => unreachable!() } }
    pub fn rd(s: &Store, e: Entity, i: usize) -> Option<(usize, Vec<u8>)> { match i {
        $($i => s.get_components_refs::<$n>(e).map(|r| (r as *const $n as usize, r.bytes())),)* _ => unreachable!() } }
    pub fn wr(s: &mut Store, e: Entity, i: usize, v: u64) -> Option<usize> { match i {
        $($i => s.get_components_refs_mut::<$n>(e).map(|r| { *r = <$n as Comp>::mk(v); r as *mut $n as usize }),)* _ => unreachable!() } }
    pub fn has(a: &Archetype, i: usize) -> bool { match i { $($i => a.has_component::<$n>(),)* _ => unreachable!() } }
    pub fn find(a: &Archetype, i: usize) -> Option<usize> { match i { $($i => a.find_component_index_of::<$n>(),)* _ => unreachable!() } }
} }
comps!((0,K0,1,1),(1,K1,1,3),(2,K2,2,2),(3,K3,4,4),(4,K4,4,12),(5,K5,8,8),(6,K6,8,24),(7,K7,16,16),
       (8,K8,64,64),(9,K9,1,1000),(10,K10,8,5000),(11,K11,1,7001),(12,K12,32,96),(13,K13,8,8),(14,K14,4,4),(15,K15,2,6),
       (16,K16,1,5461),(17,K17,1,5460),(18,K18,64,5440),(19,K19,1024,5120),(20,K20,2048,4096),(21,K21,2,20000),(22,K22,1024,5120),(23,K23,64,5440),(24,K24,4096,4096),(25,K25,1,5461),(26,K26,512,512));
/// the types of ordinary histories; the others fill a page or do not fit it
pub const NSMALL: usize = 16;

pub trait Bag { fn bag(self) -> Vec<(usize, usize, Vec<u8>)>; } // (component idx, address, bytes)
macro_rules! bag { ($($T:ident),*) => {
    #[allow(non_snake_case, unused_parens)]
    impl<'a, $($T: Comp),*> Bag for ($(&'a $T),*) { fn bag(self) -> Vec<(usize, usize, Vec<u8>)> { let ($($T),*) = self; vec![$(($T::IDX, $T as *const $T as usize, $T.bytes())),*] } }
    #[allow(non_snake_case, unused_parens)]
    impl<'a, $($T: Comp),*> Bag for ($(&'a mut $T),*) { fn bag(self) -> Vec<(usize, usize, Vec<u8>)> { let ($($T),*) = self; vec![$(($T::IDX, $T as *mut $T as usize, $T.bytes())),*] } }
} }
pub trait CompTuple: ComponentTuple + 'static { fn idxs() -> Vec<usize>; fn mkt(v: &[u64]) -> Self; }
macro_rules! ct { ($($T:ident),*) => {
    #[allow(unused_parens)]
    impl<$($T: Comp),*> CompTuple for ($($T),*) {
        fn idxs() -> Vec<usize> { vec![$($T::IDX),*] }
        #[allow(unused_assignments)]
        fn mkt(v: &[u64]) -> Self { let mut k = 0; ($({ k += 1; $T::mk(v[k - 1]) }),*) }
    }
} }
macro_rules! both { ($(($($T:ident),*)),*) => { $(bag!($($T),*); ct!($($T),*);)* } }
both!((A), (A, B), (A, B, C), (A, B, C, D), (A, B, C, D, E), (A, B, C, D, E, F, G, H, I, J, K, L));

#[derive(Tag)] pub struct T0; #[derive(Tag)] pub struct T1; #[derive(Tag)] pub struct T2; #[derive(Tag)] pub struct T3; #[derive(Tag)] pub struct T4; #[derive(Tag)] pub struct T5; #[derive(Tag)] pub struct T6; #[derive(Tag)] pub struct T7; #[derive(Tag)] pub struct T8; #[derive(Tag)] pub struct T9; #[derive(Tag)] pub struct T10; #[derive(Tag)] pub struct T11; #[derive(Tag)] pub struct T12; #[derive(Tag)] pub struct T13; #[derive(Tag)] pub struct T14; #[derive(Tag)] pub struct T15; #[derive(Tag)] pub struct T16; #[derive(Tag)] pub struct T17; #[derive(Tag)] pub struct T18; #[derive(Tag)] pub struct T19;
#[derive(Tag)] pub struct G0; #[derive(Tag)] pub struct G1; #[derive(Tag)] pub struct G2; #[derive(Tag)] pub struct G3; #[derive(Tag)] pub struct G4; #[derive(Tag)] pub struct G5; #[derive(Tag)] pub struct G6; #[derive(Tag)] pub struct G7; #[derive(Tag)] pub struct G8; #[derive(Tag)] pub struct G9;
pub const NT: usize = 20;
pub const NG: usize = 10;
macro_rules! ontag { ($i:expr, $T:ident, $e:expr) => { match $i { 0 => { type $T = T0; $e } 1 => { type $T = T1; $e } 2 => { type $T = T2; $e } 3 => { type $T = T3; $e } 4 => { type $T = T4; $e } 5 => { type $T = T5; $e } 6 => { type $T = T6; $e } 7 => { type $T = T7; $e } 8 => { type $T = T8; $e } 9 => { type $T = T9; $e } 10 => { type $T = T10; $e } 11 => { type $T = T11; $e } 12 => { type $T = T12; $e } 13 => { type $T = T13; $e } 14 => { type $T = T14; $e } 15 => { type $T = T15; $e } 16 => { type $T = T16; $e } 17 => { type $T = T17; $e } 18 => { type $T = T18; $e } _ => { type $T = T19; $e } } } }
macro_rules! ongrp { ($i:expr, $T:ident, $e:expr) => { match $i { 0 => { type $T = G0; $e } 1 => { type $T = G1; $e } 2 => { type $T = G2; $e } 3 => { type $T = G3; $e } 4 => { type $T = G4; $e } 5 => { type $T = G5; $e } 6 => { type $T = G6; $e } 7 => { type $T = G7; $e } 8 => { type $T = G8; $e } _ => { type $T = G9; $e } } } }
pub fn tag_add(s: &mut Store, e: Entity, t: usize) { ontag!(t, T, s.add_tag::<T>(e)) }
pub fn tag_rem(s: &mut Store, e: Entity, t: usize) { ontag!(t, T, s.remove_tag::<T>(e)) }
pub fn tag_has(s: &Store, e: Entity, t: usize) -> bool { ontag!(t, T, s.has_tag::<T>(e)) }
pub fn g_add(s: &mut Store, e: Entity, g: usize) { ongrp!(g, G, s.add_entity_order_by::<G>(e)) }
pub fn g_next(s: &mut Store, e: Entity, n: Entity, g: usize) { ongrp!(g, G, s.add_entity_next_to_order_by::<G>(e, n)) }
pub fn g_prev(s: &mut Store, e: Entity, n: Entity, g: usize) { ongrp!(g, G, s.add_entity_previous_to_order_by::<G>(e, n)) }
pub fn g_rem(s: &mut Store, e: Entity, g: usize) { ongrp!(g, G, s.remove_entity_order_by::<G>(e)) }
pub fn g_first(s: &Store, g: usize) -> Option<Entity> { ongrp!(g, G, s.get_first_entity_ordered_by::<G>()) }
pub fn g_last(s: &Store, g: usize) -> Option<Entity> { ongrp!(g, G, s.get_last_entity_ordered_by::<G>()) }
pub fn g_nx(s: &Store, e: Entity, g: usize) -> Option<Entity> { ongrp!(g, G, s.get_next_entity_ordered_by::<G>(e)) }
pub fn g_pv(s: &Store, e: Entity, g: usize) -> Option<Entity> { ongrp!(g, G, s.get_previous_entity_ordered_by::<G>(e)) }

thread_local! { static KEPT: std::cell::RefCell<std::collections::HashMap<TypeId, Box<dyn std::any::Any>>> = Default::default(); }
/// A query object that lives as long as the history: it is used again and again, whatever happens to the store in between.
fn kept<Q: 'static, X>(new: fn() -> Q, f: impl FnOnce(&mut Q) -> X) -> X {
    let mut q: Box<Q> = KEPT.with(|k| k.borrow_mut().remove(&TypeId::of::<Q>())).map(|b| b.downcast().ok().unwrap()).unwrap_or_else(|| Box::new(new()));
    let x = f(&mut q);
    KEPT.with(|k| k.borrow_mut().insert(TypeId::of::<Q>(), q));
    x
}
pub type Item = (Option<Entity>, Vec<(usize, usize, Vec<u8>)>);
/// Operations on one tuple of component types.
pub struct TupleOps {
    pub idxs: Vec<usize>,
    pub add: fn(&mut Store, Entity, &[u64]),
    pub rem: fn(&mut Store, Entity),
    pub refs: fn(&Store, Entity) -> Option<Vec<(usize, usize, Vec<u8>)>>,
    pub refs_mut: fn(&mut Store, Entity) -> Option<Vec<(usize, usize, Vec<u8>)>>,
    pub query: fn(&Store, usize) -> (usize, Vec<Item>),      // mode 0 readonly, 1 write, 2 readonly without entities
    pub filter: fn(&Store, usize, usize) -> Vec<Item>,       // tag, mode
    pub ordered: fn(&Store, usize, usize) -> (usize, Vec<Item>), // group, mode
    pub listed: fn(&Store, &[Entity], usize) -> Vec<Item>,
    pub arch: fn() -> Archetype,
    pub inc: fn(&mut ArchetypeBuilder),
    pub exc: fn(&mut ArchetypeBuilder),
}
fn ops<T: CompTuple>() -> TupleOps
where for<'a> T::RefTuple<'a>: Bag, for<'a> T::MutRefTuple<'a>: Bag {
    TupleOps {
        idxs: T::idxs(),
        add: |s, e, v| s.add_components(e, T::mkt(v)),
        rem: |s, e| s.remove_components::<T>(e),
        refs: |s, e| s.get_components_refs::<T>(e).map(|r| r.bag()),
        refs_mut: |s, e| s.get_components_refs_mut::<T>(e).map(|r| r.bag()),
        query: |s, m| match m {
            0 => { let mut q = ComponentReadOnlyQuery::<T>::new(); let it = s.component_query_iter(&mut q); let n = it.len(); (n, it.with_entities().take(n.saturating_add(1)).map(|(e, r)| (Some(e), r.bag())).collect()) }
            1 => { let mut q = ComponentWriteQuery::<T>::new(); let _ = s.component_query_iter(&mut q).count(); let it = s.component_query_iter(&mut q); let n = it.len(); (n, it.with_entities().take(n.saturating_add(1)).map(|(e, r)| (Some(e), r.bag())).collect()) }
            _ => kept(ComponentReadOnlyQuery::<T>::new, |q| { let it = s.component_query_iter(q); let n = it.len(); (n, it.take(n.saturating_add(1)).map(|r| (None, r.bag())).collect()) }),
        },
        filter: |s, t, m| ontag!(t, Tg, if m == 0 {
            let mut q = ComponentReadOnlyQuery::<T>::new(); s.component_query_iter(&mut q).with_entities().filter_tag::<Tg>().take(1 << 20).map(|(e, r)| (Some(e), r.bag())).collect()
        } else {
            let mut q = ComponentWriteQuery::<T>::new(); s.component_query_iter(&mut q).with_entities().filter_tag::<Tg>().take(1 << 20).map(|(e, r)| (Some(e), r.bag())).collect()
        }),
        ordered: |s, g, m| ongrp!(g, G, match m {
            0 => { let mut q = ReadonlyOrderedComponentQuery::<G, T>::new(); let it = s.ordered_query_iter(&mut q); let n = it.len(); (n, it.with_entities().take(n.saturating_add(1)).map(|(e, r)| (Some(e), r.bag())).collect()) }
            1 => { let mut q = WriteOrderedComponentQuery::<G, T>::new(); let _ = s.ordered_query_iter(&mut q).count(); let it = s.ordered_query_iter(&mut q); let n = it.len(); (n, it.with_entities().take(n.saturating_add(1)).map(|(e, r)| (Some(e), r.bag())).collect()) }
            _ => kept(ReadonlyOrderedComponentQuery::<G, T>::new, |q| { let it = s.ordered_query_iter(q); let n = it.len(); (n, it.take(n.saturating_add(1)).map(|r| (None, r.bag())).collect()) }),
        }),
        listed: |s, l, m| match m {
            0 => { let mut q = EntityComponentReadOnlyQuery::<T>::new(); let v = s.entity_component_query_iter(l, &mut q).with_entities().take(l.len() + 1).map(|(e, r)| (Some(e), r.bag())).collect(); v }
            1 => { let mut q = EntityComponentWriteQuery::<T>::new(); let _ = s.entity_component_query_iter(&l[..l.len() / 2], &mut q).count(); let v = s.entity_component_query_iter(l, &mut q).with_entities().take(l.len() + 1).map(|(e, r)| (Some(e), r.bag())).collect(); v }
            _ => kept(EntityComponentReadOnlyQuery::<T>::new, |q| s.entity_component_query_iter(l, q).take(l.len() + 1).map(|r| (None, r.bag())).collect()),
        },
        arch: || Archetype::with_components::<T>(),
        inc: |b| { b.include_components::<T>(); },
        exc: |b| { b.exclude_components::<T>(); },
    }
}
pub fn tuples() -> Vec<TupleOps> {
    vec![ops::<K0>(), ops::<K1>(), ops::<K2>(), ops::<K3>(), ops::<K4>(), ops::<K5>(), ops::<K6>(), ops::<K7>(), ops::<K8>(), ops::<K9>(),
        ops::<K10>(), ops::<K11>(), ops::<K12>(), ops::<K13>(), ops::<K14>(), ops::<K15>(),
        ops::<(K3, K5)>(), ops::<(K5, K3)>(), ops::<(K0, K7)>(), ops::<(K13, K14)>(), ops::<(K4, K8)>(), ops::<(K9, K12)>(), ops::<(K6, K2)>(), ops::<(K1, K15)>(),
        ops::<(K3, K5, K13)>(), ops::<(K8, K0, K1)>(), ops::<(K14, K2, K6)>(), ops::<(K0, K3, K5, K7)>(), ops::<(K2, K4, K13, K14, K15)>(),
        ops::<(K0, K1, K2, K3, K4, K5, K6, K7, K12, K13, K14, K15)>()]
}
/// Read-write queries: (component idx of the read part, of the write part) and the same items.
pub struct RwOps { pub r: Vec<usize>, pub w: Vec<usize>, pub query: fn(&Store) -> (usize, Vec<Item>), pub ordered: fn(&Store, usize) -> (usize, Vec<Item>), pub listed: fn(&Store, &[Entity]) -> Vec<Item> }
fn rw<R: CompTuple, W: CompTuple>() -> RwOps
where for<'a> R::RefTuple<'a>: Bag, for<'a> W::MutRefTuple<'a>: Bag {
    fn cat(a: Vec<(usize, usize, Vec<u8>)>, b: Vec<(usize, usize, Vec<u8>)>) -> Vec<(usize, usize, Vec<u8>)> { a.into_iter().chain(b).collect() }
    RwOps { r: R::idxs(), w: W::idxs(),
        query: |s| kept(ComponentReadWriteQuery::<R, W>::new, |q| { let it = s.component_query_iter(q); let n = it.len(); (n, it.with_entities().take(n.saturating_add(1)).map(|(e, (r, w))| (Some(e), cat(r.bag(), w.bag()))).collect()) }),
        ordered: |s, g| ongrp!(g, G, { let mut q = ReadWriteOrderedComponentQuery::<G, R, W>::new(); let it = s.ordered_query_iter(&mut q); let n = it.len(); (n, it.with_entities().take(n.saturating_add(1)).map(|(e, (r, w))| (Some(e), cat(r.bag(), w.bag()))).collect()) }),
        listed: |s, l| { let mut q = EntityComponentReadWriteQuery::<R, W>::new(); let v = s.entity_component_query_iter(l, &mut q).with_entities().take(l.len() + 1).map(|(e, (r, w))| (Some(e), cat(r.bag(), w.bag()))).collect(); v },
    }
}
pub fn rws() -> Vec<RwOps> { vec![rw::<K3, K5>(), rw::<(K5, K13), K3>(), rw::<K0, (K7, K8)>(), rw::<K9, K12>(), rw::<K6, K14>()] }
