@@module resource_store
@@attr ResourceStore #[verifier::reject_recursive_types(T)]
@@use crate::entities_container::*
@@use crate::entity::*
@@raw
broadcast use group_sizes;
/// the values of the entities that exist, in the order of their ids
pub open spec fn held<T>(e: Seq<Option<ManuallyDrop<T>>>, c: EntitiesContainer, n: int) -> Seq<T>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if c.on(n - 1) { held(e, c, n - 1).push(md(e[n - 1].unwrap())) } else { held(e, c, n - 1) }
}
pub proof fn lemma_held<T>(a: Seq<Option<ManuallyDrop<T>>>, b: Seq<Option<ManuallyDrop<T>>>, c: EntitiesContainer, n: int)
    requires forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures held(a, c, n) == held(b, c, n),
    decreases n,
{
    if n > 0 { lemma_held(a, b, c, n - 1); }
}
pub proof fn lemma_fits_less<T>(n: int)
    requires fits::<T>(n), n >= 0,
    ensures forall|m: int| 0 <= m <= n ==> #[trigger] fits::<T>(m), forall|m: int| 0 <= m <= n ==> #[trigger] fits::<ManuallyDrop<T>>(m),
{
    assert forall|m: int| 0 <= m <= n implies (#[trigger] fits::<T>(m)) && fits::<ManuallyDrop<T>>(m) by {
        let s = sz::<T>();
        assert(s * m <= s * n && s * m >= 0) by (nonlinear_arith) requires 0 <= s, 0 <= m <= n;
        assert(sz::<ManuallyDrop<T>>() == s);
    }
    assert forall|m: int| 0 <= m <= n implies #[trigger] fits::<ManuallyDrop<T>>(m) by { assert(fits::<T>(m)); }
}
impl<T> ResourceStore<T> {
    pub open spec fn wf(&self) -> bool {
        &&& self.entities_container.wf()
        &&& owned(self.elements, self.entities_container.capacity as int)
        &&& forall|i: int| 0 <= i < self.entities_container.capacity ==> (#[trigger] self.elements@[i] is Some) == self.entities_container.on(i)
    }
    pub open spec fn holds(&self, e: Entity) -> bool { self.entities_container.alive(e) }
    pub open spec fn at(&self, e: Entity) -> T { md(self.elements@[e.id as int].unwrap()) }
    pub open spec fn others_kept(&self, o: &ResourceStore<T>, e: Entity) -> bool {
        &&& forall|x: Entity| x != e ==> #[trigger] self.holds(x) == o.holds(x)
        &&& forall|x: Entity| x != e && #[trigger] o.holds(x) ==> self.at(x) == o.at(x)
        &&& forall|x: Entity| #[trigger] o.entities_container.issued(x) ==> self.entities_container.issued(x)
    }
}
@@fn ResourceStore::new() -> r
@props C11 C13
@ensures
r.wf(), r.entities_container.capacity == 0,
[C11]
forall|e: Entity| !#[trigger] r.holds(e),
@@fn ResourceStore::with_capacity(capacity) -> r
@props C11 C13
@requires
capacity <= 0x4000_0000, fits::<T>(0x8000_0000),
@ensures
r.wf(), r.entities_container.capacity == capacity,
[C11]
forall|e: Entity| !#[trigger] r.holds(e),
@prologue
proof { lemma_fits_less::<T>(0x8000_0000); }
@@fn ResourceStore::create(self, resource) -> r
@props C11 C13
@requires
old(self).wf(), old(self).entities_container.capacity <= 0x4000_0000, fits::<T>(0x8000_0000),
old(self).entities_container.room(),
@ensures
final(self).wf(),
[C11]
final(self).holds(r), final(self).at(r) == resource, !old(self).entities_container.issued(r),
final(self).others_kept(old(self), r),
@prologue
proof { lemma_fits_less::<T>(0x8000_0000); }
@@fn ResourceStore::release(self, entity) -> r
@props C11 C13
@opt dassert=refuse
@requires
old(self).wf(), entity.id < old(self).entities_container.capacity,
@ensures
final(self).wf(),
[C11]
old(self).holds(entity), r == old(self).at(entity), !final(self).holds(entity),
final(self).others_kept(old(self), entity),
@@fn ResourceStore::index(self, entity) -> r
@props C11 C13
@opt dassert=refuse
@requires
self.wf(), entity.id < self.entities_container.capacity,
@ensures
self.holds(entity), *r == self.at(entity),
@@fn ResourceStore::index_mut(self, entity) -> r
@props C11 C13
@opt dassert=refuse
@requires
old(self).wf(), entity.id < old(self).entities_container.capacity,
@ensures
old(self).holds(entity), *r == old(self).at(entity),
final(self).wf(),
final(self).holds(entity), final(self).at(entity) == *final(r), final(self).others_kept(old(self), entity),
@@fn ResourceStore::drop(self)
@props C11 C13
@ghost heap: mut DropLog<T>
@heap Tracked(heap)
@requires
old(self).wf(), fits::<T>(0x8000_0000),
@ensures
[C13]
!final(self).elements.live(),
[C11]
final(heap)@ == old(heap)@ + held(old(self).elements@, old(self).entities_container, old(self).entities_container.capacity as int),
@prologue
proof { lemma_fits_less::<T>(0x8000_0000); }
@loop 0
@invariant
self.entities_container == old(self).entities_container, old(self).wf(), owned(self.elements, self.entities_container.capacity as int),
vx_end0 == self.entities_container.capacity,
forall|i: int| vx_n0 <= i < self.entities_container.capacity ==> #[trigger] self.elements@[i] == old(self).elements@[i],
[C11]
heap@ =~= old(heap)@ + held(old(self).elements@, old(self).entities_container, vx_n0 as int),
@loopstart
proof { assert(self.elements@[vx_k0 as int] == old(self).elements@[vx_k0 as int]); }
