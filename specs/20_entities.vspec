@@module entity
@@fn Entity::id(self) -> r
@props C01
@ensures
r == self.id,
@@fn Entity::version(self) -> r
@props C01
@ensures
r == self.version,
@@fn Entity::null() -> r
@props C01
@ensures
r.id == u32::MAX,
@@module entities_container
@@use crate::bitvec_utils::*
@@use crate::mem_utils::*
@@use crate::entity::*
@@raw
broadcast use {group_sizes, axiom_zeroed_u32};
pub proof fn lemma_fits_u32(n: int)
    requires 0 <= n <= 0x100_0000_0000,
    ensures fits::<u32>(n),
{
    assert(sz::<u32>() * n == 4 * n) by (nonlinear_arith) requires sz::<u32>() == 4;
}
impl EntitiesContainer {
    pub open spec fn ver(&self, id: int) -> int { if 0 <= id < self.capacity { self.entity_to_version@[id].unwrap() as int } else { 0 } }
    pub open spec fn on(&self, id: int) -> bool { 0 <= id < 32 * self.entity_to_is_alive_bitvec@.len() && getb(self.entity_to_is_alive_bitvec@, id) }
    /// the handle is the one of an entity that exists
    pub open spec fn alive(&self, e: Entity) -> bool { self.on(e.id as int) && self.ver(e.id as int) == e.version }
    /// the handle was handed out at some point
    pub open spec fn issued(&self, e: Entity) -> bool { e.id < self.capacity && 1 <= e.version <= self.ver(e.id as int) }
    pub open spec fn mem(&self) -> bool {
        &&& self.capacity <= 0x8000_0000
        &&& owned(self.entity_to_version, self.capacity as int)
        &&& all_init(self.entity_to_version@)
        &&& bv_ok(self.entity_to_is_alive_bitvec, self.capacity as int)
    }
    pub open spec fn wf(&self) -> bool { self.mem() && self.ids() }
    pub open spec fn ids(&self) -> bool {
        &&& self.next_free_id <= self.capacity
        &&& forall|i: int| 0 <= i < self.gap_ids@.len() ==> (#[trigger] self.gap_ids@[i]) < self.next_free_id && !self.on(self.gap_ids@[i] as int)
        &&& forall|i: int, j: int| 0 <= i < j < self.gap_ids@.len() ==> (#[trigger] self.gap_ids@[i]) != (#[trigger] self.gap_ids@[j])
        &&& forall|i: int| #![trigger self.on(i)] #![trigger getb(self.entity_to_is_alive_bitvec@, i)] self.on(i) ==> i < self.next_free_id && self.ver(i) >= 1
    }
    /// no id was reused 2^32 - 2 times
    pub open spec fn room(&self) -> bool { forall|i: int| #![trigger self.ver(i)] #![trigger self.entity_to_version@[i]] 0 <= i < self.capacity ==> self.ver(i) < u32::MAX }
    /// every handle handed out stays as alive as it was, except for `e`
    pub open spec fn others_kept(&self, o: &EntitiesContainer, e: Entity) -> bool {
        &&& forall|x: Entity| #[trigger] o.issued(x) ==> self.issued(x)
        &&& forall|x: Entity| x != e ==> #[trigger] self.alive(x) == o.alive(x)
        &&& forall|i: int| i != e.id ==> #[trigger] self.ver(i) == o.ver(i)
        &&& forall|i: int| i != e.id ==> #[trigger] self.on(i) == o.on(i)
    }
}
@@fn EntitiesContainer::new(capacity) -> r
@props C01 C13
@requires
capacity <= 0x8000_0000,
@ensures
r.wf(), r.capacity == capacity,
[C01]
forall|e: Entity| !#[trigger] r.alive(e), forall|e: Entity| !#[trigger] r.issued(e),
forall|i: int| !#[trigger] r.on(i),
@prologue
proof { lemma_fits_u32(capacity as int); lemma_fits_u32(words(capacity as int)); lemma_bits(); }
@@fn EntitiesContainer::capacity(self) -> r
@props C01 C13
@ensures
r == self.capacity,
@@fn EntitiesContainer::grow(self, new_capacity)
@props C01 C13
@requires
old(self).mem(), new_capacity <= 0x8000_0000,
@ensures
final(self).mem(),
[C01]
final(self).capacity == (if new_capacity > old(self).capacity { new_capacity } else { old(self).capacity }),
forall|e: Entity| #[trigger] final(self).alive(e) == old(self).alive(e),
forall|e: Entity| #[trigger] old(self).issued(e) ==> final(self).issued(e),
forall|i: int| #![trigger final(self).ver(i)] #![trigger final(self).entity_to_version@[i]] final(self).ver(i) == old(self).ver(i),
forall|i: int| #![trigger final(self).on(i)] #![trigger getb(final(self).entity_to_is_alive_bitvec@, i)] final(self).on(i) == old(self).on(i),
final(self).gap_ids@ == old(self).gap_ids@, final(self).next_free_id == old(self).next_free_id,
@prologue
proof { lemma_fits_u32(self.capacity as int); lemma_fits_u32(words(self.capacity as int)); lemma_fits_u32(new_capacity as int); lemma_fits_u32(words(new_capacity as int)); }
@@fn EntitiesContainer::create_entity(self) -> r
@props C01 C13
@requires
old(self).wf(), old(self).capacity <= 0x4000_0000,
old(self).room(),
@ensures
final(self).wf(),
[C01]
final(self).alive(r.entity), final(self).issued(r.entity),
!old(self).issued(r.entity),
forall|x: Entity| old(self).alive(x) ==> x.id != r.entity.id,
!old(self).on(r.entity.id as int),
final(self).others_kept(old(self), r.entity),
final(self).capacity >= old(self).capacity, r.capacity_before == old(self).capacity, r.capacity_after == final(self).capacity,
r.entity.id < final(self).capacity,
final(self).capacity <= 2 * old(self).capacity || final(self).capacity <= 2,
@prologue
proof { lemma_bits(); }
@@fn EntitiesContainer::destroy_entity(self, entity)
@props C01 C13
@opt dassert=refuse
@requires
old(self).wf(), entity.id < old(self).capacity,
@ensures
final(self).wf(),
[C01 C02]
old(self).alive(entity),
[C01]
!final(self).alive(entity), !final(self).on(entity.id as int), final(self).capacity == old(self).capacity,
final(self).others_kept(old(self), entity),
final(self).ver(entity.id as int) == old(self).ver(entity.id as int),
@prologue
proof { lemma_bits(); }
@@fn EntitiesContainer::is_alive(self, entity) -> r
@props C01 C02 C13 C06 C09 C10
@opt dassert=refuse
@requires
self.wf(), entity.id < self.capacity,
@ensures
r == self.alive(entity),
@@fn EntitiesContainer::is_alive_at_index(self, index) -> r
@props C01 C06 C13 C09 C10
@requires
self.wf(), index < self.capacity,
@ensures
r == self.on(index as int),
@@fn EntitiesContainer::entity_versions(self) -> r
@props C13 C06 C09 C10
@requires
self.wf(),
@ensures
r@ == self.entity_to_version@,
@@fn EntitiesContainer::drop(self)
@props C13
@requires
old(self).wf(),
@ensures
!final(self).entity_to_version.live(), !final(self).entity_to_is_alive_bitvec.live(),
@prologue
proof { lemma_fits_u32(self.capacity as int); lemma_fits_u32(words(self.capacity as int)); }
@@fn EntityCreation::container_was_grow(self) -> r
@props C01 C07 C08 C13
@ensures
r == (self.capacity_after != self.capacity_before),
