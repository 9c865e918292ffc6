@@module derived_traits
@@module tag_container
@@use crate::bitvec_utils::*
@@use crate::derived_traits::*
@@use crate::entities_container::*
@@raw
broadcast use {group_sizes, axiom_zeroed_u32};
pub open spec fn has_tid(s: Seq<TypeId>, t: TypeId) -> bool { exists|k: int| 0 <= k < s.len() && s[k] == t }
pub open spec fn pos(s: Seq<TypeId>, t: TypeId) -> int { choose|k: int| 0 <= k < s.len() && s[k] == t }
pub broadcast proof fn lemma_pos(s: Seq<TypeId>, k: int)
    requires tids_sorted(s), 0 <= k < s.len(),
    ensures has_tid(s, #[trigger] s[k]), pos(s, s[k]) == k,
{
    let p = pos(s, s[k]);
    assert(0 <= p < s.len() && s[p] == s[k]);
    if p < k { assert(s[p].i < s[k].i); } else if k < p { assert(s[k].i < s[p].i); }
}
pub broadcast proof fn lemma_tids_insert(s: Seq<TypeId>, i: int, t: TypeId)
    requires tids_sorted(s), 0 <= i <= s.len(), forall|k: int| 0 <= k < i ==> (#[trigger] s[k]).i < t.i, forall|k: int| i <= k < s.len() ==> t.i < (#[trigger] s[k]).i,
    ensures
        #![trigger s.insert(i, t)] tids_sorted(s.insert(i, t)), has_tid(s.insert(i, t), t), pos(s.insert(i, t), t) == i, !has_tid(s, t),
        forall|u: TypeId| u != t ==> #[trigger] has_tid(s.insert(i, t), u) == has_tid(s, u),
        forall|u: TypeId| u != t && has_tid(s, u) ==> #[trigger] pos(s.insert(i, t), u) == (if pos(s, u) < i { pos(s, u) } else { pos(s, u) + 1 }),
{
    let r = s.insert(i, t);
    assert(r[i] == t);
    assert forall|k: int, j: int| 0 <= k < j < r.len() implies (#[trigger] r[k]).i < (#[trigger] r[j]).i by {
        if k < i { assert(r[k] == s[k]); } else if k > i { assert(r[k] == s[k - 1]); }
        if j < i { assert(r[j] == s[j]); } else if j > i { assert(r[j] == s[j - 1]); }
    }
    lemma_pos(r, i);
    assert forall|u: TypeId| u != t implies #[trigger] has_tid(r, u) == has_tid(s, u) by {
        if has_tid(s, u) { let p = pos(s, u); assert(r[if p < i { p } else { p + 1 }] == u); }
        if has_tid(r, u) { let p = pos(r, u); assert(r[p] == u); assert(s[if p < i { p } else { p - 1 }] == u); }
    }
    assert forall|u: TypeId| u != t && has_tid(s, u) implies #[trigger] pos(r, u) == (if pos(s, u) < i { pos(s, u) } else { pos(s, u) + 1 }) by {
        let p = pos(s, u);
        let q = if p < i { p } else { p + 1 };
        assert(r[q] == u);
        lemma_pos(r, q);
    }
}
impl TagContainer {
    pub open spec fn wf(&self) -> bool {
        &&& self.entity_capacity <= 0x8000_0000
        &&& tids_sorted(self.tag_ids@)
        &&& self.entity_id_to_has_tag_bitvecs@.len() == self.tag_ids@.len()
        &&& forall|k: int| 0 <= k < self.tag_ids@.len() ==> bv_ok(#[trigger] self.entity_id_to_has_tag_bitvecs@[k], self.entity_capacity as int)
    }
    /// the tag with this type identity is set for the id
    pub open spec fn has(&self, t: TypeId, i: int) -> bool {
        has_tid(self.tag_ids@, t) && 0 <= i < 32 * words(self.entity_capacity as int) && getb(self.entity_id_to_has_tag_bitvecs@[pos(self.tag_ids@, t)]@, i)
    }
}
@@fn TagContainer::new(entity_capacity) -> r
@props C07 C13
@requires
entity_capacity <= 0x8000_0000,
@ensures
r.wf(), r.entity_capacity == entity_capacity,
[C07]
forall|t: TypeId, i: int| !#[trigger] r.has(t, i),
@@macro search
@prologue
broadcast use {lemma_pos, lemma_tids_insert};
proof { lemma_fits_u32(words(self.entity_capacity as int)); lemma_bits(); }
@@fn TagContainer::has_tag_bitvec(self) -> r
@props C06 C07 C13
@opt panic=refuse
@requires
self.wf(),
@ensures
r@.len() == words(self.entity_capacity as int), all_init(r@),
forall|i: int| 0 <= i < 32 * r@.len() ==> #[trigger] getb(r@, i) == self.has(tid_of::<T>(), i),
%%search
@@fn TagContainer::add_tag(self, entity_id)
@props C07 C13 C06
@requires
old(self).wf(), entity_id < old(self).entity_capacity,
@ensures
final(self).wf(), final(self).entity_capacity == old(self).entity_capacity,
[C07]
forall|t: TypeId, i: int| #[trigger] final(self).has(t, i) == (old(self).has(t, i) || (t == tid_of::<T>() && i == entity_id)),
%%search
@@fn TagContainer::remove_tag(self, entity_id)
@props C07 C13 C06
@requires
old(self).wf(), entity_id < old(self).entity_capacity,
@ensures
final(self).wf(), final(self).entity_capacity == old(self).entity_capacity,
[C07]
forall|t: TypeId, i: int| #[trigger] final(self).has(t, i) == (old(self).has(t, i) && !(t == tid_of::<T>() && i == entity_id)),
%%search
@@fn TagContainer::has_tag(self, entity_id) -> r
@props C07 C13 C06
@requires
self.wf(), entity_id < self.entity_capacity,
@ensures
r == self.has(tid_of::<T>(), entity_id as int),
%%search
@@fn TagContainer::remove_all_tags_for_entity(self, entity_id)
@props C07 C13
@requires
old(self).wf(), entity_id < old(self).entity_capacity,
@ensures
final(self).wf(), final(self).entity_capacity == old(self).entity_capacity,
[C07]
forall|t: TypeId, i: int| #[trigger] final(self).has(t, i) == (old(self).has(t, i) && i != entity_id),
%%search
@loop 0
@invariant
self.wf(), self.entity_capacity == old(self).entity_capacity, self.tag_ids@ == old(self).tag_ids@, vx_end0 == self.tag_ids@.len(), entity_id < self.entity_capacity,
[C07]
forall|k: int, i: int| 0 <= k < self.tag_ids@.len() && 0 <= i < 32 * words(self.entity_capacity as int) ==> #[trigger] getb(self.entity_id_to_has_tag_bitvecs@[k]@, i) == (getb(old(self).entity_id_to_has_tag_bitvecs@[k]@, i) && !(k < vx_n0 && i == entity_id)),
@@fn TagContainer::grow(self, new_capacity)
@props C07 C13
@requires
old(self).wf(), old(self).entity_capacity <= new_capacity <= 0x8000_0000,
@ensures
final(self).wf(), final(self).entity_capacity == new_capacity,
[C07]
forall|t: TypeId, i: int| #[trigger] final(self).has(t, i) == old(self).has(t, i),
%%search
proof { lemma_fits_u32(words(new_capacity as int)); }
@loop 0
@invariant
self.tag_ids@ == old(self).tag_ids@, self.entity_capacity == old(self).entity_capacity, self.entity_id_to_has_tag_bitvecs@.len() == self.tag_ids@.len(), vx_end0 == self.tag_ids@.len(),
old(self).wf(), old(self).entity_capacity <= new_capacity <= 0x8000_0000,
forall|k: int| 0 <= k < vx_n0 ==> bv_ok(#[trigger] self.entity_id_to_has_tag_bitvecs@[k], new_capacity as int),
forall|k: int| vx_n0 <= k < vx_end0 ==> #[trigger] self.entity_id_to_has_tag_bitvecs@[k] == old(self).entity_id_to_has_tag_bitvecs@[k],
[C07]
forall|k: int, i: int| 0 <= k < vx_n0 && 0 <= i < 32 * words(new_capacity as int) ==> #[trigger] getb(self.entity_id_to_has_tag_bitvecs@[k]@, i) == (i < 32 * words(old(self).entity_capacity as int) && getb(old(self).entity_id_to_has_tag_bitvecs@[k]@, i)),
@@fn TagContainer::drop(self)
@props C13
@requires
old(self).wf(),
@ensures
final(self).entity_id_to_has_tag_bitvecs@.len() == old(self).entity_id_to_has_tag_bitvecs@.len(),
forall|k: int| 0 <= k < final(self).entity_id_to_has_tag_bitvecs@.len() ==> !(#[trigger] final(self).entity_id_to_has_tag_bitvecs@[k]).live(),
%%search
@loop 0
@invariant
self.entity_capacity == old(self).entity_capacity, self.entity_id_to_has_tag_bitvecs@.len() == old(self).tag_ids@.len(), vx_end0 == old(self).tag_ids@.len(),
forall|k: int| 0 <= k < vx_n0 ==> !(#[trigger] self.entity_id_to_has_tag_bitvecs@[k]).live(),
forall|k: int| vx_n0 <= k < vx_end0 ==> #[trigger] self.entity_id_to_has_tag_bitvecs@[k] == old(self).entity_id_to_has_tag_bitvecs@[k],
