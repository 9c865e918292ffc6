@@module store
@@use crate::archetype::*
@@use crate::archetype_builder::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@use crate::archetype_data_page_view::*
@@use crate::archetypes_container::*
@@use crate::bitvec_utils::*
@@use crate::component_tuple::*
@@use crate::entities_container::*
@@use crate::entity::*
@@use crate::entity_in_archetype::*
@@use crate::mem_utils::*
@@use crate::order_group_container::*
@@use crate::tag_container::*
@@raw
broadcast use {group_sizes, axiom_zeroed_u32, axiom_tid, axiom_tsize};
impl Store {
    pub open spec fn cap(&self) -> int { self.entities_container.capacity as int }
    pub open spec fn ac(&self) -> &ArchetypesContainer { &self.archetypes_container }
    pub open spec fn bits(&self) -> Seq<Option<u32>> { self.entity_has_archetype_bit_vec@ }
    /// the entity with this id exists
    pub open spec fn on(&self, i: int) -> bool { self.entities_container.on(i) }
    /// it exists and has components
    pub open spec fn placed(&self, i: int) -> bool { self.entities_container.on(i) && getb(self.bits(), i) }
    pub open spec fn page(&self, i: int) -> int { self.entity_to_page@[i].unwrap() as int }
    pub open spec fn row(&self, i: int) -> int { self.entity_to_index_in_page@[i].unwrap() as int }
    pub open spec fn located(&self, i: int) -> bool {
        &&& 0 <= i < self.cap()
        &&& self.entity_to_page@[i] is Some && self.entity_to_index_in_page@[i] is Some
        &&& self.page(i) < self.ac().len() && self.row(i) < self.ac().pages@[self.page(i)].ids().len()
        &&& self.ac().pages@[self.page(i)].ids()[self.row(i)] == i
    }
    /// its component types
    pub open spec fn types(&self, i: int) -> Seq<TypeId> { self.ac().arch(self.page(i)).tys() }
    pub open spec fn has(&self, i: int, t: TypeId) -> bool { self.placed(i) && has_tid(self.types(i), t) }
    /// the bytes of its component of type t
    pub open spec fn val(&self, h: &PageHeap, i: int, t: TypeId) -> Seq<u8> { self.ac().val(h, self.page(i), self.row(i), t) }
    pub open spec fn mem(&self) -> bool {
        &&& self.entities_container.wf() && self.archetypes_container.wf() && self.tag_container.wf() && self.order_group_container.wf()
        &&& self.tables()
        &&& self.tag_container.entity_capacity == self.cap() && self.order_group_container.entity_capacity == self.cap()
    }
    pub open spec fn tables(&self) -> bool { owned(self.entity_to_page, self.cap()) && owned(self.entity_to_index_in_page, self.cap()) && bv_ok(self.entity_has_archetype_bit_vec, self.cap()) }
    /// every entity with components has the row its tables say, and every row is that of its entity; only the row (p0, r0) is nobody's
    pub open spec fn rows(&self, p0: int, r0: int) -> bool {
        &&& forall|i: int| #![trigger getb(self.entity_has_archetype_bit_vec@, i)] #![trigger self.entities_container.on(i)] self.placed(i) ==> self.located(i) && (self.page(i) != p0 || self.row(i) != r0)
        &&& forall|p: int, r: int| 0 <= p < self.ac().len() && 0 <= r < self.ac().pages@[p].ids().len() && (p != p0 || r != r0) ==> self.its_row(#[trigger] self.archetypes_container.pages@[p].ids()[r] as int, p, r)
    }
    /// the same, with the row of x the one that is nobody's, and x not yet marked as being without components
    pub open spec fn rows_but(&self, p0: int, r0: int, x: int) -> bool {
        &&& forall|i: int| #![trigger getb(self.entity_has_archetype_bit_vec@, i)] #![trigger self.entities_container.on(i)] i != x && self.placed(i) ==> self.located(i) && (self.page(i) != p0 || self.row(i) != r0)
        &&& forall|p: int, r: int| 0 <= p < self.ac().len() && 0 <= r < self.ac().pages@[p].ids().len() && (p != p0 || r != r0) ==> (#[trigger] self.archetypes_container.pages@[p].ids()[r]) as int != x && self.its_row(self.archetypes_container.pages@[p].ids()[r] as int, p, r)
    }
    /// the entity whose place is still this row, or -1 if it has another by now
    pub open spec fn left(&self, p0: int, r0: int) -> int { let x = self.ac().pages@[p0].ids()[r0] as int; if self.page(x) == p0 && self.row(x) == r0 { x } else { -1 } }
    pub open spec fn its_row(&self, i: int, p: int, r: int) -> bool { i < self.cap() && self.placed(i) && self.page(i) == p && self.row(i) == r }
    /// only entities that exist have tags and are in order groups
    pub open spec fn labels(&self) -> bool {
        &&& forall|t: TypeId, i: int| #[trigger] self.tag_container.has(t, i) ==> self.entities_container.on(i)
        &&& forall|t: TypeId, k: int| 0 <= k < self.order_group_container.seq(t).len() ==> self.entities_container.on(#[trigger] self.order_group_container.seq(t)[k] as int)
    }
    pub open spec fn wf(&self) -> bool { self.mem() && self.rows(-1, -1) && self.labels() }
    pub open spec fn ok(&self, h: &PageHeap) -> bool { self.wf() && self.archetypes_container.mem(h) }
    /// the components of all entities except x are as they were
    pub open spec fn comps_kept(&self, h: &PageHeap, old: &Store, oh: &PageHeap, x: int) -> bool {
        &&& forall|i: int| #![trigger self.placed(i)] #![trigger old.placed(i)] i != x ==> self.placed(i) == old.placed(i)
        &&& forall|i: int| #![trigger self.types(i)] #![trigger old.types(i)] i != x && old.placed(i) ==> self.types(i) == old.types(i)
        &&& forall|i: int, t: TypeId| #![trigger self.val(h, i, t)] #![trigger old.val(oh, i, t)] i != x && old.has(i, t) ==> self.val(h, i, t) == old.val(oh, i, t)
    }
    pub proof fn lemma_kept(&self, h: &PageHeap, m: &Store, mh: &PageHeap, old: &Store, oh: &PageHeap, x: int)
        requires m.comps_kept(mh, old, oh, x), self.comps_kept(h, m, mh, x) || self.comps_kept(h, m, mh, -1), x != -1,
        ensures self.comps_kept(h, old, oh, x),
    {
        assert forall|i: int| i != x implies #[trigger] self.placed(i) == old.placed(i) by { if i == -1 { } else { assert(m.placed(i) == old.placed(i)); } }
        assert forall|i: int| i != x && old.placed(i) implies #[trigger] self.types(i) == old.types(i) by { assert(m.placed(i)); assert(m.types(i) == old.types(i)); }
        assert forall|i: int, t: TypeId| i != x && old.has(i, t) implies #[trigger] self.val(h, i, t) == old.val(oh, i, t) by { assert(m.types(i) == old.types(i)); assert(m.has(i, t)); assert(m.val(mh, i, t) == old.val(oh, i, t)); }
    }
    /// an entity without the labels it had
    pub proof fn lemma_unlabelled(&self, o: &Store, x: u32)
        requires o.labels(), o.order_group_container.wf(), self.order_group_container.wf(), forall|i: int| i != x ==> #[trigger] self.on(i) == o.on(i),
            forall|t: TypeId, i: int| #[trigger] self.tag_container.has(t, i) == (o.tag_container.has(t, i) && i != x),
            forall|t: TypeId| #[trigger] self.order_group_container.seq(t) == without(o.order_group_container.seq(t), x),
        ensures self.labels(),
    {
        assert forall|t: TypeId, i: int| #[trigger] self.tag_container.has(t, i) implies self.entities_container.on(i) by { assert(o.on(i) && self.on(i) == o.on(i)); }
        assert forall|t: TypeId, k: int| 0 <= k < self.order_group_container.seq(t).len() implies self.entities_container.on(#[trigger] self.order_group_container.seq(t)[k] as int) by {
            let s = o.order_group_container.seq(t);
            o.order_group_container.lemma_seq(t);
            let j = if s.contains(x) { s.index_of(x) } else { s.len() as int };
            let q = if k < j { k } else { k + 1 };
            assert(without(s, x)[k] == s[q] && s[q] != x);
            assert(o.entities_container.on(s[q] as int));
            assert(self.on(s[q] as int) == o.on(s[q] as int));
        }
    }
    pub open spec fn tags_kept(&self, old: &Store) -> bool { forall|t: TypeId, i: int| #[trigger] self.tag_container.has(t, i) == old.tag_container.has(t, i) }
    pub open spec fn orders_kept(&self, old: &Store) -> bool { forall|t: TypeId| #[trigger] self.order_group_container.seq(t) == old.order_group_container.seq(t) }
    /// ids below 2^30, no id reused 2^32 - 2 times, fewer than 2^32 - 1 pages
    pub open spec fn room(&self) -> bool { self.cap() <= 0x4000_0000 && self.entities_container.room() && self.ac().len() < u32::MAX }
    pub open spec fn same_but_labels(&self, o: &Store) -> bool {
        self.entities_container == o.entities_container && self.archetypes_container == o.archetypes_container && self.entity_to_page == o.entity_to_page && self.entity_to_index_in_page == o.entity_to_index_in_page && self.entity_has_archetype_bit_vec == o.entity_has_archetype_bit_vec
    }
    /// nothing but the tags changed
    pub open spec fn same_but_tags(&self, o: &Store) -> bool { self.same_but_labels(o) && self.order_group_container == o.order_group_container }
    /// nothing but the order groups changed
    pub open spec fn same_but_orders(&self, o: &Store) -> bool { self.same_but_labels(o) && self.tag_container == o.tag_container }
    pub open spec fn labels_kept(&self, old: &Store) -> bool { self.tags_kept(old) && self.orders_kept(old) }
}
pub proof fn lemma_each(s: Seq<TypeId>)
    ensures forall|i: int| 0 <= i < s.len() ==> has_tid(s, #[trigger] s[i]), forall|t: TypeId| #[trigger] has_tid(s, t) ==> 0 <= pos(s, t) < s.len() && s[pos(s, t)] == t,
{
    assert forall|i: int| 0 <= i < s.len() implies has_tid(s, #[trigger] s[i]) by {}
}
/// at most as many component types as it was made of
pub proof fn lemma_count(a: &Archetype, s: Seq<TypeId>, u: Seq<TypeId>)
    requires a.wf(), forall|t: TypeId| #[trigger] a.has(t) ==> has_tid(s, t) || has_tid(u, t),
    ensures a.component_count <= s.len() + u.len(), a.component_count == a.tys().len(),
{
    let x = s + u;
    lemma_sorted_nodup(a.tys());
    assert forall|i: int| 0 <= i < a.tys().len() implies has_tid(x, #[trigger] a.tys()[i]) by {
        let t = a.tys()[i];
        assert(a.has(t));
        if has_tid(s, t) { assert(x[pos(s, t)] == t); } else { assert(x[s.len() + pos(u, t)] == t); }
    }
    lemma_pigeon(a.tys(), x);
}
impl Store {
    /// the cells of an entity's components
    pub open spec fn cells(&self, i: int, ts: Seq<TypeId>) -> Seq<Loc> { cells(self.ac().blk(self.page(i)), self.ac().arch(self.page(i)), self.ac().lay(self.page(i)), ts, self.row(i)) }
    pub proof fn lemma_cells(&self, h: &PageHeap, x: int, ts: Seq<TypeId>)
        requires self.ok(h), self.placed(x), ts.no_duplicates(), has_all(self.ac().arch(self.page(x)), ts),
        ensures placed(self.cells(x, ts), ts), apart(self.cells(x, ts), ts), forall|k: int| 0 <= k < self.cells(x, ts).len() ==> h.live((#[trigger] self.cells(x, ts)[k]).blk),
    {
        assert(self.located(x));
        let (p, r) = (self.page(x), self.row(x));
        let (a, l) = (self.ac().arch(p), self.ac().lay(p));
        let c = self.cells(x, ts);
        self.ac().lemma_page(p);
        assert(h.live(self.archetypes_container.pages@[p].blk()));
        assert forall|k: int| 0 <= k < c.len() implies place_ok(#[trigger] c[k], tsize(ts[k]), talign(ts[k])) by { assert(a.has(ts[k])); lemma_cell_place(a, l, ts[k], r); }
        assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies (#[trigger] c[i]).blk != (#[trigger] c[j]).blk || c[i].off + tsize(ts[i]) <= c[j].off || c[j].off + tsize(ts[j]) <= c[i].off by {
            assert(a.has(ts[i]) && a.has(ts[j]) && ts[i] != ts[j]);
            lemma_cells_apart(a, l, ts[i], r, ts[j], r);
        }
    }
    /// writing components of one entity changes nothing else
    pub proof fn lemma_assigned(&self, h: &PageHeap, o: &PageHeap, x: int, ts: Seq<TypeId>)
        requires self.ok(o), self.placed(x), has_all(self.ac().arch(self.page(x)), ts),
            forall|b: int| #[trigger] h.live(b) == o.live(b),
            forall|b: int, f: int, m: int| m >= 0 && outside(b, f, m, self.cells(x, ts), ts) ==> #[trigger] h.bytes(b, f, m) == o.bytes(b, f, m),
        ensures self.ok(h), self.comps_kept(h, self, o, x), forall|t: TypeId| self.has(x, t) && !has_tid(ts, t) ==> #[trigger] self.val(h, x, t) == self.val(o, x, t),
    {
        let c = self.cells(x, ts);
        assert(self.located(x));
        let (p, r) = (self.page(x), self.row(x));
        let (a, l) = (self.ac().arch(p), self.ac().lay(p));
        self.ac().lemma_page(p);
        assert forall|i: int, t: TypeId| self.has(i, t) && (i != x || !has_tid(ts, t)) implies #[trigger] self.val(h, i, t) == self.val(o, i, t) by {
            assert(self.placed(i) && self.located(i));
            let (p2, r2) = (self.page(i), self.row(i));
            self.ac().lemma_page(p2);
            let (a2, l2) = (self.ac().arch(p2), self.ac().lay(p2));
            lemma_cell_place(a2, l2, t, r2);
            let (b, f, m) = (self.ac().blk(p2), at(a2, l2, t, r2), tsize(t));
            assert forall|k: int| 0 <= k < c.len() implies (#[trigger] c[k]).blk != b || f + m <= c[k].off || c[k].off + tsize(ts[k]) <= f by {
                assert(a.has(ts[k]));
                if p2 == p { assert(r2 != r || t != ts[k]) by { if i == x { assert(has_tid(ts, ts[k])); } } lemma_cells_apart(a, l, ts[k], r, t, r2); }
                else { assert(self.archetypes_container.pages@[p].blk() != self.archetypes_container.pages@[p2].blk()) by { if p < p2 {} else {} } }
            }
        }
    }
}
@@fn Store::new() -> r
@props C01 C03 C07 C08 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@ensures
r.ok(final(heap)), heap_ext(final(heap), old(heap)), forall|i: int| !#[trigger] r.on(i),
@@fn Store::with_capacity(capacity) -> r
@props C01 C03 C07 C08 C13
@opt dassert=refuse
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
capacity <= 0x8000_0000,
@ensures
r.ok(final(heap)), heap_ext(final(heap), old(heap)), forall|i: int| !#[trigger] r.on(i), r.cap() == capacity,
[C01]
forall|e: Entity| !#[trigger] r.entities_container.issued(e),
[C07 C08]
forall|t: TypeId, i: int| !#[trigger] r.tag_container.has(t, i), forall|t: TypeId| #[trigger] r.order_group_container.seq(t) == Seq::<u32>::empty(),
@@fn Store::data_page_size() -> r
@props C05
@ensures
r == page_size(),
@@fn Store::entities_capacity(self) -> r
@props C01
@ensures
r == self.cap(),
@@macro newid
[C01]
final(self).entities_container.alive(r), final(self).entities_container.issued(r), !old(self).entities_container.issued(r),
!old(self).on(r.id as int), final(self).entities_container.others_kept(&old(self).entities_container, r), r.id < final(self).cap(), old(self).cap() <= final(self).cap(),
[C07 C08]
final(self).labels_kept(old(self)),
[*]
@@fn Store::create_entity(self) -> r
@props C01 C02 C03 C07 C08 C13 C06 C09 C10
@requires
old(self).wf(), old(self).room(),
@ensures
final(self).wf(), final(self).archetypes_container == old(self).archetypes_container,
%%newid
[C02 C03]
!final(self).placed(r.id as int), forall|h: &PageHeap| #[trigger] final(self).comps_kept(h, old(self), h, r.id as int),
@@fn Store::create_entity_with_archetype(self, archetype) -> r
@props C01 C02 C03 C07 C08 C13 C06 C09 C10
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).ok(old(heap)), old(self).room(), archetype.wf(), archetype.component_count <= 4096,
@ensures
final(self).ok(final(heap)),
%%newid
[C02 C03]
final(self).placed(r.id as int), final(self).types(r.id as int) == archetype.tys(),
final(self).comps_kept(final(heap), old(self), old(heap), r.id as int),
@@fn Store::register_new_entity(self) -> r
@props C01 C07 C08 C13 C06 C09 C10
@requires
old(self).wf(), old(self).room(),
@ensures
final(self).mem(), final(self).labels(), final(self).archetypes_container == old(self).archetypes_container,
%%newid
forall|i: int| #![trigger getb(final(self).entity_has_archetype_bit_vec@, i)] #![trigger final(self).entities_container.on(i)] i != r.id && final(self).entities_container.on(i) ==> old(self).placed(i) == final(self).placed(i),
forall|i: int| #![trigger getb(old(self).entity_has_archetype_bit_vec@, i)] #![trigger old(self).entities_container.on(i)] i != r.id && old(self).placed(i) ==> final(self).placed(i),
forall|i: int| 0 <= i < old(self).cap() ==> #[trigger] final(self).entity_to_page@[i] == old(self).entity_to_page@[i],
forall|i: int| 0 <= i < old(self).cap() ==> #[trigger] final(self).entity_to_index_in_page@[i] == old(self).entity_to_index_in_page@[i],
@@fn Store::destroy_entity(self, entity)
@props C01 C02 C03 C07 C08 C13 C06 C09 C10
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).ok(old(heap)), entity.id < old(self).cap(),
@ensures
final(self).ok(final(heap)),
[C01 C02]
old(self).entities_container.alive(entity), !final(self).entities_container.alive(entity), !final(self).on(entity.id as int), final(self).entities_container.others_kept(&old(self).entities_container, entity), final(self).cap() == old(self).cap(),
[C02 C03]
final(self).comps_kept(final(heap), old(self), old(heap), entity.id as int),
[C02 C07]
forall|t: TypeId, i: int| #[trigger] final(self).tag_container.has(t, i) == (old(self).tag_container.has(t, i) && i != entity.id),
[C02 C08]
forall|t: TypeId| #[trigger] final(self).order_group_container.seq(t) == without(old(self).order_group_container.seq(t), entity.id),
@before swap_remove_internal 0
let ghost vx_m = *self; let ghost vx_h = *heap;
@after swap_remove_internal 0
proof {
    assert(vx_m.comps_kept(&vx_h, old(self), old(heap), entity.id as int));
    self.lemma_kept(heap, &vx_m, &vx_h, old(self), old(heap), entity.id as int);
}
@epilogue
proof { self.lemma_unlabelled(old(self), entity.id); }
@@fn Store::add_components(self, entity, components)
@props C03 C02 C05 C13 C06 C09 C10
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).ok(old(heap)), entity.id < old(self).cap(), old(self).ac().len() < u32::MAX, T::types().no_duplicates(), T::types().len() > 0,
T::types().len() + (if old(self).placed(entity.id as int) { old(self).types(entity.id as int).len() } else { 0 }) <= 4096,
@ensures
final(self).ok(final(heap)), final(self).entities_container == old(self).entities_container, final(self).tag_container == old(self).tag_container, final(self).order_group_container == old(self).order_group_container,
[C03]
final(self).comps_kept(final(heap), old(self), old(heap), entity.id as int),
[C02]
!old(self).entities_container.alive(entity) ==> *final(self) == *old(self) && *final(heap) == *old(heap),
[C03]
old(self).entities_container.alive(entity) ==> forall|t: TypeId| #[trigger] final(self).has(entity.id as int, t) == (old(self).has(entity.id as int, t) || has_tid(T::types(), t)),
old(self).entities_container.alive(entity) ==> forall|k: int| 0 <= k < T::types().len() ==> final(self).val(final(heap), entity.id as int, #[trigger] T::types()[k]) == components.reps()[k],
old(self).entities_container.alive(entity) ==> forall|t: TypeId| old(self).has(entity.id as int, t) && !has_tid(T::types(), t) ==> #[trigger] final(self).val(final(heap), entity.id as int, t) == old(self).val(old(heap), entity.id as int, t),
@prologue
proof { lemma_each(T::types()); }
@before move_entity_to_other_archetype 0
proof { lemma_count(&new_arch, old(self).types(entity.id as int), T::types()); assert forall|t: TypeId| #[trigger] has_tid(new_arch.tys(), t) == (has_tid(old(self).types(entity.id as int), t) || has_tid(T::types(), t)) by { assert(new_arch.has(t) == (arch.has(t) || has_tid(T::types(), t))); } }
@before add_entity 0
proof { lemma_count(&archetype, T::types(), Seq::empty()); assert forall|t: TypeId| #[trigger] has_tid(archetype.tys(), t) == has_tid(T::types(), t) by { assert(archetype.has(t) == has_tid(T::types(), t)); } }
@before get_page_view_unchecked 0
let ghost vx_m = *self; let ghost vx_h = *heap;
proof {
    assert(self.ok(heap));
    assert(self.located(entity.id as int));
    self.ac().lemma_page(self.page(entity.id as int));
    assert(self.comps_kept(heap, old(self), old(heap), entity.id as int));
    assert forall|t: TypeId| #[trigger] self.has(entity.id as int, t) == (old(self).has(entity.id as int, t) || has_tid(T::types(), t)) by { if has_tid(T::types(), t) { assert(T::types()[pos(T::types(), t)] == t); } }
    assert(has_all(self.ac().arch(self.page(entity.id as int)), T::types())) by {
        assert forall|i: int| 0 <= i < T::types().len() implies self.ac().arch(self.page(entity.id as int)).has(#[trigger] T::types()[i]) by { assert(self.has(entity.id as int, T::types()[i])); }
    }
    self.lemma_cells(heap, entity.id as int, T::types());
}
@after assign_to_refs 0
proof {
    vx_m.lemma_assigned(heap, &vx_h, entity.id as int, T::types());
    self.lemma_kept(heap, &vx_m, &vx_h, old(self), old(heap), entity.id as int);
    assert forall|k: int| 0 <= k < T::types().len() implies self.val(heap, entity.id as int, #[trigger] T::types()[k]) == components.reps()[k] by { let vx_l = T::mlocs(refs)[k]; assert(vx_l == self.cells(entity.id as int, T::types())[k]); }
}
@@fn Store::remove_components(self, entity)
@props C04 C03 C02 C05 C13 C06 C09 C10
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).ok(old(heap)), entity.id < old(self).cap(), old(self).ac().len() < u32::MAX,
old(self).placed(entity.id as int) ==> old(self).types(entity.id as int).len() <= 4096,
@ensures
final(self).ok(final(heap)), final(self).entities_container == old(self).entities_container, final(self).tag_container == old(self).tag_container, final(self).order_group_container == old(self).order_group_container,
[C03 C04]
final(self).comps_kept(final(heap), old(self), old(heap), entity.id as int),
[C02]
!old(self).entities_container.alive(entity) ==> *final(self) == *old(self) && *final(heap) == *old(heap),
[C04]
old(self).entities_container.alive(entity) ==> forall|t: TypeId| #[trigger] final(self).has(entity.id as int, t) == (old(self).has(entity.id as int, t) && !has_tid(T::types(), t)),
[C03]
old(self).entities_container.alive(entity) ==> forall|t: TypeId| final(self).has(entity.id as int, t) ==> #[trigger] final(self).val(final(heap), entity.id as int, t) == old(self).val(old(heap), entity.id as int, t),
@before move_entity_to_other_archetype 0
proof { lemma_count(&new_arch, old(self).types(entity.id as int), Seq::empty()); assert forall|t: TypeId| #[trigger] has_tid(new_arch.tys(), t) == (has_tid(old(self).types(entity.id as int), t) && !has_tid(T::types(), t)) by { assert(new_arch.has(t) == (prev_arch.has(t) && !has_tid(T::types(), t))); } }
@before disable_archetype_unchecked 0
proof { assert forall|t: TypeId| has_tid(old(self).types(entity.id as int), t) implies #[trigger] has_tid(T::types(), t) by { assert(!new_arch_builder.has(t)); assert(prev_arch.has(t)); } }
@@fn Store::move_entity_to_other_archetype(self, entity, new_arch) -> r
@props C03 C05 C13 C06 C09 C10
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).ok(old(heap)), old(self).placed(entity.id as int), old(self).ac().len() < u32::MAX, new_arch.wf(), new_arch.component_count <= 4096,
@ensures
final(self).ok(final(heap)), final(self).entities_container == old(self).entities_container, final(self).tag_container == old(self).tag_container, final(self).order_group_container == old(self).order_group_container,
final(self).placed(entity.id as int), r.page_index == final(self).page(entity.id as int), new_arch.tys() != old(self).types(entity.id as int) ==> r.index_in_page == final(self).row(entity.id as int),
[C03]
final(self).types(entity.id as int) == new_arch.tys(),
final(self).comps_kept(final(heap), old(self), old(heap), entity.id as int),
forall|t: TypeId| old(self).has(entity.id as int, t) && new_arch.has(t) ==> #[trigger] final(self).val(final(heap), entity.id as int, t) == old(self).val(old(heap), entity.id as int, t),
@epilogue
proof { assert(self.page(entity.id as int) != old(self).page(entity.id as int) || self.types(entity.id as int) == old(self).types(entity.id as int)); }
@@fn Store::swap_remove_internal(self, entity_in_archetype)
@props C03 C02 C13 C06 C09 C10
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).mem(), old(self).archetypes_container.mem(old(heap)),
entity_in_archetype.page_index < old(self).ac().len(), entity_in_archetype.index_in_page < old(self).ac().ids(entity_in_archetype.page_index as int).len(),
old(self).rows_but(entity_in_archetype.page_index as int, entity_in_archetype.index_in_page as int, old(self).left(entity_in_archetype.page_index as int, entity_in_archetype.index_in_page as int)),
@ensures
final(self).mem(), final(self).archetypes_container.mem(final(heap)), final(self).rows_but(-1, -1, old(self).left(entity_in_archetype.page_index as int, entity_in_archetype.index_in_page as int)),
final(self).entities_container == old(self).entities_container, final(self).tag_container == old(self).tag_container, final(self).order_group_container == old(self).order_group_container,
final(self).entity_has_archetype_bit_vec == old(self).entity_has_archetype_bit_vec, final(self).entity_to_page == old(self).entity_to_page,
final(self).comps_kept(final(heap), old(self), old(heap), old(self).left(entity_in_archetype.page_index as int, entity_in_archetype.index_in_page as int)),
forall|i: int| 0 <= i < old(self).cap() && old(self).page(i) != entity_in_archetype.page_index ==> #[trigger] final(self).entity_to_index_in_page@[i] == old(self).entity_to_index_in_page@[i],
@@fn Store::is_alive(self, entity) -> r
@props C01 C02 C13
@requires
self.mem(), entity.id < self.cap(),
@ensures
r == self.entities_container.alive(entity),
@@fn Store::get_components_refs(self, entity) -> r
@props C02 C03 C04 C05 C13
@requires
self.wf(), entity.id < self.cap(),
@ensures
[C02 C04]
r is Some == (self.entities_container.alive(entity) && self.placed(entity.id as int) && has_all(self.ac().arch(self.page(entity.id as int)), T::types())),
[C03 C05]
r is Some ==> T::locs(r->0) =~= cells(self.ac().blk(self.page(entity.id as int)), self.ac().arch(self.page(entity.id as int)), self.ac().lay(self.page(entity.id as int)), T::types(), self.row(entity.id as int)),
@@fn Store::get_components_refs_mut(self, entity) -> r
@props C02 C03 C04 C05 C13
@requires
old(self).wf(), entity.id < old(self).cap(),
@ensures
*final(self) == *old(self),
[C02 C04]
r is Some == (old(self).entities_container.alive(entity) && old(self).placed(entity.id as int) && has_all(old(self).ac().arch(old(self).page(entity.id as int)), T::types())),
[C03 C05]
r is Some ==> T::mlocs(r->0) =~= cells(old(self).ac().blk(old(self).page(entity.id as int)), old(self).ac().arch(old(self).page(entity.id as int)), old(self).ac().lay(old(self).page(entity.id as int)), T::types(), old(self).row(entity.id as int)),
@@fn Store::get_page_info(self, entity_id) -> r
@props C05 C13
@requires
self.wf(), self.placed(entity_id as int),
@ensures
r.0.archetype == self.ac().arch(self.page(entity_id as int)), r.0.layout == self.ac().lay(self.page(entity_id as int)), *r.0.page == self.ac().pages@[self.page(entity_id as int)], r.0.ok(), r.1 == self.row(entity_id as int), r.1 < r.0.layout.entities_capacity,
@@fn Store::get_page_view_unchecked(self, entity_id) -> r
@props C05 C13
@requires
self.wf(), self.placed(entity_id as int),
@ensures
r.archetype == self.ac().arch(self.page(entity_id as int)), r.layout == self.ac().lay(self.page(entity_id as int)), *r.page == self.ac().pages@[self.page(entity_id as int)], r.ok(),
@@fn Store::get_entity_archetype(self, entity) -> r
@props C02 C03 C13
@requires
self.wf(), entity.id < self.cap(),
@ensures
r is Some == (self.entities_container.alive(entity) && self.placed(entity.id as int)), r is Some ==> r->0 == self.ac().arch(self.page(entity.id as int)) && r->0.wf(),
@@fn Store::is_valid_entity_with_archetype(self, entity) -> r
@props C02 C03 C13
@requires
self.mem(), entity.id < self.cap(),
@ensures
r == (self.entities_container.alive(entity) && self.placed(entity.id as int)),
@@fn Store::grow_entities_internal(self, old_capacity)
@props C01 C07 C08 C13 C06 C09 C10
@requires
old(self).entities_container.wf(), old(self).tag_container.wf(), old(self).order_group_container.wf(), old_capacity <= old(self).cap(),
old(self).tag_container.entity_capacity == old_capacity, old(self).order_group_container.entity_capacity == old_capacity,
owned(old(self).entity_to_page, old_capacity as int), owned(old(self).entity_to_index_in_page, old_capacity as int), bv_ok(old(self).entity_has_archetype_bit_vec, old_capacity as int),
@ensures
final(self).entities_container == old(self).entities_container, final(self).archetypes_container == old(self).archetypes_container, final(self).tables(), final(self).tag_container.wf(), final(self).order_group_container.wf(),
final(self).tag_container.entity_capacity == final(self).cap(), final(self).order_group_container.entity_capacity == final(self).cap(),
[C03]
forall|i: int| 0 <= i < old_capacity ==> #[trigger] final(self).entity_to_page@[i] == old(self).entity_to_page@[i], forall|i: int| 0 <= i < old_capacity ==> #[trigger] final(self).entity_to_index_in_page@[i] == old(self).entity_to_index_in_page@[i],
forall|i: int| 0 <= i < old_capacity ==> #[trigger] getb(final(self).entity_has_archetype_bit_vec@, i) == getb(old(self).entity_has_archetype_bit_vec@, i),
[C07]
forall|t: TypeId, i: int| #[trigger] final(self).tag_container.has(t, i) == old(self).tag_container.has(t, i),
[C08]
forall|t: TypeId| #[trigger] final(self).order_group_container.seq(t) == old(self).order_group_container.seq(t),
@prologue
proof { lemma_fits_u32(self.cap()); lemma_fits_u32(old_capacity as int); lemma_fits_u32(words(self.cap())); lemma_fits_u32(words(old_capacity as int)); }
@@fn Store::get_entity_by_id_unchecked(self, id) -> r
@props C08 C09 C13
@requires
self.entities_container.wf(), id < self.cap(),
@ensures
r.id == id, r.version == self.entities_container.ver(id as int),
@@fn Store::get_entity_in_archetype_unchecked(self, entity_id) -> r
@props C03 C13
@requires
self.mem(), self.located(entity_id as int),
@ensures
r.page_index == self.page(entity_id as int), r.index_in_page == self.row(entity_id as int),
@@fn Store::get_page_index_unchecked(self, entity_id) -> r
@props C03 C06 C09 C10 C13
@requires
self.tables(), entity_id < self.cap(), self.entity_to_page@[entity_id as int] is Some,
@ensures
r == self.page(entity_id as int),
@@fn Store::get_index_in_page_unchecked(self, entity_id) -> r
@props C03 C06 C09 C10 C13
@requires
self.tables(), entity_id < self.cap(), self.entity_to_index_in_page@[entity_id as int] is Some,
@ensures
r == self.row(entity_id as int),
@@fn Store::entity_to_index_in_page_ptr(self) -> r
@props C10 C13
@requires
self.tables(),
@ensures
r@ == self.entity_to_index_in_page@,
@@fn Store::has_archetype_unchecked(self, entity_id) -> r
@props C02 C03 C06 C09 C10 C13
@requires
self.tables(), entity_id < self.cap(),
@ensures
r == getb(self.bits(), entity_id as int),
@@macro only_table
final(self).tables(), final(self).entities_container == old(self).entities_container, final(self).archetypes_container == old(self).archetypes_container, final(self).tag_container == old(self).tag_container, final(self).order_group_container == old(self).order_group_container,
@@fn Store::set_page_index_unchecked(self, entity_id, page_index)
@props C03 C06 C09 C10 C13
@requires
old(self).tables(), entity_id < old(self).cap(),
@ensures
%%only_table
final(self).entity_to_index_in_page == old(self).entity_to_index_in_page, final(self).entity_has_archetype_bit_vec == old(self).entity_has_archetype_bit_vec,
final(self).entity_to_page@ == old(self).entity_to_page@.update(entity_id as int, Some(page_index)),
@@fn Store::set_index_in_page_unchecked(self, entity_id, index_in_page)
@props C03 C06 C09 C10 C13
@requires
old(self).tables(), entity_id < old(self).cap(),
@ensures
%%only_table
final(self).entity_to_page == old(self).entity_to_page, final(self).entity_has_archetype_bit_vec == old(self).entity_has_archetype_bit_vec,
final(self).entity_to_index_in_page@ == old(self).entity_to_index_in_page@.update(entity_id as int, Some(index_in_page)),
@@fn Store::enable_archetype_unchecked(self, entity_id)
@props C03 C06 C09 C10 C13
@requires
old(self).tables(), entity_id < old(self).cap(),
@ensures
%%only_table
final(self).entity_to_page == old(self).entity_to_page, final(self).entity_to_index_in_page == old(self).entity_to_index_in_page,
forall|i: int| 0 <= i < 32 * words(final(self).cap()) ==> #[trigger] getb(final(self).entity_has_archetype_bit_vec@, i) == (getb(old(self).entity_has_archetype_bit_vec@, i) || i == entity_id),
@@fn Store::disable_archetype_unchecked(self, entity_id)
@props C03 C06 C09 C10 C13
@requires
old(self).tables(), entity_id < old(self).cap(),
@ensures
%%only_table
final(self).entity_to_page == old(self).entity_to_page, final(self).entity_to_index_in_page == old(self).entity_to_index_in_page,
forall|i: int| 0 <= i < 32 * words(final(self).cap()) ==> #[trigger] getb(final(self).entity_has_archetype_bit_vec@, i) == (getb(old(self).entity_has_archetype_bit_vec@, i) && i != entity_id),
@@fn Store::drop(self)
@props C13
@requires
old(self).mem(),
@ensures
!final(self).entity_to_page.live(), !final(self).entity_to_index_in_page.live(), !final(self).entity_has_archetype_bit_vec.live(),
@prologue
proof { lemma_fits_u32(self.cap()); lemma_fits_u32(words(self.cap())); }
