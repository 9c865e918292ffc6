@@module entity_in_archetype
@@module archetypes_container
@@use crate::archetype::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@use crate::archetype_data_page_view::*
@@use crate::tag_container::*
@@raw
pub open spec fn nodup(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn member(s: Seq<usize>, x: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == x }
/// taking one out leaves the others, each once
pub proof fn lemma_without(s: Seq<usize>, i: int)
    requires nodup(s), 0 <= i < s.len(),
    ensures
        nodup(s.remove(i)), !member(s.remove(i), s[i] as int),
        forall|x: int| x != s[i] ==> #[trigger] member(s.remove(i), x) == member(s, x),
        forall|k: int| 0 <= k < s.len() - 1 ==> member(s, (#[trigger] s.remove(i)[k]) as int),
{
    let r = s.remove(i);
    assert forall|j: int, k: int| 0 <= j < k < r.len() implies #[trigger] r[j] != #[trigger] r[k] by {
        let (a, b) = (if j < i { j } else { j + 1 }, if k < i { k } else { k + 1 });
        assert(r[j] == s[a] && r[k] == s[b]);
    }
    assert forall|x: int| x != s[i] implies #[trigger] member(r, x) == member(s, x) by {
        if member(s, x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(r[if k < i { k } else { k - 1 }] == x); }
        if member(r, x) { let k = choose|k: int| 0 <= k < r.len() && r[k] == x; assert(s[if k < i { k } else { k + 1 }] == x); }
    }
    assert forall|k: int| 0 <= k < r.len() implies r[k] != s[i] && member(s, (#[trigger] r[k]) as int) by { let a = if k < i { k } else { k + 1 }; assert(r[k] == s[a]); }
}
/// a list with one more member
pub proof fn lemma_with(s: Seq<usize>, x: usize)
    ensures forall|y: int| #[trigger] member(s.push(x), y) == (member(s, y) || y == x), nodup(s) && !member(s, x as int) ==> nodup(s.push(x)),
{
    let r = s.push(x);
    assert forall|y: int| #[trigger] member(r, y) == (member(s, y) || y == x) by {
        if member(s, y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(r[k] == y); }
        if member(r, y) { let k = choose|k: int| 0 <= k < r.len() && r[k] == y; if k < s.len() { assert(s[k] == y); } }
        if y == x { assert(r[s.len() as int] == x); }
    }
}
/// the list without its member x
pub open spec fn gone(s: Seq<usize>, x: usize, r: Seq<usize>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == x && #[trigger] s.remove(i) == r }
impl ArchetypesContainer {
    pub open spec fn archs(&self) -> int { self.archetypes@.len() as int }
    pub open spec fn len(&self) -> int { self.pages@.len() as int }
    /// the pages of an archetype
    pub open spec fn list(&self, a: int) -> Seq<usize> { self.archetype_to_pages@[a].pages@ }
    pub open spec fn arch_of(&self, p: int) -> int { self.page_to_archetype@[p] as int }
    pub open spec fn arch(&self, p: int) -> &Archetype { &self.archetypes@[self.arch_of(p)] }
    pub open spec fn lay(&self, p: int) -> &ArchetypeLayout { &self.layouts@[self.arch_of(p)] }
    /// the ids in the rows of a page
    pub open spec fn ids(&self, p: int) -> Seq<u32> { self.pages@[p].ids() }
    pub open spec fn blk(&self, p: int) -> int { self.pages@[p].blk() }
    pub open spec fn listed(&self, p: int) -> bool { 0 <= self.arch_of(p) < self.archs() && member(self.list(self.arch_of(p)), p) }
    /// the bytes of the component of type t in row r of page p
    pub open spec fn val(&self, h: &PageHeap, p: int, r: int, t: TypeId) -> Seq<u8> { cell(h, self.blk(p), self.arch(p), self.lay(p), t, r) }
    pub open spec fn wf(&self) -> bool {
        &&& self.layouts@.len() == self.archs() && self.archetype_to_pages@.len() == self.archs()
        &&& self.page_to_archetype@.len() == self.len()
        &&& forall|a: int| 0 <= a < self.archs() ==> (#[trigger] self.archetypes@[a]).wf() && self.layouts@[a].lays(&self.archetypes@[a])
        &&& forall|p: int| 0 <= p < self.len() ==> (#[trigger] self.pages@[p]).wf()
        &&& forall|p: int, q: int| 0 <= p < q < self.len() ==> (#[trigger] self.pages@[p]).blk() != (#[trigger] self.pages@[q]).blk()
        &&& forall|a: int, k: int| 0 <= a < self.archs() && 0 <= k < self.list(a).len() ==> self.page_ok(a, #[trigger] self.archetype_to_pages@[a].pages@[k] as int)
        &&& forall|a: int| 0 <= a < self.archs() ==> nodup((#[trigger] self.archetype_to_pages@[a]).pages@)
        &&& forall|p: int| 0 <= p < self.len() && (#[trigger] self.pages@[p]).ids().len() > 0 ==> self.listed(p)
        &&& forall|k: int| 0 <= k < self.free_pages@.len() ==> (#[trigger] self.free_pages@[k]) < self.len() && self.ids(self.free_pages@[k] as int).len() == 0 && !self.listed(self.free_pages@[k] as int)
        &&& nodup(self.free_pages@)
        &&& forall|k: int| 0 <= k < self.free_archetypes@.len() ==> (#[trigger] self.free_archetypes@[k]) < self.archs() && self.list(self.free_archetypes@[k] as int).len() == 0
        &&& nodup(self.free_archetypes@)
    }
    pub open spec fn page_ok(&self, a: int, p: int) -> bool {
        p < self.len() && self.arch_of(p) == a && self.pages@[p].entity_capacity == self.layouts@[a].entities_capacity && self.ids(p).len() <= self.pages@[p].entity_capacity
    }
    pub open spec fn mem(&self, h: &PageHeap) -> bool { forall|p: int| 0 <= p < self.len() ==> h.live((#[trigger] self.pages@[p]).blk()) }
    pub open spec fn owns(&self, b: int) -> bool { exists|p: int| 0 <= p < self.len() && (#[trigger] self.pages@[p]).blk() == b }
    /// page q holds rows of the same archetype in the same block
    pub open spec fn same_page(&self, old: &Self, q: int) -> bool {
        self.blk(q) == old.blk(q) && self.arch_of(q) == old.arch_of(q) && *self.arch(q) == *old.arch(q) && *self.lay(q) == *old.lay(q)
    }
    /// every row there was holds what it held
    pub open spec fn vals_kept(&self, h: &PageHeap, old: &Self, oh: &PageHeap) -> bool {
        forall|q: int, r: int, t: TypeId| 0 <= q < old.len() && 0 <= r < old.ids(q).len() && old.arch(q).has(t) ==> #[trigger] self.val(h, q, r, t) == old.val(oh, q, r, t)
    }
    /// every row but one holds what it held
    pub open spec fn vals_kept_but(&self, h: &PageHeap, old: &Self, oh: &PageHeap, p: int, i: int) -> bool {
        forall|q: int, r: int, t: TypeId| 0 <= q < old.len() && 0 <= r < old.ids(q).len() && old.arch(q).has(t) && (q != p || r != i) ==> #[trigger] self.val(h, q, r, t) == old.val(oh, q, r, t)
    }
    /// where there are rows there is room for them
    pub proof fn lemma_page(&self, p: int)
        requires self.wf(), 0 <= p < self.len(), self.ids(p).len() > 0,
        ensures
            0 <= self.arch_of(p) < self.archs(), self.listed(p), self.arch(p).wf(), self.lay(p).lays(self.arch(p)), self.pages@[p].wf(),
            self.ids(p).len() <= self.lay(p).entities_capacity, self.pages@[p].entity_capacity == self.lay(p).entities_capacity,
    {
        let a = self.arch_of(p);
        assert(self.pages@[p].wf());
        let k = choose|k: int| 0 <= k < self.list(a).len() && #[trigger] self.list(a)[k] == p;
        assert(self.page_ok(a, self.archetype_to_pages@[a].pages@[k] as int));
        assert(self.archetypes@[a].wf());
    }
    /// id was added as the last row of page p, which is one of archetype a; all rows there were stay
    pub open spec fn appended(&self, old: &Self, p: int, a: int, id: u32) -> bool {
        &&& 0 <= p < self.len() && 0 <= a < self.archs() && self.arch_of(p) == a
        &&& self.len() == old.len() || self.len() == old.len() + 1 && p == old.len()
        &&& self.ids(p) =~= (if p < old.len() { old.ids(p) } else { Seq::<u32>::empty() }).push(id)
        &&& forall|q: int| 0 <= q < old.len() && q != p ==> (#[trigger] self.pages@[q]).ids() == old.pages@[q].ids()
        &&& forall|q: int| 0 <= q < old.len() && (#[trigger] old.pages@[q]).ids().len() > 0 ==> self.same_page(old, q)
        &&& forall|q: int| 0 <= q < old.len() ==> (#[trigger] self.pages@[q]).blk() == old.pages@[q].blk()
    }
    pub proof fn lemma_appended(&self, h: &PageHeap, old: &Self, oh: &PageHeap, p: int, a: int, id: u32)
        requires self.appended(old, p, a, id), heap_ext(h, oh), old.wf(), old.mem(oh),
        ensures self.vals_kept(h, old, oh),
    {
        assert forall|q: int, r: int, t: TypeId| 0 <= q < old.len() && 0 <= r < old.ids(q).len() && old.arch(q).has(t) implies #[trigger] self.val(h, q, r, t) == old.val(oh, q, r, t) by {
            assert(old.pages@[q].ids().len() > 0);
            assert(oh.live(old.pages@[q].blk()));
        }
    }
    /// row r of page p was removed and the page's last row took its place; all other rows stay
    pub open spec fn removed(&self, old: &Self, p: int, r: int) -> bool {
        &&& self.len() == old.len() && self.archetypes == old.archetypes && self.layouts == old.layouts && self.page_to_archetype == old.page_to_archetype
        &&& self.ids(p) == old.ids(p).update(r, old.ids(p).last()).drop_last()
        &&& forall|q: int| 0 <= q < old.len() && q != p ==> (#[trigger] self.pages@[q]).ids() == old.pages@[q].ids()
        &&& forall|q: int| 0 <= q < old.len() ==> (#[trigger] self.pages@[q]).blk() == old.pages@[q].blk()
    }
}
/// blocks there were keep their contents
pub open spec fn heap_ext(h: &PageHeap, old: &PageHeap) -> bool {
    &&& forall|b: int| old.live(b) ==> #[trigger] h.live(b)
    &&& forall|b: int, o: int, m: int| old.live(b) ==> #[trigger] h.bytes(b, o, m) == old.bytes(b, o, m)
}
@@fn ArchetypesContainer::new() -> r
@props C03 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@ensures
r.wf(), r.mem(final(heap)), forall|p: int| 0 <= p < r.len() ==> (#[trigger] r.pages@[p]).ids().len() == 0,
[C13]
forall|b: int| #[trigger] final(heap).live(b) == (old(heap).live(b) || r.owns(b)),
[*]
heap_ext(final(heap), old(heap)),
@loop 0
@invariant
vx_end0 == 5, vx_r0@.len() == vx_n0,
heap_ext(heap, old(heap)),
forall|p: int| 0 <= p < vx_n0 ==> (#[trigger] vx_r0@[p]).wf() && vx_r0@[p].ids().len() == 0 && heap.live(vx_r0@[p].blk()) && !old(heap).live(vx_r0@[p].blk()),
forall|p: int, q: int| 0 <= p < q < vx_n0 ==> (#[trigger] vx_r0@[p]).blk() != (#[trigger] vx_r0@[q]).blk(),
forall|b: int| #[trigger] heap.live(b) ==> old(heap).live(b) || exists|p: int| 0 <= p < vx_n0 && (#[trigger] vx_r0@[p]).blk() == b,
@loopstart
let ghost vx_h = *heap; let ghost vx_p = vx_r0@;
@loopend
proof {
    assert(vx_n0 == vx_k0 + 1);
    assert forall|b: int| #[trigger] heap.live(b) implies old(heap).live(b) || exists|p: int| 0 <= p < vx_n0 && (#[trigger] vx_r0@[p]).blk() == b by {
        if vx_h.live(b) { if !old(heap).live(b) { let p = choose|p: int| 0 <= p < vx_k0 && (#[trigger] vx_p[p]).blk() == b; assert(vx_r0@[p].blk() == b); } }
        else { assert(vx_r0@[vx_k0 as int].blk() == b); }
    }
}
@loop 1
@invariant
vx_end1 == 5, vlen(vx_r1) == vx_n1,
@loop 2
@invariant
vx_end2 == 5, vx_r2@.len() == vx_n2, forall|k: int| 0 <= k < vx_n2 ==> #[trigger] vx_r2@[k] == k,
@epilogue
proof {
    assert forall|p: int| 0 <= p < r.len() implies heap.live((#[trigger] r.pages@[p]).blk()) by { assert(r.pages@[p].wf()); }
    assert forall|p: int| 0 <= p < r.len() implies (#[trigger] r.pages@[p]).ids().len() == 0 by { assert(r.pages@[p].wf()); }
    assert forall|p: int, q: int| 0 <= p < q < r.len() implies (#[trigger] r.pages@[p]).blk() != (#[trigger] r.pages@[q]).blk() by { assert(r.pages@[p].blk() != r.pages@[q].blk()); }
    assert forall|b: int| #[trigger] heap.live(b) == (old(heap).live(b) || r.owns(b)) by {
        if heap.live(b) && !old(heap).live(b) { let p = choose|p: int| 0 <= p < 5 && (#[trigger] r.pages@[p]).blk() == b; assert(r.blk(p) == b); }
    }
}
@@fn ArchetypesContainer::add_entity(self, entity_id, archetype) -> r
@props C03 C05 C06 C09 C10 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).wf(), old(self).mem(old(heap)), old(self).len() < u32::MAX, archetype.wf(), archetype.component_count <= 4096,
@ensures
[C03 C05]
final(self).vals_kept(final(heap), old(self), old(heap)),
[*]
final(self).wf(), final(self).mem(final(heap)), heap_ext(final(heap), old(heap)),
[C03]
final(self).appended(old(self), r.page_index as int, final(self).arch_of(r.page_index as int), entity_id), r.index_in_page == final(self).ids(r.page_index as int).len() - 1,
final(self).arch(r.page_index as int).tys() == archetype.tys(),
[C13]
forall|b: int| #[trigger] final(heap).live(b) == (old(heap).live(b) || final(self).owns(b)),
@prologue
let ghost vx_s = *self; let ghost vx_h = *heap;
@after reserve_archetype 0
let ghost vx_m = *self;
@epilogue
proof { self.lemma_appended(heap, &vx_m, &vx_h, r.page_index as int, archetype_index as int, entity_id); }
@@fn ArchetypesContainer::swap_remove_entity(self, entity_in_archetype) -> r
@props C03 C05 C06 C09 C10 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).wf(), old(self).mem(old(heap)), entity_in_archetype.page_index < old(self).len(), entity_in_archetype.index_in_page < old(self).ids(entity_in_archetype.page_index as int).len(),
@ensures
[C03 C05]
final(self).vals_kept_but(final(heap), old(self), old(heap), entity_in_archetype.page_index as int, entity_in_archetype.index_in_page as int),
forall|t: TypeId| old(self).arch(entity_in_archetype.page_index as int).has(t) ==> #[trigger] final(self).val(final(heap), entity_in_archetype.page_index as int, entity_in_archetype.index_in_page as int, t) == old(self).val(old(heap), entity_in_archetype.page_index as int, old(self).ids(entity_in_archetype.page_index as int).len() - 1, t),
[*]
final(self).wf(), final(self).mem(final(heap)),
forall|b: int| #[trigger] final(heap).live(b) == old(heap).live(b),
[C03]
final(self).removed(old(self), entity_in_archetype.page_index as int, entity_in_archetype.index_in_page as int),
r is Some == (entity_in_archetype.index_in_page < old(self).ids(entity_in_archetype.page_index as int).len() - 1), r is Some ==> r->0.id_to_replace == old(self).ids(entity_in_archetype.page_index as int).last(),
@prologue
let ghost vx_s = *self; let ghost vx_h = *heap;
proof { self.lemma_page(entity_in_archetype.page_index as int); }
@epilogue
proof {
    assert forall|q: int, r: int, t: TypeId| 0 <= q < vx_s.len() && 0 <= r < vx_s.ids(q).len() && vx_s.arch(q).has(t) && (q != entity_in_archetype.page_index || r != entity_in_archetype.index_in_page) implies #[trigger] self.val(heap, q, r, t) == vx_s.val(&vx_h, q, r, t) by {
        let p = entity_in_archetype.page_index as int;
        assert(self.pages@[q].blk() == vx_s.pages@[q].blk());
        vx_s.lemma_page(q);
        if q != p { assert(vx_s.pages@[q].blk() != vx_s.pages@[p].blk()); }
        else { assert(cell(heap, vx_s.blk(p), vx_s.arch(p), vx_s.lay(p), t, r) == cell(&vx_h, vx_s.blk(p), vx_s.arch(p), vx_s.lay(p), t, r)); }
    }
}
@@fn ArchetypesContainer::move_entity_to_other_archetype(self, entity_id, previous_entity_in_archetype, previous_archetype_index, new_archetype) -> r
@props C03 C05 C06 C09 C10 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).wf(), old(self).mem(old(heap)), old(self).len() < u32::MAX, new_archetype.wf(), new_archetype.component_count <= 4096,
previous_entity_in_archetype.page_index < old(self).len(), previous_entity_in_archetype.index_in_page < old(self).ids(previous_entity_in_archetype.page_index as int).len(),
previous_archetype_index == old(self).arch_of(previous_entity_in_archetype.page_index as int),
@ensures
[C03]
final(self).appended(old(self), r.page_index as int, final(self).arch_of(r.page_index as int), entity_id), r.index_in_page == final(self).ids(r.page_index as int).len() - 1,
final(self).arch(r.page_index as int).tys() == new_archetype.tys(),
[C03 C05]
final(self).vals_kept(final(heap), old(self), old(heap)),
forall|t: TypeId| old(self).arch(previous_entity_in_archetype.page_index as int).has(t) && new_archetype.has(t) ==> #[trigger] final(self).val(final(heap), r.page_index as int, r.index_in_page as int, t) == old(self).val(old(heap), previous_entity_in_archetype.page_index as int, previous_entity_in_archetype.index_in_page as int, t),
[C13]
forall|b: int| #[trigger] final(heap).live(b) == (old(heap).live(b) || final(self).owns(b)),
[*]
final(self).wf(), final(self).mem(final(heap)),
@prologue
let ghost vx_s = *self; let ghost vx_h = *heap;
let ghost vx_p = previous_entity_in_archetype.page_index as int; let ghost vx_i = previous_entity_in_archetype.index_in_page as int;
proof { self.lemma_page(vx_p); }
@after reserve_archetype 0
let ghost vx_m = *self;
@after reserve_page 0
let ghost vx_g = *heap;
let ghost vx_q = new_entity_in_arch.page_index as int; let ghost vx_j = new_entity_in_arch.index_in_page as int;
proof {
    self.lemma_appended(heap, &vx_m, &vx_h, vx_q, new_archetype_index as int, entity_id);
    assert(vx_m.pages@[vx_p].ids().len() > 0);
    assert(self.pages@[vx_p].blk() == vx_m.pages@[vx_p].blk());
    self.lemma_page(vx_q); self.lemma_page(vx_p);
    if vx_p != vx_q { if vx_p < vx_q { assert(self.pages@[vx_p].blk() != self.pages@[vx_q].blk()); } else { assert(self.pages@[vx_q].blk() != self.pages@[vx_p].blk()); } }
}
@epilogue
proof {
    assert(self.archetypes@[new_archetype_index as int].tys() == new_archetype.tys());
    assert forall|t: TypeId| vx_s.arch(vx_p).has(t) && new_archetype.has(t) implies #[trigger] self.val(heap, vx_q, vx_j, t) == vx_s.val(&vx_h, vx_p, vx_i, t) by {
        assert(cell(heap, self.blk(vx_q), new_archetype, self.lay(vx_q), t, vx_j) == cell(&vx_g, self.blk(vx_p), vx_s.arch(vx_p), vx_s.lay(vx_p), t, vx_i));
        assert(self.val(heap, vx_q, vx_j, t) == cell(heap, self.blk(vx_q), new_archetype, self.lay(vx_q), t, vx_j));
        assert(vx_m.vals_kept(&vx_h, &vx_s, &vx_h));
        assert(cell(&vx_g, self.blk(vx_p), vx_s.arch(vx_p), vx_s.lay(vx_p), t, vx_i) == vx_s.val(&vx_h, vx_p, vx_i, t)) by { assert(vx_h.live(vx_s.pages@[vx_p].blk())); }
    }
    assert forall|q: int, r: int, t: TypeId| 0 <= q < vx_s.len() && 0 <= r < vx_s.ids(q).len() && vx_s.arch(q).has(t) implies #[trigger] self.val(heap, q, r, t) == vx_s.val(&vx_h, q, r, t) by {
        assert(self.val(&vx_g, q, r, t) == vx_m.val(&vx_h, q, r, t));
        assert(vx_m.pages@[q].ids().len() > 0);
        assert(self.pages@[q].blk() == vx_s.pages@[q].blk());
        self.lemma_page(q);
        if q != vx_q { if q < vx_q { assert(self.pages@[q].blk() != self.pages@[vx_q].blk()); } else { assert(self.pages@[vx_q].blk() != self.pages@[q].blk()); } lemma_cell_place(self.arch(q), self.lay(q), t, r); }
        else { assert(cell(heap, self.blk(q), new_archetype, self.lay(q), t, r) == cell(&vx_g, self.blk(q), new_archetype, self.lay(q), t, r)); }
    }
}
@@fn ArchetypesContainer::get_page_view_unchecked(self, page_index) -> r
@props C05 C06 C13
@requires
self.wf(), page_index < self.len(), self.listed(page_index as int),
@ensures
r.archetype == self.arch(page_index as int), r.layout == self.lay(page_index as int), *r.page == self.pages@[page_index as int], r.ok(),
@@fn ArchetypesContainer::get_archetypes(self) -> r
@props C06 C13
@ensures
r@ == self.archetypes@,
@@fn ArchetypesContainer::get_archetype_with_layout_unchecked(self, archetype_index) -> r
@props C06 C09 C10 C13
@requires
self.wf(), archetype_index < self.archs(),
@ensures
*r.0 == self.archetypes@[archetype_index as int], *r.1 == self.layouts@[archetype_index as int],
@@fn ArchetypesContainer::get_pages(self) -> r
@props C06 C13
@ensures
r@ == self.pages@,
@@fn ArchetypesContainer::get_page_by_index_unchecked(self, page_index) -> r
@props C06 C09 C10 C13
@requires
page_index < self.len(),
@ensures
*r == self.pages@[page_index as int],
@@fn ArchetypesContainer::get_archetype_page_indices(self, archetype_index) -> r
@props C06 C13
@requires
self.wf(), archetype_index < self.archs(),
@ensures
r@ == self.list(archetype_index as int),
@@fn ArchetypesContainer::get_archetype_index_by_page(self, page_index) -> r
@props C06 C09 C10 C13
@requires
self.wf(), page_index < self.len(),
@ensures
r == self.arch_of(page_index as int),
@@fn ArchetypesContainer::get_archetype_by_page(self, page_index) -> r
@props C06 C09 C10 C13
@requires
self.wf(), page_index < self.len(), self.listed(page_index as int),
@ensures
r == self.arch(page_index as int),
@@fn ArchetypesContainer::free_page(self, page_index)
@props C03 C06 C09 C10 C13
@requires
old(self).wf(), page_index < old(self).len(), old(self).ids(page_index as int).len() == 0, old(self).listed(page_index as int),
@ensures
final(self).wf(), final(self).pages == old(self).pages, final(self).archetypes == old(self).archetypes, final(self).layouts == old(self).layouts, final(self).page_to_archetype == old(self).page_to_archetype,
@prologue
let ghost vx_s = *self;
let ghost vx_a = self.arch_of(page_index as int);
let ghost vx_l = self.list(vx_a);
proof { assert(member(vx_l, page_index as int)); }
@loop 0
@invariant_except_break
arch_pages.pages@ == vx_l, self.free_archetypes@ == vx_s.free_archetypes@,
forall|k: int| 0 <= k < vx_n0 ==> #[trigger] vx_l[k] != page_index,
@invariant
vx_end0 == vx_l.len(), *final(arch_pages) == vx_f,
@loopbefore
let ghost vx_f = *final(arch_pages);
@loopensures
gone(vx_l, page_index, arch_pages.pages@),
self.free_archetypes@ =~= (if vx_l.len() == 1 { vx_s.free_archetypes@.push(archetype_index) } else { vx_s.free_archetypes@ }),
@loopafter
proof {
    let i = choose|i: int| 0 <= i < vx_l.len() && vx_l[i] == page_index && #[trigger] vx_l.remove(i) == arch_pages.pages@;
    lemma_without(vx_l, i);
}
@@fn ArchetypesContainer::reserve_archetype(self, archetype) -> r
@props C03 C05 C06 C09 C10 C13
@requires
old(self).wf(), archetype.wf(), archetype.component_count <= 4096,
@ensures
final(self).wf(), r < final(self).archs(), !member(final(self).free_archetypes@, r as int),
final(self).archetypes@[r as int].tys() == archetype.tys(),
final(self).pages == old(self).pages, final(self).page_to_archetype == old(self).page_to_archetype, final(self).free_pages == old(self).free_pages,
final(self).archs() >= old(self).archs(),
forall|a: int| 0 <= a < old(self).archs() ==> (#[trigger] final(self).archetype_to_pages@[a]).pages@ == old(self).list(a),
forall|a: int| 0 <= a < old(self).archs() && (#[trigger] old(self).archetype_to_pages@[a]).pages@.len() > 0 ==> final(self).archetypes@[a] == old(self).archetypes@[a] && final(self).layouts@[a] == old(self).layouts@[a],
@prologue
let ghost vx_s = *self;
@loop 0
@invariant
*self == vx_s,
@loop 1
@invariant_except_break
vx_r1 is None, forall|k: int| 0 <= k < vx_n1 ==> #[trigger] self.free_archetypes@[k] != i,
@loopensures
vx_r1 is Some ==> vx_r1->0 < self.free_archetypes@.len() && self.free_archetypes@[vx_r1->0 as int] == i, 
vx_r1 is None ==> forall|k: int| 0 <= k < self.free_archetypes@.len() ==> #[trigger] self.free_archetypes@[k] != i,
@loopafter
proof {
    if vx_r1 is Some { lemma_without(self.free_archetypes@, vx_r1->0 as int); }
    assert forall|k: int| 0 <= k < self.free_archetypes@.len() implies member(self.free_archetypes@, #[trigger] self.free_archetypes@[k] as int) by {}
}
@@fn ArchetypesContainer::reserve_page(self, entity_id, archetype_index) -> r
@props C03 C05 C06 C09 C10 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).wf(), old(self).mem(old(heap)), archetype_index < old(self).archs(), old(self).len() < u32::MAX, !member(old(self).free_archetypes@, archetype_index as int),
@ensures
final(self).wf(), final(self).mem(final(heap)), heap_ext(final(heap), old(heap)),
[C03]
final(self).appended(old(self), r.page_index as int, archetype_index as int, entity_id), r.index_in_page == final(self).ids(r.page_index as int).len() - 1,
final(self).archetypes == old(self).archetypes, final(self).layouts == old(self).layouts,
[C13]
forall|b: int| #[trigger] final(heap).live(b) == (old(heap).live(b) || final(self).owns(b)),
@prologue
let ghost vx_s = *self;
@loop 0
@invariant
self.pages@ =~= vx_s.pages@,
@loopafter
proof {
    assert(self.archetypes@[archetype_index as int].wf());
    if self.free_pages@.len() > 0 { let f = self.free_pages@.last() as int; assert(self.free_pages@[self.free_pages@.len() - 1] == f); assert(vx_s.ids(f).len() == 0); assert(vx_s.pages@[f].ids() =~= Seq::<u32>::empty()); }
}
@epilogue
proof {
    let p = r.page_index as int; let a = archetype_index as int; let l = vx_s.list(a);
    lemma_with(l, p as usize);
    if member(l, p) { let k = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == p; assert(vx_s.page_ok(a, vx_s.archetype_to_pages@[a].pages@[k] as int)); }
}
