@@module archetype_layout
@@use crate::archetype::*
@@use crate::tag_container::*
@@use crate::mem_utils::*
@@raw
broadcast use {group_sizes, axiom_tid, axiom_tsize, lemma_pos};
pub open spec fn page_size() -> int { ArchetypeDataPage::PAGE_SIZE_BYTES as int }
/// a power of two not above the page size divides it
pub proof fn lemma_divides_page(a: int)
    requires pow2(a), 1 <= a <= page_size(),
    ensures page_size() % a == 0int,
{
    vstd::arithmetic::power2::is_pow2_equiv(a);
    let e = choose|e: nat| a == vstd::arithmetic::power::pow(2, e);
    vstd::arithmetic::power2::lemma_pow2(e);
    vstd::arithmetic::power2::lemma2_to64();
    if e > 14 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(14, e); }
    let d = (14 - e) as nat;
    vstd::arithmetic::power2::lemma_pow2_adds(e, d);
    let q = vstd::arithmetic::power2::pow2(d) as int;
    assert(16384 == a * q);
    assert((a * q) % a == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, a); assert(q * a == a * q) by (nonlinear_arith); }
}
/// the remainder of a power of two by eight
pub proof fn lemma_rem8(a: int)
    requires pow2(a), 1 <= a,
    ensures 0 <= a % 8 <= 4,
{
    vstd::arithmetic::power2::is_pow2_equiv(a);
    let e = choose|e: nat| a == vstd::arithmetic::power::pow(2, e);
    vstd::arithmetic::power2::lemma_pow2(e);
    vstd::arithmetic::power2::lemma2_to64();
    if e >= 3 {
        let d = (e - 3) as nat;
        vstd::arithmetic::power2::lemma_pow2_adds(3, d);
        let q = vstd::arithmetic::power2::pow2(d) as int;
        assert(a == q * 8) by (nonlinear_arith) requires a == 8 * q;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, 8);
    } else { assert(e == 0 || e == 1 || e == 2); }
}
/// rounding up to a multiple
pub proof fn lemma_round_up(o: int, a: int)
    requires 0 <= o, a > 0,
    ensures 0 <= o % a < a, o % a != 0 ==> (o + (a - o % a)) % a == 0,
        ((o + a - 1) / a) * a == (if o % a == 0 { o } else { o + (a - o % a) }), a * ((o + a - 1) / a) == ((o + a - 1) / a) * a,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, a);
    let q = o / a;
    assert(o + (a - o % a) == (q + 1) * a) by (nonlinear_arith) requires o == a * q + o % a;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, a);
    let m = o % a;
    if m == 0 {
        assert(o + a - 1 == q * a + (a - 1)) by (nonlinear_arith) requires o == a * q + m, m == 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(o + a - 1, a, q, a - 1);
    } else {
        assert(o + a - 1 == (q + 1) * a + (m - 1)) by (nonlinear_arith) requires o == a * q + m;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(o + a - 1, a, q + 1, m - 1);
    }
    assert(q * a == a * q && (q + 1) * a == a * q + a) by (nonlinear_arith);
    assert(a * ((o + a - 1) / a) == ((o + a - 1) / a) * a) by (nonlinear_arith);
}
pub proof fn lemma_quarter(n: int)
    requires 0 < n <= 4096,
    ensures page_size() / n >= 4, page_size() / n <= page_size(),
{
    assert(16384int / n >= 4 && 16384int / n <= 16384) by (nonlinear_arith) requires 0 < n <= 4096;
}
impl ArchetypeLayout {
    /// where the cells of the i-th type begin
    pub open spec fn off(&self, i: int) -> int { self.offsets@[i].unwrap() as int }
    pub open spec fn wf(&self) -> bool {
        0 < self.component_count <= 4096 && owned(self.offsets, self.component_count as int) && all_init(self.offsets@)
    }
    /// it places entities_capacity rows of the types of a in a page: aligned, inside and apart
    pub open spec fn lays(&self, a: &Archetype) -> bool {
        &&& self.wf()
        &&& self.component_count == a.component_count
        &&& 0 < self.entities_capacity <= page_size()
        &&& forall|i: int| 0 <= i < a.tys().len() ==> column_ok(self.off(i), self.entities_capacity as int, #[trigger] a.tys()[i])
        &&& forall|i: int, j: int| 0 <= i < j < a.tys().len() ==> #[trigger] self.off(i) + self.entities_capacity * tsize(a.tys()[i]) <= #[trigger] self.off(j)
    }
}
pub open spec fn column_ok(off: int, cap: int, t: TypeId) -> bool {
    &&& tsize(t) > 0
    &&& off % talign(t) == 0
    &&& page_size() % talign(t) == 0
    &&& off + cap * tsize(t) <= page_size()
}
pub open spec fn all_some(s: Seq<Option<usize>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some }
@@fn ArchetypeLayout::new(source_archetype) -> r
@props C05 C13
@opt assert=refuse
@requires
source_archetype.wf(), source_archetype.component_count <= 4096,
@ensures
r.wf(),
[C05]
r.lays(source_archetype),
@before calculate_entities_capacity 0
proof {
    assert forall|i: int| 0 <= i < component_count implies 1 <= (#[trigger] aligns@[i]).unwrap() <= 0x2000_0000 && pow2(aligns@[i].unwrap() as int) by { assert(source_archetype.aligns@[i] == Some(talign(source_archetype.tys()[i]) as usize)); }
}
@before calculate_offsets 0
proof {
    assert forall|i: int| 0 <= i < component_count implies (#[trigger] sizes@[i]).unwrap() * entities_capacity <= page_size() by { let z = sizes@[i].unwrap() as int; assert(z * entities_capacity == entities_capacity * z) by (nonlinear_arith); }
}
@epilogue
proof {
    let a = source_archetype;
    let n = component_count as int;
    assert forall|i: int| 0 <= i < a.tys().len() implies column_ok(r.off(i), r.entities_capacity as int, #[trigger] a.tys()[i]) by {
        let t = a.tys()[i];
        assert(a.sizes@[i] == Some(tsize(t) as usize) && a.aligns@[i] == Some(talign(t) as usize));
        assert(r.offsets@[i] is Some);
        let (z, c, al) = (tsize(t), r.entities_capacity as int, talign(t));
        assert(z <= page_size()) by (nonlinear_arith) requires c * z <= page_size(), c >= 1, z > 0;
        assert(al <= z) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, al); assert(z >= al) by (nonlinear_arith) requires z == al * (z / al) + z % al, z % al == 0, z > 0, al > 0; }
        lemma_divides_page(al);
    }
    assert forall|i: int, j: int| 0 <= i < j < a.tys().len() implies #[trigger] r.off(i) + r.entities_capacity * tsize(a.tys()[i]) <= #[trigger] r.off(j) by {
        assert(a.sizes@[i] == Some(tsize(a.tys()[i]) as usize));
        assert(r.offsets@[i] is Some && r.offsets@[j] is Some);
    }
}
@@fn ArchetypeLayout::calculate_entities_capacity(sizes, aligns, component_count) -> r
@props C05 C13
@opt div=refuse
@requires
0 < component_count <= 4096, sizes@.len() == component_count, aligns@.len() == component_count, all_some(sizes@), all_some(aligns@),
forall|i: int| 0 <= i < component_count ==> 1 <= (#[trigger] aligns@[i]).unwrap() <= 0x2000_0000 && pow2(aligns@[i].unwrap() as int),
@ensures
r <= page_size(),
forall|i: int| 0 <= i < component_count ==> (#[trigger] sizes@[i]).unwrap() > 0 && r * sizes@[i].unwrap() <= page_size(),
@prologue
let ghost vx_sz = sizes@; let ghost vx_al = aligns@;
@loop 0
@invariant
vx_end0 == component_count, vx_n0 > 0 ==> vx_r0 is Some,
vx_r0 is Some ==> 1 <= vx_r0->0 <= 0x2000_0000 && pow2(vx_r0->0 as int),
@loopstart
proof { assert(vx_al[vx_k0 as int] is Some); }
@loopafter
proof { lemma_rem8(vx_r0->0 as int); lemma_quarter(component_count as int); }
@loop 1
@loopbefore
let ghost vx_b = bytes_per_components_row_approx as int;
@invariant
vx_end1 == component_count, vx_n1 > 0 ==> vx_r1 is Some,
vx_r1 is Some ==> vx_r1->0 <= page_size(),
forall|i: int| 0 <= i < vx_n1 ==> (#[trigger] vx_sz[i]).unwrap() > 0 && vx_r1->0 * vx_sz[i].unwrap() <= page_size(),
@loopend
proof {
    let z = vx_sz[vx_k1 as int].unwrap() as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(vx_b, z);
    assert(vx_x1 * z <= vx_b && vx_x1 <= vx_b) by (nonlinear_arith) requires z > 0, vx_b == z * (vx_b / z) + vx_b % z, vx_b % z >= 0, vx_x1 == vx_b / z, vx_b >= 0;
    assert forall|i: int| 0 <= i < vx_n1 implies (#[trigger] vx_sz[i]).unwrap() > 0 && vx_r1->0 * vx_sz[i].unwrap() <= page_size() by {
        let w = vx_sz[i].unwrap() as int;
        if i < vx_k1 { let m = vx_m0; assert(m * w <= page_size()); assert(vx_r1->0 * w <= m * w) by (nonlinear_arith) requires vx_r1->0 <= m, w >= 0; }
        else { assert(vx_r1->0 * w <= vx_x1 * w) by (nonlinear_arith) requires vx_r1->0 <= vx_x1, w >= 0; }
    }
}
@loopstart
let ghost vx_m0 = if vx_r1 is Some { vx_r1->0 as int } else { 0 };
proof { assert(vx_sz[vx_k1 as int] is Some); }
@@fn ArchetypeLayout::calculate_offsets(sizes, aligns, component_count, entities_capacity) -> r
@props C05 C13
@ptr r=own
@opt assert=refuse
@requires
0 < component_count <= 4096, sizes@.len() == component_count, aligns@.len() == component_count, all_some(sizes@), all_some(aligns@),
forall|i: int| 0 <= i < component_count ==> 1 <= (#[trigger] aligns@[i]).unwrap() <= 0x2000_0000,
forall|i: int| 0 <= i < component_count ==> (#[trigger] sizes@[i]).unwrap() * entities_capacity <= page_size(),
@ensures
owned(r, component_count as int), all_init(r@),
[C05]
forall|i: int| 0 <= i < component_count ==> (#[trigger] r@[i]).unwrap() % aligns@[i].unwrap() == 0 && r@[i].unwrap() + entities_capacity * sizes@[i].unwrap() <= page_size(),
forall|i: int, j: int| 0 <= i < j < component_count ==> (#[trigger] r@[i]).unwrap() + entities_capacity * sizes@[i].unwrap() <= (#[trigger] r@[j]).unwrap(),
@prologue
proof { lemma_fits(component_count as int); }
@loop 0
@invariant
owned(component_offsets, component_count as int), vx_end0 == component_count,
offset <= vx_n0 * 0x2001_0000,
forall|k: int| 0 <= k < vx_n0 ==> (#[trigger] component_offsets@[k]) is Some,
forall|k: int| 0 <= k < vx_n0 ==> (#[trigger] component_offsets@[k]).unwrap() % aligns@[k].unwrap() == 0 && component_offsets@[k].unwrap() + entities_capacity * sizes@[k].unwrap() <= offset,
forall|k: int, j: int| 0 <= k < j < vx_n0 ==> (#[trigger] component_offsets@[k]).unwrap() + entities_capacity * sizes@[k].unwrap() <= (#[trigger] component_offsets@[j]).unwrap(),
@loopstart
proof {
    assert(sizes@[vx_k0 as int] is Some && aligns@[vx_k0 as int] is Some);
    let (z, c) = (sizes@[vx_k0 as int].unwrap() as int, entities_capacity as int);
    assert(z * c == c * z) by (nonlinear_arith);
    lemma_round_up(offset as int, aligns@[vx_k0 as int].unwrap() as int);
}
@@fn ArchetypeLayout::entities_capacity(self) -> r
@props C05
@ensures
r == self.entities_capacity,
@@fn ArchetypeLayout::component_offsets(self) -> r
@props C05 C13
@requires
self.wf(),
@ensures
r@ == self.offsets@,
@@fn ArchetypeLayout::drop(self)
@props C13
@requires
old(self).wf(),
@ensures
!final(self).offsets.live(),
@prologue
proof { lemma_fits(self.component_count as int); }
@@module archetype_data_page
@@use crate::archetype::*
@@use crate::archetype_layout::*
@@use crate::tag_container::*
@@raw
broadcast use {axiom_tid, axiom_tsize, lemma_pos};
pub proof fn lemma_page_pow2() ensures pow2(page_size()), page_size() <= isize::MAX as int - isize::MAX as int % page_size()
{
    vstd::arithmetic::power2::lemma2_to64();
    vstd::arithmetic::power2::is_pow2_equiv(page_size());
    vstd::arithmetic::power2::lemma_pow2(14);
    assert(vstd::arithmetic::power::pow(2, 14) == page_size());
}
impl ArchetypeDataPage {
    pub open spec fn blk(&self) -> int { self.components_data_ptr@.blk }
    pub open spec fn ids(&self) -> Seq<u32> { self.entities_ids@ }
    /// it has a block of its own of the page's size and alignment
    pub open spec fn wf(&self) -> bool {
        &&& self.components_data_ptr@.off == 0
        &&& blk_size(self.blk()) == page_size()
        &&& blk_align(self.blk()) == page_size()
    }
}
/// where the component of type t of row r begins
pub open spec fn at(a: &Archetype, l: &ArchetypeLayout, t: TypeId, r: int) -> int { l.off(pos(a.tys(), t)) + r * tsize(t) }
/// its bytes
pub open spec fn cell(h: &PageHeap, b: int, a: &Archetype, l: &ArchetypeLayout, t: TypeId, r: int) -> Seq<u8> { h.bytes(b, at(a, l, t, r), tsize(t)) }
/// a component's cell is aligned for its type and inside the page
pub proof fn lemma_cell_place(a: &Archetype, l: &ArchetypeLayout, t: TypeId, r: int)
    requires l.lays(a), a.has(t), 0 <= r < l.entities_capacity,
    ensures 0 <= l.off(pos(a.tys(), t)) <= at(a, l, t, r), at(a, l, t, r) + tsize(t) <= page_size(), at(a, l, t, r) % talign(t) == 0, page_size() % talign(t) == 0, tsize(t) > 0, 0 <= r * tsize(t),
{
    let i = pos(a.tys(), t);
    assert(column_ok(l.off(i), l.entities_capacity as int, a.tys()[i]));
    let (c, s, o, al) = (l.entities_capacity as int, tsize(t), l.off(i), talign(t));
    assert(r * s + s <= c * s && 0 <= r * s) by (nonlinear_arith) requires 0 <= r < c, s > 0;
    assert((o + r * s) % al == 0) by {
        let q = s / al; let p = o / al;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, al);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, al);
        assert(o + r * s == (p + r * q) * al) by (nonlinear_arith) requires s == al * q, o == al * p;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p + r * q, al);
    }
}
/// different cells of a page are apart
pub proof fn lemma_cells_apart(a: &Archetype, l: &ArchetypeLayout, t: TypeId, r: int, u: TypeId, q: int)
    requires l.lays(a), a.has(t), a.has(u), 0 <= r < l.entities_capacity, 0 <= q < l.entities_capacity, t != u || r != q,
    ensures at(a, l, t, r) + tsize(t) <= at(a, l, u, q) || at(a, l, u, q) + tsize(u) <= at(a, l, t, r),
{
    let (i, j) = (pos(a.tys(), t), pos(a.tys(), u));
    let (c, s, v) = (l.entities_capacity as int, tsize(t), tsize(u));
    assert(column_ok(l.off(i), c, a.tys()[i]) && column_ok(l.off(j), c, a.tys()[j]));
    assert(r * s + s <= c * s && 0 <= r * s) by (nonlinear_arith) requires 0 <= r < c, s > 0;
    assert(q * v + v <= c * v && 0 <= q * v) by (nonlinear_arith) requires 0 <= q < c, v > 0;
    if t == u {
        if r < q { assert(r * s + s <= q * s) by (nonlinear_arith) requires r < q, s > 0; } else { assert(q * s + s <= r * s) by (nonlinear_arith) requires q < r, s > 0; }
    } else if i < j {
        assert(l.off(i) + c * tsize(a.tys()[i]) <= l.off(j));
    } else {
        assert(i != j);
        assert(l.off(j) + c * tsize(a.tys()[j]) <= l.off(i));
    }
}
pub proof fn lemma_pos_of(a: &Archetype, i: int)
    requires a.wf(), 0 <= i < a.tys().len(),
    ensures a.has(a.tys()[i]), pos(a.tys(), a.tys()[i]) == i, a.sizes@[i] == Some(tsize(a.tys()[i]) as usize), a.tys().len() == a.component_count,
{
    let t = a.tys()[i];
    assert(has_tid(a.tys(), t));
    let j = pos(a.tys(), t);
    if i < j { assert(a.tys()[i].i < a.tys()[j].i); }
    if j < i { assert(a.tys()[j].i < a.tys()[i].i); }
}
/// writing one cell leaves the others
pub proof fn lemma_write_cell(h: &PageHeap, old: &PageHeap, b: int, a: &Archetype, l: &ArchetypeLayout, t: TypeId, row: int)
    requires l.lays(a), a.has(t), 0 <= row < l.entities_capacity, h.kept(old, Loc { blk: b, off: at(a, l, t, row) }, tsize(t)),
    ensures rows_kept(h, old, b, a, l, row), forall|u: TypeId| a.has(u) && u != t ==> #[trigger] cell(h, b, a, l, u, row) == cell(old, b, a, l, u, row),
{
    assert forall|u: TypeId, q: int| a.has(u) && 0 <= q < l.entities_capacity && (u != t || q != row) implies #[trigger] cell(h, b, a, l, u, q) == cell(old, b, a, l, u, q) by {
        lemma_cells_apart(a, l, t, row, u, q);
        lemma_cell_place(a, l, u, q);
    }
}
/// rows other than `row` of the page in block b are as they were, and so is every other block
pub open spec fn rows_kept(h: &PageHeap, old: &PageHeap, b: int, a: &Archetype, l: &ArchetypeLayout, row: int) -> bool {
    &&& forall|x: int| #[trigger] h.live(x) == old.live(x)
    &&& forall|x: int, o: int, m: int| m >= 0 && x != b ==> #[trigger] h.bytes(x, o, m) == old.bytes(x, o, m)
    &&& forall|t: TypeId, r: int| a.has(t) && 0 <= r < l.entities_capacity && r != row ==> #[trigger] cell(h, b, a, l, t, r) == cell(old, b, a, l, t, r)
}
@@fn ArchetypeDataPage::new() -> r
@props C05 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@ensures
r.wf(), r.ids().len() == 0, r.entity_capacity == 0,
!old(heap).live(r.blk()),
forall|b: int| #[trigger] final(heap).live(b) == (old(heap).live(b) || b == r.blk()),
forall|b: int, o: int, m: int| b != r.blk() ==> #[trigger] final(heap).bytes(b, o, m) == old(heap).bytes(b, o, m),
@@fn ArchetypeDataPage::memory_layout() -> r
@props C05 C13
@ensures
r.size == page_size(), r.align == page_size(),
@prologue
proof { lemma_page_pow2(); }
@@fn ArchetypeDataPage::set_layout(self, archetype)
@props C05 C13
@requires
archetype.wf(),
@ensures
final(self).entity_capacity == archetype.entities_capacity, final(self).ids() == old(self).ids(), final(self).components_data_ptr == old(self).components_data_ptr,
@@fn ArchetypeDataPage::entity_count(self) -> r
@props C05 C06 C09 C10 C13
@ensures
r == self.ids().len(),
@@fn ArchetypeDataPage::entity_capacity(self) -> r
@props C05 C13
@ensures
r == self.entity_capacity,
@@fn ArchetypeDataPage::entity_id_ptrs(self) -> r
@props C06 C09 C10 C13
@ensures
r@.len() == self.ids().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == Some(self.ids()[i]),
@@fn ArchetypeDataPage::has_free_space(self) -> r
@props C05 C13
@ensures
r == (self.ids().len() < self.entity_capacity),
@@fn ArchetypeDataPage::add_entity_id(self, id) -> r
@props C05 C03 C06 C09 C10 C13
@requires
old(self).ids().len() < old(self).entity_capacity,
@ensures
r == old(self).ids().len(), final(self).ids() == old(self).ids().push(id), final(self).entity_capacity == old(self).entity_capacity, final(self).components_data_ptr == old(self).components_data_ptr,
@@fn ArchetypeDataPage::swap_remove_entity_at_index(self, index, archetype, layout) -> r
@props C03 C05 C06 C09 C10 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).wf(), archetype.wf(), layout.lays(archetype), index < old(self).ids().len() <= layout.entities_capacity, old(heap).live(old(self).blk()),
@ensures
final(self).ids() == old(self).ids().update(index as int, old(self).ids().last()).drop_last(),
final(self).entity_capacity == old(self).entity_capacity, final(self).components_data_ptr == old(self).components_data_ptr,
r is Some == (index < old(self).ids().len() - 1), r is Some ==> r->0.id_to_replace == old(self).ids().last(),
[C03 C05]
rows_kept(final(heap), old(heap), old(self).blk(), archetype, layout, index as int),
forall|t: TypeId| archetype.has(t) ==> #[trigger] cell(final(heap), old(self).blk(), archetype, layout, t, index as int) == cell(old(heap), old(self).blk(), archetype, layout, t, old(self).ids().len() - 1),
@@fn ArchetypeDataPage::move_component_data(self, src_entity_index, dst_entity_index, archetype, layout)
@props C03 C05 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).wf(), archetype.wf(), layout.lays(archetype), src_entity_index < layout.entities_capacity, dst_entity_index < layout.entities_capacity, src_entity_index != dst_entity_index, old(heap).live(old(self).blk()),
@ensures
*final(self) == *old(self),
[C03 C05]
rows_kept(final(heap), old(heap), old(self).blk(), archetype, layout, dst_entity_index as int),
forall|t: TypeId| archetype.has(t) ==> #[trigger] cell(final(heap), old(self).blk(), archetype, layout, t, dst_entity_index as int) == cell(old(heap), old(self).blk(), archetype, layout, t, src_entity_index as int),
@loop 0
@invariant
vx_end0 == archetype.component_count, sizes@ == archetype.sizes@, offsets@ == layout.offsets@, *self == *old(self),
rows_kept(heap, old(heap), self.blk(), archetype, layout, dst_entity_index as int),
forall|k: int| 0 <= k < vx_n0 ==> cell(heap, self.blk(), archetype, layout, #[trigger] archetype.tys()[k], dst_entity_index as int) == cell(old(heap), self.blk(), archetype, layout, archetype.tys()[k], src_entity_index as int),
@loopstart
let ghost vx_h = *heap;
let ghost vx_t = archetype.tys()[vx_k0 as int];
proof {
    lemma_pos_of(archetype, vx_k0 as int);
    lemma_cell_place(archetype, layout, vx_t, src_entity_index as int);
    lemma_cell_place(archetype, layout, vx_t, dst_entity_index as int);
    lemma_cells_apart(archetype, layout, vx_t, src_entity_index as int, vx_t, dst_entity_index as int);
    assert(layout.offsets@[vx_k0 as int] is Some);
}
@loopend
proof {
    lemma_write_cell(heap, &vx_h, self.blk(), archetype, layout, vx_t, dst_entity_index as int);
    assert(cell(heap, self.blk(), archetype, layout, vx_t, dst_entity_index as int) == cell(&vx_h, self.blk(), archetype, layout, vx_t, src_entity_index as int));
    assert(cell(&vx_h, self.blk(), archetype, layout, vx_t, src_entity_index as int) == cell(old(heap), self.blk(), archetype, layout, vx_t, src_entity_index as int));
    assert forall|k: int| 0 <= k < vx_n0 implies cell(heap, self.blk(), archetype, layout, #[trigger] archetype.tys()[k], dst_entity_index as int) == cell(old(heap), self.blk(), archetype, layout, archetype.tys()[k], src_entity_index as int) by {
        if k < vx_k0 { assert(archetype.tys()[k].i < vx_t.i); lemma_pos_of(archetype, k); }
    }
}
@epilogue
proof { assert forall|t: TypeId| archetype.has(t) implies #[trigger] cell(heap, self.blk(), archetype, layout, t, dst_entity_index as int) == cell(old(heap), self.blk(), archetype, layout, t, src_entity_index as int) by { assert(archetype.tys()[pos(archetype.tys(), t)] == t); } }
@@fn ArchetypeDataPage::copy_component_data_to_page_with_new_archetype(src, dst, src_entity_index, dst_entity_index, src_archetype, dst_archetype, src_layout, dst_layout)
@props C03 C05 C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
src.wf(), dst.wf(), src_archetype.wf(), dst_archetype.wf(), src_layout.lays(src_archetype), dst_layout.lays(dst_archetype),
src_entity_index < src_layout.entities_capacity, dst_entity_index < dst_layout.entities_capacity, old(heap).live(src.blk()), old(heap).live(dst.blk()),
src.blk() != dst.blk() || src_archetype.tys() =~= dst_archetype.tys() && src_layout.offsets@ == dst_layout.offsets@ && src_layout.entities_capacity == dst_layout.entities_capacity && src_entity_index != dst_entity_index,
@ensures
[C03 C05]
rows_kept(final(heap), old(heap), dst.blk(), dst_archetype, dst_layout, dst_entity_index as int),
forall|t: TypeId| src_archetype.has(t) && dst_archetype.has(t) ==> #[trigger] cell(final(heap), dst.blk(), dst_archetype, dst_layout, t, dst_entity_index as int) == cell(old(heap), src.blk(), src_archetype, src_layout, t, src_entity_index as int),
@after calculate 0
let ghost vx_x = arch_union.lhs_indices@; let ghost vx_y = arch_union.rhs_indices@;
proof {
    if src.blk() == dst.blk() {
        assert forall|t: TypeId| src_archetype.has(t) implies #[trigger] cell(old(heap), src.blk(), src_archetype, src_layout, t, src_entity_index as int) == cell(old(heap), dst.blk(), dst_archetype, dst_layout, t, src_entity_index as int) by { assert(src_archetype.tys() =~= dst_archetype.tys()); }
    }
}
@loop 0
@invariant
vx_end0 == vx_x.len(), 
rows_kept(heap, old(heap), dst.blk(), dst_archetype, dst_layout, dst_entity_index as int),
forall|k: int| 0 <= k < vx_n0 ==> cell(heap, dst.blk(), dst_archetype, dst_layout, src_archetype.tys()[#[trigger] vx_x[k] as int], dst_entity_index as int) == cell(old(heap), src.blk(), src_archetype, src_layout, src_archetype.tys()[vx_x[k] as int], src_entity_index as int),
@loopstart
let ghost vx_h = *heap;
let ghost vx_t = src_archetype.tys()[vx_x[vx_k0 as int] as int];
proof {
    assert(vx_x[vx_k0 as int] < src_archetype.tys().len());
    lemma_pos_of(src_archetype, vx_x[vx_k0 as int] as int);
    lemma_pos_of(dst_archetype, vx_y[vx_k0 as int] as int);
    lemma_cell_place(src_archetype, src_layout, vx_t, src_entity_index as int);
    lemma_cell_place(dst_archetype, dst_layout, vx_t, dst_entity_index as int);
    if src.blk() == dst.blk() {
        assert(src_archetype.tys() =~= dst_archetype.tys());
        lemma_cells_apart(dst_archetype, dst_layout, vx_t, src_entity_index as int, vx_t, dst_entity_index as int);
        assert(cell(&vx_h, dst.blk(), dst_archetype, dst_layout, vx_t, src_entity_index as int) == cell(old(heap), dst.blk(), dst_archetype, dst_layout, vx_t, src_entity_index as int));
    }
    assert(cell(&vx_h, src.blk(), src_archetype, src_layout, vx_t, src_entity_index as int) == cell(old(heap), src.blk(), src_archetype, src_layout, vx_t, src_entity_index as int));
    assert(src_layout.offsets@[vx_x[vx_k0 as int] as int] is Some);
    assert(dst_layout.offsets@[vx_y[vx_k0 as int] as int] is Some);
}
@loopend
proof {
    lemma_write_cell(heap, &vx_h, dst.blk(), dst_archetype, dst_layout, vx_t, dst_entity_index as int);
    assert(cell(heap, dst.blk(), dst_archetype, dst_layout, vx_t, dst_entity_index as int) == cell(&vx_h, src.blk(), src_archetype, src_layout, vx_t, src_entity_index as int));
    assert forall|k: int| 0 <= k < vx_n0 implies cell(heap, dst.blk(), dst_archetype, dst_layout, src_archetype.tys()[#[trigger] vx_x[k] as int], dst_entity_index as int) == cell(old(heap), src.blk(), src_archetype, src_layout, src_archetype.tys()[vx_x[k] as int], src_entity_index as int) by {
        let u = src_archetype.tys()[vx_x[k] as int];
        if k < vx_k0 && u != vx_t { assert(vx_x[k] < src_archetype.tys().len()); lemma_pos_of(dst_archetype, vx_y[k] as int); }
    }
}
@epilogue
proof {
    assert forall|t: TypeId| src_archetype.has(t) && dst_archetype.has(t) implies #[trigger] cell(heap, dst.blk(), dst_archetype, dst_layout, t, dst_entity_index as int) == cell(old(heap), src.blk(), src_archetype, src_layout, t, src_entity_index as int) by {
        let (i, j) = (pos(src_archetype.tys(), t), pos(dst_archetype.tys(), t));
        assert(paired(vx_x, vx_y, i, j));
        let k = choose|k: int| 0 <= k < vx_x.len() && k < vx_y.len() && #[trigger] vx_x[k] == i && vx_y[k] == j;
        assert(src_archetype.tys()[vx_x[k] as int] == t);
    }
}
@@fn ArchetypeDataPage::get_component_data_ptr_mut(self, entity_index, component_offset, type_size) -> r
@props C05 C13
@requires
self.wf(), component_offset + entity_index * type_size <= page_size(),
@ensures
r@ == (Loc { blk: self.blk(), off: component_offset + entity_index * type_size }),
@@fn ArchetypeDataPage::get_component_data_ptr(self, entity_index, component_offset, type_size) -> r
@props C05 C13
@requires
self.wf(), component_offset + entity_index * type_size <= page_size(),
@ensures
r@ == (Loc { blk: self.blk(), off: component_offset + entity_index * type_size }),
@@fn ArchetypeDataPage::drop(self)
@props C13
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
old(self).wf(), old(heap).live(old(self).blk()),
@ensures
[C13]
!final(heap).live(old(self).blk()),
[*]
forall|b: int| #[trigger] final(heap).live(b) == (old(heap).live(b) && b != old(self).blk()),
forall|b: int, o: int, m: int| b != old(self).blk() ==> #[trigger] final(heap).bytes(b, o, m) == old(heap).bytes(b, o, m),
