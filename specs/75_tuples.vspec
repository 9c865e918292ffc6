@@module component_tuple
@@use crate::component_type::*
@@use crate::archetype::*
@@use crate::archetype_builder::*
@@use crate::tag_container::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@raw
broadcast use {axiom_tid, axiom_tsize, lemma_pos};
/// the columns of these component types
pub open spec fn offs_of(a: &Archetype, l: &ArchetypeLayout, ts: Seq<TypeId>) -> Seq<int> { Seq::new(ts.len(), |i: int| l.off(pos(a.tys(), ts[i]))) }
/// row `row` of these columns is inside the page, and aligned
pub open spec fn col_fits(o: int, t: TypeId, row: int) -> bool { 0 <= o && 0 <= row * tsize(t) && o + row * tsize(t) + tsize(t) <= page_size() && (o + row * tsize(t)) % talign(t) == 0 && page_size() % talign(t) == 0 }
pub open spec fn offs_fit(o: Seq<int>, ts: Seq<TypeId>, row: int) -> bool { o.len() == ts.len() && forall|i: int| 0 <= i < o.len() ==> col_fits(#[trigger] o[i], ts[i], row) }
/// where the cells of row `row` are
pub open spec fn row_locs(b: int, o: Seq<int>, ts: Seq<TypeId>, row: int) -> Seq<Loc> { Seq::new(ts.len(), |i: int| Loc { blk: b, off: o[i] + row * tsize(ts[i]) }) }
/// n rows further
pub open spec fn moved(p: Seq<Loc>, ts: Seq<TypeId>, n: int) -> Seq<Loc> { Seq::new(p.len(), |i: int| Loc { blk: p[i].blk, off: p[i].off + n * tsize(ts[i]) }) }
pub open spec fn can_move(p: Seq<Loc>, ts: Seq<TypeId>, n: int) -> bool { n == 0 || forall|i: int| 0 <= i < p.len() ==> 0 <= (#[trigger] p[i]).off && p[i].off + n * tsize(ts[i]) <= blk_size(p[i].blk) }
/// values of these types can be there
pub open spec fn placed(p: Seq<Loc>, ts: Seq<TypeId>) -> bool { p.len() == ts.len() && forall|i: int| 0 <= i < p.len() ==> place_ok(#[trigger] p[i], tsize(ts[i]), talign(ts[i])) }
/// these places do not overlap
pub open spec fn apart(p: Seq<Loc>, ts: Seq<TypeId>) -> bool { forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j ==> (#[trigger] p[i]).blk != (#[trigger] p[j]).blk || p[i].off + tsize(ts[i]) <= p[j].off || p[j].off + tsize(ts[j]) <= p[i].off }
/// outside of these places
pub open spec fn outside(b: int, o: int, m: int, p: Seq<Loc>, ts: Seq<TypeId>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).blk != b || o + m <= p[i].off || p[i].off + tsize(ts[i]) <= o }
/// the cells of row `row`
pub open spec fn cells(b: int, a: &Archetype, l: &ArchetypeLayout, ts: Seq<TypeId>, row: int) -> Seq<Loc> { Seq::new(ts.len(), |i: int| Loc { blk: b, off: at(a, l, ts[i], row) }) }
pub open spec fn has_all(a: &Archetype, ts: Seq<TypeId>) -> bool { forall|i: int| 0 <= i < ts.len() ==> a.has(#[trigger] ts[i]) }
pub proof fn lemma_fit(a: &Archetype, l: &ArchetypeLayout, ts: Seq<TypeId>, row: int)
    requires a.wf(), l.lays(a), 0 <= row < l.entities_capacity, has_all(a, ts),
    ensures offs_fit(offs_of(a, l, ts), ts, row), forall|b: int| #[trigger] row_locs(b, offs_of(a, l, ts), ts, row) =~= cells(b, a, l, ts, row),
{
    let o = offs_of(a, l, ts);
    assert forall|i: int| 0 <= i < o.len() implies col_fits(#[trigger] o[i], ts[i], row) by { assert(a.has(ts[i])); lemma_cell_place(a, l, ts[i], row); }
}
@@trait ComponentTuple
    /// the identities of its component types
    spec fn types() -> Seq<TypeId>;
    /// the columns
    spec fn offs(o: Self::OffsetTuple) -> Seq<int>;
    /// where the pointers and references point to
    spec fn locs(r: Self::RefTuple) -> Seq<Loc>;
    spec fn mlocs(r: Self::MutRefTuple) -> Seq<Loc>;
    spec fn plocs(p: Self::PtrTuple) -> Seq<Loc>;
    spec fn mplocs(p: Self::MutPtrTuple) -> Seq<Loc>;
    /// the representations of the components
    spec fn reps(self) -> Seq<Seq<u8>>;
    proof fn lens(o: Self::OffsetTuple, p: Self::PtrTuple, q: Self::MutPtrTuple) ensures Self::offs(o).len() == Self::types().len(), Self::plocs(p).len() == Self::types().len(), Self::mplocs(q).len() == Self::types().len();
@@trait impl tuple
    open spec fn types() -> Seq<TypeId> { seq![#[[tid_of::<T#i>()]],*] }
    open spec fn offs(o: Self::OffsetTuple) -> Seq<int> { seq![#[[o#acc as int]],*] }
    open spec fn locs(r: Self::RefTuple) -> Seq<Loc> { seq![#[[r#acc@]],*] }
    open spec fn mlocs(r: Self::MutRefTuple) -> Seq<Loc> { seq![#[[r#acc@]],*] }
    open spec fn plocs(p: Self::PtrTuple) -> Seq<Loc> { seq![#[[p#acc@]],*] }
    open spec fn mplocs(p: Self::MutPtrTuple) -> Seq<Loc> { seq![#[[p#acc@]],*] }
    proof fn lens(o: Self::OffsetTuple, p: Self::PtrTuple, q: Self::MutPtrTuple) {}
    open spec fn reps(self) -> Seq<Seq<u8>> { seq![#[[encode(self#acc)]],*] }
@@fn tuple::into_archetype() -> r
@before sort 0
let ghost vx_s0 = components@;
proof { assert(cids(vx_s0) =~= Self::types()); assert(cids_distinct(vx_s0)) by { assert forall|i: int, j: int| 0 <= i < j < vx_s0.len() implies (#[trigger] vx_s0[i]).id != (#[trigger] vx_s0[j]).id by { assert(cids(vx_s0)[i] != cids(vx_s0)[j]); } } }
@after sort 0
proof { lemma_sorted(vx_s0, components@); }
@@fn tuple::is_archetype_include_types(archetype) -> r
@prologue
proof { let vx_ts = [#[[tid_of::<T#i>()]],*]; assert(vx_ts@ =~= Self::types()); assert(Self::types().len() == #n); }
@@fn tuple::add_components_to_archetype_builder(builder) -> r
@before include_component_types 0
proof { assert(cids(components@) =~= Self::types()); }
@@fn tuple::remove_components_from_archetype_builder(builder) -> r
@before exclude_component_types 0
proof { assert(cids(components@) =~= Self::types()); }
@@fn ComponentTuple::into_archetype() -> r
@props C12 C13
@requires
Self::types().no_duplicates(),
@ensures
r.wf(),
forall|t: TypeId| #[trigger] r.has(t) == has_tid(Self::types(), t),
@@fn ComponentTuple::is_archetype_include_types(archetype) -> r
@props C12 C04 C13 C06 C09 C10
@requires
archetype.wf(), Self::types().no_duplicates(),
@ensures
r == has_all(archetype, Self::types()),
@@fn ComponentTuple::add_components_to_archetype_builder(builder) -> r
@props C12 C13
@requires
old(builder).wf(),
@ensures
*final(builder) == *final(r), r.wf(),
r.component_types@.len() <= old(builder).component_types@.len() + Self::types().len(),
forall|t: TypeId| #[trigger] r.has(t) == (old(builder).has(t) || has_tid(Self::types(), t)),
@@fn ComponentTuple::remove_components_from_archetype_builder(builder) -> r
@props C12 C13
@requires
old(builder).wf(),
@ensures
*final(builder) == *final(r), r.wf(),
r.component_types@.len() <= old(builder).component_types@.len(),
forall|t: TypeId| #[trigger] r.has(t) == (old(builder).has(t) && !has_tid(Self::types(), t)),
@@fn tuple::get_offsets_unchecked(archetype, layout) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(archetype.has(Self::types()[#i])); assert(layout.offsets@[pos(archetype.tys(), tid_of::<T#i>())] is Some);]] }
@@fn ComponentTuple::get_offsets_unchecked(archetype, layout) -> r
@props C05 C13
@requires
archetype.wf(), layout.lays(archetype), has_all(archetype, Self::types()),
@ensures
[C05]
Self::offs(r) =~= offs_of(archetype, layout, Self::types()),
@@fn tuple::get_offsets(archetype, layout) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); if archetype.has(tid_of::<T#i>()) { assert(layout.offsets@[pos(archetype.tys(), tid_of::<T#i>())] is Some); }]] }
@@fn ComponentTuple::get_offsets(archetype, layout) -> r
@props C05 C04 C13 C06 C09 C10
@requires
archetype.wf(), layout.lays(archetype),
@ensures
[C04]
r is Some == has_all(archetype, Self::types()),
[C05]
r is Some ==> Self::offs(r->0) =~= offs_of(archetype, layout, Self::types()),
@@fn tuple::get_refs(page, entity_index, offsets) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(col_fits(Self::offs(*offsets)[#i], Self::types()[#i], entity_index as int));]] }
@@fn ComponentTuple::get_refs(page, entity_index, offsets) -> r
@props C05
@requires
page.wf(), offs_fit(Self::offs(*offsets), Self::types(), entity_index as int),
@ensures
[C05]
Self::locs(r) =~= row_locs(page.blk(), Self::offs(*offsets), Self::types(), entity_index as int),
@@fn tuple::get_refs_mut(page, entity_index, offsets) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(col_fits(Self::offs(*offsets)[#i], Self::types()[#i], entity_index as int));]] }
@@fn ComponentTuple::get_refs_mut(page, entity_index, offsets) -> r
@props C05
@requires
page.wf(), offs_fit(Self::offs(*offsets), Self::types(), entity_index as int),
@ensures
[C05]
Self::mlocs(r) =~= row_locs(page.blk(), Self::offs(*offsets), Self::types(), entity_index as int),
@@fn tuple::get_ptrs(page, offsets) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(col_fits(Self::offs(*offsets)[#i], Self::types()[#i], 0));]] }
@@fn ComponentTuple::get_ptrs(page, offsets) -> r
@props C05 C06 C09 C10
@requires
page.wf(), offs_fit(Self::offs(*offsets), Self::types(), 0),
@ensures
[C05]
Self::plocs(r) =~= row_locs(page.blk(), Self::offs(*offsets), Self::types(), 0),
@@fn tuple::get_ptrs_mut(page, offsets) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(col_fits(Self::offs(*offsets)[#i], Self::types()[#i], 0));]] }
@@fn ComponentTuple::get_ptrs_mut(page, offsets) -> r
@props C05 C06 C09 C10
@requires
page.wf(), offs_fit(Self::offs(*offsets), Self::types(), 0),
@ensures
[C05]
Self::mplocs(r) =~= row_locs(page.blk(), Self::offs(*offsets), Self::types(), 0),
@@fn tuple::add_to_ptrs(ptrs, entity_index) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(Self::plocs(*ptrs)[#i] == ptrs#acc@);]] }
@@fn ComponentTuple::add_to_ptrs(ptrs, entity_index) -> r
@props C05 C06 C09 C10
@requires
can_move(Self::plocs(*ptrs), Self::types(), entity_index as int),
@ensures
[C05]
Self::plocs(r) =~= moved(Self::plocs(*ptrs), Self::types(), entity_index as int),
@@fn tuple::add_to_ptrs_mut(ptrs, entity_index) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(Self::mplocs(*ptrs)[#i] == ptrs#acc@);]] }
@@fn ComponentTuple::add_to_ptrs_mut(ptrs, entity_index) -> r
@props C05 C06 C09 C10
@requires
can_move(Self::mplocs(*ptrs), Self::types(), entity_index as int),
@ensures
[C05]
Self::mplocs(r) =~= moved(Self::mplocs(*ptrs), Self::types(), entity_index as int),
@@fn ComponentTuple::null_ptrs() -> r
@props C05
@@fn ComponentTuple::null_ptrs_mut() -> r
@props C05
@@fn tuple::ptrs_to_refs(ptrs) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(Self::plocs(ptrs)[#i] == ptrs#acc@);]] }
@@fn ComponentTuple::ptrs_to_refs(ptrs) -> r
@props C05 C06 C09 C10
@requires
placed(Self::plocs(ptrs), Self::types()),
@ensures
[C05]
Self::locs(r) =~= Self::plocs(ptrs),
@@fn tuple::ptrs_to_refs_mut(ptrs) -> r
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(Self::mplocs(ptrs)[#i] == ptrs#acc@);]] }
@@fn ComponentTuple::ptrs_to_refs_mut(ptrs) -> r
@props C05 C06 C09 C10
@requires
placed(Self::mplocs(ptrs), Self::types()),
@ensures
[C05]
Self::mlocs(r) =~= Self::mplocs(ptrs),
@@fn tuple::assign_to_refs(refs, values)
@prologue
proof { #[[assert(Self::types()[#i] == tid_of::<T#i>()); assert(Self::mlocs(refs)[#i] == refs#acc@); assert(Self::reps(values)[#i] == encode(values#acc));]] }
@@fn ComponentTuple::assign_to_refs(refs, values)
@props C05 C03
@ghost heap: mut PageHeap
@heap Tracked(heap)
@requires
placed(Self::mlocs(refs), Self::types()), apart(Self::mlocs(refs), Self::types()), forall|i: int| 0 <= i < Self::mlocs(refs).len() ==> old(heap).live((#[trigger] Self::mlocs(refs)[i]).blk),
@ensures
[C05 C03]
forall|i: int| 0 <= i < Self::types().len() ==> final(heap).bytes((#[trigger] Self::mlocs(refs)[i]).blk, Self::mlocs(refs)[i].off, tsize(Self::types()[i])) == Self::reps(values)[i],
forall|b: int| #[trigger] final(heap).live(b) == old(heap).live(b),
forall|b: int, o: int, m: int| m >= 0 && outside(b, o, m, Self::mlocs(refs), Self::types()) ==> #[trigger] final(heap).bytes(b, o, m) == old(heap).bytes(b, o, m),
