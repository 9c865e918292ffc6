@@module archetype_data_page_view
@@use crate::archetype::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@use crate::component_tuple::*
@@use crate::tag_container::*
@@raw
impl<'a> ArchetypeDataPageView<'a> {
    pub open spec fn ok(&self) -> bool { self.archetype.wf() && self.layout.lays(self.archetype) && self.page.wf() }
}
@@fn ArchetypeDataPageView::get_components_refs(self, page_entity_index) -> r
@props C05 C03 C04
@requires
self.ok(), page_entity_index < self.layout.entities_capacity,
@ensures
[C04 C03]
r is Some == has_all(self.archetype, T::types()),
[C05 C03]
r is Some ==> T::locs(r->0) =~= cells(self.page.blk(), self.archetype, self.layout, T::types(), page_entity_index as int),
@prologue
proof { if has_all(self.archetype, T::types()) { lemma_fit(self.archetype, self.layout, T::types(), page_entity_index as int); } }
@@fn ArchetypeDataPageView::get_components_refs_mut(self, page_entity_index) -> r
@props C05 C03 C04
@requires
self.ok(), page_entity_index < self.layout.entities_capacity,
@ensures
[C04 C03]
r is Some == has_all(self.archetype, T::types()),
[C05 C03]
r is Some ==> T::mlocs(r->0) =~= cells(self.page.blk(), self.archetype, self.layout, T::types(), page_entity_index as int),
@prologue
proof { if has_all(self.archetype, T::types()) { lemma_fit(self.archetype, self.layout, T::types(), page_entity_index as int); } }
@@fn ArchetypeDataPageView::get_components_refs_mut_unchecked(self, page_entity_index) -> r
@props C05 C03
@requires
self.ok(), page_entity_index < self.layout.entities_capacity, has_all(self.archetype, T::types()),
@ensures
[C05 C03]
T::mlocs(r) =~= cells(self.page.blk(), self.archetype, self.layout, T::types(), page_entity_index as int),
@prologue
proof { lemma_fit(self.archetype, self.layout, T::types(), page_entity_index as int); }
@@module query::access
@@use crate::archetype::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@use crate::component_tuple::*
@@use crate::tag_container::*
@@raw
pub proof fn lemma_two(o1: Seq<int>, o2: Seq<int>, t1: Seq<TypeId>, t2: Seq<TypeId>, row: int)
    requires o1.len() == t1.len(), o2.len() == t2.len(),
    ensures
        offs_fit(o1 + o2, t1 + t2, row) ==> offs_fit(o1, t1, row) && offs_fit(o2, t2, row),
        forall|b: int| #[trigger] row_locs(b, o1 + o2, t1 + t2, row) =~= row_locs(b, o1, t1, row) + row_locs(b, o2, t2, row),
{
    let (o, t) = (o1 + o2, t1 + t2);
    if offs_fit(o, t, row) {
        assert forall|i: int| 0 <= i < o1.len() implies col_fits(#[trigger] o1[i], t1[i], row) by { assert(o[i] == o1[i] && t[i] == t1[i]); }
        assert forall|i: int| 0 <= i < o2.len() implies col_fits(#[trigger] o2[i], t2[i], row) by { assert(o[o1.len() + i] == o2[i] && t[o1.len() + i] == t2[i]); }
    }
}
pub proof fn lemma_two_move(p1: Seq<Loc>, p2: Seq<Loc>, t1: Seq<TypeId>, t2: Seq<TypeId>, n: int)
    requires p1.len() == t1.len(), p2.len() == t2.len(),
    ensures
        can_move(p1 + p2, t1 + t2, n) ==> can_move(p1, t1, n) && can_move(p2, t2, n),
        moved(p1 + p2, t1 + t2, n) =~= moved(p1, t1, n) + moved(p2, t2, n),
        placed(p1 + p2, t1 + t2) ==> placed(p1, t1) && placed(p2, t2),
{
    let (p, t) = (p1 + p2, t1 + t2);
    assert forall|i: int| 0 <= i < p1.len() implies #[trigger] p1[i] == p[i] && t1[i] == t[i] by {}
    assert forall|i: int| 0 <= i < p2.len() implies #[trigger] p2[i] == p[p1.len() + i] && t2[i] == t[p1.len() + i] by {}
}
pub proof fn lemma_two_has(a: &Archetype, t1: Seq<TypeId>, t2: Seq<TypeId>)
    ensures has_all(a, t1 + t2) == (has_all(a, t1) && has_all(a, t2)), forall|l: &ArchetypeLayout| #[trigger] offs_of(a, l, t1 + t2) =~= offs_of(a, l, t1) + offs_of(a, l, t2),
{
    let t = t1 + t2;
    if has_all(a, t) {
        assert forall|i: int| 0 <= i < t1.len() implies a.has(#[trigger] t1[i]) by { assert(t[i] == t1[i]); }
        assert forall|i: int| 0 <= i < t2.len() implies a.has(#[trigger] t2[i]) by { assert(t[t1.len() + i] == t2[i]); }
    }
}
@@trait ComponentQueryAccess
    /// the identities of the component types it reaches
    spec fn types() -> Seq<TypeId>;
    /// no type is asked for twice in one tuple
    spec fn distinct() -> bool;
    spec fn offs(o: Self::OffsetTuple) -> Seq<int>;
    spec fn locs(r: Self::AccessOutput) -> Seq<Loc>;
    spec fn plocs(p: Self::PtrTuple) -> Seq<Loc>;
@@trait impl ReadonlyAccess
    open spec fn types() -> Seq<TypeId> { TRead::types() }
    open spec fn distinct() -> bool { TRead::types().no_duplicates() }
    open spec fn offs(o: Self::OffsetTuple) -> Seq<int> { TRead::offs(o) }
    open spec fn locs(r: Self::AccessOutput) -> Seq<Loc> { TRead::locs(r) }
    open spec fn plocs(p: Self::PtrTuple) -> Seq<Loc> { TRead::plocs(p) }
@@trait impl WriteAccess
    open spec fn types() -> Seq<TypeId> { TWrite::types() }
    open spec fn distinct() -> bool { TWrite::types().no_duplicates() }
    open spec fn offs(o: Self::OffsetTuple) -> Seq<int> { TWrite::offs(o) }
    open spec fn locs(r: Self::AccessOutput) -> Seq<Loc> { TWrite::mlocs(r) }
    open spec fn plocs(p: Self::PtrTuple) -> Seq<Loc> { TWrite::mplocs(p) }
@@trait impl ReadWriteAccess
    open spec fn types() -> Seq<TypeId> { TRead::types() + TWrite::types() }
    open spec fn distinct() -> bool { TRead::types().no_duplicates() && TWrite::types().no_duplicates() }
    open spec fn offs(o: Self::OffsetTuple) -> Seq<int> { TRead::offs(o.0) + TWrite::offs(o.1) }
    open spec fn locs(r: Self::AccessOutput) -> Seq<Loc> { TRead::locs(r.0) + TWrite::mlocs(r.1) }
    open spec fn plocs(p: Self::PtrTuple) -> Seq<Loc> { TRead::plocs(p.0) + TWrite::mplocs(p.1) }
@@fn ReadWriteAccess::is_archetype_include_types(archetype) -> r
@prologue
proof { lemma_two_has(archetype, TRead::types(), TWrite::types()); }
@@fn ComponentQueryAccess::is_archetype_include_types(archetype) -> r
@props C04 C06 C13 C09 C10
@requires
archetype.wf(), Self::distinct(),
@ensures
[C04 C06]
r == has_all(archetype, Self::types()),
@@fn ReadWriteAccess::get_refs(page, entity_index, offsets) -> r
@prologue
proof { TRead::lens(offsets.0, arbitrary(), arbitrary()); TWrite::lens(offsets.1, arbitrary(), arbitrary()); lemma_two(TRead::offs(offsets.0), TWrite::offs(offsets.1), TRead::types(), TWrite::types(), entity_index as int); }
@@fn ComponentQueryAccess::get_refs(page, entity_index, offsets) -> r
@props C05 C06 C09 C10
@requires
page.wf(), offs_fit(Self::offs(*offsets), Self::types(), entity_index as int),
@ensures
[C05 C06]
Self::locs(r) =~= row_locs(page.blk(), Self::offs(*offsets), Self::types(), entity_index as int),
@@fn ReadWriteAccess::get_offsets(archetype, layout) -> r
@prologue
proof { lemma_two_has(archetype, TRead::types(), TWrite::types()); }
@@fn ComponentQueryAccess::get_offsets(archetype, layout) -> r
@props C05 C06 C09 C10
@requires
archetype.wf(), layout.lays(archetype), has_all(archetype, Self::types()),
@ensures
[C05 C06]
Self::offs(r) =~= offs_of(archetype, layout, Self::types()),
@@fn ReadWriteAccess::get_ptrs(page, offsets) -> r
@prologue
proof { TRead::lens(offsets.0, arbitrary(), arbitrary()); TWrite::lens(offsets.1, arbitrary(), arbitrary()); lemma_two(TRead::offs(offsets.0), TWrite::offs(offsets.1), TRead::types(), TWrite::types(), 0); }
@@fn ComponentQueryAccess::get_ptrs(page, offsets) -> r
@props C05 C06 C09 C10
@requires
page.wf(), offs_fit(Self::offs(*offsets), Self::types(), 0),
@ensures
[C05 C06]
Self::plocs(r) =~= row_locs(page.blk(), Self::offs(*offsets), Self::types(), 0),
@@fn ReadWriteAccess::add_to_ptrs(ptrs, entity_index) -> r
@prologue
proof { TRead::lens(arbitrary(), ptrs.0, arbitrary()); TWrite::lens(arbitrary(), arbitrary(), ptrs.1); lemma_two_move(TRead::plocs(ptrs.0), TWrite::mplocs(ptrs.1), TRead::types(), TWrite::types(), entity_index as int); }
@@fn ComponentQueryAccess::add_to_ptrs(ptrs, entity_index) -> r
@props C05 C06 C09 C10
@requires
can_move(Self::plocs(*ptrs), Self::types(), entity_index as int),
@ensures
[C05 C06]
Self::plocs(r) =~= moved(Self::plocs(*ptrs), Self::types(), entity_index as int),
@@fn ComponentQueryAccess::null_ptrs() -> r
@props C05 C06 C09 C10
@@fn ReadWriteAccess::ptrs_to_refs(ptrs) -> r
@prologue
proof { TRead::lens(arbitrary(), ptrs.0, arbitrary()); TWrite::lens(arbitrary(), arbitrary(), ptrs.1); lemma_two_move(TRead::plocs(ptrs.0), TWrite::mplocs(ptrs.1), TRead::types(), TWrite::types(), 0); }
@@fn ComponentQueryAccess::ptrs_to_refs(ptrs) -> r
@props C05 C06 C09 C10
@requires
placed(Self::plocs(ptrs), Self::types()),
@ensures
[C05 C06]
Self::locs(r) =~= Self::plocs(ptrs),
