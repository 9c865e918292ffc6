@@module query::component_page_iter_view
@@use crate::archetype::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@use crate::archetypes_container::*
@@use crate::query::access::*
@@use crate::component_tuple::*
@@use crate::tag_container::*
@@raw
broadcast use {axiom_tid, axiom_tsize, lemma_pos};
/// an entity, and where its components are
pub type Item = (u32, Seq<Loc>);
impl<T: ComponentQueryAccess> ComponentPageIterView<T> {
    /// where the components in row r are
    pub open spec fn at(&self, r: int) -> Seq<Loc> { moved(T::plocs(self.ptrs), T::types(), r) }
    pub open spec fn id(&self, r: int) -> u32 { self.entity_ids@[r].unwrap() }
    /// every row can be read
    pub open spec fn ok(&self) -> bool {
        &&& self.entity_ids@.len() == self.entity_count
        &&& forall|r: int| 0 <= r < self.entity_count ==> (#[trigger] self.entity_ids@[r]) is Some
        &&& forall|r: int| #![trigger moved(T::plocs(self.ptrs), T::types(), r)] 0 <= r < self.entity_count ==> placed(moved(T::plocs(self.ptrs), T::types(), r), T::types())
        &&& forall|r: int| 0 <= r < self.entity_count ==> #[trigger] can_move(T::plocs(self.ptrs), T::types(), r)
    }
    /// its rows are those of this page
    pub open spec fn of(&self, pg: &ArchetypeDataPage, a: &Archetype, l: &ArchetypeLayout) -> bool {
        &&& self.ok() && self.entity_count == pg.ids().len()
        &&& forall|r: int| 0 <= r < self.entity_count ==> #[trigger] self.entity_ids@[r] == Some(pg.ids()[r])
        &&& forall|r: int| #![trigger moved(T::plocs(self.ptrs), T::types(), r)] 0 <= r < self.entity_count ==> moved(T::plocs(self.ptrs), T::types(), r) == cells(pg.blk(), a, l, T::types(), r)
    }
    /// it shows page p
    pub open spec fn shows(&self, c: &ArchetypesContainer, p: int) -> bool { 0 <= p < c.len() && c.ids(p).len() > 0 && has_all(c.arch(p), T::types()) && self.of(&c.pages@[p], c.arch(p), c.lay(p)) }
    pub open spec fn item(&self, r: int) -> Item { (self.id(r), self.at(r)) }
    /// its rows from row r on
    pub open spec fn rows_from(&self, r: int) -> Seq<Item> { Seq::new((self.entity_count - r) as nat, |i: int| self.item(r + i)) }
    pub proof fn lemma_of(&self, pg: &ArchetypeDataPage, a: &Archetype, l: &ArchetypeLayout)
        requires
            pg.wf(), a.wf(), l.lays(a), has_all(a, T::types()), pg.ids().len() <= l.entities_capacity,
            T::plocs(self.ptrs) == row_locs(pg.blk(), offs_of(a, l, T::types()), T::types(), 0),
            self.entity_count == pg.ids().len(), self.entity_ids@.len() == pg.ids().len(),
            forall|r: int| 0 <= r < self.entity_count ==> #[trigger] self.entity_ids@[r] == Some(pg.ids()[r]),
        ensures self.of(pg, a, l),
    {
        assert forall|r: int| #![trigger moved(T::plocs(self.ptrs), T::types(), r)] 0 <= r < self.entity_count implies moved(T::plocs(self.ptrs), T::types(), r) == cells(pg.blk(), a, l, T::types(), r) && placed(moved(T::plocs(self.ptrs), T::types(), r), T::types()) by { lemma_row_at(pg, a, l, T::types(), r); }
        assert forall|r: int| 0 <= r < self.entity_count implies #[trigger] can_move(T::plocs(self.ptrs), T::types(), r) by { lemma_row_at(pg, a, l, T::types(), r); }
    }
}
/// the r-th row after the first is row r
pub proof fn lemma_row_at(pg: &ArchetypeDataPage, a: &Archetype, l: &ArchetypeLayout, ts: Seq<TypeId>, r: int)
    requires pg.wf(), a.wf(), l.lays(a), has_all(a, ts), 0 <= r < l.entities_capacity,
    ensures ({ let p = row_locs(pg.blk(), offs_of(a, l, ts), ts, 0); moved(p, ts, r) == cells(pg.blk(), a, l, ts, r) && can_move(p, ts, r) && placed(moved(p, ts, r), ts) }),
{
    let (o, b) = (offs_of(a, l, ts), pg.blk());
    let p = row_locs(b, o, ts, 0);
    lemma_fit(a, l, ts, r);
    lemma_fit(a, l, ts, 0);
    assert(moved(p, ts, r) =~= row_locs(b, o, ts, r));
    let m = moved(p, ts, r);
    assert forall|i: int| 0 <= i < p.len() implies 0 <= (#[trigger] p[i]).off && p[i].off + r * tsize(ts[i]) <= blk_size(p[i].blk) && place_ok(m[i], tsize(ts[i]), talign(ts[i])) by {
        assert(col_fits(o[i], ts[i], r) && col_fits(o[i], ts[i], 0));
        lemma_cell_place(a, l, ts[i], r);
        assert(m[i] == cells(b, a, l, ts, r)[i]);
    }
    assert forall|i: int| 0 <= i < m.len() implies place_ok(#[trigger] m[i], tsize(ts[i]), talign(ts[i])) by { assert(p[i].blk == b); }
}
@@fn ComponentPageIterView::clone(self) -> r
@props C06
@ensures
r == *self,
@@fn ComponentPageIterView::new(page, component_offsets) -> r
@props C06 C09 C10 C13
@requires
page.wf(), offs_fit(T::offs(*component_offsets), T::types(), 0),
@ensures
T::plocs(r.ptrs) =~= row_locs(page.blk(), T::offs(*component_offsets), T::types(), 0), r.entity_count == page.ids().len(), r.entity_ids@.len() == page.ids().len(),
forall|i: int| 0 <= i < page.ids().len() ==> #[trigger] r.entity_ids@[i] == Some(page.ids()[i]),
@@fn ComponentPageIterView::empty() -> r
@props C06 C13
@ensures
r.entity_count == 0, r.ok(),
@@module query::component_page_iter
@@use crate::query::access::*
@@use crate::query::component_page_iter_view::*
@@use crate::component_tuple::*
@@raw
impl<'a, T: ComponentQueryAccess> ComponentPageIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.view.ok() && self.next_entity_index <= self.view.entity_count }
    pub open spec fn rest(&self) -> Seq<Item> { self.view.rows_from(self.next_entity_index as int) }
}
@@fn ComponentPageIter::new(view) -> r
@props C06 C13
@requires
view.ok(),
@ensures
r.wf(), r.view == view, r.next_entity_index == 0,
@@fn ComponentPageIter::empty() -> r
@props C06 C13
@ensures
r.wf(), r.view.entity_count == 0, r.next_entity_index == 0,
@@fn ComponentPageIter::current_entity_id(self) -> r
@props C06 C13
@requires
self.wf(), self.next_entity_index >= 1,
@ensures
[C06]
r == self.view.id(self.next_entity_index - 1),
@@fn ComponentPageIter::next(self) -> r
@props C06 C13
@requires
old(self).wf(),
@ensures
final(self).wf(), final(self).view == old(self).view,
[C06]
r is None == (old(self).rest().len() == 0), r is None ==> final(self).next_entity_index == old(self).next_entity_index,
r is Some ==> final(self).next_entity_index == old(self).next_entity_index + 1 && final(self).rest() =~= old(self).rest().drop_first() && T::locs(r->0) == old(self).rest()[0].1,
@before add_to_ptrs 0
proof { assert(moved(T::plocs(self.view.ptrs), T::types(), self.next_entity_index as int) == self.view.at(self.next_entity_index as int)); }
@@fn ComponentPageIter::len(self) -> r
@props C06 C13
@ensures
r == self.view.entity_count,
@@module query::component
@@use crate::archetype::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@use crate::archetypes_container::*
@@use crate::entities_container::*
@@use crate::mem_utils::*
@@use crate::bitvec_utils::*
@@use crate::query::access::*
@@use crate::query::component_page_iter_view::*
@@use crate::query::component_page_iter::*
@@use crate::component_tuple::*
@@use crate::tag_container::*
@@use crate::store::*
@@raw
/// the rows of the pages from the k-th on
pub open spec fn items<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, k: int) -> Seq<Item> decreases v.len() - k {
    if 0 <= k < v.len() { v[k].rows_from(0) + items(v, k + 1) } else { Seq::<Item>::empty() }
}
pub proof fn lemma_push<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, x: ComponentPageIterView<T>, k: int)
    requires 0 <= k <= v.len(),
    ensures items(v.push(x), k) =~= items(v, k) + x.rows_from(0),
    decreases v.len() - k,
{
    let w = v.push(x);
    if k < v.len() { lemma_push(v, x, k + 1); assert(w[k] == v[k]); } else { assert(w[k] == x); assert(items(w, k + 1) =~= Seq::<Item>::empty()); assert(items(w, k) =~= x.rows_from(0) + items(w, k + 1)); }
}
/// what there is from the k-th page on is the rows of these pages
pub proof fn lemma_items<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, k: int)
    requires 0 <= k <= v.len(), forall|q: int| 0 <= q < v.len() ==> (#[trigger] v[q]).ok(),
    ensures
        forall|j: int| 0 <= j < items(v, k).len() ==> is_row(v, k, #[trigger] items(v, k)[j]),
        forall|q: int, r: int| k <= q < v.len() && 0 <= r < v[q].entity_count ==> items(v, k).contains(#[trigger] v[q].item(r)),
    decreases v.len() - k,
{
    if k < v.len() {
        lemma_items(v, k + 1);
        let (a, b, s) = (v[k].rows_from(0), items(v, k + 1), items(v, k));
        assert(s == a + b);
        assert forall|j: int| 0 <= j < s.len() implies is_row(v, k, #[trigger] s[j]) by {
            if j < a.len() { assert(s[j] == v[k].item(j)); } else { assert(s[j] == b[j - a.len()]); assert(is_row(v, k + 1, b[j - a.len()])); let (q, r) = choose|q: int, r: int| k + 1 <= q < v.len() && 0 <= r < v[q].entity_count && b[j - a.len()] == #[trigger] v[q].item(r); assert(s[j] == v[q].item(r)); }
        }
        assert forall|q: int, r: int| k <= q < v.len() && 0 <= r < v[q].entity_count implies s.contains(#[trigger] v[q].item(r)) by {
            if q == k { assert(s[r] == a[r]); } else { let j = b.index_of(v[q].item(r)); assert(b.contains(v[q].item(r))); assert(s[a.len() + j] == v[q].item(r)); }
        }
    }
}
pub open spec fn is_row<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, k: int, x: Item) -> bool { exists|q: int, r: int| k <= q < v.len() && 0 <= r < v[q].entity_count && x == #[trigger] v[q].item(r) }
/// the pages ps are shown, each once
pub open spec fn lists<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, c: &ArchetypesContainer, ps: Seq<int>) -> bool {
    &&& v.len() == ps.len() && ps.no_duplicates()
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).shows(c, ps[k])
}
/// no entity is there twice
pub open spec fn once(s: Seq<Item>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub proof fn lemma_once<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, st: &Store, ps: Seq<int>, k: int)
    requires 0 <= k <= v.len(), st.wf(), lists(v, st.ac(), ps),
    ensures once(items(v, k)), forall|j: int| 0 <= j < items(v, k).len() ==> its_item::<T>(st, #[trigger] items(v, k)[j]),
    decreases v.len() - k,
{
    lemma_items(v, k);
    let s = items(v, k);
    assert forall|j: int| 0 <= j < s.len() implies its_item::<T>(st, #[trigger] s[j]) by {
        let (q, r) = choose|q: int, r: int| k <= q < v.len() && 0 <= r < v[q].entity_count && s[j] == #[trigger] v[q].item(r);
        lemma_row(v, st, ps, q, r);
    }
    if k < v.len() {
        lemma_once(v, st, ps, k + 1);
        lemma_items(v, k + 1);
        let (a, b) = (v[k].rows_from(0), items(v, k + 1));
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
            if i < a.len() {
                lemma_row(v, st, ps, k, i);
                assert(s[i] == v[k].item(i));
                if j < a.len() { lemma_row(v, st, ps, k, j); assert(s[j] == v[k].item(j)); }
                else {
                    assert(s[j] == b[j - a.len()]);
                    assert(is_row(v, k + 1, b[j - a.len()]));
                    let (q, r) = choose|q: int, r: int| k + 1 <= q < v.len() && 0 <= r < v[q].entity_count && s[j] == #[trigger] v[q].item(r);
                    lemma_row(v, st, ps, q, r);
                    assert(ps[q] != ps[k]);
                }
            } else { assert(s[i] == b[i - a.len()] && s[j] == b[j - a.len()]); }
        }
    }
}
/// a row that is shown is that of its entity
pub proof fn lemma_row<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, st: &Store, ps: Seq<int>, q: int, r: int)
    requires st.wf(), lists(v, st.ac(), ps), 0 <= q < v.len(), 0 <= r < v[q].entity_count,
    ensures its_item::<T>(st, v[q].item(r)), st.page(v[q].id(r) as int) == ps[q], st.row(v[q].id(r) as int) == r, v[q].id(r) < st.cap(),
{
    assert(v[q].shows(st.ac(), ps[q]));
    let pg = st.ac().pages@[ps[q]];
    assert(v[q].entity_ids@[r] == Some(pg.ids()[r]));
    let i = pg.ids()[r] as int;
    assert(st.its_row(st.archetypes_container.pages@[ps[q]].ids()[r] as int, ps[q], r));
    assert(v[q].at(r) == moved(T::plocs(v[q].ptrs), T::types(), r));
}
/// the entity has the components, and they are there
pub open spec fn its_item<T: ComponentQueryAccess>(st: &Store, x: Item) -> bool { st.wants(x.0 as int, T::types()) && x.1 == st.cells(x.0 as int, T::types()) }
impl Store {
    /// it exists and has all these components
    pub open spec fn wants(&self, i: int, ts: Seq<TypeId>) -> bool { 0 <= i < self.cap() && self.placed(i) && has_all(self.ac().arch(self.page(i)), ts) }
}
/// at most as many as there are ids
pub proof fn lemma_few(s: Seq<Item>, n: int)
    requires once(s), n >= 0, forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 < n,
    ensures s.len() <= n,
    decreases n,
{
    if n == 0 { if s.len() > 0 { assert(s[0].0 < 0); } }
    else if exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == n - 1 {
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == n - 1;
        let r = s.remove(j);
        assert forall|i: int, k: int| 0 <= i < k < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[k]).0 by { let (a, b) = (if i < j { i } else { i + 1 }, if k < j { k } else { k + 1 }); assert(r[i] == s[a] && r[k] == s[b]); }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 < n - 1 by { let a = if i < j { i } else { i + 1 }; assert(r[i] == s[a] && s[a].0 < n); if a < j { assert(s[a].0 != s[j].0); } else { assert(s[j].0 != s[a].0); } }
        lemma_few(r, n - 1);
    } else {
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 < n - 1 by { assert(s[j].0 < n); }
        lemma_few(s, n - 1);
    }
}
impl<'a, T: ComponentQueryAccess> ComponentsQueryIter<'a, T> {
    pub open spec fn on_page(&self) -> bool { self.current_page_index < self.page_views@.len() }
    pub open spec fn wf(&self) -> bool {
        &&& self.current_page_iter.wf() && self.page_views@.len() <= usize::MAX
        &&& forall|q: int| 0 <= q < self.page_views@.len() ==> (#[trigger] self.page_views@[q]).ok() && self.page_views@[q].entity_count > 0
        &&& if self.current_page_index < self.page_views@.len() { self.current_page_iter.view == self.page_views@[self.current_page_index as int] } else { self.current_page_iter.view.entity_count == 0 }
    }
    /// what it has still to yield
    pub open spec fn rest(&self) -> Seq<Item> { self.current_page_iter.rest() + items(self.page_views@, self.current_page_index + 1) }
}
impl<'a, T: ComponentQueryAccess> WithEntitiesIter<'a, T> {
    pub open spec fn wf(&self) -> bool {
        &&& self.source_iter.wf() && self.source_iter.store.wf() && self.source_iter.current_page_index < usize::MAX
        &&& forall|j: int| 0 <= j < self.source_iter.rest().len() ==> its_item::<T>(self.source_iter.store, #[trigger] self.source_iter.rest()[j])
        &&& self.entities_versions@ == self.source_iter.store.entities_container.entity_to_version@
    }
}
impl<'a, Q: ComponentQueryAccess> FilterTagIter<'a, Q> {
    pub open spec fn wf(&self) -> bool {
        &&& self.source_iter.wf()
        &&& self.entity_to_has_tag@.len() == words(self.source_iter.source_iter.store.cap()) && all_init(self.entity_to_has_tag@)
    }
    pub open spec fn tagged(&self, x: Item) -> bool { getb(self.entity_to_has_tag@, x.0 as int) }
    /// this is the first item that has the tag, and those after it are left
    pub open spec fn found(&self, e: Entity, l: Seq<Loc>, now: &Self) -> bool {
        let s = self.source_iter.source_iter.rest();
        exists|n: int| #![trigger self.source_iter.source_iter.rest()[n]] {
            &&& 0 <= n < s.len() && e.id == s[n].0 && l == s[n].1 && self.tagged(s[n])
            &&& forall|j: int| 0 <= j < n ==> !self.tagged(#[trigger] s[j])
            &&& now.source_iter.source_iter.rest() =~= s.skip(n + 1)
        }
    }
}
pub proof fn lemma_pushed(s: Seq<int>, x: int)
    ensures forall|y: int| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x),
{
    let r = s.push(x);
    assert forall|y: int| #[trigger] r.contains(y) == (s.contains(y) || y == x) by {
        if s.contains(y) { assert(r[s.index_of(y)] == y); }
        if y == x { assert(r[s.len() as int] == x); }
    }
}
pub open spec fn listed_before(s: Seq<usize>, n: int, p: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == p }
@@fn ComponentQuery::new() -> r
@props C06
@ensures
r.page_views@.len() == 0,
@@fn component::readonly() -> r
@props C06
@@fn component::write() -> r
@props C06
@@fn component::read_write() -> r
@props C06
@@fn Store::component_query_iter(self, query) -> r
@props C06 C13
@requires
self.wf(), T::distinct(),
@ensures
r.wf(), r.store == self, r.current_page_index == 0,
[C06]
once(r.rest()), forall|j: int| 0 <= j < r.rest().len() ==> its_item::<T>(self, #[trigger] r.rest()[j]),
forall|i: int| #[trigger] self.wants(i, T::types()) ==> r.rest().contains((i as u32, self.cells(i, T::types()))),
r.queried_entities_count == r.rest().len(),
@prologue
let ghost mut vx_ps = Seq::<int>::empty();
proof { assert(items(Seq::<ComponentPageIterView<T>>::empty(), 0) =~= Seq::<Item>::empty()); }
@loop 0
@invariant
self.wf(), T::distinct(), vx_end0 == self.ac().archs(),
lists(query.page_views@, self.ac(), vx_ps),
forall|k: int| 0 <= k < vx_ps.len() ==> self.ac().arch_of(#[trigger] vx_ps[k]) < vx_n0,
forall|p: int| 0 <= p < self.ac().len() && (#[trigger] self.archetypes_container.pages@[p]).ids().len() > 0 && self.ac().arch_of(p) < vx_n0 && has_all(self.ac().arch(p), T::types()) ==> vx_ps.contains(p),
queried_entities_count == items(query.page_views@, 0).len(),
@loopstart
proof { assert(self.archetypes_container.archetypes@[vx_k0 as int].wf()); }
let ghost vx_a = vx_k0 as int;
@loop 1
@invariant
self.wf(), T::distinct(), 0 <= vx_a < self.ac().archs(), vx_end1 == self.ac().list(vx_a).len(), has_all(&self.ac().archetypes@[vx_a], T::types()),
lists(query.page_views@, self.ac(), vx_ps),
forall|k: int| 0 <= k < vx_ps.len() ==> self.ac().arch_of(#[trigger] vx_ps[k]) < vx_a || listed_before(self.ac().list(vx_a), vx_n1 as int, vx_ps[k]),
forall|p: int| 0 <= p < self.ac().len() && (#[trigger] self.archetypes_container.pages@[p]).ids().len() > 0 && self.ac().arch_of(p) < vx_a && has_all(self.ac().arch(p), T::types()) ==> vx_ps.contains(p),
forall|j: int| 0 <= j < vx_n1 && self.ac().ids((#[trigger] self.ac().list(vx_a)[j]) as int).len() > 0 ==> vx_ps.contains(self.ac().list(vx_a)[j] as int),
queried_entities_count == items(query.page_views@, 0).len(),
@loopstart
let ghost vx_q = self.ac().list(vx_a)[vx_k1 as int] as int;
let ghost vx_v = query.page_views@;
proof {
    assert(self.ac().page_ok(vx_a, self.archetypes_container.archetype_to_pages@[vx_a].pages@[vx_k1 as int] as int));
    assert(self.archetypes_container.pages@[vx_q].wf());
    lemma_fit(&self.ac().archetypes@[vx_a], &self.ac().layouts@[vx_a], T::types(), 0);
}
@after push 0
proof {
    let vx_x = query.page_views@.last();
    vx_x.lemma_of(&self.ac().pages@[vx_q], &self.ac().archetypes@[vx_a], &self.ac().layouts@[vx_a]);
    lemma_push(vx_v, vx_x, 0);
    assert(query.page_views@ =~= vx_v.push(vx_x));
    assert(!vx_ps.contains(vx_q));
    lemma_pushed(vx_ps, vx_q);
    vx_ps = vx_ps.push(vx_q);
    lemma_once(query.page_views@, self, vx_ps, 0);
    lemma_few(items(query.page_views@, 0), self.cap());
}
@epilogue
proof {
    let vx_v = query.page_views@;
    assert(r.rest() =~= items(vx_v, 0));
    lemma_items(vx_v, 0);
    lemma_once(vx_v, self, vx_ps, 0);
    assert forall|i: int| #[trigger] self.wants(i, T::types()) implies r.rest().contains((i as u32, self.cells(i, T::types()))) by {
        assert(self.located(i));
        let p = self.page(i);
        assert(self.archetypes_container.pages@[p].ids().len() > 0);
        self.ac().lemma_page(p);
        let k = vx_ps.index_of(p);
        lemma_row(vx_v, self, vx_ps, k, self.row(i));
        assert(vx_v[k].shows(self.ac(), vx_ps[k]));
        assert(vx_v[k].entity_ids@[self.row(i)] == Some(self.ac().pages@[p].ids()[self.row(i)]));
    }
}
@@fn ComponentsQueryIter::next(self) -> r
@props C06 C13
@requires
old(self).wf(), old(self).current_page_index < usize::MAX,
@ensures
final(self).wf(), final(self).store == old(self).store, r is Some ==> final(self).current_page_index < usize::MAX,
[C06]
r is None == (old(self).rest().len() == 0), r is None ==> final(self).rest().len() == 0,
r is Some ==> final(self).rest() =~= old(self).rest().drop_first() && T::locs(r->0) == old(self).rest()[0].1 && final(self).current_page_iter.next_entity_index >= 1 && final(self).current_page_iter.view.id(final(self).current_page_iter.next_entity_index - 1) == old(self).rest()[0].0,
@@fn ComponentsQueryIter::len(self) -> r
@props C06 C13
@ensures
r == self.queried_entities_count,
@@fn ComponentsQueryIter::with_entities(self) -> r
@props C06 C13
@requires
self.wf(), self.store.wf(), forall|j: int| 0 <= j < self.rest().len() ==> its_item::<T>(self.store, #[trigger] self.rest()[j]), self.current_page_index < usize::MAX,
@ensures
r.wf(),
[C06]
r.source_iter.rest() == self.rest(),
@@fn component::WithEntitiesIter::next(self) -> r
@props C06 C13
@requires
old(self).wf(),
@ensures
final(self).source_iter.store == old(self).source_iter.store, r is Some ==> final(self).wf(),
[C06]
r is None == (old(self).source_iter.rest().len() == 0), r is None ==> final(self).source_iter.rest().len() == 0,
r is Some ==> old(self).source_iter.store.entities_container.alive(r.unwrap().0) && r.unwrap().0.id == old(self).source_iter.rest()[0].0 && T::locs(r.unwrap().1) == old(self).source_iter.rest()[0].1 && final(self).source_iter.rest() =~= old(self).source_iter.rest().drop_first(),
@@fn component::WithEntitiesIter::filter_tag(self) -> r
@props C06 C13
@opt panic=refuse
@requires
self.wf(),
@ensures
r.wf(),
[C06]
r.source_iter.source_iter.rest() == self.source_iter.rest(), forall|x: Item| x.0 < self.source_iter.store.cap() ==> #[trigger] r.tagged(x) == self.source_iter.store.tag_container.has(tid_of::<T>(), x.0 as int),
@@fn FilterTagIter::next(self) -> r
@props C06 C13
@requires
old(self).wf(),
@ensures
r is Some ==> final(self).wf(),
[C06]
r is None ==> final(self).source_iter.source_iter.rest().len() == 0 && forall|j: int| 0 <= j < old(self).source_iter.source_iter.rest().len() ==> !old(self).tagged(#[trigger] old(self).source_iter.source_iter.rest()[j]),
r is Some ==> old(self).source_iter.source_iter.store.entities_container.alive(r.unwrap().0) && old(self).found(r.unwrap().0, Q::locs(r.unwrap().1), final(self)),
@loop 0
@invariant_except_break
self.wf(), self.entity_to_has_tag == old(self).entity_to_has_tag, self.source_iter.source_iter.store == old(self).source_iter.source_iter.store,
vx_s.len() >= self.source_iter.source_iter.rest().len(), self.source_iter.source_iter.rest() =~= vx_s.skip(vx_s.len() - self.source_iter.source_iter.rest().len()),
forall|j: int| 0 <= j < vx_s.len() - self.source_iter.source_iter.rest().len() ==> !old(self).tagged(#[trigger] vx_s[j]),
@loopensures
self.source_iter.source_iter.rest().len() == 0, forall|j: int| 0 <= j < vx_s.len() ==> !old(self).tagged(#[trigger] vx_s[j]),
@decreases
self.source_iter.source_iter.rest().len()
@prologue
let ghost vx_s = self.source_iter.source_iter.rest();
@@module query::entity_component
@@use crate::archetype::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@use crate::archetypes_container::*
@@use crate::entities_container::*
@@use crate::query::access::*
@@use crate::query::component_page_iter_view::*
@@use crate::component_tuple::*
@@use crate::tag_container::*
@@use crate::store::*
@@raw
/// an entity's handle, and where its components are
pub type Found = (Entity, Seq<Loc>);
/// the handle is that of an entity with these components
pub open spec fn asked(st: &Store, e: Entity, ts: Seq<TypeId>) -> bool { st.entities_container.alive(e) && st.placed(e.id as int) && has_all(st.ac().arch(st.page(e.id as int)), ts) }
pub open spec fn found(st: &Store, e: Entity, ts: Seq<TypeId>) -> Found { (e, st.cells(e.id as int, ts)) }
/// of the first n handles those of entities with these components
pub open spec fn wanted(st: &Store, es: Seq<Entity>, ts: Seq<TypeId>, n: int) -> Seq<Found> decreases n {
    if n <= 0 { Seq::empty() } else if asked(st, es[n - 1], ts) { wanted(st, es, ts, n - 1).push(found(st, es[n - 1], ts)) } else { wanted(st, es, ts, n - 1) }
}
/// what a range of handles of one page is to yield
pub open spec fn ranged<T: ComponentQueryAccess>(v: ComponentPageIterView<T>, g: Range<usize>, es: Seq<Entity>, rows: Seq<Option<u32>>, o: int) -> Seq<Found> {
    Seq::new((g.end - g.start - o) as nat, |i: int| (es[g.start + o + i], v.at(rows[es[g.start + o + i].id as int].unwrap() as int)))
}
pub open spec fn range_ok<T: ComponentQueryAccess>(v: ComponentPageIterView<T>, g: Range<usize>, es: Seq<Entity>, rows: Seq<Option<u32>>) -> bool {
    &&& v.ok() && g.start < g.end <= es.len()
    &&& forall|i: int| g.start <= i < g.end ==> row_of(v, #[trigger] es[i], rows)
}
pub open spec fn row_of<T: ComponentQueryAccess>(v: ComponentPageIterView<T>, e: Entity, rows: Seq<Option<u32>>) -> bool { e.id < rows.len() && rows[e.id as int] is Some && rows[e.id as int].unwrap() < v.entity_count }
pub open spec fn all_ranged<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, g: Seq<Range<usize>>, es: Seq<Entity>, rows: Seq<Option<u32>>, k: int) -> Seq<Found> decreases v.len() - k {
    if 0 <= k < v.len() { ranged(v[k], g[k], es, rows, 0) + all_ranged(v, g, es, rows, k + 1) } else { Seq::empty() }
}
pub proof fn lemma_push<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, g: Seq<Range<usize>>, es: Seq<Entity>, rows: Seq<Option<u32>>, x: ComponentPageIterView<T>, y: Range<usize>, k: int)
    requires 0 <= k <= v.len(), v.len() == g.len(),
    ensures all_ranged(v.push(x), g.push(y), es, rows, k) =~= all_ranged(v, g, es, rows, k) + ranged(x, y, es, rows, 0),
    decreases v.len() - k,
{
    let (w, h) = (v.push(x), g.push(y));
    if k < v.len() { lemma_push(v, g, es, rows, x, y, k + 1); assert(w[k] == v[k] && h[k] == g[k]); }
    else { assert(w[k] == x && h[k] == y); assert(all_ranged(w, h, es, rows, k + 1) =~= Seq::<Found>::empty()); assert(all_ranged(w, h, es, rows, k) =~= ranged(x, y, es, rows, 0) + all_ranged(w, h, es, rows, k + 1)); }
}
impl<'a, T: ComponentQueryAccess> EntityComponentQueryIter<'a, T> {
    pub open spec fn rows(&self) -> Seq<Option<u32>> { self.entity_to_index_in_page_ptr@ }
    pub open spec fn wf(&self) -> bool {
        &&& self.entity_ranges@.len() == self.range_pages@.len() && self.entity_ranges@.len() <= usize::MAX && self.entities@.len() <= usize::MAX
        &&& forall|k: int| 0 <= k < self.entity_ranges@.len() ==> range_ok(#[trigger] self.range_pages@[k], self.entity_ranges@[k], self.entities@, self.entity_to_index_in_page_ptr@)
        &&& self.next_range_index < self.entity_ranges@.len() ==> self.next_offset_from_range < self.entity_ranges@[self.next_range_index as int].end - self.entity_ranges@[self.next_range_index as int].start
    }
    pub open spec fn rest(&self) -> Seq<Found> {
        if self.next_range_index < self.entity_ranges@.len() {
            ranged(self.range_pages@[self.next_range_index as int], self.entity_ranges@[self.next_range_index as int], self.entities@, self.rows(), self.next_offset_from_range as int) + all_ranged(self.range_pages@, self.entity_ranges@, self.entities@, self.rows(), self.next_range_index + 1)
        } else { Seq::empty() }
    }
}
@@fn EntityComponentQuery::new() -> r
@props C10
@ensures
r.entity_index_ranges@.len() == 0, r.range_to_page_views@.len() == 0,
@@fn entity_component::readonly() -> r
@props C10
@@fn entity_component::write() -> r
@props C10
@@fn entity_component::read_write() -> r
@props C10
@@fn Store::entity_component_query_iter(self, entities, query) -> r
@props C10 C13
@requires
self.wf(), T::distinct(), forall|i: int| 0 <= i < entities@.len() ==> (#[trigger] entities@[i]).id < self.cap(),
@ensures
r.wf(), r.entities@ == entities@,
[C10]
r.rest() =~= wanted(self, entities@, T::types(), entities@.len() as int),
@loop 0
@invariant
self.wf(), T::distinct(), forall|i: int| 0 <= i < entities@.len() ==> (#[trigger] entities@[i]).id < self.cap(),
range_start <= entities@.len(), query.entity_index_ranges@.len() == query.range_to_page_views@.len(),
forall|k: int| 0 <= k < query.entity_index_ranges@.len() ==> range_ok(#[trigger] query.range_to_page_views@[k], query.entity_index_ranges@[k], entities@, self.entity_to_index_in_page@),
[C10]
all_ranged(query.range_to_page_views@, query.entity_index_ranges@, entities@, self.entity_to_index_in_page@, 0) =~= wanted(self, entities@, T::types(), range_start as int),
@decreases
entities@.len() - range_start
@loopstart
let ghost vx_v = query.range_to_page_views@;
let ghost vx_g = query.entity_index_ranges@;
let ghost vx_s = range_start as int;
let ghost vx_w = wanted(self, entities@, T::types(), range_start as int);
let ghost vx_p = self.page(entities@[range_start as int].id as int);
proof { if asked(self, entities@[vx_s], T::types()) { assert(self.located(entities@[vx_s].id as int)); assert(self.archetypes_container.pages@[vx_p].wf()); self.ac().lemma_page(vx_p); lemma_fit(self.ac().arch(vx_p), self.ac().lay(vx_p), T::types(), 0); } }
@loop 1
@invariant
0 <= vx_s < range_end <= entities@.len(),
forall|i: int| vx_s <= i < range_end ==> self.entities_container.alive(#[trigger] entities@[i]) && self.placed(entities@[i].id as int) && self.page(entities@[i].id as int) == vx_p,
[C10]
wanted(self, entities@, T::types(), range_end as int) =~= vx_w + Seq::new((range_end - vx_s) as nat, |i: int| found(self, entities@[vx_s + i], T::types())),
@decreases
entities@.len() - range_end
@loopstart
proof { if self.placed(entities@[range_end as int].id as int) { assert(self.located(entities@[range_end as int].id as int)); } }
@after push 1
proof {
    let (vx_x, vx_y) = (query.range_to_page_views@.last(), query.entity_index_ranges@.last());
    vx_x.lemma_of(&self.ac().pages@[vx_p], self.ac().arch(vx_p), self.ac().lay(vx_p));
    lemma_push(vx_v, vx_g, entities@, self.entity_to_index_in_page@, vx_x, vx_y, 0);
    assert(query.range_to_page_views@ =~= vx_v.push(vx_x) && query.entity_index_ranges@ =~= vx_g.push(vx_y));
    assert forall|i: int| vx_s <= i < vx_y.end implies row_of(vx_x, #[trigger] entities@[i], self.entity_to_index_in_page@) && vx_x.at(self.row(entities@[i].id as int)) == self.cells(entities@[i].id as int, T::types()) by {
        assert(self.placed(entities@[i].id as int));
        assert(self.located(entities@[i].id as int));
        assert(vx_x.at(self.row(entities@[i].id as int)) == moved(T::plocs(vx_x.ptrs), T::types(), self.row(entities@[i].id as int)));
    }
    assert(ranged(vx_x, vx_y, entities@, self.entity_to_index_in_page@, 0) =~= Seq::new((vx_y.end - vx_s) as nat, |i: int| found(self, entities@[vx_s + i], T::types())));
}
@epilogue
proof { assert(query.entity_index_ranges.len() == query.entity_index_ranges@.len()); if query.range_to_page_views@.len() > 0 { assert(range_ok(query.range_to_page_views@[0], query.entity_index_ranges@[0], entities@, self.entity_to_index_in_page@)); } }
@@fn Store::is_valid_entity_for_query(self, entity) -> r
@props C10 C13
@requires
self.wf(), T::distinct(), entity.id < self.cap(),
@ensures
[C10]
r == asked(self, entity, T::types()),
@@fn EntityComponentQueryIter::next(self) -> r
@props C10 C13
@requires
old(self).wf(),
@ensures
final(self).wf(), final(self).entities == old(self).entities,
[C10]
r is None == (old(self).rest().len() == 0), r is None ==> final(self).rest().len() == 0,
r is Some ==> T::locs(r->0) == old(self).rest()[0].1 && final(self).rest() =~= old(self).rest().drop_first() && final(self).current_entity_index < final(self).entities@.len() && final(self).entities@[final(self).current_entity_index as int] == old(self).rest()[0].0,
@prologue
proof { if self.next_range_index < self.entity_ranges@.len() { let vx_k = self.next_range_index as int; assert(range_ok(self.range_pages@[vx_k], self.entity_ranges@[vx_k], self.entities@, self.entity_to_index_in_page_ptr@)); if vx_k + 1 < self.range_pages@.len() { assert(range_ok(self.range_pages@[vx_k + 1], self.entity_ranges@[vx_k + 1], self.entities@, self.entity_to_index_in_page_ptr@)); } } }
@@fn EntityComponentQueryIter::with_entities(self) -> r
@props C10 C13
@ensures
r.source_iter == self,
@@fn entity_component::WithEntitiesIter::next(self) -> r
@props C10 C13
@requires
old(self).source_iter.wf(),
@ensures
final(self).source_iter.wf(), final(self).source_iter.entities == old(self).source_iter.entities,
[C10]
r is None == (old(self).source_iter.rest().len() == 0), r is None ==> final(self).source_iter.rest().len() == 0,
r is Some ==> r.unwrap().0 == old(self).source_iter.rest()[0].0 && T::locs(r.unwrap().1) == old(self).source_iter.rest()[0].1 && final(self).source_iter.rest() =~= old(self).source_iter.rest().drop_first(),
@@module query::ordered_component
@@use crate::archetype::*
@@use crate::archetype_layout::*
@@use crate::archetype_data_page::*
@@use crate::archetypes_container::*
@@use crate::entities_container::*
@@use crate::order_group_container::*
@@use crate::query::access::*
@@use crate::query::component_page_iter_view::*
@@use crate::query::component::{its_item, once}
@@use crate::component_tuple::*
@@use crate::tag_container::*
@@use crate::store::*
@@raw
broadcast use lemma_pos;
/// of the first n members of the order those that have the components
pub open spec fn walked(st: &Store, s: Seq<u32>, ts: Seq<TypeId>, n: int) -> Seq<Item> decreases n {
    if n <= 0 { Seq::empty() } else if st.wants(s[n - 1] as int, ts) { walked(st, s, ts, n - 1).push((s[n - 1], st.cells(s[n - 1] as int, ts))) } else { walked(st, s, ts, n - 1) }
}
pub proof fn lemma_walked<T: ComponentQueryAccess>(st: &Store, s: Seq<u32>, n: int)
    ensures walked(st, s, T::types(), n).len() <= if n >= 0 { n } else { 0 }, forall|j: int| 0 <= j < walked(st, s, T::types(), n).len() ==> its_item::<T>(st, #[trigger] walked(st, s, T::types(), n)[j]),
    decreases n,
{
    if n > 0 { lemma_walked::<T>(st, s, n - 1); }
}
/// the place of x in the order; the end for NIL
pub open spec fn place(s: Seq<u32>, x: u32) -> int { if x == NIL { s.len() as int } else { s.index_of(x) } }
pub open spec fn in_order(s: Seq<u32>, x: u32) -> bool { x == NIL || s.contains(x) }
/// the links lead through the order
#[verifier::opaque]
pub open spec fn leads(s: Seq<u32>, f: Seq<Option<u32>>, cap: int) -> bool {
    &&& f.len() == cap <= 0x8000_0000 && s.len() <= cap
    &&& forall|x: u32| #[trigger] s.contains(x) ==> x < cap && 0 <= s.index_of(x) < s.len() && s[s.index_of(x)] == x && f[x as int] is Some && in_order(s, f[x as int].unwrap()) && place(s, f[x as int].unwrap()) == s.index_of(x) + 1
}
pub proof fn lemma_leads(c: &OrderGroupContainer, k: int)
    requires c.wf(), 0 <= k < c.group_ids@.len(),
    ensures leads(c.grp(k), c.fwd(k)@, c.entity_capacity as int), in_order(c.grp(k), c.group_index_to_head@[k]), place(c.grp(k), c.group_index_to_head@[k]) == 0,
{
    let (s, f) = (c.grp(k), c.fwd(k)@);
    reveal(leads);
    c.lemma_links(k, 0);
    c.lemma_seq(c.group_ids@[k]);
    assert(s.len() <= c.entity_capacity) by { lemma_few_ids(s, c.entity_capacity as int); }
    assert forall|x: u32| #[trigger] s.contains(x) implies x < c.entity_capacity && 0 <= s.index_of(x) < s.len() && s[s.index_of(x)] == x && f[x as int] is Some && in_order(s, f[x as int].unwrap()) && place(s, f[x as int].unwrap()) == s.index_of(x) + 1 by {
        c.lemma_links(k, x);
        let i = s.index_of(x);
        if i + 1 < s.len() { let y = s[i + 1]; assert(s.contains(y)); assert(y != NIL); c.lemma_links(k, y); }
    }
    if s.len() > 0 { assert(s.contains(s[0])); assert(s[0] != NIL); c.lemma_links(k, s[0]); }
}
pub proof fn lemma_step(s: Seq<u32>, f: Seq<Option<u32>>, cap: int, x: u32)
    requires leads(s, f, cap), in_order(s, x), x != NIL,
    ensures x < cap == f.len(), 0 <= place(s, x) < s.len(), s[place(s, x)] == x, s.contains(x), f[x as int] is Some, in_order(s, f[x as int].unwrap()), place(s, f[x as int].unwrap()) == place(s, x) + 1, s.len() <= cap <= 0x8000_0000,
{ reveal(leads); }
pub proof fn lemma_place(st: &Store, s: Seq<u32>, x: u32)
    requires st.wf(), x < st.cap(),
    ensures st.placed(x as int) ==> st.located(x as int),
{}
pub proof fn lemma_few_ids(s: Seq<u32>, n: int)
    requires crate::order_group_container::nodup(s), below(s, n), n >= 0,
    ensures s.len() <= n,
{
    let t = Seq::<Item>::new(s.len(), |i: int| (s[i], Seq::<Loc>::empty()));
    crate::query::component::lemma_few(t, n);
}
/// rows start.. of a view
pub open spec fn ranged<T: ComponentQueryAccess>(v: ComponentPageIterView<T>, g: Range<u32>, o: int) -> Seq<Item> { Seq::new((g.end - g.start - o) as nat, |i: int| v.item(g.start + o + i)) }
pub open spec fn range_ok<T: ComponentQueryAccess>(v: ComponentPageIterView<T>, g: Range<u32>) -> bool { v.ok() && g.start < g.end <= v.entity_count }
pub open spec fn all_ranged<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, g: Seq<Range<u32>>, k: int) -> Seq<Item> decreases v.len() - k {
    if 0 <= k < v.len() { ranged(v[k], g[k], 0) + all_ranged(v, g, k + 1) } else { Seq::empty() }
}
pub proof fn lemma_push<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, g: Seq<Range<u32>>, x: ComponentPageIterView<T>, y: Range<u32>, k: int)
    requires 0 <= k <= v.len(), v.len() == g.len(),
    ensures all_ranged(v.push(x), g.push(y), k) =~= all_ranged(v, g, k) + ranged(x, y, 0),
    decreases v.len() - k,
{
    let (w, h) = (v.push(x), g.push(y));
    if k < v.len() { lemma_push(v, g, x, y, k + 1); assert(w[k] == v[k] && h[k] == g[k]); }
    else { assert(w[k] == x && h[k] == y); assert(all_ranged(w, h, k + 1) =~= Seq::<Item>::empty()); assert(all_ranged(w, h, k) =~= ranged(x, y, 0) + all_ranged(w, h, k + 1)); }
}
pub open spec fn ranges_ok<T: ComponentQueryAccess>(v: Seq<ComponentPageIterView<T>>, g: Seq<Range<u32>>) -> bool {
    v.len() == g.len() && g.len() <= 0x8000_0000 && forall|k: int| 0 <= k < g.len() ==> range_ok(#[trigger] v[k], g[k])
}
impl<'a, T: ComponentQueryAccess> OrderedComponentQueryIter<'a, T> {
    pub open spec fn wf(&self) -> bool {
        &&& ranges_ok(self.range_pages@, self.entity_ranges@)
        &&& self.next_range_index < self.entity_ranges@.len() ==> self.next_offset_from_range < self.entity_ranges@[self.next_range_index as int].end - self.entity_ranges@[self.next_range_index as int].start
    }
    pub open spec fn rest(&self) -> Seq<Item> {
        if self.next_range_index < self.entity_ranges@.len() {
            ranged(self.range_pages@[self.next_range_index as int], self.entity_ranges@[self.next_range_index as int], self.next_offset_from_range as int) + all_ranged(self.range_pages@, self.entity_ranges@, self.next_range_index + 1)
        } else { Seq::empty() }
    }
}
impl<'a, T: ComponentQueryAccess> WithEntitiesIter<'a, T> {
    pub open spec fn wf(&self) -> bool {
        &&& self.source_iter.wf() && self.source_iter.store.wf()
        &&& forall|j: int| 0 <= j < self.source_iter.rest().len() ==> its_item::<T>(self.source_iter.store, #[trigger] self.source_iter.rest()[j])
        &&& self.entity_versions@ == self.source_iter.store.entities_container.entity_to_version@
    }
}
@@fn OrderedComponentQuery::new() -> r
@props C09
@ensures
r.index_in_page_ranges@.len() == 0, r.range_to_page_views@.len() == 0,
@@fn ordered_component::readonly() -> r
@props C09
@@fn ordered_component::write() -> r
@props C09
@@fn ordered_component::read_write() -> r
@props C09
@@fn Store::ordered_query_iter(self, query) -> r
@props C09 C13
@requires
self.wf(), T::distinct(),
@ensures
r.wf(), r.store == self,
forall|j: int| 0 <= j < r.rest().len() ==> its_item::<T>(self, #[trigger] r.rest()[j]),
[C09]
r.rest() =~= walked(self, self.order_group_container.seq(tid_of::<O>()), T::types(), self.order_group_container.seq(tid_of::<O>()).len() as int), r.len == r.rest().len(),
@prologue
let ghost vx_s = self.order_group_container.seq(tid_of::<O>());
proof { if has_tid(self.order_group_container.group_ids@, tid_of::<O>()) { lemma_leads(&self.order_group_container, pos(self.order_group_container.group_ids@, tid_of::<O>())); } assert(all_ranged(Seq::<ComponentPageIterView<T>>::empty(), Seq::<Range<u32>>::empty(), 0) =~= Seq::<Item>::empty()); }
@loop 0
@invariant
self.wf(), T::distinct(), ranges_ok(query.range_to_page_views@, query.index_in_page_ranges@), query.index_in_page_ranges@.len() <= walked(self, vx_s, T::types(), place(vx_s, curr_entity)).len(),
leads(vx_s, id_to_next_map@, self.cap()), in_order(vx_s, curr_entity),
vx_s == self.order_group_container.seq(tid_of::<O>()),
[C09]
all_ranged(query.range_to_page_views@, query.index_in_page_ranges@, 0) =~= walked(self, vx_s, T::types(), place(vx_s, curr_entity)),
entity_count == walked(self, vx_s, T::types(), place(vx_s, curr_entity)).len(),
@decreases
vx_s.len() - place(vx_s, curr_entity)
@loopstart
let ghost vx_v = query.range_to_page_views@;
let ghost vx_g = query.index_in_page_ranges@;
let ghost vx_n = place(vx_s, curr_entity);
let ghost vx_w = walked(self, vx_s, T::types(), vx_n);
let ghost vx_p = self.page(curr_entity as int);
proof {
    lemma_step(vx_s, id_to_next_map@, self.cap() as int, curr_entity);
    lemma_place(self, vx_s, curr_entity);
    if self.placed(curr_entity as int) { assert(self.archetypes_container.pages@[vx_p].wf()); self.ac().lemma_page(vx_p); if has_all(self.ac().arch(vx_p), T::types()) { lemma_fit(self.ac().arch(vx_p), self.ac().lay(vx_p), T::types(), 0); } }
}
@loop 1
@invariant
in_order(vx_s, next_entity), range_start < range_end <= self.ac().ids(vx_p).len(), self.ac().ids(vx_p).len() <= page_size(), vx_n + (range_end - range_start) == place(vx_s, next_entity), place(vx_s, next_entity) <= vx_s.len(),
forall|j: int| 0 <= j < range_end - range_start ==> at_row(self, #[trigger] vx_s[vx_n + j] as int, vx_p, range_start + j),
[C09]
walked(self, vx_s, T::types(), place(vx_s, next_entity)) =~= vx_w + stretch(self, vx_s, T::types(), vx_n, range_end - range_start),
@decreases
vx_s.len() - place(vx_s, next_entity)
@loopstart
proof {
    lemma_step(vx_s, id_to_next_map@, self.cap() as int, next_entity);
    lemma_place(self, vx_s, next_entity);
    if self.placed(next_entity as int) && at_row(self, next_entity as int, vx_p, range_end as int) { lemma_stretch(self, vx_s, T::types(), vx_n, range_end - range_start, vx_w); }
}
@loopafter
proof { lemma_walked::<T>(self, vx_s, place(vx_s, next_entity)); }
@after push 1
proof { lemma_range::<T>(self, vx_s, vx_n, vx_p, vx_v, vx_g, query.range_to_page_views@, query.index_in_page_ranges@); }
@epilogue
proof { lemma_walked::<T>(self, vx_s, vx_s.len() as int); }
@@raw
pub open spec fn at_row(st: &Store, i: int, p: int, r: int) -> bool { st.placed(i) && st.page(i) == p && st.row(i) == r }
/// n members of the order from its n0th on
pub open spec fn stretch(st: &Store, s: Seq<u32>, ts: Seq<TypeId>, n0: int, n: int) -> Seq<Item> { Seq::new(n as nat, |j: int| (s[n0 + j], st.cells(s[n0 + j] as int, ts))) }
/// a view of rows in which members of the order follow each other gives them in that order
pub proof fn lemma_range<T: ComponentQueryAccess>(st: &Store, s: Seq<u32>, n0: int, p: int, v: Seq<ComponentPageIterView<T>>, g: Seq<Range<u32>>, v2: Seq<ComponentPageIterView<T>>, g2: Seq<Range<u32>>)
    requires
        st.wf(), 0 <= p < st.ac().pages@.len(), has_all(st.ac().arch(p), T::types()), v.len() == g.len(),
        v2.len() == v.len() + 1, g2.len() == g.len() + 1, v2 == v.push(v2.last()), g2 == g.push(g2.last()),
        T::plocs(v2.last().ptrs) == row_locs(st.ac().blk(p), offs_of(st.ac().arch(p), st.ac().lay(p), T::types()), T::types(), 0),
        v2.last().entity_count == st.ac().ids(p).len(), v2.last().entity_ids@.len() == st.ac().ids(p).len(),
        forall|r: int| 0 <= r < v2.last().entity_count ==> #[trigger] v2.last().entity_ids@[r] == Some(st.ac().ids(p)[r]),
        0 <= g2.last().start < g2.last().end <= st.ac().ids(p).len(),
        forall|j: int| 0 <= j < g2.last().end - g2.last().start ==> at_row(st, (#[trigger] s[n0 + j]) as int, p, g2.last().start + j),
    ensures
        v2.last().ok(), v2.last().entity_count == st.ac().ids(p).len(),
        all_ranged(v2, g2, 0) =~= all_ranged(v, g, 0) + stretch(st, s, T::types(), n0, g2.last().end - g2.last().start),
{
    let (x, y) = (v2.last(), g2.last());
    st.ac().lemma_page(p);
    x.lemma_of(&st.ac().pages@[p], st.ac().arch(p), st.ac().lay(p));
    lemma_push(v, g, x, y, 0);
    assert forall|j: int| 0 <= j < y.end - y.start implies (#[trigger] s[n0 + j], st.cells(s[n0 + j] as int, T::types())) == x.item(y.start + j) by {
        assert(at_row(st, s[n0 + j] as int, p, y.start + j));
        assert(st.located(s[n0 + j] as int));
        assert(x.at(y.start + j) == moved(T::plocs(x.ptrs), T::types(), y.start + j));
        assert(x.entity_ids@[y.start + j] == Some(st.ac().ids(p)[y.start + j]));
    }
    assert(ranged(x, y, 0) =~= stretch(st, s, T::types(), n0, y.end - y.start));
}
/// one more row of the stretch
pub proof fn lemma_stretch(st: &Store, s: Seq<u32>, ts: Seq<TypeId>, n0: int, n: int, w: Seq<Item>)
    requires 0 <= n0, 0 <= n, walked(st, s, ts, n0 + n) =~= w + stretch(st, s, ts, n0, n), st.wants(s[n0 + n] as int, ts),
    ensures walked(st, s, ts, n0 + n + 1) =~= w + stretch(st, s, ts, n0, n + 1),
{}
@@fn Store::iter_from_query(self, query, len) -> r
@props C09 C13
@requires
ranges_ok(old(query).range_to_page_views@, old(query).index_in_page_ranges@),
@ensures
r.wf(), r.store == self, r.len == len,
[C09]
r.rest() =~= all_ranged(old(query).range_to_page_views@, old(query).index_in_page_ranges@, 0),
@prologue
proof { if query.range_to_page_views@.len() > 0 { assert(range_ok(query.range_to_page_views@[0], query.index_in_page_ranges@[0])); } }
@@fn OrderedComponentQueryIter::next(self) -> r
@props C09 C13
@requires
old(self).wf(),
@ensures
final(self).wf(), final(self).store == old(self).store, final(self).range_pages == old(self).range_pages, final(self).len == old(self).len,
[C09]
r is None == (old(self).rest().len() == 0), r is None ==> final(self).rest().len() == 0,
r is Some ==> T::locs(r->0) == old(self).rest()[0].1 && final(self).rest() =~= old(self).rest().drop_first() && final(self).current_range_index < final(self).range_pages@.len() && final(self).current_index_in_page < final(self).range_pages@[final(self).current_range_index as int].entity_count && final(self).range_pages@[final(self).current_range_index as int].id(final(self).current_index_in_page as int) == old(self).rest()[0].0,
@prologue
proof { if self.next_range_index < self.entity_ranges@.len() { let vx_k = self.next_range_index as int; assert(range_ok(self.range_pages@[vx_k], self.entity_ranges@[vx_k])); if vx_k + 1 < self.range_pages@.len() { assert(range_ok(self.range_pages@[vx_k + 1], self.entity_ranges@[vx_k + 1])); } let vx_x = self.range_pages@[vx_k]; let vx_i = self.entity_ranges@[vx_k].start + self.next_offset_from_range; assert(vx_x.at(vx_i) == moved(T::plocs(vx_x.ptrs), T::types(), vx_i)); } }
@@fn OrderedComponentQueryIter::with_entities(self) -> r
@props C09 C13
@requires
self.wf(), self.store.wf(), forall|j: int| 0 <= j < self.rest().len() ==> its_item::<T>(self.store, #[trigger] self.rest()[j]),
@ensures
r.wf(),
[C09]
r.source_iter == self,
@@fn ordered_component::WithEntitiesIter::next(self) -> r
@props C09 C13
@requires
old(self).wf(),
@ensures
final(self).wf(), final(self).source_iter.store == old(self).source_iter.store,
[C09]
r is None == (old(self).source_iter.rest().len() == 0), r is None ==> final(self).source_iter.rest().len() == 0,
r is Some ==> old(self).source_iter.store.entities_container.alive(r.unwrap().0) && r.unwrap().0.id == old(self).source_iter.rest()[0].0 && T::locs(r.unwrap().1) == old(self).source_iter.rest()[0].1 && final(self).source_iter.rest() =~= old(self).source_iter.rest().drop_first(),
@@fn OrderedComponentQueryIter::len(self) -> r
@props C09 C13
@ensures
r == self.len,
