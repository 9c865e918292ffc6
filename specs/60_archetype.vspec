@@module component_type
@@raw
broadcast use {group_sizes, axiom_tid, axiom_tsize};
/// it holds an identity, so it is not empty
pub axiom fn axiom_sz_ct() ensures sz::<ComponentType>() > 0;
impl ComponentType {
    /// size and alignment are those of the type it names
    pub open spec fn ok(&self) -> bool { self.size == tsize(self.id) && self.align == talign(self.id) }
}
pub open spec fn all_ok(s: Seq<ComponentType>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
pub open spec fn cids(s: Seq<ComponentType>) -> Seq<TypeId> { Seq::new(s.len(), |i: int| s[i].id) }
pub open spec fn cids_distinct(s: Seq<ComponentType>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).id != (#[trigger] s[j]).id }
/// sort_by_key(|c| c.id())
#[verifier::external_body]
pub fn vx_sort_by_id(v: &mut Vec<ComponentType>)
    ensures exists|p: Seq<int>, q: Seq<int>| rearranged(old(v)@, final(v)@, p, q), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !tid_lt((#[trigger] final(v)@[j]).id, (#[trigger] final(v)@[i]).id),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_sort_slice_by_id(v: &mut [ComponentType])
    ensures exists|p: Seq<int>, q: Seq<int>| rearranged(old(v)@, final(v)@, p, q), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !tid_lt((#[trigger] final(v)@[j]).id, (#[trigger] final(v)@[i]).id),
{ unimplemented!() }
pub proof fn lemma_sorted(a: Seq<ComponentType>, b: Seq<ComponentType>)
    requires exists|p: Seq<int>, q: Seq<int>| rearranged(a, b, p, q), forall|i: int, j: int| 0 <= i < j < b.len() ==> !tid_lt((#[trigger] b[j]).id, (#[trigger] b[i]).id), cids_distinct(a), all_ok(a),
    ensures b.len() == a.len(), tids_sorted(cids(b)), cids_distinct(b), all_ok(b), forall|t: TypeId| #[trigger] crate::tag_container::has_tid(cids(b), t) == crate::tag_container::has_tid(cids(a), t),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| rearranged(a, b, p, q);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).id != (#[trigger] b[j]).id by {
        assert(b[i] == a[p[i]] && b[j] == a[p[j]]);
        assert(p[i] != p[j]) by { assert(q[p[i]] == i && q[p[j]] == j); }
        if p[i] < p[j] { assert(a[p[i]].id != a[p[j]].id); } else { assert(a[p[j]].id != a[p[i]].id); }
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] cids(b)[i]).i < (#[trigger] cids(b)[j]).i by {
        assert(b[i].id != b[j].id);
        assert(!tid_lt(b[j].id, b[i].id));
    }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).ok() by { assert(b[i] == a[p[i]]); }
    assert forall|t: TypeId| #[trigger] crate::tag_container::has_tid(cids(b), t) == crate::tag_container::has_tid(cids(a), t) by {
        if crate::tag_container::has_tid(cids(b), t) { let k = crate::tag_container::pos(cids(b), t); assert(cids(a)[p[k]] == t); }
        if crate::tag_container::has_tid(cids(a), t) { let k = crate::tag_container::pos(cids(a), t); assert(p[q[k]] == k); assert(cids(b)[q[k]] == t); }
    }
}
@@fn ComponentType::of() -> r
@props C05 C12
@ensures
r.ok(), r.id == tid_of::<T>(),
@@fn ComponentType::new(id, size, align, name) -> r
@props C12
@ensures
r.id == id, r.size == size, r.align == align,
@@fn ComponentType::id(self) -> r
@props C12
@ensures
r == self.id,
@@fn ComponentType::size(self) -> r
@props C12 C05
@ensures
r == self.size,
@@fn ComponentType::align(self) -> r
@props C12 C05
@ensures
r == self.align,
@@fn ComponentType::name(self) -> r
@props C12
@@fn ComponentType::eq(self, other) -> r
@props C12
@ensures
r == (self.id == other.id),
@@module archetype
@@use crate::component_type::*
@@use crate::tag_container::*
@@use crate::mem_utils::*
@@raw
broadcast use {group_sizes, axiom_tid, axiom_tsize, axiom_sz_tid, axiom_sz_str, lemma_pos};
pub proof fn lemma_fits(n: int)
    requires 0 <= n <= 0x1000_0000,
    ensures fits::<TypeId>(n), fits::<usize>(n), fits::<&'static str>(n),
{
    assert(sz::<TypeId>() * n == 16 * n) by (nonlinear_arith) requires sz::<TypeId>() == 16;
    assert(sz::<usize>() * n == 8 * n) by (nonlinear_arith) requires sz::<usize>() == 8;
    assert(sz::<&'static str>() * n == 16 * n) by (nonlinear_arith) requires sz::<&'static str>() == 16;
}
/// more different types than there are types sought
pub proof fn lemma_pigeon(s: Seq<TypeId>, x: Seq<TypeId>)
    requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> has_tid(x, #[trigger] s[i]),
    ensures s.len() <= x.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.last();
        assert(has_tid(x, s[s.len() - 1]));
        let k = pos(x, t);
        let s2 = s.drop_last();
        let x2 = x.remove(k);
        assert(s2.no_duplicates());
        assert forall|i: int| 0 <= i < s2.len() implies has_tid(x2, #[trigger] s2[i]) by {
            assert(s2[i] == s[i] && has_tid(x, s[i]) && s[i] != t);
            let j = pos(x, s[i]);
            assert(j != k);
            assert(x2[if j < k { j } else { j - 1 }] == s[i]);
        }
        lemma_pigeon(s2, x2);
    }
}
/// as many different types out of a set as there are: all of them
pub proof fn lemma_same_set(s: Seq<TypeId>, x: Seq<TypeId>)
    requires s.no_duplicates(), x.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> has_tid(x, #[trigger] s[i]),
    ensures s.len() == x.len() ==> forall|t: TypeId| #[trigger] has_tid(x, t) == has_tid(s, t),
{
    if s.len() == x.len() {
        assert forall|t: TypeId| #[trigger] has_tid(x, t) == has_tid(s, t) by {
            if has_tid(s, t) { assert(has_tid(x, s[pos(s, t)])); }
            if has_tid(x, t) && !has_tid(s, t) {
                let s2 = s.push(t);
                assert(s2.no_duplicates()) by {
                    assert forall|i: int, j: int| 0 <= i < s2.len() && 0 <= j < s2.len() && i != j implies s2[i] != s2[j] by {
                        if i < s.len() && s[i] == t { assert(has_tid(s, t)); }
                        if j < s.len() && s[j] == t { assert(has_tid(s, t)); }
                    }
                }
                assert forall|i: int| 0 <= i < s2.len() implies has_tid(x, #[trigger] s2[i]) by { if i < s.len() { assert(has_tid(x, s[i])); } }
                lemma_pigeon(s2, x);
            }
        }
    }
}
pub proof fn lemma_sorted_nodup(s: Seq<TypeId>)
    requires tids_sorted(s),
    ensures s.no_duplicates(),
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i].i < s[j].i); } else { assert(s[j].i < s[i].i); } }
}
impl Archetype {
    /// its component types, in order
    pub open spec fn tys(&self) -> Seq<TypeId> { vals(self.ids@, self.component_count as int) }
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.component_count <= 0x1000_0000
        &&& owned(self.ids, self.component_count as int) && all_init(self.ids@)
        &&& owned(self.sizes, self.component_count as int) && all_init(self.sizes@)
        &&& owned(self.aligns, self.component_count as int) && all_init(self.aligns@)
        &&& owned(self.names, self.component_count as int) && all_init(self.names@)
        &&& tids_sorted(self.tys())
        &&& forall|i: int| 0 <= i < self.component_count ==> #[trigger] self.sizes@[i] == Some(tsize(self.tys()[i]) as usize)
        &&& forall|i: int| 0 <= i < self.component_count ==> #[trigger] self.aligns@[i] == Some(talign(self.tys()[i]) as usize)
    }
    pub open spec fn has(&self, t: TypeId) -> bool { has_tid(self.tys(), t) }
    /// the same set of types
    pub open spec fn same(&self, o: &Archetype) -> bool { self.tys() =~= o.tys() }
}
@@fn Archetype::new(sorted_components) -> r
@props C12 C13
@requires
sorted_components@.len() <= 0x1000_0000, tids_sorted(cids(sorted_components@)), all_ok(sorted_components@),
@ensures
r.wf(),
[C12]
r.tys() =~= cids(sorted_components@),
@prologue
proof { lemma_fits(sorted_components@.len() as int); }
@loop 0
@invariant
owned(ids, component_count as int), owned(sizes, component_count as int), owned(aligns, component_count as int), owned(names, component_count as int),
vx_end0 == component_count,
forall|k: int| 0 <= k < vx_n0 ==> #[trigger] ids@[k] == Some(sorted_components@[k].id),
forall|k: int| 0 <= k < vx_n0 ==> #[trigger] sizes@[k] == Some(sorted_components@[k].size),
forall|k: int| 0 <= k < vx_n0 ==> #[trigger] aligns@[k] == Some(sorted_components@[k].align),
forall|k: int| 0 <= k < vx_n0 ==> (#[trigger] names@[k]) is Some,
@epilogue
proof {
    assert(r.tys() =~= cids(sorted_components@));
    assert forall|i: int| 0 <= i < r.component_count implies #[trigger] r.sizes@[i] == Some(tsize(r.tys()[i]) as usize) by { assert(sorted_components@[i].ok()); }
    assert forall|i: int| 0 <= i < r.component_count implies #[trigger] r.aligns@[i] == Some(talign(r.tys()[i]) as usize) by { assert(sorted_components@[i].ok()); }
}
@@fn Archetype::with_components() -> r
@props C12 C04 C13
@requires
T::types().no_duplicates(),
@ensures
r.wf(),
forall|t: TypeId| #[trigger] r.has(t) == has_tid(T::types(), t),
@@fn Archetype::has_component(self) -> r
@props C12 C13
@requires
self.wf(),
@ensures
r == self.has(tid_of::<T>()),
@@fn Archetype::components_iter(self) -> r
@props C12 C13
@requires
self.wf(),
@ensures
all_ok(r@), cids(r@) =~= self.tys(),
@loop 0
@invariant
vx_r0@.len() == vx_n0, vx_end0 == self.component_count,
forall|k: int| 0 <= k < vx_n0 ==> (#[trigger] vx_r0@[k]).ok() && vx_r0@[k].id == self.tys()[k],
@@fn Archetype::find_component_index_of(self) -> r
@props C12 C05 C13 C06 C09 C10
@requires
self.wf(),
@ensures
r is Some == self.has(tid_of::<T>()), r is Some ==> r->0 < self.component_count && self.tys()[r->0 as int] == tid_of::<T>(),
@@fn Archetype::find_component_index(self, type_id) -> r
@props C12 C05 C13
@requires
self.wf(),
@ensures
r is Some == self.has(type_id), r is Some ==> r->0 < self.component_count && self.tys()[r->0 as int] == type_id,
@@fn Archetype::component_count(self) -> r
@props C12
@ensures
r == self.component_count,
@@fn Archetype::component_aligns(self) -> r
@props C05 C13
@requires
self.wf(),
@ensures
r@ == self.aligns@,
@@fn Archetype::component_sizes(self) -> r
@props C05 C13
@requires
self.wf(),
@ensures
r@ == self.sizes@,
@@fn Archetype::is_same_as(self, other) -> r
@props C12 C13
@requires
self.wf(), other.wf(),
@ensures
r == (self.tys() =~= other.tys()),
@@fn Archetype::is_include(self, other) -> r
@props C12 C13
@requires
self.wf(), other.wf(),
@ensures
r == (forall|i: int| 0 <= i < other.tys().len() ==> self.has(#[trigger] other.tys()[i])),
@prologue
proof { lemma_sorted_nodup(other.tys()); }
@@fn Archetype::is_include_ids(self, ids_to_check) -> r
@props C12 C06 C13 C09 C10
@requires
self.wf(),
@ensures
r ==> forall|i: int| 0 <= i < ids_to_check@.len() ==> self.has(#[trigger] ids_to_check@[i]),
ids_to_check@.no_duplicates() && (forall|i: int| 0 <= i < ids_to_check@.len() ==> self.has(#[trigger] ids_to_check@[i])) ==> r,
@prologue
proof { if ids_to_check@.no_duplicates() && (forall|i: int| 0 <= i < ids_to_check@.len() ==> self.has(#[trigger] ids_to_check@[i])) { lemma_pigeon(ids_to_check@, self.tys()); } }
@loop 0
@invariant
self_ids@ =~= self.tys(), forall|i: int| 0 <= i < vx_n0 ==> self.has(#[trigger] ids_to_check@[i]),
@@fn Archetype::is_include_only_ids(self, ids_to_check) -> r
@props C12 C13
@requires
self.wf(),
@ensures
r ==> forall|i: int| 0 <= i < ids_to_check@.len() ==> self.has(#[trigger] ids_to_check@[i]),
ids_to_check@.no_duplicates() ==> r == (forall|t: TypeId| #[trigger] self.has(t) == has_tid(ids_to_check@, t)),
@prologue
proof {
    lemma_sorted_nodup(self.tys());
    if ids_to_check@.no_duplicates() && (forall|i: int| 0 <= i < ids_to_check@.len() ==> self.has(#[trigger] ids_to_check@[i])) { lemma_same_set(ids_to_check@, self.tys()); }
    if ids_to_check@.no_duplicates() && (forall|t: TypeId| #[trigger] self.has(t) == has_tid(ids_to_check@, t)) {
        assert forall|i: int| 0 <= i < ids_to_check@.len() implies self.has(#[trigger] ids_to_check@[i]) by { assert(has_tid(ids_to_check@, ids_to_check@[i])); }
        assert forall|i: int| 0 <= i < self.tys().len() implies has_tid(ids_to_check@, #[trigger] self.tys()[i]) by { assert(self.has(self.tys()[i])); }
        lemma_pigeon(self.tys(), ids_to_check@);
        lemma_pigeon(ids_to_check@, self.tys());
    }
}
@loop 0
@invariant
self_ids@ =~= self.tys(), forall|i: int| 0 <= i < vx_n0 ==> self.has(#[trigger] ids_to_check@[i]),
@@fn Archetype::is_exclude(self, other) -> r
@props C12 C13
@requires
self.wf(), other.wf(),
@ensures
r == (forall|i: int| 0 <= i < other.tys().len() ==> !self.has(#[trigger] other.tys()[i])),
@@fn Archetype::is_exclude_ids(self, ids_to_check) -> r
@props C12 C06 C13 C09 C10
@requires
self.wf(),
@ensures
r == (forall|i: int| 0 <= i < ids_to_check@.len() ==> !self.has(#[trigger] ids_to_check@[i])),
@loop 0
@invariant
self_ids@ =~= self.tys(), forall|i: int| 0 <= i < vx_n0 ==> !self.has(#[trigger] ids_to_check@[i]),
@@fn Archetype::included_ids(self) -> r
@props C12 C13
@requires
self.wf(),
@ensures
r@ =~= self.tys(),
@@fn Archetype::clone(self) -> r
@props C12 C13
@requires
self.wf(),
@ensures
r.wf(), r.tys() =~= self.tys(),
@prologue
proof { lemma_fits(self.component_count as int); }
@epilogue
proof { assert(r.tys() =~= self.tys()); }
@@fn Archetype::drop(self)
@props C13
@requires
old(self).wf(),
@ensures
!final(self).ids.live(), !final(self).sizes.live(), !final(self).aligns.live(), !final(self).names.live(),
@prologue
proof { lemma_fits(self.component_count as int); }
@@module archetype_builder
@@use crate::component_type::*
@@use crate::archetype::*
@@use crate::tag_container::*
@@use crate::component_tuple::*
@@raw
broadcast use {axiom_tid, axiom_tsize};
impl ArchetypeBuilder {
    pub open spec fn wf(&self) -> bool { cids_distinct(self.component_types@) && all_ok(self.component_types@) }
    pub open spec fn has(&self, t: TypeId) -> bool { has_tid(cids(self.component_types@), t) }
}
pub proof fn lemma_absent(s: Seq<ComponentType>, c: ComponentType)
    requires cids_distinct(s), all_ok(s), c.ok(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).id != c.id,
    ensures cids_distinct(s.push(c)), all_ok(s.push(c)), forall|t: TypeId| #[trigger] has_tid(cids(s.push(c)), t) == (has_tid(cids(s), t) || t == c.id),
{
    let r = s.push(c);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).id != (#[trigger] r[j]).id by { assert(r[i] == s[i]); if j < s.len() { assert(r[j] == s[j]); } }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ok() by { if i < s.len() { assert(r[i] == s[i]); } }
    assert forall|t: TypeId| #[trigger] has_tid(cids(r), t) == (has_tid(cids(s), t) || t == c.id) by {
        assert(cids(r)[s.len() as int] == c.id);
        if has_tid(cids(s), t) { assert(cids(r)[pos(cids(s), t)] == t); }
        if has_tid(cids(r), t) { let k = pos(cids(r), t); if k < s.len() { assert(cids(s)[k] == t); } }
    }
}
pub proof fn lemma_take(s: Seq<ComponentType>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|t: TypeId| #[trigger] has_tid(cids(s.take(k + 1)), t) == (has_tid(cids(s.take(k)), t) || t == s[k].id),
{
    assert forall|t: TypeId| #[trigger] has_tid(cids(s.take(k + 1)), t) == (has_tid(cids(s.take(k)), t) || t == s[k].id) by {
        let (a, b) = (cids(s.take(k)), cids(s.take(k + 1)));
        assert(b[k] == s[k].id);
        if has_tid(a, t) { assert(b[pos(a, t)] == t); }
        if has_tid(b, t) { let j = pos(b, t); if j < k { assert(a[j] == t); } }
    }
}
pub proof fn lemma_present(s: Seq<ComponentType>, k: int)
    requires 0 <= k < s.len(),
    ensures has_tid(cids(s), s[k].id),
{ assert(cids(s)[k] == s[k].id); }
pub proof fn lemma_dropped(s: Seq<ComponentType>, k: int)
    requires cids_distinct(s), all_ok(s), 0 <= k < s.len(),
    ensures cids_distinct(s.remove(k)), all_ok(s.remove(k)), forall|t: TypeId| #[trigger] has_tid(cids(s.remove(k)), t) == (has_tid(cids(s), t) && t != s[k].id),
{
    let r = s.remove(k);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).id != (#[trigger] r[j]).id by { assert(r[i] == s[if i < k { i } else { i + 1 }] && r[j] == s[if j < k { j } else { j + 1 }]); }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ok() by { assert(r[i] == s[if i < k { i } else { i + 1 }]); }
    assert forall|t: TypeId| #[trigger] has_tid(cids(r), t) == (has_tid(cids(s), t) && t != s[k].id) by {
        if has_tid(cids(s), t) && t != s[k].id { let j = pos(cids(s), t); assert(cids(r)[if j < k { j } else { j - 1 }] == t); }
        if has_tid(cids(r), t) { let j = pos(cids(r), t); let m = if j < k { j } else { j + 1 }; assert(cids(s)[m] == t); assert(s[m].id != s[k].id); }
    }
}
pub open spec fn swapped(s: Seq<ComponentType>, k: int) -> Seq<ComponentType> { s.update(k, s[s.len() - 1]).take(s.len() - 1) }
pub proof fn lemma_swapped(s: Seq<ComponentType>, k: int)
    requires cids_distinct(s), all_ok(s), 0 <= k < s.len(),
    ensures cids_distinct(swapped(s, k)), all_ok(swapped(s, k)), forall|t: TypeId| #[trigger] has_tid(cids(swapped(s, k)), t) == (has_tid(cids(s), t) && t != s[k].id),
{
    let r = swapped(s, k);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).id != (#[trigger] r[j]).id by { assert(r[i] == s[if i == k { s.len() - 1 } else { i }] && r[j] == s[if j == k { s.len() - 1 } else { j }]); }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ok() by { assert(r[i] == s[if i == k { s.len() - 1 } else { i }]); }
    assert forall|t: TypeId| #[trigger] has_tid(cids(r), t) == (has_tid(cids(s), t) && t != s[k].id) by {
        if has_tid(cids(s), t) && t != s[k].id { let j = pos(cids(s), t); assert(cids(r)[if j == s.len() - 1 { k } else { j }] == t); }
        if has_tid(cids(r), t) { let j = pos(cids(r), t); let m = if j == k { s.len() - 1 } else { j }; assert(cids(s)[m] == t); assert(s[m].id != s[k].id); }
    }
}
@@fn ArchetypeBuilder::new() -> r
@props C12
@ensures
r.wf(), r.component_types@.len() == 0,
forall|t: TypeId| !#[trigger] r.has(t),
@@fn ArchetypeBuilder::is_empty(self) -> r
@props C12 C04
@ensures
r == (self.component_types@.len() == 0),
@@fn ArchetypeBuilder::include_component_types(self, components) -> r
@props C12 C13
@requires
old(self).wf(), all_ok(components@),
@ensures
*final(self) == *final(r), r.wf(),
r.component_types@.len() <= old(self).component_types@.len() + components@.len(),
[C12]
forall|t: TypeId| #[trigger] r.has(t) == (old(self).has(t) || has_tid(cids(components@), t)),
@loop 0
@invariant
self.wf(), self.component_types@.len() <= old(self).component_types@.len() + vx_n0, vx_end0 == components@.len(),
[C12]
forall|t: TypeId| #[trigger] has_tid(cids(self.component_types@), t) == (old(self).has(t) || has_tid(cids(components@.take(vx_n0 as int)), t)),
@loopstart
proof { lemma_take(components@, vx_k0 as int); assert(components@[vx_k0 as int].ok()); }
let ghost s0 = self.component_types@;
@loopend
proof {
    assert(vx_n0 == vx_k0 + 1);
    if self.component_types@.len() > s0.len() { lemma_absent(s0, components@[vx_k0 as int]); }
    else { let k = choose|k: int| 0 <= k < s0.len() && (#[trigger] s0[k]).id == components@[vx_k0 as int].id; lemma_present(s0, k); assert(has_tid(cids(s0), components@[vx_k0 as int].id)); }
}
@loopafter
proof { assert(components@.take(components@.len() as int) =~= components@); }
@loop 1
@invariant
vx_end1 == self.component_types@.len(),
@invariant_except_break
!vx_r1, forall|k: int| 0 <= k < vx_n1 ==> (#[trigger] self.component_types@[k]).id != components@[vx_k0 as int].id,
@loopensures
vx_r1 ==> exists|k: int| 0 <= k < vx_end1 && (#[trigger] self.component_types@[k]).id == components@[vx_k0 as int].id,
!vx_r1 ==> forall|k: int| 0 <= k < vx_end1 ==> (#[trigger] self.component_types@[k]).id != components@[vx_k0 as int].id,
@@fn ArchetypeBuilder::exclude_component_types(self, components) -> r
@props C12 C13
@requires
old(self).wf(),
@ensures
*final(self) == *final(r), r.wf(),
r.component_types@.len() <= old(self).component_types@.len(),
[C12]
forall|t: TypeId| #[trigger] r.has(t) == (old(self).has(t) && !has_tid(cids(components@), t)),
@loop 0
@invariant
self.wf(), self.component_types@.len() <= old(self).component_types@.len(), vx_end0 == components@.len(),
[C12]
forall|t: TypeId| #[trigger] has_tid(cids(self.component_types@), t) == (old(self).has(t) && !has_tid(cids(components@.take(vx_n0 as int)), t)),
@loopstart
proof { lemma_take(components@, vx_k0 as int); }
let ghost s0 = self.component_types@;
@loopend
proof {
    if self.component_types@.len() < s0.len() {
        let k = choose|k: int| 0 <= k < s0.len() && (#[trigger] s0[k]).id == components@[vx_k0 as int].id;
        lemma_dropped(s0, k);
        lemma_swapped(s0, k);
        if self.component_types@ =~= s0.remove(k) {} else { assert(self.component_types@ =~= swapped(s0, k)); }
    } else { assert(!has_tid(cids(s0), components@[vx_k0 as int].id)); }
}
@loopafter
proof { assert(components@.take(components@.len() as int) =~= components@); }
@loop 1
@invariant
vx_end1 == self.component_types@.len(),
@invariant_except_break
vx_r1 is None, forall|k: int| 0 <= k < vx_n1 ==> (#[trigger] self.component_types@[k]).id != components@[vx_k0 as int].id,
@loopensures
vx_r1 is Some ==> vx_r1->0 < vx_end1 && self.component_types@[vx_r1->0 as int].id == components@[vx_k0 as int].id,
vx_r1 is None ==> forall|k: int| 0 <= k < vx_end1 ==> (#[trigger] self.component_types@[k]).id != components@[vx_k0 as int].id,
@@fn ArchetypeBuilder::include_archetype(self, archetype) -> r
@props C12 C13
@requires
old(self).wf(), archetype.wf(),
@ensures
*final(self) == *final(r), r.wf(),
r.component_types@.len() <= old(self).component_types@.len() + archetype.component_count,
[C12]
forall|t: TypeId| #[trigger] r.has(t) == (old(self).has(t) || archetype.has(t)),
@prologue
proof { axiom_sz_ct(); }
@loop 0
@invariant
self.wf(), self.component_types@.len() <= old(self).component_types@.len() + vx_n0,
[C12]
forall|t: TypeId| #[trigger] has_tid(cids(self.component_types@), t) == (old(self).has(t) || has_tid(cids(vx_src0@.take(vx_n0 as int)), t)),
@loopstart
proof { lemma_take(vx_src0@, vx_k0 as int); assert(vx_src0@[vx_k0 as int].ok()); }
let ghost s0 = self.component_types@;
@loopend
proof {
    assert(vx_n0 == vx_k0 + 1);
    if self.component_types@.len() > s0.len() { lemma_absent(s0, vx_src0@[vx_k0 as int]); }
    else { let k = choose|k: int| 0 <= k < s0.len() && (#[trigger] s0[k]).id == vx_src0@[vx_k0 as int].id; lemma_present(s0, k); assert(has_tid(cids(s0), vx_src0@[vx_k0 as int].id)); }
}
@loopafter
proof { assert(vx_src0@.take(vx_src0@.len() as int) =~= vx_src0@); }
@loop 1
@invariant
vx_end1 == self.component_types@.len(),
@invariant_except_break
!vx_r1, forall|k: int| 0 <= k < vx_n1 ==> (#[trigger] self.component_types@[k]).id != vx_src0@[vx_k0 as int].id,
@loopensures
vx_r1 ==> exists|k: int| 0 <= k < vx_end1 && (#[trigger] self.component_types@[k]).id == vx_src0@[vx_k0 as int].id,
!vx_r1 ==> forall|k: int| 0 <= k < vx_end1 ==> (#[trigger] self.component_types@[k]).id != vx_src0@[vx_k0 as int].id,
@@fn ArchetypeBuilder::include_components(self) -> r
@props C12 C13
@requires
old(self).wf(),
@ensures
*final(self) == *final(r), r.wf(),
r.component_types@.len() <= old(self).component_types@.len() + T::types().len(),
[C12]
forall|t: TypeId| #[trigger] r.has(t) == (old(self).has(t) || has_tid(T::types(), t)),
@@fn ArchetypeBuilder::exclude_components(self) -> r
@props C12 C13
@requires
old(self).wf(),
@ensures
*final(self) == *final(r), r.wf(),
r.component_types@.len() <= old(self).component_types@.len(),
[C12]
forall|t: TypeId| #[trigger] r.has(t) == (old(self).has(t) && !has_tid(T::types(), t)),
@@fn ArchetypeBuilder::build(self) -> r
@props C12 C13
@requires
old(self).wf(), old(self).component_types@.len() <= 0x1000_0000,
@ensures
r.wf(),
[C12]
forall|t: TypeId| #[trigger] r.has(t) == old(self).has(t),
@after sort 0
proof { lemma_sorted(old(self).component_types@, self.component_types@); }
