@@module order_group_container
@@use crate::bitvec_utils::*
@@use crate::entities_container::*
@@use crate::tag_container::*
@@use crate::derived_traits::*
@@use crate::entity::*
@@raw
broadcast use {group_sizes, axiom_zeroed_u32};
pub const NIL: u32 = 0xffff_ffff;
/// what follows the i-th of s
pub open spec fn nx(s: Seq<u32>, i: int) -> u32 { if i + 1 < s.len() { s[i + 1] } else { NIL } }
pub open spec fn first(s: Seq<u32>) -> u32 { if s.len() > 0 { s[0] } else { NIL } }
pub open spec fn nodup(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i] != s[j] }
pub open spec fn below(s: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < n }
pub open spec fn nexts(s: Seq<u32>, f: Seq<Option<u32>>) -> bool { forall|i: int| 0 <= i < s.len() ==> f[s[i] as int] == Some(#[trigger] nx(s, i)) }
pub open spec fn rest(s: Seq<u32>, f: Seq<Option<u32>>) -> bool { forall|x: int| 0 <= x < f.len() && !s.contains(x as u32) ==> #[trigger] f[x] == Some(NIL) }
/// starting at h and following f one meets s, and nobody else is linked
#[verifier::opaque]
pub open spec fn half(s: Seq<u32>, h: u32, f: Seq<Option<u32>>) -> bool {
    f.len() <= 0x8000_0000 && nodup(s) && below(s, f.len() as int) && h == first(s) && nexts(s, f) && rest(s, f)
}
/// the links say that the group is the sequence s
pub open spec fn chain(s: Seq<u32>, h: u32, t: u32, f: Seq<Option<u32>>, b: Seq<Option<u32>>) -> bool { half(s, h, f) && half(s.reverse(), t, b) && f.len() == b.len() }
pub open spec fn the_chain(h: u32, t: u32, f: Seq<Option<u32>>, b: Seq<Option<u32>>) -> Seq<u32> { choose|s: Seq<u32>| chain(s, h, t, f, b) }
/// there is only one such sequence
pub proof fn lemma_half_unique(s: Seq<u32>, u: Seq<u32>, h: u32, f: Seq<Option<u32>>)
    requires half(s, h, f), half(u, h, f),
    ensures s == u,
{
    reveal(half);
    if s.len() > 0 && u.len() == 0 { assert(s[0] < f.len()); }
    if u.len() > 0 && s.len() == 0 { assert(u[0] < f.len()); }
    let n = if s.len() < u.len() { s.len() } else { u.len() };
    lemma_same_prefix(s, u, h, f, n as int);
    if n > 0 && s.len() != u.len() {
        assert(s[n - 1] == u[n - 1]);
        assert(nx(s, n - 1) == nx(u, n - 1));
        if s.len() < u.len() { assert(u[n as int] < f.len()); } else { assert(s[n as int] < f.len()); }
    }
    assert(s =~= u);
}
pub proof fn lemma_same_prefix(s: Seq<u32>, u: Seq<u32>, h: u32, f: Seq<Option<u32>>, n: int)
    requires half(s, h, f), half(u, h, f), 0 <= n <= s.len(), n <= u.len(),
    ensures forall|i: int| 0 <= i < n ==> s[i] == u[i],
    decreases n,
{
    reveal(half);
    if n > 1 {
        lemma_same_prefix(s, u, h, f, n - 1);
        assert(s[n - 2] == u[n - 2]);
        assert(nx(s, n - 2) == nx(u, n - 2));
    }
}
pub proof fn lemma_chain(s: Seq<u32>, h: u32, t: u32, f: Seq<Option<u32>>, b: Seq<Option<u32>>)
    requires chain(s, h, t, f, b),
    ensures the_chain(h, t, f, b) == s,
{ lemma_half_unique(s, the_chain(h, t, f, b), h, f); }
/// where the links of x lead
pub proof fn lemma_half(s: Seq<u32>, h: u32, f: Seq<Option<u32>>, x: u32)
    requires half(s, h, f),
    ensures
        h == first(s), bounded(h, f.len()), all_bounded(f), (h == NIL) == (s.len() == 0),
        s.contains(x) ==> x < f.len() && 0 <= s.index_of(x) < s.len() && s[s.index_of(x)] == x && f[x as int] == Some(nx(s, s.index_of(x))) && (h == x) == (s.index_of(x) == 0),
        s.contains(x) && s.index_of(x) + 1 < s.len() ==> nx(s, s.index_of(x)) < f.len() && nx(s, s.index_of(x)) != x,
        s.contains(x) && s.index_of(x) > 0 ==> s[s.index_of(x) - 1] < f.len() && s[s.index_of(x) - 1] != x,
        !s.contains(x) ==> h != x || x == NIL,
        !s.contains(x) && x < f.len() ==> f[x as int] == Some(NIL),
{
    reveal(half);
    if s.len() > 0 { assert(s[0] < f.len()); assert(s.contains(s[0])); }
    if s.contains(x) {
        let i = s.index_of(x);
        assert(0 <= i < s.len() && s[i] == x);
        assert(f[s[i] as int] == Some(nx(s, i)));
        if i + 1 < s.len() { assert(s[i + 1] < f.len()); }
    } else if x < f.len() {
        assert(x as int as u32 == x);
    }
    assert forall|y: int| 0 <= y < f.len() implies (#[trigger] f[y]) is Some && bounded(f[y].unwrap(), f.len()) by {
        if s.contains(y as u32) { let i = s.index_of(y as u32); assert(s[i] == y as u32); assert(f[s[i] as int] == Some(nx(s, i))); if i + 1 < s.len() { assert(s[i + 1] < f.len()); } }
    }
}
pub proof fn lemma_reverse(s: Seq<u32>, x: u32)
    requires nodup(s),
    ensures s.reverse().contains(x) == s.contains(x), s.contains(x) ==> s.reverse().index_of(x) == s.len() - 1 - s.index_of(x),
{
    let r = s.reverse();
    if s.contains(x) { let i = s.index_of(x); assert(s[i] == x); assert(r[s.len() - 1 - i] == x); assert(r.contains(x)); let j = r.index_of(x); assert(r[j] == x); assert(s[s.len() - 1 - j] == x); }
    if r.contains(x) { let i = r.index_of(x); assert(r[i] == x); assert(s[s.len() - 1 - i] == x); }
}
pub proof fn lemma_links(s: Seq<u32>, h: u32, t: u32, f: Seq<Option<u32>>, b: Seq<Option<u32>>, x: u32)
    requires chain(s, h, t, f, b),
    ensures
        s.contains(x) ==> x < f.len() && 0 <= s.index_of(x) < s.len() && s[s.index_of(x)] == x,
        s.contains(x) ==> f[x as int] == Some(nx(s, s.index_of(x))),
        s.contains(x) ==> b[x as int] == Some(if s.index_of(x) > 0 { s[s.index_of(x) - 1] } else { NIL }),
        !s.contains(x) && x < f.len() ==> f[x as int] == Some(NIL) && b[x as int] == Some(NIL) && h != x && t != x,
        s.contains(x) ==> (h == x) == (s.index_of(x) == 0) && (t == x) == (s.index_of(x) == s.len() - 1),
        s.contains(x) && s.index_of(x) > 0 ==> s[s.index_of(x) - 1] < f.len() && s[s.index_of(x) - 1] != x,
        s.contains(x) && s.index_of(x) + 1 < s.len() ==> s[s.index_of(x) + 1] < f.len() && s[s.index_of(x) + 1] != x,
        h == first(s), t == (if s.len() > 0 { s[s.len() - 1] } else { NIL }),
        bounded(h, f.len()), bounded(t, f.len()), all_bounded(f), all_bounded(b), (h == NIL) == (s.len() == 0), (t == NIL) == (s.len() == 0),
        x < f.len() && h != x && f[x as int] == Some(NIL) && b[x as int] == Some(NIL) ==> !s.contains(x),
        f.len() == b.len() <= 0x8000_0000, nodup(s), nodup(s.reverse()),
{
    assert(nodup(s) && nodup(s.reverse()) && f.len() <= 0x8000_0000) by { reveal(half); }
    lemma_half(s, h, f, x);
    lemma_half(s.reverse(), t, b, x);
    lemma_reverse(s, x);
}
pub open spec fn bounded(h: u32, n: nat) -> bool { h == NIL || h < n }
pub open spec fn all_bounded(f: Seq<Option<u32>>) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) is Some && bounded(f[i].unwrap(), f.len()) }
/// f with x linked in at place i of s
pub open spec fn linked(s: Seq<u32>, i: int, x: u32, f: Seq<Option<u32>>) -> Seq<Option<u32>> {
    let g = f.update(x as int, Some(if i < s.len() { s[i] } else { NIL }));
    if i > 0 { g.update(s[i - 1] as int, Some(x)) } else { g }
}
pub proof fn lemma_half_inserted(s: Seq<u32>, i: int, x: u32, h: u32, f: Seq<Option<u32>>, h2: u32)
    requires half(s, h, f), 0 <= i <= s.len(), x < f.len(), !s.contains(x), h2 == (if i == 0 { x } else { h }),
    ensures half(s.insert(i, x), h2, linked(s, i, x, f)),
{
    reveal(half);
    let n = s.insert(i, x);
    let f2 = linked(s, i, x, f);
    assert forall|j: int| 0 <= j < s.len() implies s[j] != x by { assert(s.contains(s[j])); }
    assert(below(n, f2.len() as int)) by { assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]) < f2.len() by { if j < i { assert(n[j] == s[j]); } else if j > i { assert(n[j] == s[j - 1]); } } }
    assert(nodup(n)) by { assert forall|j: int, k: int| 0 <= j < n.len() && 0 <= k < n.len() && j != k implies n[j] != n[k] by {
        if j < i { assert(n[j] == s[j]); } else if j > i { assert(n[j] == s[j - 1]); }
        if k < i { assert(n[k] == s[k]); } else if k > i { assert(n[k] == s[k - 1]); }
    } }
    assert(nexts(n, f2)) by { assert forall|j: int| 0 <= j < n.len() implies f2[n[j] as int] == Some(#[trigger] nx(n, j)) by {
        if j == i { assert(n[j] == x); if i > 0 { assert(s[i - 1] != x); } }
        else if j < i { assert(n[j] == s[j]); if j == i - 1 {} else { assert(s[j] != s[i - 1]); assert(nx(s, j) == s[j + 1] && nx(n, j) == s[j + 1]); } }
        else { assert(n[j] == s[j - 1]); if i > 0 { assert(s[j - 1] != s[i - 1]); } assert(nx(s, j - 1) == nx(n, j)); }
    } }
    assert(rest(n, f2)) by { assert forall|y: int| 0 <= y < f2.len() && !n.contains(y as u32) implies #[trigger] f2[y] == Some(NIL) by {
        assert(n[i] == x);
        assert(!s.contains(y as u32)) by { if s.contains(y as u32) { let q = s.index_of(y as u32); assert(s[q] == y as u32); assert(n[if q < i { q } else { q + 1 }] == y as u32); } }
        if i > 0 { assert(s.contains(s[i - 1])); }
        assert(f[y] == Some(NIL));
    } }
}
pub proof fn lemma_inserted(s: Seq<u32>, i: int, x: u32, h: u32, t: u32, f: Seq<Option<u32>>, b: Seq<Option<u32>>, h2: u32, t2: u32, f2: Seq<Option<u32>>, b2: Seq<Option<u32>>)
    requires chain(s, h, t, f, b), 0 <= i <= s.len(), x < f.len(), !s.contains(x),
        f2 =~= linked(s, i, x, f), b2 =~= linked(s.reverse(), s.len() - i, x, b),
        h2 == (if i == 0 { x } else { h }), t2 == (if i == s.len() { x } else { t }),
    ensures chain(s.insert(i, x), h2, t2, f2, b2), the_chain(h2, t2, f2, b2) == s.insert(i, x),
{
    assert(nodup(s)) by { reveal(half); }
    lemma_half_inserted(s, i, x, h, f, h2);
    lemma_reverse(s, x);
    lemma_half_inserted(s.reverse(), s.len() - i, x, t, b, t2);
    assert(s.insert(i, x).reverse() =~= s.reverse().insert(s.len() - i, x));
    lemma_chain(s.insert(i, x), h2, t2, f2, b2);
}
/// f with x taken out
pub open spec fn unlinked(s: Seq<u32>, x: u32, f: Seq<Option<u32>>) -> Seq<Option<u32>> {
    if s.contains(x) && s.index_of(x) > 0 { f.update(s[s.index_of(x) - 1] as int, Some(nx(s, s.index_of(x)))).update(x as int, Some(NIL)) } else { f.update(x as int, Some(NIL)) }
}
pub proof fn lemma_half_removed(s: Seq<u32>, x: u32, h: u32, f: Seq<Option<u32>>, h2: u32)
    requires half(s, h, f), x < f.len(), h2 == (if h == x { nx(s, s.index_of(x)) } else { h }),
    ensures half(without(s, x), h2, unlinked(s, x, f)),
{
    lemma_half(s, h, f, x);
    reveal(half);
    let n = without(s, x);
    let f2 = unlinked(s, x, f);
    if s.contains(x) {
        let i = s.index_of(x);
        assert(s[i] == x);
        assert(below(n, f2.len() as int)) by { assert forall|j: int| 0 <= j < n.len() implies (#[trigger] n[j]) < f2.len() by { if j < i { assert(n[j] == s[j]); } else { assert(n[j] == s[j + 1]); } } }
        assert(nodup(n)) by { assert forall|j: int, k: int| 0 <= j < n.len() && 0 <= k < n.len() && j != k implies n[j] != n[k] by {
            if j < i { assert(n[j] == s[j]); } else { assert(n[j] == s[j + 1]); }
            if k < i { assert(n[k] == s[k]); } else { assert(n[k] == s[k + 1]); }
        } }
        assert(nexts(n, f2)) by { assert forall|j: int| 0 <= j < n.len() implies f2[n[j] as int] == Some(#[trigger] nx(n, j)) by {
            if j < i { assert(n[j] == s[j]); assert(s[j] != s[i]); if j == i - 1 { assert(nx(n, j) == nx(s, i)); } else { assert(s[j] != s[i - 1]); assert(nx(s, j) == s[j + 1] && nx(n, j) == s[j + 1]); } }
            else { assert(n[j] == s[j + 1]); assert(s[j + 1] != s[i]); if i > 0 { assert(s[j + 1] != s[i - 1]); } assert(nx(s, j + 1) == nx(n, j)); }
        } }
        assert(rest(n, f2)) by { assert forall|y: int| 0 <= y < f2.len() && !n.contains(y as u32) implies #[trigger] f2[y] == Some(NIL) by {
            if y != x {
                assert(!s.contains(y as u32)) by { if s.contains(y as u32) { let q = s.index_of(y as u32); assert(s[q] == y as u32); assert(n[if q < i { q } else { q - 1 }] == y as u32); } }
                if i > 0 { assert(s.contains(s[i - 1])); }
                assert(f[y] == Some(NIL));
            }
        } }
    } else {
        assert(f2 =~= f);
    }
}
pub proof fn lemma_removed(s: Seq<u32>, x: u32, h: u32, t: u32, f: Seq<Option<u32>>, b: Seq<Option<u32>>, h2: u32, t2: u32, f2: Seq<Option<u32>>, b2: Seq<Option<u32>>)
    requires chain(s, h, t, f, b), x < f.len(),
        f2 =~= unlinked(s, x, f), b2 =~= unlinked(s.reverse(), x, b),
        h2 == (if h == x { nx(s, s.index_of(x)) } else { h }), t2 == (if t == x { nx(s.reverse(), s.reverse().index_of(x)) } else { t }),
    ensures chain(without(s, x), h2, t2, f2, b2), the_chain(h2, t2, f2, b2) == without(s, x),
{
    assert(nodup(s)) by { reveal(half); }
    lemma_reverse(s, x);
    lemma_half_removed(s, x, h, f, h2);
    lemma_half_removed(s.reverse(), x, t, b, t2);
    if s.contains(x) {
        let i = s.index_of(x);
        assert(s[i] == x);
        assert(s.remove(i).reverse() =~= s.reverse().remove(s.len() - 1 - i));
    }
    lemma_chain(without(s, x), h2, t2, f2, b2);
}
pub open spec fn links_ok(b: RawBuf<u32>, cap: int) -> bool { owned(b, cap) && all_init(b@) }
pub open spec fn next_in(s: Seq<u32>, x: u32) -> Option<u32> { if s.contains(x) && s.index_of(x) + 1 < s.len() { Some(s[s.index_of(x) + 1]) } else { None } }
pub open spec fn prev_in(s: Seq<u32>, x: u32) -> Option<u32> { if s.contains(x) && s.index_of(x) > 0 { Some(s[s.index_of(x) - 1]) } else { None } }
pub open spec fn without(s: Seq<u32>, x: u32) -> Seq<u32> { if s.contains(x) { s.remove(s.index_of(x)) } else { s } }
impl OrderGroupContainer {
    pub open spec fn fwd(&self, k: int) -> RawBuf<u32> { self.group_index_to_forward_links@[k] }
    pub open spec fn bwd(&self, k: int) -> RawBuf<u32> { self.group_index_to_backward_links@[k] }
    pub open spec fn is(&self, k: int, s: Seq<u32>) -> bool { chain(s, self.group_index_to_head@[k], self.group_index_to_tail@[k], self.fwd(k)@, self.bwd(k)@) }
    pub open spec fn grp(&self, k: int) -> Seq<u32> { the_chain(self.group_index_to_head@[k], self.group_index_to_tail@[k], self.fwd(k)@, self.bwd(k)@) }
    pub open spec fn mem(&self) -> bool {
        &&& self.entity_capacity <= 0x8000_0000
        &&& tids_sorted(self.group_ids@)
        &&& self.group_index_to_forward_links@.len() == self.group_ids@.len()
        &&& self.group_index_to_backward_links@.len() == self.group_ids@.len()
        &&& self.group_index_to_head@.len() == self.group_ids@.len()
        &&& self.group_index_to_tail@.len() == self.group_ids@.len()
        &&& forall|k: int| 0 <= k < self.group_ids@.len() ==> links_ok(#[trigger] self.group_index_to_forward_links@[k], self.entity_capacity as int)
        &&& forall|k: int| 0 <= k < self.group_ids@.len() ==> links_ok(#[trigger] self.group_index_to_backward_links@[k], self.entity_capacity as int)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.mem()
        &&& forall|k: int| 0 <= k < self.group_ids@.len() ==> self.is(k, #[trigger] self.grp(k))
    }
    pub proof fn lemma_links(&self, k: int, x: u32)
        requires self.wf(), 0 <= k < self.group_ids@.len(),
        ensures
            ({ let s = self.grp(k); let f = self.fwd(k)@; let b = self.bwd(k)@; let h = self.group_index_to_head@[k]; let t = self.group_index_to_tail@[k];
               &&& links_ok(self.fwd(k), self.entity_capacity as int) && links_ok(self.bwd(k), self.entity_capacity as int) && chain(s, h, t, f, b)
               &&& s.contains(x) ==> x < self.entity_capacity && 0 <= s.index_of(x) < s.len() && s[s.index_of(x)] == x
               &&& s.contains(x) ==> f[x as int] == Some(nx(s, s.index_of(x)))
               &&& s.contains(x) ==> b[x as int] == Some(if s.index_of(x) > 0 { s[s.index_of(x) - 1] } else { NIL })
               &&& !s.contains(x) && x < self.entity_capacity ==> f[x as int] == Some(NIL) && b[x as int] == Some(NIL) && h != x && t != x
               &&& s.contains(x) ==> (h == x) == (s.index_of(x) == 0) && (t == x) == (s.index_of(x) == s.len() - 1)
               &&& s.contains(x) && s.index_of(x) > 0 ==> s[s.index_of(x) - 1] < self.entity_capacity && s[s.index_of(x) - 1] != x
               &&& s.contains(x) && s.index_of(x) + 1 < s.len() ==> s[s.index_of(x) + 1] < self.entity_capacity && s[s.index_of(x) + 1] != x
               &&& h == first(s) && t == (if s.len() > 0 { s[s.len() - 1] } else { NIL })
               &&& bounded(h, self.entity_capacity as nat) && bounded(t, self.entity_capacity as nat) && all_bounded(f) && all_bounded(b) && (h == NIL) == (s.len() == 0) && (t == NIL) == (s.len() == 0)
               &&& x < self.entity_capacity && h != x && f[x as int] == Some(NIL) && b[x as int] == Some(NIL) ==> !s.contains(x)
               &&& s.contains(x) == s.reverse().contains(x) && (s.contains(x) ==> s.reverse().index_of(x) == s.len() - 1 - s.index_of(x))
               &&& nodup(s)
            }),
    {
        assert(self.is(k, self.grp(k)));
        assert(links_ok(self.group_index_to_forward_links@[k], self.entity_capacity as int));
        assert(links_ok(self.group_index_to_backward_links@[k], self.entity_capacity as int));
        lemma_links(self.grp(k), self.group_index_to_head@[k], self.group_index_to_tail@[k], self.fwd(k)@, self.bwd(k)@, x);
        lemma_reverse(self.grp(k), x);
    }
    /// one group changed to `n`, the others did not
    pub proof fn lemma_changed(&self, o: &OrderGroupContainer, k: int, n: Seq<u32>)
        requires
            o.wf(), self.mem(), 0 <= k < o.group_ids@.len(), self.group_ids == o.group_ids, self.entity_capacity == o.entity_capacity, self.is(k, n),
            forall|j: int| 0 <= j < o.group_ids@.len() && j != k ==> #[trigger] self.fwd(j) == o.fwd(j) && self.bwd(j) == o.bwd(j) && self.group_index_to_head@[j] == o.group_index_to_head@[j] && self.group_index_to_tail@[j] == o.group_index_to_tail@[j],
        ensures
            self.wf(), self.grp(k) == n,
            forall|j: int| 0 <= j < o.group_ids@.len() && j != k ==> #[trigger] self.grp(j) == o.grp(j),
            self.seq(o.group_ids@[k]) == n, self.others(o, o.group_ids@[k]),
    {
        broadcast use lemma_pos;
        lemma_chain(n, self.group_index_to_head@[k], self.group_index_to_tail@[k], self.fwd(k)@, self.bwd(k)@);
        assert forall|j: int| 0 <= j < self.group_ids@.len() implies self.is(j, #[trigger] self.grp(j)) by { if j != k { assert(self.fwd(j) == o.fwd(j)); assert(o.is(j, o.grp(j))); } }
        assert forall|j: int| 0 <= j < o.group_ids@.len() && j != k implies #[trigger] self.grp(j) == o.grp(j) by { assert(self.fwd(j) == o.fwd(j)); }
        assert forall|u: TypeId| u != o.group_ids@[k] implies #[trigger] self.seq(u) == o.seq(u) by {
            if has_tid(o.group_ids@, u) { let j = pos(o.group_ids@, u); assert(0 <= j < o.group_ids@.len() && o.group_ids@[j] == u); assert(self.grp(j) == o.grp(j)); }
        }
    }
    /// no id is twice in a group
    pub proof fn lemma_seq(&self, t: TypeId)
        requires self.wf(),
        ensures nodup(self.seq(t)), below(self.seq(t), self.entity_capacity as int),
    {
        broadcast use lemma_pos;
        reveal(half);
        if has_tid(self.group_ids@, t) { let k = pos(self.group_ids@, t); assert(0 <= k < self.group_ids@.len()); self.lemma_links(k, 0); assert(links_ok(self.group_index_to_forward_links@[k], self.entity_capacity as int)); }
    }
    /// the group of a type
    pub open spec fn seq(&self, t: TypeId) -> Seq<u32> { if has_tid(self.group_ids@, t) { self.grp(pos(self.group_ids@, t)) } else { Seq::empty() } }
    pub open spec fn others(&self, o: &OrderGroupContainer, t: TypeId) -> bool { self.entity_capacity == o.entity_capacity && forall|u: TypeId| u != t ==> #[trigger] self.seq(u) == o.seq(u) }
}
@@raw
pub proof fn lemma_empty(c: OrderGroupContainer, k: int)
    requires c.mem(), 0 <= k < c.group_ids@.len(), c.group_index_to_head@[k] == NIL, c.group_index_to_tail@[k] == NIL,
        forall|i: int| 0 <= i < c.entity_capacity ==> #[trigger] c.fwd(k)@[i] == Some(NIL), forall|i: int| 0 <= i < c.entity_capacity ==> #[trigger] c.bwd(k)@[i] == Some(NIL),
    ensures c.is(k, Seq::empty()), c.grp(k) == Seq::<u32>::empty(),
{
    reveal(half);
    let e = Seq::<u32>::empty();
    assert(links_ok(c.group_index_to_forward_links@[k], c.entity_capacity as int));
    assert(links_ok(c.group_index_to_backward_links@[k], c.entity_capacity as int));
    assert(e.reverse() =~= e);
    lemma_chain(e, c.group_index_to_head@[k], c.group_index_to_tail@[k], c.fwd(k)@, c.bwd(k)@);
}
@@raw
pub proof fn lemma_half_grown(s: Seq<u32>, h: u32, f: Seq<Option<u32>>, f2: Seq<Option<u32>>)
    requires half(s, h, f), f.len() <= f2.len() <= 0x8000_0000, forall|i: int| 0 <= i < f2.len() ==> #[trigger] f2[i] == (if i < f.len() { f[i] } else { Some(NIL) }),
    ensures half(s, h, f2),
{
    reveal(half);
}
@@fn OrderGroupContainer::new(entity_capacity) -> r
@props C08 C13
@requires
entity_capacity <= 0x8000_0000,
@ensures
r.wf(), r.entity_capacity == entity_capacity,
[C08]
forall|t: TypeId| #[trigger] r.seq(t) == Seq::<u32>::empty(),
@@macro search
@prologue
broadcast use {lemma_pos, lemma_tids_insert};
proof { lemma_fits_u32(self.entity_capacity as int); }
@@fn OrderGroupContainer::reserve_group(self) -> r
@props C08 C13
@requires
old(self).wf(),
@ensures
final(self).wf(), r < final(self).group_ids@.len(), has_tid(final(self).group_ids@, tid_of::<T>()), r == pos(final(self).group_ids@, tid_of::<T>()), final(self).entity_capacity == old(self).entity_capacity,
[C08]
forall|t: TypeId| #[trigger] final(self).seq(t) == old(self).seq(t),
%%search
@epilogue
proof {
    let k = pos(self.group_ids@, tid_of::<T>());
    if !has_tid(old(self).group_ids@, tid_of::<T>()) {
        lemma_empty(*self, k);
        assert forall|j: int| 0 <= j < self.group_ids@.len() implies self.is(j, #[trigger] self.grp(j)) by {
            if j < k { assert(old(self).is(j, old(self).grp(j))); assert(self.grp(j) == old(self).grp(j)); }
            else if j > k { assert(old(self).is(j - 1, old(self).grp(j - 1))); assert(self.grp(j) == old(self).grp(j - 1)); }
        }
    }
}
@@fn OrderGroupContainer::alloc_links_map(self) -> r
@props C08 C13
@requires
self.entity_capacity <= 0x8000_0000,
@ensures
links_ok(r, self.entity_capacity as int), forall|i: int| 0 <= i < self.entity_capacity ==> #[trigger] r@[i] == Some(NIL),
@prologue
assert((0xffff_ffffu32 as u8) == 0xffu8) by (bit_vector);
proof { lemma_fits_u32(self.entity_capacity as int); }
@@fn OrderGroupContainer::get_order_group_info_unchecked_mut(self, group_index) -> r
@props C08 C13
@requires
old(self).mem(), group_index < old(self).group_ids@.len(),
@ensures
*r.head == old(self).group_index_to_head@[group_index as int],
*r.tail == old(self).group_index_to_tail@[group_index as int],
*r.forward_links == old(self).group_index_to_forward_links@[group_index as int],
*r.backward_links == old(self).group_index_to_backward_links@[group_index as int],
final(self).group_ids == old(self).group_ids, final(self).entity_capacity == old(self).entity_capacity,
final(self).group_index_to_head@ == old(self).group_index_to_head@.update(group_index as int, *final(r.head)),
final(self).group_index_to_tail@ == old(self).group_index_to_tail@.update(group_index as int, *final(r.tail)),
final(self).group_index_to_forward_links@ == old(self).group_index_to_forward_links@.update(group_index as int, *final(r.forward_links)),
final(self).group_index_to_backward_links@ == old(self).group_index_to_backward_links@.update(group_index as int, *final(r.backward_links)),
@@fn OrderGroupContainer::add_id_ordered_by(self, entity_id)
@props C08 C13 C09
@opt dassert=refuse
@requires
old(self).wf(), entity_id < old(self).entity_capacity,
@ensures
final(self).wf(),
[C08]
!old(self).seq(tid_of::<T>()).contains(entity_id),
final(self).seq(tid_of::<T>()) == old(self).seq(tid_of::<T>()).push(entity_id),
final(self).others(old(self), tid_of::<T>()),
%%search
@after reserve_group 0
let ghost g0 = *self;
let ghost gk = pos(g0.group_ids@, tid_of::<T>());
let ghost gs = g0.grp(gk);
assert(g0.seq(tid_of::<T>()) == old(self).seq(tid_of::<T>()));
proof { g0.lemma_links(gk, entity_id); if gs.len() > 0 { g0.lemma_links(gk, gs[gs.len() - 1]); } }
@epilogue
proof {
    let gi = gs.len() as int;
    assert(!gs.contains(entity_id));
    lemma_inserted(gs, gi, entity_id, g0.group_index_to_head@[gk], g0.group_index_to_tail@[gk], g0.fwd(gk)@, g0.bwd(gk)@, self.group_index_to_head@[gk], self.group_index_to_tail@[gk], self.fwd(gk)@, self.bwd(gk)@);
    self.lemma_changed(&g0, gk, gs.insert(gi, entity_id));
    assert(gs.insert(gi, entity_id) =~= gs.push(entity_id));
}
@@fn OrderGroupContainer::add_id_next_to_ordered_by(self, entity_id, next_to_id)
@props C08 C13 C09
@opt dassert=refuse
@requires
old(self).wf(), entity_id < old(self).entity_capacity, old(self).seq(tid_of::<T>()).contains(next_to_id),
@ensures
final(self).wf(),
[C08]
!old(self).seq(tid_of::<T>()).contains(entity_id),
final(self).seq(tid_of::<T>()) == old(self).seq(tid_of::<T>()).insert(old(self).seq(tid_of::<T>()).index_of(next_to_id) + 1, entity_id),
final(self).others(old(self), tid_of::<T>()),
%%search
@after reserve_group 0
let ghost g0 = *self;
let ghost gk = pos(g0.group_ids@, tid_of::<T>());
let ghost gs = g0.grp(gk);
assert(g0.seq(tid_of::<T>()) == old(self).seq(tid_of::<T>()));
proof { g0.lemma_links(gk, entity_id); g0.lemma_links(gk, next_to_id); }
@epilogue
proof {
    let gi = gs.index_of(next_to_id) + 1;
    assert(!gs.contains(entity_id));
    lemma_inserted(gs, gi, entity_id, g0.group_index_to_head@[gk], g0.group_index_to_tail@[gk], g0.fwd(gk)@, g0.bwd(gk)@, self.group_index_to_head@[gk], self.group_index_to_tail@[gk], self.fwd(gk)@, self.bwd(gk)@);
    self.lemma_changed(&g0, gk, gs.insert(gi, entity_id));
}
@@fn OrderGroupContainer::add_id_previous_to_ordered_by(self, entity_id, previous_to_id)
@props C08 C13 C09
@opt dassert=refuse
@requires
old(self).wf(), entity_id < old(self).entity_capacity, old(self).seq(tid_of::<T>()).contains(previous_to_id),
@ensures
final(self).wf(),
[C08]
!old(self).seq(tid_of::<T>()).contains(entity_id),
final(self).seq(tid_of::<T>()) == old(self).seq(tid_of::<T>()).insert(old(self).seq(tid_of::<T>()).index_of(previous_to_id), entity_id),
final(self).others(old(self), tid_of::<T>()),
%%search
@after reserve_group 0
let ghost g0 = *self;
let ghost gk = pos(g0.group_ids@, tid_of::<T>());
let ghost gs = g0.grp(gk);
assert(g0.seq(tid_of::<T>()) == old(self).seq(tid_of::<T>()));
proof { g0.lemma_links(gk, entity_id); g0.lemma_links(gk, previous_to_id); }
@epilogue
proof {
    let gi = gs.index_of(previous_to_id);
    assert(!gs.contains(entity_id));
    lemma_inserted(gs, gi, entity_id, g0.group_index_to_head@[gk], g0.group_index_to_tail@[gk], g0.fwd(gk)@, g0.bwd(gk)@, self.group_index_to_head@[gk], self.group_index_to_tail@[gk], self.fwd(gk)@, self.bwd(gk)@);
    self.lemma_changed(&g0, gk, gs.insert(gi, entity_id));
}
@@fn OrderGroupContainer::remove_id_ordered_by(self, entity_id)
@props C08 C13 C09
@requires
old(self).wf(), entity_id < old(self).entity_capacity,
@ensures
final(self).wf(),
[C08]
final(self).seq(tid_of::<T>()) == without(old(self).seq(tid_of::<T>()), entity_id),
final(self).others(old(self), tid_of::<T>()),
%%search
@epilogue
proof {
    let s = old(self).seq(tid_of::<T>());
    assert forall|u: TypeId| u != tid_of::<T>() implies #[trigger] self.seq(u) == old(self).seq(u) by { if has_tid(self.group_ids@, u) { let j = pos(self.group_ids@, u); assert(0 <= j < self.group_ids@.len() && self.group_ids@[j] == u); assert(self.grp(j) == old(self).grp(j)); } }
    if !has_tid(self.group_ids@, tid_of::<T>()) { assert(without(s, entity_id) == s); }
}
@@fn OrderGroupContainer::remove_entity_order_by_internal(self, group_index, entity_id)
@props C08 C13 C09
@requires
old(self).wf(), entity_id < old(self).entity_capacity, group_index < old(self).group_ids@.len(),
@ensures
final(self).wf(), final(self).group_ids == old(self).group_ids, final(self).entity_capacity == old(self).entity_capacity,
[C08]
forall|k: int| 0 <= k < old(self).group_ids@.len() ==> #[trigger] final(self).grp(k) == (if k == group_index { without(old(self).grp(k), entity_id) } else { old(self).grp(k) }),
@prologue
let ghost g0 = *self;
let ghost gk = group_index as int;
let ghost gs = g0.grp(gk);
proof { g0.lemma_links(gk, entity_id); if gs.contains(entity_id) && gs.index_of(entity_id) > 0 { g0.lemma_links(gk, gs[gs.index_of(entity_id) - 1]); } if gs.contains(entity_id) && gs.index_of(entity_id) + 1 < gs.len() { g0.lemma_links(gk, gs[gs.index_of(entity_id) + 1]); } }
@epilogue
proof {
    lemma_removed(gs, entity_id, g0.group_index_to_head@[gk], g0.group_index_to_tail@[gk], g0.fwd(gk)@, g0.bwd(gk)@, self.group_index_to_head@[gk], self.group_index_to_tail@[gk], self.fwd(gk)@, self.bwd(gk)@);
    self.lemma_changed(&g0, gk, without(gs, entity_id));
}
@@fn OrderGroupContainer::get_next_id_ordered_by(self, entity_id) -> r
@props C08 C13
@requires
self.wf(), entity_id < self.entity_capacity,
@ensures
r == next_in(self.seq(tid_of::<T>()), entity_id),
%%search
proof { if has_tid(self.group_ids@, tid_of::<T>()) { self.lemma_links(pos(self.group_ids@, tid_of::<T>()), entity_id); } }
@@fn OrderGroupContainer::get_previous_id_ordered_by(self, entity_id) -> r
@props C08 C13
@requires
self.wf(), entity_id < self.entity_capacity,
@ensures
r == prev_in(self.seq(tid_of::<T>()), entity_id),
%%search
proof { if has_tid(self.group_ids@, tid_of::<T>()) { self.lemma_links(pos(self.group_ids@, tid_of::<T>()), entity_id); } }
@@fn OrderGroupContainer::get_link(self, link_index_to_links, entity_id) -> r
@props C08 C13
@requires
self.mem(), entity_id < self.entity_capacity, link_index_to_links@.len() == self.group_ids@.len(),
forall|k: int| 0 <= k < self.group_ids@.len() ==> links_ok(#[trigger] link_index_to_links@[k], self.entity_capacity as int),
@ensures
has_tid(self.group_ids@, tid_of::<T>()) ==> r == (match link_index_to_links@[pos(self.group_ids@, tid_of::<T>())]@[entity_id as int] { Some(x) => if x != NIL { Some(x) } else { None }, None => None }),
!has_tid(self.group_ids@, tid_of::<T>()) ==> r is None,
%%search
@@fn OrderGroupContainer::get_head_id(self) -> r
@props C08 C13 C09
@requires
self.wf(),
@ensures
r == (if self.seq(tid_of::<T>()).len() > 0 { Some(self.seq(tid_of::<T>())[0]) } else { None }),
%%search
proof { if has_tid(self.group_ids@, tid_of::<T>()) { self.lemma_links(pos(self.group_ids@, tid_of::<T>()), 0); } }
@@fn OrderGroupContainer::get_tail_id(self) -> r
@props C08 C13
@requires
self.wf(),
@ensures
r == (if self.seq(tid_of::<T>()).len() > 0 { Some(self.seq(tid_of::<T>()).last()) } else { None }),
%%search
proof { if has_tid(self.group_ids@, tid_of::<T>()) { self.lemma_links(pos(self.group_ids@, tid_of::<T>()), 0); } }
@@fn OrderGroupContainer::get_group_index(self) -> r
@props C08 C09 C13
@requires
self.mem(),
@ensures
r is Some ==> r->Some_0 < self.group_ids@.len() && has_tid(self.group_ids@, tid_of::<T>()) && r->Some_0 == pos(self.group_ids@, tid_of::<T>()),
r is None ==> !has_tid(self.group_ids@, tid_of::<T>()),
%%search
@@fn OrderGroupContainer::get_first_id_in_group_unchecked(self, group_index) -> r
@props C08 C09 C13
@requires
self.wf(), group_index < self.group_ids@.len(),
@ensures
r == self.group_index_to_head@[group_index as int],
@@fn OrderGroupContainer::get_id_to_next_in_group_map_unchecked(self, group_index) -> r
@props C09 C13
@requires
self.wf(), group_index < self.group_ids@.len(),
@ensures
r@ == self.fwd(group_index as int)@,
@@fn OrderGroupContainer::grow(self, new_capacity)
@props C08 C13 C09
@requires
old(self).wf(), old(self).entity_capacity <= new_capacity <= 0x8000_0000,
@ensures
final(self).wf(), final(self).entity_capacity == new_capacity,
[C08]
forall|t: TypeId| #[trigger] final(self).seq(t) == old(self).seq(t),
%%search
proof { lemma_fits_u32(new_capacity as int); }
assert((0xffff_ffffu32 as u8) == 0xffu8) by (bit_vector);
proof { assert forall|k: int| 0 <= k < self.group_ids@.len() implies links_ok(#[trigger] self.fwd(k), self.entity_capacity as int) && links_ok(self.bwd(k), self.entity_capacity as int) by { assert(links_ok(self.group_index_to_forward_links@[k], self.entity_capacity as int) && links_ok(self.group_index_to_backward_links@[k], self.entity_capacity as int)); } }
@loop 0
@invariant
self.group_ids@ == old(self).group_ids@, self.entity_capacity == old(self).entity_capacity, self.group_index_to_forward_links@.len() == self.group_ids@.len(), self.group_index_to_backward_links@.len() == self.group_ids@.len(), vx_end0 == self.group_ids@.len(),
self.group_index_to_head == old(self).group_index_to_head, self.group_index_to_tail == old(self).group_index_to_tail,
old(self).wf(), old(self).entity_capacity <= new_capacity <= 0x8000_0000,
forall|k: int| 0 <= k < vx_n0 ==> links_ok(#[trigger] self.group_index_to_forward_links@[k], new_capacity as int), forall|k: int| 0 <= k < vx_n0 ==> links_ok(#[trigger] self.group_index_to_backward_links@[k], new_capacity as int),
forall|k: int| vx_n0 <= k < vx_end0 ==> #[trigger] self.group_index_to_forward_links@[k] == old(self).group_index_to_forward_links@[k], forall|k: int| vx_n0 <= k < vx_end0 ==> #[trigger] self.group_index_to_backward_links@[k] == old(self).group_index_to_backward_links@[k],
[C08]
forall|k: int, i: int| 0 <= k < vx_n0 && 0 <= i < new_capacity ==> #[trigger] self.group_index_to_forward_links@[k]@[i] == (if i < old(self).entity_capacity { old(self).group_index_to_forward_links@[k]@[i] } else { Some(NIL) }),
forall|k: int, i: int| 0 <= k < vx_n0 && 0 <= i < new_capacity ==> #[trigger] self.group_index_to_backward_links@[k]@[i] == (if i < old(self).entity_capacity { old(self).group_index_to_backward_links@[k]@[i] } else { Some(NIL) }),
@loopstart
assert(links_ok(old(self).group_index_to_forward_links@[vx_k0 as int], old(self).entity_capacity as int) && links_ok(old(self).group_index_to_backward_links@[vx_k0 as int], old(self).entity_capacity as int));
@epilogue
proof {
    assert forall|k: int| 0 <= k < self.group_ids@.len() implies links_ok(#[trigger] self.group_index_to_forward_links@[k], new_capacity as int) && self.is(k, old(self).grp(k)) && self.grp(k) == old(self).grp(k) by {
        assert(links_ok(self.group_index_to_forward_links@[k], new_capacity as int) && links_ok(self.group_index_to_backward_links@[k], new_capacity as int));
        old(self).lemma_links(k, 0);
        lemma_half_grown(old(self).grp(k), self.group_index_to_head@[k], old(self).fwd(k)@, self.fwd(k)@);
        lemma_half_grown(old(self).grp(k).reverse(), self.group_index_to_tail@[k], old(self).bwd(k)@, self.bwd(k)@);
        lemma_chain(old(self).grp(k), self.group_index_to_head@[k], self.group_index_to_tail@[k], self.fwd(k)@, self.bwd(k)@);
    }
    assert forall|k: int| 0 <= k < self.group_ids@.len() implies links_ok(#[trigger] self.group_index_to_backward_links@[k], new_capacity as int) by { assert(links_ok(self.group_index_to_backward_links@[k], new_capacity as int)); }
}
@@fn OrderGroupContainer::remove_all_orders_for_id(self, id)
@props C08 C02 C13 C09
@requires
old(self).wf(), id < old(self).entity_capacity,
@ensures
final(self).wf(), final(self).entity_capacity == old(self).entity_capacity,
[C08]
forall|t: TypeId| #[trigger] final(self).seq(t) == without(old(self).seq(t), id),
%%search
@loop 0
@invariant
self.wf(), self.entity_capacity == old(self).entity_capacity, self.group_ids@ == old(self).group_ids@, vx_end0 == self.group_ids@.len(), id < self.entity_capacity,
[C08]
forall|k: int| 0 <= k < self.group_ids@.len() ==> #[trigger] self.grp(k) == (if k < vx_n0 { without(old(self).grp(k), id) } else { old(self).grp(k) }),
@epilogue
proof { assert forall|t: TypeId| #[trigger] self.seq(t) == without(old(self).seq(t), id) by { if has_tid(self.group_ids@, t) { let k = pos(self.group_ids@, t); assert(0 <= k < self.group_ids@.len()); } } }
@@fn OrderGroupContainer::drop(self)
@props C13
@requires
old(self).wf(),
@ensures
final(self).group_index_to_forward_links@.len() == old(self).group_ids@.len(), final(self).group_index_to_backward_links@.len() == old(self).group_ids@.len(),
forall|k: int| 0 <= k < old(self).group_ids@.len() ==> !(#[trigger] final(self).group_index_to_forward_links@[k]).live(),
forall|k: int| 0 <= k < old(self).group_ids@.len() ==> !(#[trigger] final(self).group_index_to_backward_links@[k]).live(),
%%search
@loop 0
@invariant
self.entity_capacity == old(self).entity_capacity, self.group_index_to_forward_links@.len() == old(self).group_ids@.len(), self.group_index_to_backward_links@.len() == old(self).group_ids@.len(), vx_end0 == old(self).group_ids@.len(),
forall|k: int| 0 <= k < vx_n0 ==> !(#[trigger] self.group_index_to_forward_links@[k]).live(),
forall|k: int| 0 <= k < vx_n0 ==> !(#[trigger] self.group_index_to_backward_links@[k]).live(),
forall|k: int| vx_n0 <= k < vx_end0 ==> #[trigger] self.group_index_to_forward_links@[k] == old(self).group_index_to_forward_links@[k],
forall|k: int| vx_n0 <= k < vx_end0 ==> #[trigger] self.group_index_to_backward_links@[k] == old(self).group_index_to_backward_links@[k],
