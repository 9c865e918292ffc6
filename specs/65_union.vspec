@@module archetype
@@raw
impl ArchetypesUnion {
    /// every pair names one type of both sides
    pub open spec fn sound(&self, l: &Archetype, r: &Archetype) -> bool { pairs_sound(self.lhs_indices@, self.rhs_indices@, l.tys(), r.tys()) }
    /// every common type is paired
    pub open spec fn complete(&self, l: &Archetype, r: &Archetype) -> bool { forall|a: int, b: int| 0 <= a < l.tys().len() && 0 <= b < r.tys().len() && l.tys()[a] == r.tys()[b] ==> #[trigger] paired(self.lhs_indices@, self.rhs_indices@, a, b) }
}
pub open spec fn paired(x: Seq<usize>, y: Seq<usize>, a: int, b: int) -> bool { exists|k: int| 0 <= k < x.len() && k < y.len() && #[trigger] x[k] == a && y[k] == b }
pub open spec fn pairs_sound(x: Seq<usize>, y: Seq<usize>, s: Seq<TypeId>, t: Seq<TypeId>) -> bool {
    &&& x.len() == y.len()
    &&& forall|k: int| 0 <= k < x.len() ==> #[trigger] x[k] < s.len() && y[k] < t.len() && s[x[k] as int] == t[y[k] as int]
}
pub proof fn lemma_paired_push(x: Seq<usize>, y: Seq<usize>, i: usize, o: usize)
    requires x.len() == y.len(),
    ensures paired(x.push(i), y.push(o), i as int, o as int), forall|a: int, b: int| #![trigger paired(x.push(i), y.push(o), a, b)] paired(x, y, a, b) ==> paired(x.push(i), y.push(o), a, b),
{
    assert(x.push(i)[x.len() as int] == i && y.push(o)[x.len() as int] == o);
    assert forall|a: int, b: int| paired(x, y, a, b) implies #[trigger] paired(x.push(i), y.push(o), a, b) by {
        let k = choose|k: int| 0 <= k < x.len() && k < y.len() && #[trigger] x[k] == a && y[k] == b;
        assert(x.push(i)[k] == a && y.push(o)[k] == b);
    }
}
pub proof fn lemma_paired_flip(x: Seq<usize>, y: Seq<usize>, s: Seq<TypeId>, t: Seq<TypeId>)
    requires pairs_sound(x, y, s, t),
    ensures pairs_sound(y, x, t, s), forall|a: int, b: int| #![trigger paired(y, x, b, a)] paired(x, y, a, b) == paired(y, x, b, a),
{
    assert forall|k: int| 0 <= k < y.len() implies #[trigger] y[k] < t.len() && x[k] < s.len() && t[y[k] as int] == s[x[k] as int] by { assert(x[k] < s.len()); }
    assert forall|a: int, b: int| #[trigger] paired(y, x, b, a) == paired(x, y, a, b) by {
        if paired(x, y, a, b) { let k = choose|k: int| 0 <= k < x.len() && k < y.len() && #[trigger] x[k] == a && y[k] == b; assert(y[k] == b); }
        if paired(y, x, b, a) { let k = choose|k: int| 0 <= k < y.len() && k < x.len() && #[trigger] y[k] == b && x[k] == a; assert(x[k] == a); }
    }
}
@@fn ArchetypesUnion::calculate(lhs, rhs) -> r
@props C03 C12 C13
@requires
lhs.wf(), rhs.wf(),
@ensures
r.sound(lhs, rhs), r.complete(lhs, rhs),
@loop 0
@loopbefore
let ghost vx_fi = final(inner_indices)@; let ghost vx_fo = final(outer_indices)@;
@invariant
final(inner_indices)@ == vx_fi, final(outer_indices)@ == vx_fo,
o <= outer.component_count,
pairs_sound(inner_indices@, outer_indices@, inner.tys(), outer.tys()),
forall|a: int, b: int| 0 <= a < inner.tys().len() && 0 <= b < o && inner.tys()[a] == outer.tys()[b] ==> #[trigger] paired(inner_indices@, outer_indices@, a, b),
@decreases
outer.component_count - o,
@loop 1
@invariant
final(inner_indices)@ == vx_fi, final(outer_indices)@ == vx_fo,
i <= inner.component_count, o < outer.component_count, outer_type_id == outer.tys()[o as int],
pairs_sound(inner_indices@, outer_indices@, inner.tys(), outer.tys()),
forall|a: int, b: int| 0 <= a < inner.tys().len() && 0 <= b < o && inner.tys()[a] == outer.tys()[b] ==> #[trigger] paired(inner_indices@, outer_indices@, a, b),
@invariant_except_break
forall|a: int| 0 <= a < i && inner.tys()[a] == outer.tys()[o as int] ==> #[trigger] paired(inner_indices@, outer_indices@, a, o as int),
@loopensures
forall|a: int| 0 <= a < inner.tys().len() && inner.tys()[a] == outer.tys()[o as int] ==> #[trigger] paired(inner_indices@, outer_indices@, a, o as int),
@decreases
inner.component_count - i,
@loopstart
let ghost vx_x = inner_indices@; let ghost vx_y = outer_indices@;
proof { lemma_paired_push(vx_x, vx_y, i, o); assert(inner.tys()[i as int] == inner.ids@[i as int].unwrap()); if tid_lt(outer_type_id, inner.tys()[i as int]) { assert forall|a: int| 0 <= a < inner.tys().len() && inner.tys()[a] == outer.tys()[o as int] implies #[trigger] paired(inner_indices@, outer_indices@, a, o as int) by { if a >= i { assert(inner.tys()[i as int].i <= inner.tys()[a].i); } } } }
@epilogue
proof { if lhs.component_count > rhs.component_count { lemma_paired_flip(r.rhs_indices@, r.lhs_indices@, rhs.tys(), lhs.tys()); } }
@@fn ArchetypesUnion::len(self) -> r
@props C03 C13
@ensures
r == self.lhs_indices@.len(),
