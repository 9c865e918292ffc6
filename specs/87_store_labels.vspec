@@module tag_container
@@use crate::store::*
@@use crate::entity::*
@@fn Store::add_tag(self, entity)
@props C07 C02 C13
@requires
old(self).wf(), entity.id < old(self).cap(),
@ensures
final(self).wf(), final(self).same_but_tags(old(self)),
[C07 C02]
forall|t: TypeId, i: int| #[trigger] final(self).tag_container.has(t, i) == (old(self).tag_container.has(t, i) || (old(self).entities_container.alive(entity) && t == tid_of::<T>() && i == entity.id)),
@@fn Store::remove_tag(self, entity)
@props C07 C02 C13
@requires
old(self).wf(), entity.id < old(self).cap(),
@ensures
final(self).wf(), final(self).same_but_tags(old(self)),
[C07 C02]
forall|t: TypeId, i: int| #[trigger] final(self).tag_container.has(t, i) == (old(self).tag_container.has(t, i) && !(old(self).entities_container.alive(entity) && t == tid_of::<T>() && i == entity.id)),
@@fn Store::has_tag(self, entity) -> r
@props C07 C02 C13
@requires
self.wf(), entity.id < self.cap(),
@ensures
[C07 C02]
r == (self.entities_container.alive(entity) && self.tag_container.has(tid_of::<T>(), entity.id as int)),
@@module order_group_container
@@use crate::store::*
@@macro orderop
@props C08 C02 C13
@requires
old(self).wf(), entity.id < old(self).cap(),
@@macro orderedkept
final(self).wf(), final(self).same_but_orders(old(self)),
[C08 C02]
final(self).order_group_container.others(&old(self).order_group_container, tid_of::<T>()),
@@fn Store::add_entity_order_by(self, entity)
%%orderop
@ensures
%%orderedkept
old(self).entities_container.alive(entity) ==> !old(self).order_group_container.seq(tid_of::<T>()).contains(entity.id),
final(self).order_group_container.seq(tid_of::<T>()) == (if old(self).entities_container.alive(entity) { old(self).order_group_container.seq(tid_of::<T>()).push(entity.id) } else { old(self).order_group_container.seq(tid_of::<T>()) }),
@epilogue
proof { lemma_relabelled(self, old(self), tid_of::<T>(), entity.id); }
@@fn Store::add_entity_next_to_order_by(self, entity, next_to_entity)
%%orderop
next_to_entity.id < old(self).cap(),
old(self).entities_container.alive(next_to_entity) ==> old(self).order_group_container.seq(tid_of::<T>()).contains(next_to_entity.id),
@ensures
%%orderedkept
old(self).entities_container.alive(entity) && old(self).entities_container.alive(next_to_entity) ==> !old(self).order_group_container.seq(tid_of::<T>()).contains(entity.id),
final(self).order_group_container.seq(tid_of::<T>()) == (if old(self).entities_container.alive(entity) && old(self).entities_container.alive(next_to_entity) { old(self).order_group_container.seq(tid_of::<T>()).insert(old(self).order_group_container.seq(tid_of::<T>()).index_of(next_to_entity.id) + 1, entity.id) } else { old(self).order_group_container.seq(tid_of::<T>()) }),
@epilogue
proof { lemma_relabelled(self, old(self), tid_of::<T>(), entity.id); }
@@fn Store::add_entity_previous_to_order_by(self, entity, previous_to_entity)
%%orderop
previous_to_entity.id < old(self).cap(),
old(self).entities_container.alive(previous_to_entity) ==> old(self).order_group_container.seq(tid_of::<T>()).contains(previous_to_entity.id),
@ensures
%%orderedkept
old(self).entities_container.alive(entity) && old(self).entities_container.alive(previous_to_entity) ==> !old(self).order_group_container.seq(tid_of::<T>()).contains(entity.id),
final(self).order_group_container.seq(tid_of::<T>()) == (if old(self).entities_container.alive(entity) && old(self).entities_container.alive(previous_to_entity) { old(self).order_group_container.seq(tid_of::<T>()).insert(old(self).order_group_container.seq(tid_of::<T>()).index_of(previous_to_entity.id), entity.id) } else { old(self).order_group_container.seq(tid_of::<T>()) }),
@epilogue
proof { lemma_relabelled(self, old(self), tid_of::<T>(), entity.id); }
@@fn Store::remove_entity_order_by(self, entity)
%%orderop
@ensures
%%orderedkept
final(self).order_group_container.seq(tid_of::<T>()) == (if old(self).entities_container.alive(entity) { without(old(self).order_group_container.seq(tid_of::<T>()), entity.id) } else { old(self).order_group_container.seq(tid_of::<T>()) }),
@epilogue
proof { lemma_relabelled(self, old(self), tid_of::<T>(), entity.id); }
@@macro handle
r is Some ==> self.entities_container.alive(r->0),
@@fn Store::get_next_entity_ordered_by(self, entity) -> r
@props C08 C02 C13
@requires
self.wf(), entity.id < self.cap(),
@ensures
[C08 C02]
%%handle
r is Some == (self.entities_container.alive(entity) && next_in(self.order_group_container.seq(tid_of::<T>()), entity.id) is Some),
r is Some ==> next_in(self.order_group_container.seq(tid_of::<T>()), entity.id) == Some(r->0.id),
@prologue
proof { lemma_members(self, tid_of::<T>()); }
@@fn Store::get_previous_entity_ordered_by(self, entity) -> r
@props C08 C02 C13
@requires
self.wf(), entity.id < self.cap(),
@ensures
[C08 C02]
%%handle
r is Some == (self.entities_container.alive(entity) && prev_in(self.order_group_container.seq(tid_of::<T>()), entity.id) is Some),
r is Some ==> prev_in(self.order_group_container.seq(tid_of::<T>()), entity.id) == Some(r->0.id),
@prologue
proof { lemma_members(self, tid_of::<T>()); }
@@fn Store::get_first_entity_ordered_by(self) -> r
@props C08 C13
@requires
self.wf(),
@ensures
[C08]
%%handle
r is Some == (self.order_group_container.seq(tid_of::<T>()).len() > 0),
r is Some ==> r->0.id == self.order_group_container.seq(tid_of::<T>())[0],
@prologue
proof { lemma_members(self, tid_of::<T>()); }
@@fn Store::get_last_entity_ordered_by(self) -> r
@props C08 C13
@requires
self.wf(),
@ensures
[C08]
%%handle
r is Some == (self.order_group_container.seq(tid_of::<T>()).len() > 0),
r is Some ==> r->0.id == self.order_group_container.seq(tid_of::<T>()).last(),
@prologue
proof { lemma_members(self, tid_of::<T>()); }
@@raw
pub proof fn lemma_members(s: &Store, t: TypeId)
    requires s.wf(),
    ensures ({ let q = s.order_group_container.seq(t); nodup(q) && forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]) < s.cap() && s.entities_container.on(q[k] as int) && s.entities_container.ver(q[k] as int) == s.entities_container.entity_to_version@[q[k] as int].unwrap() }),
        forall|x: u32| #[trigger] next_in(s.order_group_container.seq(t), x) is Some ==> s.entities_container.on(next_in(s.order_group_container.seq(t), x)->0 as int) && next_in(s.order_group_container.seq(t), x)->0 < s.cap(),
        forall|x: u32| #[trigger] prev_in(s.order_group_container.seq(t), x) is Some ==> s.entities_container.on(prev_in(s.order_group_container.seq(t), x)->0 as int) && prev_in(s.order_group_container.seq(t), x)->0 < s.cap(),
{
    s.order_group_container.lemma_seq(t);
    let q = s.order_group_container.seq(t);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]) < s.cap() && s.entities_container.on(q[k] as int) && s.entities_container.ver(q[k] as int) == s.entities_container.entity_to_version@[q[k] as int].unwrap() by { assert(s.entities_container.on(s.order_group_container.seq(t)[k] as int)); }
}
/// a group changed by one existing entity
pub proof fn lemma_relabelled(s: &Store, o: &Store, t: TypeId, x: u32)
    requires o.labels(), s.entities_container == o.entities_container, s.tag_container == o.tag_container, s.order_group_container.others(&o.order_group_container, t),
        ({ let (p, q) = (s.order_group_container.seq(t), o.order_group_container.seq(t)); p == q || p == without(q, x) || (o.entities_container.on(x as int) && (p == q.push(x) || exists|k: int| 0 <= k <= q.len() && p == #[trigger] q.insert(k, x))) }),
    ensures s.labels(),
{
    assert forall|u: TypeId, k: int| 0 <= k < s.order_group_container.seq(u).len() implies s.entities_container.on(#[trigger] s.order_group_container.seq(u)[k] as int) by {
        let (p, q) = (s.order_group_container.seq(u), o.order_group_container.seq(u));
        if p == q { assert(o.entities_container.on(q[k] as int)); }
        else if p == without(q, x) { let j = q.index_of(x); assert(q.contains(x)); let m = if k < j { k } else { k + 1 }; assert(p[k] == q[m]); assert(o.entities_container.on(q[m] as int)); }
        else if p == q.push(x) { if k < q.len() { assert(p[k] == q[k]); assert(o.entities_container.on(q[k] as int)); } }
        else {
            let i = choose|i: int| 0 <= i <= q.len() && p == #[trigger] q.insert(i, x);
            if k != i { let m = if k < i { k } else { k - 1 }; assert(p[k] == q[m]); assert(o.entities_container.on(q[m] as int)); }
        }
    }
}
