@@module history
@@use crate::archetype::*
@@use crate::component_tuple::*
@@use crate::entities_container::*
@@use crate::entity::*
@@use crate::order_group_container::*
@@use crate::store::*
@@use crate::tag_container::*
@@raw
/// A store as its documentation describes it: handles, sets, values and sequences, and nothing of how they are kept.
pub ghost struct Model {
    /// every handle ever handed out, in the order they were
    pub handles: Seq<Entity>,
    pub alive: spec_fn(Entity) -> bool,
    pub has: spec_fn(Entity, TypeId) -> bool,
    pub val: spec_fn(Entity, TypeId) -> Seq<u8>,
    pub tag: spec_fn(Entity, TypeId) -> bool,
    pub order: spec_fn(TypeId) -> Seq<Entity>,
}
pub open spec fn minus(s: Seq<Entity>, e: Entity) -> Seq<Entity> { if s.contains(e) { s.remove(s.index_of(e)) } else { s } }
impl Model {
    pub open spec fn is(&self, e: Entity) -> bool { (self.alive)(e) }
    pub open spec fn has(&self, e: Entity, t: TypeId) -> bool { (self.has)(e, t) }
    pub open spec fn val(&self, e: Entity, t: TypeId) -> Seq<u8> { (self.val)(e, t) }
    pub open spec fn tag(&self, e: Entity, t: TypeId) -> bool { (self.tag)(e, t) }
    pub open spec fn order(&self, t: TypeId) -> Seq<Entity> { (self.order)(t) }
    pub open spec fn empty() -> Model {
        Model { handles: Seq::empty(), alive: |e: Entity| false, has: |e: Entity, t: TypeId| false, val: |e: Entity, t: TypeId| Seq::<u8>::empty(), tag: |e: Entity, t: TypeId| false, order: |t: TypeId| Seq::<Entity>::empty() }
    }
    /// a new entity with these component types, whose values are whatever they are
    pub open spec fn created(self, e: Entity, ts: Seq<TypeId>, v: spec_fn(TypeId) -> Seq<u8>) -> Model {
        Model { handles: self.handles.push(e), alive: |x: Entity| x == e || self.is(x), has: |x: Entity, t: TypeId| if x == e { has_tid(ts, t) } else { self.has(x, t) }, val: |x: Entity, t: TypeId| if x == e { v(t) } else { self.val(x, t) }, ..self }
    }
    pub open spec fn destroyed(self, e: Entity) -> Model {
        Model { alive: |x: Entity| x != e && self.is(x), has: |x: Entity, t: TypeId| x != e && self.has(x, t), tag: |x: Entity, t: TypeId| x != e && self.tag(x, t), order: |t: TypeId| minus(self.order(t), e), ..self }
    }
    pub open spec fn added(self, e: Entity, ts: Seq<TypeId>, v: Seq<Seq<u8>>) -> Model {
        if !self.is(e) { self } else { Model { has: |x: Entity, t: TypeId| self.has(x, t) || (x == e && has_tid(ts, t)), val: |x: Entity, t: TypeId| if x == e && has_tid(ts, t) { v[pos(ts, t)] } else { self.val(x, t) }, ..self } }
    }
    pub open spec fn removed(self, e: Entity, ts: Seq<TypeId>) -> Model {
        if !self.is(e) { self } else { Model { has: |x: Entity, t: TypeId| self.has(x, t) && !(x == e && has_tid(ts, t)), ..self } }
    }
    pub open spec fn has_each(self, e: Entity, ts: Seq<TypeId>) -> bool { self.is(e) && forall|k: int| 0 <= k < ts.len() ==> self.has(e, #[trigger] ts[k]) }
    pub open spec fn written(self, e: Entity, ts: Seq<TypeId>, v: Seq<Seq<u8>>) -> Model { if self.has_each(e, ts) { self.added(e, ts, v) } else { self } }
    pub open spec fn tagged(self, e: Entity, g: TypeId, b: bool) -> Model {
        if !self.is(e) { self } else { Model { tag: |x: Entity, t: TypeId| if x == e && t == g { b } else { self.tag(x, t) }, ..self } }
    }
    pub open spec fn ordered(self, g: TypeId, s: Seq<Entity>) -> Model { Model { order: |t: TypeId| if t == g { s } else { self.order(t) }, ..self } }
}
impl Store {
    /// the store behaves as the model says
    pub open spec fn agrees(&self, h: &PageHeap, m: Model) -> bool {
        &&& self.ok(h)
        &&& m.handles.no_duplicates()
        &&& forall|e: Entity| #[trigger] m.handles.contains(e) ==> self.entities_container.issued(e)
        &&& forall|e: Entity| #[trigger] m.is(e) ==> m.handles.contains(e)
        &&& forall|e: Entity| #[trigger] self.entities_container.alive(e) == m.is(e)
        &&& forall|e: Entity, t: TypeId| #[trigger] m.has(e, t) == (m.is(e) && self.has(e.id as int, t))
        &&& forall|e: Entity, t: TypeId| m.has(e, t) ==> #[trigger] m.val(e, t) == self.val(h, e.id as int, t)
        &&& forall|e: Entity, t: TypeId| #[trigger] m.tag(e, t) == (m.is(e) && self.tag_container.has(t, e.id as int))
        &&& forall|t: TypeId| self.orders_agree(#[trigger] m.order(t), t)
    }
    pub open spec fn orders_agree(&self, o: Seq<Entity>, t: TypeId) -> bool {
        let q = self.order_group_container.seq(t);
        o.len() == q.len() && forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]).id == q[k] && self.entities_container.alive(o[k])
    }
    /// the limits of a store: see its operations' preconditions
    pub open spec fn limits(&self) -> bool { self.room() && forall|i: int| self.placed(i) ==> (#[trigger] self.types(i)).len() <= 2048 }
    pub proof fn lemma_same_id(&self, a: Entity, b: Entity)
        requires self.entities_container.alive(a), self.entities_container.alive(b), a.id == b.id,
        ensures a == b,
    {}
    pub proof fn lemma_position(&self, o: Seq<Entity>, t: TypeId, e: Entity)
        requires self.wf(), self.orders_agree(o, t), self.entities_container.alive(e),
        ensures o.contains(e) == self.order_group_container.seq(t).contains(e.id), o.contains(e) ==> o.index_of(e) == self.order_group_container.seq(t).index_of(e.id) && 0 <= o.index_of(e) < o.len() && o[o.index_of(e)] == e,
    {
        let q = self.order_group_container.seq(t);
        self.order_group_container.lemma_seq(t);
        if q.contains(e.id) { let k = q.index_of(e.id); self.lemma_same_id(o[k], e); assert(o[k] == e); }
        if o.contains(e) { let k = o.index_of(e); assert(q[k] == e.id); assert(q[q.index_of(e.id)] == e.id); }
    }
    pub proof fn lemma_alive_handle(&self, e: Entity)
        requires self.entities_container.wf(), self.entities_container.issued(e) || self.entities_container.alive(e),
        ensures e.id < self.cap(),
    {}
}
#[verifier::external_body]
pub fn vx_within_limits(s: &Store) ensures s.limits() { unimplemented!() }
/// One call of a public operation, or several in a row: what it does to the model and what the caller is told.
pub trait Operation: Sized {
    type Out;
    spec fn allowed(&self, m: Model) -> bool;
    spec fn step(&self, m: Model, n: Model, out: Self::Out) -> bool;
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (Self::Out, Ghost<Model>))
        requires old(s).agrees(old(heap), m), old(hs)@ == m.handles, self.allowed(m),
        ensures final(s).agrees(final(heap), r.1@), final(hs)@ == r.1@.handles, self.step(m, r.1@, r.0);
}
pub proof fn lemma_orders_same(s: &Store, o: &Store, m: Model, e: Entity)
    requires forall|t: TypeId| o.orders_agree(#[trigger] m.order(t), t), s.orders_kept(o), forall|x: Entity| o.entities_container.alive(x) ==> s.entities_container.alive(x),
    ensures forall|t: TypeId| s.orders_agree(#[trigger] m.order(t), t),
{
    assert forall|t: TypeId| s.orders_agree(#[trigger] m.order(t), t) by { assert(o.orders_agree(m.order(t), t)); assert(s.order_group_container.seq(t) == o.order_group_container.seq(t)); }
}
/// A new entity: no handle handed out before is the same, and no entity that is alive has the same id (C01).
pub open spec fn is_new(m: Model, e: Entity) -> bool { !m.handles.contains(e) && forall|x: Entity| #[trigger] m.is(x) ==> x.id != e.id }
proof fn lemma_new(s: &Store, h: &PageHeap, o: &Store, oh: &PageHeap, m: Model, e: Entity, ts: Seq<TypeId>) -> (n: Model)
    requires o.agrees(oh, m), s.ok(h), s.entities_container.alive(e), s.entities_container.issued(e), !o.entities_container.issued(e), !o.on(e.id as int), s.entities_container.others_kept(&o.entities_container, e), s.labels_kept(o),
        s.comps_kept(h, o, oh, e.id as int), s.placed(e.id as int) ==> s.types(e.id as int) == ts, !s.placed(e.id as int) ==> ts.len() == 0,
    ensures s.agrees(h, n), is_new(m, e), exists|v: spec_fn(TypeId) -> Seq<u8>| n == m.created(e, ts, v),
{
    let v = |t: TypeId| s.val(h, e.id as int, t);
    let n = m.created(e, ts, v);
    lemma_orders_same(s, o, m, e);
    assert forall|t: TypeId| s.orders_agree(#[trigger] n.order(t), t) by { assert(n.order(t) == m.order(t)); assert(s.orders_agree(m.order(t), t)); }
    assert forall|x: Entity| #[trigger] n.handles.contains(x) implies s.entities_container.issued(x) by { if x != e { assert(m.handles.contains(x)); } }
    assert forall|x: Entity| #[trigger] n.is(x) implies n.handles.contains(x) by { if x != e { assert(m.is(x)); let k = m.handles.index_of(x); assert(n.handles[k] == x); } else { assert(n.handles[m.handles.len() as int] == e); } }
    assert forall|x: Entity| #[trigger] s.entities_container.alive(x) == n.is(x) by { if x != e { assert(o.entities_container.alive(x) == m.is(x)); } }
    assert forall|x: Entity| #[trigger] m.is(x) implies x.id != e.id by { assert(o.entities_container.alive(x)); assert(o.on(x.id as int)); }
    assert forall|x: Entity, t: TypeId| #[trigger] n.has(x, t) == (n.is(x) && s.has(x.id as int, t)) by {
        if x != e { assert(m.has(x, t) == (m.is(x) && o.has(x.id as int, t))); assert(n.is(x) == m.is(x)); if m.is(x) { assert(x.id != e.id); assert(s.placed(x.id as int) == o.placed(x.id as int)); } }
    }
    assert forall|x: Entity, t: TypeId| n.has(x, t) implies #[trigger] n.val(x, t) == s.val(h, x.id as int, t) by {
        if x != e { assert(m.has(x, t)); assert(m.is(x)); assert(m.val(x, t) == o.val(oh, x.id as int, t)); assert(o.has(x.id as int, t)); }
    }
    assert forall|x: Entity, t: TypeId| #[trigger] n.tag(x, t) == (n.is(x) && s.tag_container.has(t, x.id as int)) by {
        assert(s.tag_container.has(t, x.id as int) == o.tag_container.has(t, x.id as int));
        assert(m.tag(x, t) == (m.is(x) && o.tag_container.has(t, x.id as int)));
        if x == e { assert(!m.handles.contains(e)); assert(!m.is(e)) by { if m.is(e) { assert(o.entities_container.alive(e)); } } if o.tag_container.has(t, e.id as int) { assert(o.labels()); assert(o.entities_container.on(e.id as int)); } }
    }
    assert(n == m.created(e, ts, v));
    assert(!m.handles.contains(e));
    assert(n.handles.no_duplicates());
    assert(is_new(m, e));
    assert(forall|x: Entity| #[trigger] n.handles.contains(x) ==> s.entities_container.issued(x));
    assert(s.agrees(h, n));
    n
}
pub struct Create {}
impl Operation for Create {
    type Out = Entity;
    open spec fn allowed(&self, m: Model) -> bool { true }
    open spec fn step(&self, m: Model, n: Model, e: Entity) -> bool { is_new(m, e) && exists|v: spec_fn(TypeId) -> Seq<u8>| n == m.created(e, Seq::empty(), v) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (Entity, Ghost<Model>)) {
        vx_within_limits(s);
        let ghost o = *s;
        let e = s.create_entity();
        hs.push(e);
        proof { assert(s.comps_kept(heap, &o, heap, e.id as int)); assert(s.ok(heap)); }
        let ghost n = lemma_new(s, heap, &o, heap, m, e, Seq::empty());
        (e, Ghost(n))
    }
}
pub struct CreateWith { pub archetype: Archetype }
impl Operation for CreateWith {
    type Out = Entity;
    open spec fn allowed(&self, m: Model) -> bool { self.archetype.wf() && self.archetype.component_count <= 2048 }
    open spec fn step(&self, m: Model, n: Model, e: Entity) -> bool { is_new(m, e) && exists|v: spec_fn(TypeId) -> Seq<u8>| n == m.created(e, self.archetype.tys(), v) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (Entity, Ghost<Model>)) {
        vx_within_limits(s);
        let ghost o = *s; let ghost oh = *heap;
        let e = s.create_entity_with_archetype(&self.archetype, Tracked(heap));
        hs.push(e);
        let ghost n = lemma_new(s, heap, &o, &oh, m, e, self.archetype.tys());
        (e, Ghost(n))
    }
}
pub struct Destroy { pub k: usize }
impl Operation for Destroy {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    /// it returns only if the entity is alive (checked builds)
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool { m.is(m.handles[self.k as int]) && n == m.destroyed(m.handles[self.k as int]) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s; let ghost oh = *heap;
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); }
        s.destroy_entity(e, Tracked(heap));
        let ghost n = m.destroyed(e);
        proof {
            let c = &s.entities_container;
            assert forall|t: TypeId| s.orders_agree(#[trigger] n.order(t), t) by {
                let (p, q) = (m.order(t), o.order_group_container.seq(t));
                assert(o.orders_agree(p, t));
                o.lemma_position(p, t, e);
                o.order_group_container.lemma_seq(t);
                let p2 = minus(p, e);
                assert forall|k: int| 0 <= k < p2.len() implies (#[trigger] p2[k]).id == s.order_group_container.seq(t)[k] && c.alive(p2[k]) by {
                    let i = p.index_of(e);
                    let j = if p.contains(e) && k >= i { k + 1 } else { k };
                    assert(p2[k] == p[j]);
                    assert(p[j].id == q[j] && o.entities_container.alive(p[j]));
                    if p[j] == e { assert(p.contains(e)); assert(q[i] == e.id && q[j] == e.id); }
                }
            }
            assert forall|x: Entity| #[trigger] c.alive(x) == n.is(x) by { if x != e { assert(o.entities_container.alive(x) == m.is(x)); } }
            assert forall|x: Entity| #[trigger] m.is(x) && x != e implies x.id != e.id by { assert(o.entities_container.alive(x)); assert(o.entities_container.alive(e)); if x.id == e.id { o.lemma_same_id(x, e); } }
            assert forall|x: Entity, t: TypeId| #[trigger] n.has(x, t) == (n.is(x) && s.has(x.id as int, t)) by { assert(m.has(x, t) == (m.is(x) && o.has(x.id as int, t))); if n.is(x) { assert(m.is(x)); assert(s.placed(x.id as int) == o.placed(x.id as int)); } }
            assert forall|x: Entity, t: TypeId| n.has(x, t) implies #[trigger] n.val(x, t) == s.val(heap, x.id as int, t) by { assert(m.has(x, t)); assert(m.is(x)); assert(m.val(x, t) == o.val(&oh, x.id as int, t)); assert(o.has(x.id as int, t)); }
            assert forall|x: Entity, t: TypeId| #[trigger] n.tag(x, t) == (n.is(x) && s.tag_container.has(t, x.id as int)) by { assert(m.tag(x, t) == (m.is(x) && o.tag_container.has(t, x.id as int))); assert(m.is(x) && x != e ==> x.id != e.id); }
            assert forall|x: Entity| #[trigger] n.is(x) implies n.handles.contains(x) by { assert(m.is(x)); }
        }
        ((), Ghost(n))
    }
}
/// an operation that touches the components of one entity only
proof fn lemma_components(s: &Store, h: &PageHeap, o: &Store, oh: &PageHeap, m: Model, n: Model, e: Entity)
    requires o.agrees(oh, m), s.ok(h), s.entities_container == o.entities_container, s.tag_container == o.tag_container, s.order_group_container == o.order_group_container,
        s.comps_kept(h, o, oh, e.id as int), m.is(e), n.handles == m.handles, n.alive == m.alive, n.tag == m.tag, n.order == m.order,
        forall|x: Entity, t: TypeId| x != e ==> #[trigger] n.has(x, t) == m.has(x, t), forall|x: Entity, t: TypeId| x != e ==> #[trigger] n.val(x, t) == m.val(x, t),
        forall|t: TypeId| #[trigger] n.has(e, t) == s.has(e.id as int, t), forall|t: TypeId| n.has(e, t) ==> #[trigger] n.val(e, t) == s.val(h, e.id as int, t),
    ensures s.agrees(h, n),
{
    assert(o.entities_container.alive(e));
    lemma_orders_same(s, o, m, e);
    assert forall|t: TypeId| s.orders_agree(#[trigger] n.order(t), t) by { assert(n.order(t) == m.order(t)); assert(s.orders_agree(m.order(t), t)); }
    assert forall|x: Entity| #[trigger] s.entities_container.alive(x) == n.is(x) by { assert(o.entities_container.alive(x) == m.is(x)); }
    assert forall|x: Entity| #[trigger] n.is(x) implies n.handles.contains(x) by { assert(m.is(x)); }
    assert forall|x: Entity| m.is(x) && x != e implies #[trigger] s.placed(x.id as int) == o.placed(x.id as int) && x.id != e.id by { assert(o.entities_container.alive(x)); if x.id == e.id { o.lemma_same_id(x, e); } }
    assert forall|x: Entity, t: TypeId| #[trigger] n.has(x, t) == (n.is(x) && s.has(x.id as int, t)) by { if x != e { assert(n.has(x, t) == m.has(x, t)); assert(m.has(x, t) == (m.is(x) && o.has(x.id as int, t))); if m.is(x) { assert(s.placed(x.id as int) == o.placed(x.id as int)); } } }
    assert forall|x: Entity, t: TypeId| n.has(x, t) implies #[trigger] n.val(x, t) == s.val(h, x.id as int, t) by {
        if x != e { assert(n.has(x, t) == m.has(x, t)); assert(n.val(x, t) == m.val(x, t)); assert(m.is(x)); assert(m.val(x, t) == o.val(oh, x.id as int, t)); assert(s.placed(x.id as int) == o.placed(x.id as int)); assert(o.has(x.id as int, t)); }
    }
    assert forall|x: Entity, t: TypeId| #[trigger] n.tag(x, t) == (n.is(x) && s.tag_container.has(t, x.id as int)) by { assert(m.tag(x, t) == (m.is(x) && o.tag_container.has(t, x.id as int))); }
}
pub proof fn lemma_pos(s: Seq<TypeId>, t: TypeId)
    requires s.no_duplicates(), has_tid(s, t),
    ensures 0 <= pos(s, t) < s.len(), s[pos(s, t)] == t,
{}
pub struct AddComponents<T> { pub k: usize, pub components: T }
impl<T: ComponentTuple + 'static> Operation for AddComponents<T> {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() && T::types().no_duplicates() && 0 < T::types().len() <= 2048 }
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool { n == m.added(m.handles[self.k as int], T::types(), self.components.reps()) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s; let ghost oh = *heap;
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); }
        vx_within_limits(s);
        let ghost vs = self.components.reps();
        s.add_components(e, self.components, Tracked(heap));
        let ghost n = m.added(e, T::types(), vs);
        proof { assert(o.entities_container.alive(e) == m.is(e)); if m.is(e) {
            assert forall|t: TypeId| #[trigger] n.has(e, t) == s.has(e.id as int, t) by { assert(m.has(e, t) == o.has(e.id as int, t)); }
            assert forall|t: TypeId| n.has(e, t) implies #[trigger] n.val(e, t) == s.val(heap, e.id as int, t) by {
                if has_tid(T::types(), t) { lemma_pos(T::types(), t); let k = pos(T::types(), t); assert(s.val(heap, e.id as int, T::types()[k]) == vs[k]); }
                else { assert(m.has(e, t)); assert(m.val(e, t) == o.val(&oh, e.id as int, t)); assert(o.has(e.id as int, t)); }
            }
            lemma_components(s, heap, &o, &oh, m, n, e);
        } }
        ((), Ghost(n))
    }
}
pub struct RemoveComponents<T> { pub k: usize, pub t: Ghost<Option<T>> }
impl<T: ComponentTuple + 'static> Operation for RemoveComponents<T> {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool { n == m.removed(m.handles[self.k as int], T::types()) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s; let ghost oh = *heap;
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); }
        vx_within_limits(s);
        s.remove_components::<T>(e, Tracked(heap));
        let ghost n = m.removed(e, T::types());
        proof { assert(o.entities_container.alive(e) == m.is(e)); if m.is(e) {
            assert forall|t: TypeId| #[trigger] n.has(e, t) == s.has(e.id as int, t) by { assert(m.has(e, t) == o.has(e.id as int, t)); }
            assert forall|t: TypeId| n.has(e, t) implies #[trigger] n.val(e, t) == s.val(heap, e.id as int, t) by { assert(s.has(e.id as int, t)); assert(m.has(e, t)); assert(m.val(e, t) == o.val(&oh, e.id as int, t)); }
            lemma_components(s, heap, &o, &oh, m, n, e);
        } }
        ((), Ghost(n))
    }
}
pub proof fn lemma_has_each(s: &Store, h: &PageHeap, m: Model, e: Entity, ts: Seq<TypeId>)
    requires s.agrees(h, m), ts.len() > 0,
    ensures m.has_each(e, ts) == (s.entities_container.alive(e) && s.placed(e.id as int) && has_all(s.ac().arch(s.page(e.id as int)), ts)),
{
    assert(s.entities_container.alive(e) == m.is(e));
    if m.is(e) {
        if s.placed(e.id as int) && has_all(s.ac().arch(s.page(e.id as int)), ts) { assert forall|k: int| 0 <= k < ts.len() implies m.has(e, #[trigger] ts[k]) by { assert(s.has(e.id as int, ts[k])); } }
        if m.has_each(e, ts) { assert(m.has(e, ts[0])); assert forall|k: int| 0 <= k < ts.len() implies s.ac().arch(s.page(e.id as int)).has(#[trigger] ts[k]) by { assert(m.has(e, ts[k])); assert(s.has(e.id as int, ts[k])); } }
    }
}
/// Writing through the references that get_components_refs_mut gives.
pub struct Write<T> { pub k: usize, pub values: T }
impl<T: ComponentTuple + 'static> Operation for Write<T> {
    type Out = bool;
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() && T::types().no_duplicates() && T::types().len() > 0 }
    open spec fn step(&self, m: Model, n: Model, out: bool) -> bool { out == m.has_each(m.handles[self.k as int], T::types()) && n == m.written(m.handles[self.k as int], T::types(), self.values.reps()) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (bool, Ghost<Model>)) {
        let ghost o = *s; let ghost oh = *heap;
        let e = hs[self.k];
        let ghost vs = self.values.reps();
        let ghost ts = T::types();
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); lemma_has_each(s, heap, m, e, ts); }
        let ghost n = m.written(e, ts, vs);
        match s.get_components_refs_mut::<T>(e) {
            None => { (false, Ghost(n)) }
            Some(refs) => {
                let ghost x = e.id as int;
                proof { s.lemma_cells(heap, x, ts); assert(T::mlocs(refs) == s.cells(x, ts)); }
                T::assign_to_refs(refs, self.values, Tracked(heap));
                proof {
                    s.lemma_assigned(heap, &oh, x, ts);
                    assert forall|t: TypeId| #[trigger] n.has(e, t) == s.has(x, t) by { assert(m.has(e, t) == o.has(x, t)); if has_tid(ts, t) { lemma_pos(ts, t); assert(m.has(e, ts[pos(ts, t)])); } }
                    assert forall|t: TypeId| n.has(e, t) implies #[trigger] n.val(e, t) == s.val(heap, x, t) by {
                        if has_tid(ts, t) { lemma_pos(ts, t); let k = pos(ts, t); let l = T::mlocs(refs)[k]; assert(l == s.cells(x, ts)[k]); assert(heap.bytes(l.blk, l.off, tsize(ts[k])) == vs[k]); }
                        else { assert(m.has(e, t)); assert(m.val(e, t) == o.val(&oh, x, t)); assert(s.has(x, t)); }
                    }
                    lemma_components(s, heap, &o, &oh, m, n, e);
                }
                (true, Ghost(n))
            }
        }
    }
}
/// What get_components_refs gives to read: whether anything, and the bytes.
pub struct Read<T> { pub k: usize, pub t: Ghost<Option<T>> }
impl<T: ComponentTuple + 'static> Operation for Read<T> {
    type Out = (bool, Ghost<Seq<Seq<u8>>>);
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() && T::types().no_duplicates() && T::types().len() > 0 }
    open spec fn step(&self, m: Model, n: Model, out: (bool, Ghost<Seq<Seq<u8>>>)) -> bool {
        let (e, ts) = (m.handles[self.k as int], T::types());
        n == m && out.0 == m.has_each(e, ts) && (out.0 ==> out.1@.len() == ts.len() && forall|k: int| 0 <= k < ts.len() ==> #[trigger] out.1@[k] == m.val(e, ts[k]))
    }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((bool, Ghost<Seq<Seq<u8>>>), Ghost<Model>)) {
        let e = hs[self.k];
        let ghost ts = T::types();
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); lemma_has_each(s, heap, m, e, ts); }
        match s.get_components_refs::<T>(e) {
            None => ((false, Ghost(Seq::empty())), Ghost(m)),
            Some(refs) => {
                let ghost b = Seq::new(ts.len(), |k: int| heap.bytes(T::locs(refs)[k].blk, T::locs(refs)[k].off, tsize(ts[k])));
                proof {
                    assert(T::locs(refs) == s.cells(e.id as int, ts));
                    assert forall|k: int| 0 <= k < ts.len() implies #[trigger] b[k] == m.val(e, ts[k]) by { let l = s.cells(e.id as int, ts)[k]; assert(m.has(e, ts[k])); assert(m.val(e, ts[k]) == s.val(heap, e.id as int, ts[k])); }
                }
                ((true, Ghost(b)), Ghost(m))
            }
        }
    }
}
pub struct IsAlive { pub k: usize }
impl Operation for IsAlive {
    type Out = bool;
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: bool) -> bool { n == m && out == m.is(m.handles[self.k as int]) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (bool, Ghost<Model>)) {
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); assert(s.entities_container.alive(e) == m.is(e)); }
        (s.is_alive(e), Ghost(m))
    }
}
/// Whether an entity has components at all.
pub struct HasComponents { pub k: usize }
impl Operation for HasComponents {
    type Out = bool;
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: bool) -> bool { n == m && out == exists|t: TypeId| m.has(m.handles[self.k as int], t) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (bool, Ghost<Model>)) {
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); assert(s.entities_container.alive(e) == m.is(e)); }
        let a = s.get_entity_archetype(e);
        proof { if a is Some {
            assert(a->0.wf());
            let t = s.types(e.id as int)[0];
            assert(s.has(e.id as int, t));
            assert(m.has(e, t));
        } else { assert forall|t: TypeId| !#[trigger] m.has(e, t) by {} } }
        (a.is_some(), Ghost(m))
    }
}
pub struct AddTag<T> { pub k: usize, pub t: Ghost<Option<T>> }
pub struct RemoveTag<T> { pub k: usize, pub t: Ghost<Option<T>> }
pub struct HasTag<T> { pub k: usize, pub t: Ghost<Option<T>> }
proof fn lemma_tags(s: &Store, h: &PageHeap, o: &Store, m: Model, n: Model, e: Entity, g: TypeId, b: bool)
    requires o.agrees(h, m), s.wf(), s.same_but_tags(o), n == m.tagged(e, g, b),
        forall|t: TypeId, i: int| #[trigger] s.tag_container.has(t, i) == (if m.is(e) && t == g && i == e.id { b } else { o.tag_container.has(t, i) }),
    ensures s.agrees(h, n),
{
    assert(o.entities_container.alive(e) == m.is(e));
    lemma_orders_same(s, o, m, e);
    assert forall|t: TypeId| s.orders_agree(#[trigger] n.order(t), t) by { assert(n.order(t) == m.order(t)); assert(s.orders_agree(m.order(t), t)); }
    assert forall|x: Entity| #[trigger] s.entities_container.alive(x) == n.is(x) by { assert(o.entities_container.alive(x) == m.is(x)); }
    assert forall|x: Entity| #[trigger] n.is(x) implies n.handles.contains(x) by { assert(m.is(x)); }
    assert forall|x: Entity, t: TypeId| #[trigger] n.has(x, t) == (n.is(x) && s.has(x.id as int, t)) by { assert(m.has(x, t) == (m.is(x) && o.has(x.id as int, t))); }
    assert forall|x: Entity, t: TypeId| n.has(x, t) implies #[trigger] n.val(x, t) == s.val(h, x.id as int, t) by { assert(m.has(x, t)); assert(m.val(x, t) == o.val(h, x.id as int, t)); }
    assert forall|x: Entity, t: TypeId| #[trigger] n.tag(x, t) == (n.is(x) && s.tag_container.has(t, x.id as int)) by {
        assert(m.tag(x, t) == (m.is(x) && o.tag_container.has(t, x.id as int)));
        assert(s.tag_container.has(t, x.id as int) == (if m.is(e) && t == g && x.id == e.id { b } else { o.tag_container.has(t, x.id as int) }));
        if m.is(x) && m.is(e) && x.id == e.id { assert(o.entities_container.alive(x)); o.lemma_same_id(x, e); }
    }
}
impl<T: Tag + 'static> Operation for AddTag<T> {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool { n == m.tagged(m.handles[self.k as int], tid_of::<T>(), true) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s;
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); assert(s.entities_container.alive(e) == m.is(e)); }
        s.add_tag::<T>(e);
        proof { lemma_tags(s, heap, &o, m, m.tagged(e, tid_of::<T>(), true), e, tid_of::<T>(), true); }
        ((), Ghost(m.tagged(e, tid_of::<T>(), true)))
    }
}
impl<T: Tag + 'static> Operation for RemoveTag<T> {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool { n == m.tagged(m.handles[self.k as int], tid_of::<T>(), false) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s;
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); assert(s.entities_container.alive(e) == m.is(e)); }
        s.remove_tag::<T>(e);
        proof { lemma_tags(s, heap, &o, m, m.tagged(e, tid_of::<T>(), false), e, tid_of::<T>(), false); }
        ((), Ghost(m.tagged(e, tid_of::<T>(), false)))
    }
}
impl<T: Tag + 'static> Operation for HasTag<T> {
    type Out = bool;
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: bool) -> bool { n == m && out == m.tag(m.handles[self.k as int], tid_of::<T>()) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (bool, Ghost<Model>)) {
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); assert(s.entities_container.alive(e) == m.is(e)); assert(m.tag(e, tid_of::<T>()) == (m.is(e) && s.tag_container.has(tid_of::<T>(), e.id as int))); }
        (s.has_tag::<T>(e), Ghost(m))
    }
}
pub struct Push<T> { pub k: usize, pub t: Ghost<Option<T>> }
pub struct InsertNextTo<T> { pub k: usize, pub at: usize, pub t: Ghost<Option<T>> }
pub struct InsertBefore<T> { pub k: usize, pub at: usize, pub t: Ghost<Option<T>> }
pub struct Leave<T> { pub k: usize, pub t: Ghost<Option<T>> }
proof fn lemma_ordered(s: &Store, h: &PageHeap, o: &Store, m: Model, g: TypeId, p: Seq<Entity>)
    requires o.agrees(h, m), s.wf(), s.same_but_orders(o), s.order_group_container.others(&o.order_group_container, g), s.orders_agree(p, g),
    ensures s.agrees(h, m.ordered(g, p)),
{
    let n = m.ordered(g, p);
    assert forall|t: TypeId| s.orders_agree(#[trigger] n.order(t), t) by { if t != g { assert(n.order(t) == m.order(t)); assert(o.orders_agree(m.order(t), t)); assert(s.order_group_container.seq(t) == o.order_group_container.seq(t)); } }
    assert forall|x: Entity| #[trigger] s.entities_container.alive(x) == n.is(x) by { assert(o.entities_container.alive(x) == m.is(x)); }
    assert forall|x: Entity| #[trigger] n.is(x) implies n.handles.contains(x) by { assert(m.is(x)); }
    assert forall|x: Entity, t: TypeId| #[trigger] n.has(x, t) == (n.is(x) && s.has(x.id as int, t)) by { assert(m.has(x, t) == (m.is(x) && o.has(x.id as int, t))); }
    assert forall|x: Entity, t: TypeId| n.has(x, t) implies #[trigger] n.val(x, t) == s.val(h, x.id as int, t) by { assert(m.has(x, t)); assert(m.val(x, t) == o.val(h, x.id as int, t)); }
    assert forall|x: Entity, t: TypeId| #[trigger] n.tag(x, t) == (n.is(x) && s.tag_container.has(t, x.id as int)) by { assert(m.tag(x, t) == (m.is(x) && o.tag_container.has(t, x.id as int))); }
}
impl<T: Tag + 'static> Operation for Push<T> {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    /// it returns only if the entity was not in the group (C08: a duplicate is refused)
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool {
        let (e, g) = (m.handles[self.k as int], tid_of::<T>());
        if m.is(e) { !m.order(g).contains(e) && n == m.ordered(g, m.order(g).push(e)) } else { n == m }
    }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s;
        let e = hs[self.k];
        let ghost g = tid_of::<T>();
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); assert(s.entities_container.alive(e) == m.is(e)); assert(s.orders_agree(m.order(g), g)); if m.is(e) { s.lemma_position(m.order(g), g, e); } }
        s.add_entity_order_by::<T>(e);
        proof { lemma_ordered(s, heap, &o, m, g, if m.is(e) { m.order(g).push(e) } else { m.order(g) }); }
        if s.is_alive(e) { ((), Ghost(m.ordered(g, m.order(g).push(e)))) } else { proof { lemma_stays(s, heap, &o, m, g); } ((), Ghost(m)) }
    }
}
proof fn lemma_stays(s: &Store, h: &PageHeap, o: &Store, m: Model, g: TypeId)
    requires o.agrees(h, m), s.wf(), s.same_but_orders(o), s.order_group_container.others(&o.order_group_container, g), s.order_group_container.seq(g) == o.order_group_container.seq(g),
    ensures s.agrees(h, m),
{
    assert(o.orders_agree(m.order(g), g));
    assert(s.orders_agree(m.order(g), g));
    lemma_ordered(s, h, o, m, g, m.order(g));
    let n = m.ordered(g, m.order(g));
    assert forall|t: TypeId| s.orders_agree(#[trigger] m.order(t), t) by { assert(n.order(t) == m.order(t)); }
    assert forall|x: Entity| #[trigger] s.entities_container.alive(x) == m.is(x) by { assert(n.is(x) == m.is(x)); }
    assert forall|x: Entity, t: TypeId| #[trigger] m.has(x, t) == (m.is(x) && s.has(x.id as int, t)) by { assert(n.has(x, t) == m.has(x, t)); }
    assert forall|x: Entity, t: TypeId| m.has(x, t) implies #[trigger] m.val(x, t) == s.val(h, x.id as int, t) by { assert(n.has(x, t)); assert(n.val(x, t) == m.val(x, t)); }
    assert forall|x: Entity, t: TypeId| #[trigger] m.tag(x, t) == (m.is(x) && s.tag_container.has(t, x.id as int)) by { assert(n.tag(x, t) == m.tag(x, t)); }
}
/// where the documentation's position is, in the ids
proof fn lemma_inserted(s: &Store, h: &PageHeap, o: &Store, m: Model, g: TypeId, e: Entity, at: Entity, d: int)
    requires o.agrees(h, m), s.wf(), s.same_but_orders(o), s.order_group_container.others(&o.order_group_container, g), m.is(e), m.is(at), m.order(g).contains(at), d == 0 || d == 1,
        s.order_group_container.seq(g) == o.order_group_container.seq(g).insert(o.order_group_container.seq(g).index_of(at.id) + d, e.id),
    ensures s.agrees(h, m.ordered(g, m.order(g).insert(m.order(g).index_of(at) + d, e))),
{
    let p = m.order(g);
    assert(o.orders_agree(p, g));
    assert(o.entities_container.alive(e) && o.entities_container.alive(at));
    o.lemma_position(p, g, at);
    let k = p.index_of(at) + d;
    let p2 = p.insert(k, e);
    let q = o.order_group_container.seq(g);
    assert forall|i: int| 0 <= i < p2.len() implies (#[trigger] p2[i]).id == s.order_group_container.seq(g)[i] && s.entities_container.alive(p2[i]) by {
        if i < k { assert(p2[i] == p[i]); } else if i > k { assert(p2[i] == p[i - 1]); }
    }
    lemma_ordered(s, h, o, m, g, p2);
}
/// both are alive: the entity is not yet in the group; then its place is next to (or before) the other one
pub open spec fn inserted(m: Model, n: Model, g: TypeId, e: Entity, at: Entity, d: int) -> bool {
    if m.is(e) && m.is(at) { !m.order(g).contains(e) && n == m.ordered(g, m.order(g).insert(m.order(g).index_of(at) + d, e)) } else { n == m }
}
pub open spec fn insertable(m: Model, g: TypeId, k: usize, at: usize) -> bool { k < m.handles.len() && at < m.handles.len() && (m.is(m.handles[at as int]) ==> m.order(g).contains(m.handles[at as int])) }
impl<T: Tag + 'static> Operation for InsertNextTo<T> {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { insertable(m, tid_of::<T>(), self.k, self.at) }
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool { inserted(m, n, tid_of::<T>(), m.handles[self.k as int], m.handles[self.at as int], 1) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s;
        let (e, a) = (hs[self.k], hs[self.at]);
        let ghost g = tid_of::<T>();
        proof {
            assert(m.handles.contains(e) && m.handles.contains(a)); s.lemma_alive_handle(e); s.lemma_alive_handle(a);
            assert(s.entities_container.alive(e) == m.is(e)); assert(s.entities_container.alive(a) == m.is(a)); assert(s.orders_agree(m.order(g), g));
            if m.is(e) { s.lemma_position(m.order(g), g, e); } if m.is(a) { s.lemma_position(m.order(g), g, a); }
        }
        s.add_entity_next_to_order_by::<T>(e, a);
        let ghost n = if m.is(e) && m.is(a) { m.ordered(g, m.order(g).insert(m.order(g).index_of(a) + 1, e)) } else { m };
        proof { if m.is(e) && m.is(a) { lemma_inserted(s, heap, &o, m, g, e, a, 1); } else { lemma_stays(s, heap, &o, m, g); } }
        ((), Ghost(n))
    }
}
impl<T: Tag + 'static> Operation for InsertBefore<T> {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { insertable(m, tid_of::<T>(), self.k, self.at) }
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool { inserted(m, n, tid_of::<T>(), m.handles[self.k as int], m.handles[self.at as int], 0) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s;
        let (e, a) = (hs[self.k], hs[self.at]);
        let ghost g = tid_of::<T>();
        proof {
            assert(m.handles.contains(e) && m.handles.contains(a)); s.lemma_alive_handle(e); s.lemma_alive_handle(a);
            assert(s.entities_container.alive(e) == m.is(e)); assert(s.entities_container.alive(a) == m.is(a)); assert(s.orders_agree(m.order(g), g));
            if m.is(e) { s.lemma_position(m.order(g), g, e); } if m.is(a) { s.lemma_position(m.order(g), g, a); }
        }
        s.add_entity_previous_to_order_by::<T>(e, a);
        let ghost n = if m.is(e) && m.is(a) { m.ordered(g, m.order(g).insert(m.order(g).index_of(a) + 0, e)) } else { m };
        proof { if m.is(e) && m.is(a) { lemma_inserted(s, heap, &o, m, g, e, a, 0); } else { lemma_stays(s, heap, &o, m, g); } }
        ((), Ghost(n))
    }
}
impl<T: Tag + 'static> Operation for Leave<T> {
    type Out = ();
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: ()) -> bool {
        let (e, g) = (m.handles[self.k as int], tid_of::<T>());
        if m.is(e) { n == m.ordered(g, minus(m.order(g), e)) } else { n == m }
    }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((), Ghost<Model>)) {
        let ghost o = *s;
        let e = hs[self.k];
        let ghost g = tid_of::<T>();
        let ghost p = m.order(g);
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); assert(s.entities_container.alive(e) == m.is(e)); assert(s.orders_agree(p, g)); if m.is(e) { s.lemma_position(p, g, e); } }
        s.remove_entity_order_by::<T>(e);
        let ghost n = if m.is(e) { m.ordered(g, minus(p, e)) } else { m };
        proof { if m.is(e) {
            let (p2, q) = (minus(p, e), o.order_group_container.seq(g));
            assert forall|i: int| 0 <= i < p2.len() implies (#[trigger] p2[i]).id == s.order_group_container.seq(g)[i] && s.entities_container.alive(p2[i]) by {
                let j = if p.contains(e) && i >= p.index_of(e) { i + 1 } else { i };
                assert(p2[i] == p[j]);
                assert(p[j].id == q[j]);
            }
            lemma_ordered(s, heap, &o, m, g, p2);
        } else { lemma_stays(s, heap, &o, m, g); } }
        ((), Ghost(n))
    }
}
pub struct First<T> { pub t: Ghost<Option<T>> }
pub struct Last<T> { pub t: Ghost<Option<T>> }
pub struct Next<T> { pub k: usize, pub t: Ghost<Option<T>> }
pub struct Previous<T> { pub k: usize, pub t: Ghost<Option<T>> }
impl<T: Tag + 'static> Operation for First<T> {
    type Out = Option<Entity>;
    open spec fn allowed(&self, m: Model) -> bool { true }
    open spec fn step(&self, m: Model, n: Model, out: Option<Entity>) -> bool { let s = m.order(tid_of::<T>()); n == m && out == (if s.len() > 0 { Some(s[0]) } else { None }) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (Option<Entity>, Ghost<Model>)) {
        let r = s.get_first_entity_ordered_by::<T>();
        proof { let p = m.order(tid_of::<T>()); assert(s.orders_agree(p, tid_of::<T>())); if p.len() > 0 { s.lemma_same_id(p[0], r->0); } }
        (r, Ghost(m))
    }
}
impl<T: Tag + 'static> Operation for Last<T> {
    type Out = Option<Entity>;
    open spec fn allowed(&self, m: Model) -> bool { true }
    open spec fn step(&self, m: Model, n: Model, out: Option<Entity>) -> bool { let s = m.order(tid_of::<T>()); n == m && out == (if s.len() > 0 { Some(s[s.len() - 1]) } else { None }) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (Option<Entity>, Ghost<Model>)) {
        let r = s.get_last_entity_ordered_by::<T>();
        proof { let p = m.order(tid_of::<T>()); assert(s.orders_agree(p, tid_of::<T>())); if p.len() > 0 { s.lemma_same_id(p[p.len() - 1], r->0); } }
        (r, Ghost(m))
    }
}
impl<T: Tag + 'static> Operation for Next<T> {
    type Out = Option<Entity>;
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: Option<Entity>) -> bool {
        let (e, s) = (m.handles[self.k as int], m.order(tid_of::<T>()));
        n == m && out == (if s.contains(e) && s.index_of(e) + 1 < s.len() { Some(s[s.index_of(e) + 1]) } else { None })
    }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (Option<Entity>, Ghost<Model>)) {
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); }
        let r = s.get_next_entity_ordered_by::<T>(e);
        proof {
            let p = m.order(tid_of::<T>()); assert(s.orders_agree(p, tid_of::<T>()));
            if s.entities_container.alive(e) { s.lemma_position(p, tid_of::<T>(), e); if p.contains(e) && p.index_of(e) + 1 < p.len() { s.lemma_same_id(p[p.index_of(e) + 1], r->0); } }
            else if p.contains(e) { assert(s.entities_container.alive(p[p.index_of(e)])); }
        }
        (r, Ghost(m))
    }
}
impl<T: Tag + 'static> Operation for Previous<T> {
    type Out = Option<Entity>;
    open spec fn allowed(&self, m: Model) -> bool { self.k < m.handles.len() }
    open spec fn step(&self, m: Model, n: Model, out: Option<Entity>) -> bool {
        let (e, s) = (m.handles[self.k as int], m.order(tid_of::<T>()));
        n == m && out == (if s.contains(e) && s.index_of(e) > 0 { Some(s[s.index_of(e) - 1]) } else { None })
    }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: (Option<Entity>, Ghost<Model>)) {
        let e = hs[self.k];
        proof { assert(m.handles.contains(e)); s.lemma_alive_handle(e); }
        let r = s.get_previous_entity_ordered_by::<T>(e);
        proof {
            let p = m.order(tid_of::<T>()); assert(s.orders_agree(p, tid_of::<T>()));
            if s.entities_container.alive(e) { s.lemma_position(p, tid_of::<T>(), e); if p.contains(e) && p.index_of(e) > 0 { s.lemma_same_id(p[p.index_of(e) - 1], r->0); } }
            else if p.contains(e) { assert(s.entities_container.alive(p[p.index_of(e)])); }
        }
        (r, Ghost(m))
    }
}
/// One history after another: every finite history of the operations above is of this form.
pub struct Then<A, B> { pub a: A, pub b: B }
impl<A: Operation, B: Operation> Operation for Then<A, B> {
    type Out = (A::Out, B::Out);
    open spec fn allowed(&self, m: Model) -> bool { self.a.allowed(m) && forall|k: Model, x: A::Out| #[trigger] self.a.step(m, k, x) ==> self.b.allowed(k) }
    open spec fn step(&self, m: Model, n: Model, out: (A::Out, B::Out)) -> bool { exists|k: Model| #[trigger] self.a.step(m, k, out.0) && self.b.step(k, n, out.1) }
    fn run(self, s: &mut Store, hs: &mut Vec<Entity>, Tracked(heap): Tracked<&mut PageHeap>, Ghost(m): Ghost<Model>) -> (r: ((A::Out, B::Out), Ghost<Model>)) {
        let ghost w = self;
        let Then { a, b } = self;
        let (x, Ghost(k)) = a.run(s, hs, Tracked(heap), Ghost(m));
        let (y, Ghost(n)) = b.run(s, hs, Tracked(heap), Ghost(k));
        proof { assert(w.a.step(m, k, (x, y).0)); assert(w.b.step(k, n, (x, y).1)); assert(w.step(m, n, (x, y))); }
        ((x, y), Ghost(n))
    }
}
/// The theorem: whatever the history, a new store does to its user what the model does.
pub fn history<H: Operation>(h: H, capacity: usize, Tracked(heap): Tracked<&mut PageHeap>) -> (r: (H::Out, Ghost<Model>))
    requires capacity <= 0x8000_0000, h.allowed(Model::empty()),
    ensures h.step(Model::empty(), r.1@, r.0),
{
    let mut s = Store::with_capacity(capacity, Tracked(heap));
    let mut hs: Vec<Entity> = Vec::new();
    proof {
        let m = Model::empty();
        assert(hs@ =~= m.handles);
        assert forall|e: Entity| #[trigger] s.entities_container.alive(e) == m.is(e) by { assert(!s.on(e.id as int)); }
        assert(s.agrees(heap, m));
    }
    h.run(&mut s, &mut hs, Tracked(heap), Ghost(Model::empty()))
}
