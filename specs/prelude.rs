// Trusted base of the contracts: the operations of std the crate uses, with their contracts.
use vstd::prelude::*;
pub use std::marker::PhantomData;
pub use std::ops::Range;
verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- layouts
#[derive(Clone, Copy)]
pub struct Layout { pub size: usize, pub align: usize }
pub open spec fn pow2(n: int) -> bool { vstd::arithmetic::power2::is_pow2(n) }
pub open spec fn layout_ok(size: int, align: int) -> bool {
    align > 0 && pow2(align) && size <= isize::MAX as int - isize::MAX as int % align
}
/// an allocation of n elements of T is one the allocator's interface can express
pub open spec fn fits<T>(n: int) -> bool { 0 <= n && layout_ok(sz::<T>() * n, al::<T>()) }
pub uninterp spec fn sz<T>() -> int;
pub uninterp spec fn al<T>() -> int;
pub broadcast axiom fn axiom_sz<T>() ensures #![trigger sz::<T>()] 0 <= sz::<T>() <= isize::MAX, sz::<T>() % al::<T>() == 0, 1 <= al::<T>() <= 0x2000_0000, pow2(al::<T>());
pub broadcast axiom fn axiom_al<T>() ensures #![trigger al::<T>()] 1 <= al::<T>() <= 0x2000_0000, pow2(al::<T>());
pub broadcast axiom fn axiom_sz_u32() ensures #![trigger sz::<u32>()] sz::<u32>() == 4, al::<u32>() == 4;
pub broadcast axiom fn axiom_sz_usize() ensures #![trigger sz::<usize>()] sz::<usize>() == 8, al::<usize>() == 8;
pub broadcast axiom fn axiom_sz_md<T>() ensures #![trigger sz::<ManuallyDrop<T>>()] sz::<ManuallyDrop<T>>() == sz::<T>(), al::<ManuallyDrop<T>>() == al::<T>();
pub broadcast group group_sizes { axiom_sz, axiom_al, axiom_sz_u32, axiom_sz_usize, axiom_sz_md }

#[verifier::external_body]
pub fn vx_size_of<T>() -> (r: usize) ensures r == sz::<T>() { std::mem::size_of::<T>() }
#[verifier::external_body]
pub fn vx_align_of<T>() -> (r: usize) ensures r == al::<T>() { std::mem::align_of::<T>() }
impl Layout {
    pub fn from_size_align_unchecked(size: usize, align: usize) -> (r: Layout)
        requires layout_ok(size as int, align as int),
        ensures r.size == size, r.align == align,
    { Layout { size, align } }
    pub fn size(&self) -> (r: usize) ensures r == self.size { self.size }
    pub fn align(&self) -> (r: usize) ensures r == self.align { self.align }
}

// ------------------------------------------------- buffers with one owner
/// A raw pointer to the start of a buffer of T. `live` is the right to use and release it.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RawBuf<T> { p: *mut T }
/// the bytes the allocator handed out for it, if any
pub enum Blk { No, Yes { size: int, align: int } }
pub open spec fn blk_for<T>(n: int) -> Blk { if sz::<T>() * n == 0 { Blk::No } else { Blk::Yes { size: sz::<T>() * n, align: al::<T>() } } }
/// an owned buffer of exactly n elements
pub open spec fn owned<T>(b: RawBuf<T>, n: int) -> bool { b.live() && b@.len() == n && b.blk() == blk_for::<T>(n) }
pub open spec fn all_init<T>(s: Seq<Option<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some }
/// the first n values
pub open spec fn vals<T>(s: Seq<Option<T>>, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| s[i].unwrap()) }
/// the value all of whose bytes are b
pub uninterp spec fn of_bytes<T>(b: u8) -> T;
pub open spec fn zeroed<T>() -> T { of_bytes::<T>(0) }
pub broadcast axiom fn axiom_zeroed_u32(b: u8) ensures #[trigger] of_bytes::<u32>(b) == 0x0101_0101 * b;
pub broadcast axiom fn axiom_zeroed_usize(b: u8) ensures #[trigger] of_bytes::<usize>(b) == 0x0101_0101_0101_0101 * b;

impl<T> RawBuf<T> {
    pub uninterp spec fn view(&self) -> Seq<Option<T>>;
    pub uninterp spec fn live(&self) -> bool;
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn blk(&self) -> Blk;

    #[verifier::external_body]
    pub fn rd(&self, i: usize) -> (r: T) where T: Copy
        requires self.live(), i < self@.len(), self@[i as int] is Some,
        ensures self@[i as int] == Some(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wr(&mut self, i: usize, v: T)
        requires old(self).live(), i < old(self)@.len(),
        ensures final(self).live(), final(self).id() == old(self).id(), final(self).blk() == old(self).blk(), final(self)@ == old(self)@.update(i as int, Some(v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self, i: usize) -> (r: &T)
        requires self.live(), i < self@.len(), self@[i as int] is Some,
        ensures self@[i as int] == Some(*r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut(&mut self, i: usize) -> (r: &mut T)
        requires old(self).live(), i < old(self)@.len(), old(self)@[i as int] is Some,
        ensures final(self).live(), final(self).id() == old(self).id(), final(self).blk() == old(self).blk(), Some(*r) == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, Some(*final(r))),
    { unimplemented!() }
    /// takes the value out: it must not be used again from here
    #[verifier::external_body]
    pub fn read_move(&mut self, i: usize) -> (r: T)
        requires old(self).live(), i < old(self)@.len(), old(self)@[i as int] is Some,
        ensures final(self).live(), final(self).id() == old(self).id(), final(self).blk() == old(self).blk(), Some(r) == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, None),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_bytes(&mut self, off: usize, b: u8, n: usize)
        requires old(self).live(), off + n <= old(self)@.len(),
        ensures final(self).live(), final(self).id() == old(self).id(), final(self).blk() == old(self).blk(), final(self)@.len() == old(self)@.len(),
            forall|i: int| 0 <= i < final(self)@.len() ==> #[trigger] final(self)@[i] == (if off <= i < off + n { Some(of_bytes::<T>(b)) } else { old(self)@[i] }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_to(&self, so: usize, d: &mut RawBuf<T>, dof: usize, n: usize)
        requires self.live(), old(d).live(), so + n <= self@.len(), dof + n <= old(d)@.len(),
        ensures final(d).live(), final(d).id() == old(d).id(), final(d).blk() == old(d).blk(), final(d)@.len() == old(d)@.len(),
            forall|i: int| 0 <= i < final(d)@.len() ==> #[trigger] final(d)@[i] == (if dof <= i < dof + n { self@[i - dof + so] } else { old(d)@[i] }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_const(&self) -> (r: ConstPtr<T>)
        requires self.live(),
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_const_at(&self, i: usize) -> (r: ConstPtr<T>)
        requires self.live(), i <= self@.len(),
        ensures r@ == self@.subrange(i as int, self@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self, n: usize) -> (r: &[T])
        requires self.live(), n <= self@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] self@[i]) is Some,
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> Some(#[trigger] r@[i]) == self@[i], r@ == vals(self@, n as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn null() -> (r: RawBuf<T>)
        ensures r.live(), r@.len() == 0, r.blk() == Blk::No,
    { unimplemented!() }
    /// a well-aligned address good for no bytes at all
    #[verifier::external_body]
    pub fn dangling(n: Ghost<int>) -> (r: RawBuf<T>)
        requires 0 <= n@, sz::<T>() * n@ == 0,
        ensures r.live(), r@.len() == n@, forall|i: int| 0 <= i < n@ ==> (#[trigger] r@[i]) is None, r.blk() == Blk::No,
    { unimplemented!() }
    /// zeroed memory of zero bytes is zeroed
    #[verifier::external_body]
    pub proof fn axiom_zst(&self)
        requires self.live(), sz::<T>() * self@.len() == 0,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_take<T>(p: &mut RawBuf<T>) -> (r: RawBuf<T>)
    requires old(p).live(),
    ensures r == *old(p), !final(p).live(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_put<T>(p: &mut RawBuf<T>, v: RawBuf<T>)
    requires !old(p).live(),
    ensures *final(p) == v,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_std_alloc<T>(l: Layout) -> (r: RawBuf<T>)
    requires l.size > 0, sz::<T>() > 0, l.size as int % sz::<T>() == 0, l.align == al::<T>(),
    ensures r.live(), r@.len() * sz::<T>() == l.size, r@.len() == l.size as int / sz::<T>(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is None, r.blk() == (Blk::Yes { size: l.size as int, align: l.align as int }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_std_alloc_zeroed<T>(l: Layout) -> (r: RawBuf<T>)
    requires l.size > 0, sz::<T>() > 0, l.size as int % sz::<T>() == 0, l.align == al::<T>(),
    ensures r.live(), r@.len() * sz::<T>() == l.size, r@.len() == l.size as int / sz::<T>(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == Some(zeroed::<T>()), r.blk() == (Blk::Yes { size: l.size as int, align: l.align as int }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_std_dealloc<T>(p: RawBuf<T>, l: Layout)
    requires p.live(), p.blk() == (Blk::Yes { size: l.size as int, align: l.align as int }),
{ unimplemented!() }

/// A raw const pointer: what it can read as long as its owner is not changed.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ConstPtr<T> { p: *const T }
impl<T> Copy for ConstPtr<T> {}
impl<T> Clone for ConstPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> ConstPtr<T> {
    pub uninterp spec fn view(&self) -> Seq<Option<T>>;
    #[verifier::external_body]
    pub fn rd(&self, i: usize) -> (r: T) where T: Copy
        requires i < self@.len(), self@[i as int] is Some,
        ensures self@[i as int] == Some(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self, i: usize) -> (r: &T)
        requires i < self@.len(), self@[i as int] is Some,
        ensures self@[i as int] == Some(*r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&self, i: usize) -> (r: ConstPtr<T>)
        requires i <= self@.len(),
        ensures r@ == self@.subrange(i as int, self@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self, n: usize) -> (r: &[T])
        requires n <= self@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] self@[i]) is Some,
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> Some(#[trigger] r@[i]) == self@[i], r@ == vals(self@, n as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_to(&self, so: usize, d: &mut RawBuf<T>, dof: usize, n: usize)
        requires old(d).live(), so + n <= self@.len(), dof + n <= old(d)@.len(),
        ensures final(d).live(), final(d).id() == old(d).id(), final(d).blk() == old(d).blk(), final(d)@.len() == old(d)@.len(),
            forall|i: int| 0 <= i < final(d)@.len() ==> #[trigger] final(d)@[i] == (if dof <= i < dof + n { self@[i - dof + so] } else { old(d)@[i] }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn null() -> (r: ConstPtr<T>)
        ensures r@.len() == 0,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec_as_ptr<T>(v: &Vec<T>) -> (r: ConstPtr<T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == Some(v@[i]),
{ unimplemented!() }

/// the capacity of a vector: its allocation is at most isize::MAX bytes
#[verifier::external_body]
pub fn vx_vec_capacity<T>(v: &Vec<T>) -> (r: usize)
    ensures v@.len() <= r, sz::<T>() > 0 ==> r <= isize::MAX,
{ v.capacity() }
// ------------------------------------------------------- values not dropped
/// std::mem::ManuallyDrop
pub struct ManuallyDrop<T> { pub v: T }
pub open spec fn md<T>(v: ManuallyDrop<T>) -> T { v.v }
impl<T> ManuallyDrop<T> {
    pub fn new(v: T) -> (r: ManuallyDrop<T>) ensures r.v == v { ManuallyDrop { v } }
    pub fn vx_inner(&self) -> (r: &T) ensures *r == self.v { &self.v }
    pub fn vx_inner_mut(&mut self) -> (r: &mut T) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v }
}
#[verifier::external_body]
pub fn vx_md_take<T>(v: ManuallyDrop<T>) -> (r: T) ensures r == md(v) { unimplemented!() }
/// the values dropped so far, in order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct DropLog<T> { g: Ghost<Seq<T>> }
impl<T> DropLog<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
pub fn vx_md_drop<T>(v: ManuallyDrop<T>, Tracked(heap): Tracked<&mut DropLog<T>>) ensures final(heap)@ == old(heap)@.push(md(v)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_drop_logged<T>(v: T, Tracked(heap): Tracked<&mut DropLog<T>>) ensures final(heap)@ == old(heap)@.push(v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_drop<T>(v: T) { unimplemented!() }
// ------------------------------------------------------------- assertions
pub fn vx_require(c: bool) requires c {}
/// whether this is a build with debug assertions: either
#[verifier::external_body]
pub fn vx_checked_build() -> bool { cfg!(debug_assertions) }
#[verifier::external_body]
pub fn vx_refuse_unless(c: bool) ensures c { if !c { panic!() } }
#[verifier::external_body]
pub fn vx_refuse() -> ! ensures false { panic!() }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { panic!() }

// ------------------------------------------------------------- type identities
#[derive(Clone, Copy)]
pub struct TypeId { pub i: u128 }
/// the identity of a type; distinct types have distinct identities by construction of std::any::TypeId
pub uninterp spec fn tid_of<T: ?Sized>() -> TypeId;
impl TypeId {
    #[verifier::external_body]
    pub fn of<T: ?Sized + 'static>() -> (r: TypeId) ensures r == tid_of::<T>() { unimplemented!() }
}
pub open spec fn tid_lt(a: TypeId, b: TypeId) -> bool { a.i < b.i }
pub fn vx_tid_eq(a: TypeId, b: TypeId) -> (r: bool) ensures r == (a == b) { a.i == b.i }
pub fn vx_tid_lt(a: TypeId, b: TypeId) -> (r: bool) ensures r == tid_lt(a, b) { a.i < b.i }
pub open spec fn tids_sorted(s: Seq<TypeId>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).i < (#[trigger] s[j]).i }
#[verifier::external_body]
pub fn vx_type_name<T: ?Sized>() -> &'static str { unimplemented!() }
/// slice::binary_search
#[verifier::external_body]
pub fn vx_binary_search(s: &[TypeId], x: &TypeId) -> (r: Result<usize, usize>)
    requires tids_sorted(s@),
    ensures
        r is Ok ==> r->Ok_0 < s@.len() && s@[r->Ok_0 as int] == *x,
        r is Err ==> r->Err_0 <= s@.len() && (forall|i: int| 0 <= i < r->Err_0 ==> (#[trigger] s@[i]).i < x.i) && (forall|i: int| r->Err_0 <= i < s@.len() ==> x.i < (#[trigger] s@[i]).i),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_tids_eq(a: &[TypeId], b: &[TypeId]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// size and alignment of the type with this identity
pub uninterp spec fn tsize(id: TypeId) -> int;
pub uninterp spec fn talign(id: TypeId) -> int;
pub broadcast axiom fn axiom_tid<T>() ensures #![trigger tid_of::<T>()] tsize(tid_of::<T>()) == sz::<T>(), talign(tid_of::<T>()) == al::<T>();
pub broadcast axiom fn axiom_tsize(id: TypeId) ensures #![trigger tsize(id)] #![trigger talign(id)] 0 <= tsize(id) <= isize::MAX, tsize(id) % talign(id) == 0, 1 <= talign(id) <= 0x2000_0000, pow2(talign(id));
pub broadcast axiom fn axiom_sz_tid() ensures #![trigger sz::<TypeId>()] sz::<TypeId>() == 16, 1 <= al::<TypeId>() <= 16;
pub broadcast axiom fn axiom_sz_str() ensures #![trigger sz::<&'static str>()] sz::<&'static str>() == 16, al::<&'static str>() == 8;
/// a stable or unstable sort: b is a rearrangement of a
pub open spec fn rearranged<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& a.len() == b.len() == p.len() == q.len()
    &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]] && q[p[i]] == i
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] q[i] < b.len() && p[q[i]] == i
}

// ------------------------------------------------------------------ numbers
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_saturating_sub(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }

pub fn vx_next_multiple_of(a: usize, b: usize) -> (r: usize)
    requires b > 0, a + b <= usize::MAX,
    ensures a <= r < a + b, r as int % b as int == 0, r == (if a as int % b as int == 0 { a as int } else { a + (b - a as int % b as int) }),
{
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
        let q = a as int / b as int;
        assert(a + (b - a as int % b as int) == (q + 1) * b) by (nonlinear_arith) requires a == b * q + a as int % b as int;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, b as int);
    }
    if a % b == 0 { a } else { a + (b - a % b) }
}
pub fn vx_div_ceil(a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 }),
{
    proof {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
        let (q, m) = (a as int / b as int, a as int % b as int);
        assert(q <= a && (m != 0 ==> q < a)) by (nonlinear_arith) requires b >= 1, a >= 0, a == b * q + m, 0 <= m < b;
    }
    if a % b == 0 { a / b } else { a / b + 1 }
}
pub open spec fn vlen<T>(v: Vec<T>) -> int { v@.len() as int }
// ------------------------------------------------------------- page memory
/// A place in a block of memory handed out by the allocator. Blocks have different numbers; a
/// block's size and alignment never change.
pub struct Loc { pub blk: int, pub off: int }
pub uninterp spec fn blk_size(b: int) -> int;
pub uninterp spec fn blk_align(b: int) -> int;
/// a value of this size and alignment can be at this place
pub open spec fn place_ok(l: Loc, size: int, align: int) -> bool { 0 <= l.off && l.off + size <= blk_size(l.blk) && align > 0 && blk_align(l.blk) % align == 0 && l.off % align == 0 }
/// the contents of all blocks
#[verifier::external_body]
pub tracked struct PageHeap { g: Ghost<int> }
impl PageHeap {
    /// the block was handed out and not released
    pub uninterp spec fn live(&self, b: int) -> bool;
    /// the n bytes at a place
    pub uninterp spec fn bytes(&self, b: int, o: int, n: int) -> Seq<u8>;
    /// everything outside n bytes at a place is as it was
    pub open spec fn kept(&self, old: &PageHeap, d: Loc, n: int) -> bool {
        &&& forall|b: int| #[trigger] self.live(b) == old.live(b)
        &&& forall|b: int, o: int, m: int| m >= 0 && (b != d.blk || o + m <= d.off || d.off + n <= o) ==> #[trigger] self.bytes(b, o, m) == old.bytes(b, o, m)
    }
}
/// the representation of a value
pub uninterp spec fn encode<T>(v: T) -> Seq<u8>;
pub uninterp spec fn decode<T>(b: Seq<u8>) -> T;
pub broadcast axiom fn axiom_encode<T>(v: T) ensures #![trigger encode(v)] decode::<T>(encode(v)) == v;

/// A raw pointer to bytes of a page.
#[verifier::external_body]
pub struct PagePtr { p: *mut u8 }
impl Copy for PagePtr {}
impl Clone for PagePtr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl PagePtr {
    pub uninterp spec fn view(&self) -> Loc;
    #[verifier::external_body]
    pub fn add(&self, n: usize) -> (r: PagePtr)
        requires 0 <= self@.off, self@.off + n <= blk_size(self@.blk),
        ensures r@ == (Loc { blk: self@.blk, off: self@.off + n }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cast<T>(&self) -> (r: CPtr<T>)
        ensures r@ == self@,
    { unimplemented!() }
    /// copy_to_nonoverlapping
    #[verifier::external_body]
    pub fn copy_to(&self, d: PagePtr, n: usize, Tracked(heap): Tracked<&mut PageHeap>)
        requires
            old(heap).live(self@.blk), old(heap).live(d@.blk), 0 <= self@.off, self@.off + n <= blk_size(self@.blk), 0 <= d@.off, d@.off + n <= blk_size(d@.blk),
            self@.blk != d@.blk || self@.off + n <= d@.off || d@.off + n <= self@.off,
        ensures
            final(heap).kept(old(heap), d@, n as int),
            final(heap).bytes(d@.blk, d@.off, n as int) == old(heap).bytes(self@.blk, self@.off, n as int),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_page_alloc(l: Layout, Tracked(heap): Tracked<&mut PageHeap>) -> (r: PagePtr)
    requires l.size > 0,
    ensures
        r@.off == 0, blk_size(r@.blk) == l.size, blk_align(r@.blk) == l.align, !old(heap).live(r@.blk),
        forall|b: int| #[trigger] final(heap).live(b) == (old(heap).live(b) || b == r@.blk),
        forall|b: int, o: int, m: int| b != r@.blk ==> #[trigger] final(heap).bytes(b, o, m) == old(heap).bytes(b, o, m),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_page_dealloc(p: PagePtr, l: Layout, Tracked(heap): Tracked<&mut PageHeap>)
    requires old(heap).live(p@.blk), p@.off == 0, blk_size(p@.blk) == l.size, blk_align(p@.blk) == l.align,
    ensures
        forall|b: int| #[trigger] final(heap).live(b) == (old(heap).live(b) && b != p@.blk),
        forall|b: int, o: int, m: int| b != p@.blk ==> #[trigger] final(heap).bytes(b, o, m) == old(heap).bytes(b, o, m),
{ unimplemented!() }

/// A raw pointer or a reference to a T in a page: where it points to.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CPtr<T> { p: *mut T }
impl<T> Copy for CPtr<T> {}
impl<T> Clone for CPtr<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> CPtr<T> {
    pub uninterp spec fn view(&self) -> Loc;
    #[verifier::external_body]
    pub fn null() -> (r: Self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&self, n: usize) -> (r: Self)
        requires n == 0 || 0 <= self@.off && self@.off + n * sz::<T>() <= blk_size(self@.blk),
        ensures r@ == (Loc { blk: self@.blk, off: self@.off + n * sz::<T>() }),
    { unimplemented!() }
    /// `&*p`, `&mut *p`
    #[verifier::external_body]
    pub fn to_ref(&self) -> (r: Self)
        requires place_ok(self@, sz::<T>(), al::<T>()),
        ensures r@ == self@,
    { unimplemented!() }
    /// `*r = v`
    #[verifier::external_body]
    pub fn write(&self, v: T, Tracked(heap): Tracked<&mut PageHeap>)
        requires place_ok(self@, sz::<T>(), al::<T>()), old(heap).live(self@.blk),
        ensures final(heap).kept(old(heap), self@, sz::<T>()), final(heap).bytes(self@.blk, self@.off, sz::<T>()) == encode(v),
    { unimplemented!() }
    /// `*r`
    #[verifier::external_body]
    pub fn read(&self, Tracked(heap): Tracked<&PageHeap>) -> (r: T)
        requires place_ok(self@, sz::<T>(), al::<T>()), heap.live(self@.blk),
        ensures r == decode::<T>(heap.bytes(self@.blk, self@.off, sz::<T>())),
    { unimplemented!() }
}
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup2<A, B>(pub A, pub B);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup3<A, B, C>(pub A, pub B, pub C);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup4<A, B, C, D>(pub A, pub B, pub C, pub D);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup5<A, B, C, D, E>(pub A, pub B, pub C, pub D, pub E);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup6<A, B, C, D, E, F>(pub A, pub B, pub C, pub D, pub E, pub F);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup7<A, B, C, D, E, F, G>(pub A, pub B, pub C, pub D, pub E, pub F, pub G);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup8<A, B, C, D, E, F, G, H>(pub A, pub B, pub C, pub D, pub E, pub F, pub G, pub H);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup9<A, B, C, D, E, F, G, H, I>(pub A, pub B, pub C, pub D, pub E, pub F, pub G, pub H, pub I);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup10<A, B, C, D, E, F, G, H, I, J>(pub A, pub B, pub C, pub D, pub E, pub F, pub G, pub H, pub I, pub J);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup11<A, B, C, D, E, F, G, H, I, J, K>(pub A, pub B, pub C, pub D, pub E, pub F, pub G, pub H, pub I, pub J, pub K);
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Tup12<A, B, C, D, E, F, G, H, I, J, K, L>(pub A, pub B, pub C, pub D, pub E, pub F, pub G, pub H, pub I, pub J, pub K, pub L);

// ---------------------------------------------------- division that refuses zero
#[verifier::external_body]
pub fn vx_div(a: usize, b: usize) -> (r: usize) ensures b != 0, r == a as int / b as int { a / b }
#[verifier::external_body]
pub fn vx_rem(a: usize, b: usize) -> (r: usize) ensures b != 0, r == a as int % b as int { a % b }
}
