@@module mem_utils
@@raw
broadcast use group_sizes;
pub proof fn lemma_count(size: int, n: int)
    requires size > 0, n >= 0,
    ensures size * n == 0 <==> n == 0, (size * n) % size == 0, (size * n) / size == n, forall|m: int| #[trigger] (m * size) == size * n ==> m == n,
{
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n, size);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, size);
    assert(size * n == n * size) by (nonlinear_arith);
    assert(size * n == 0 <==> n == 0) by (nonlinear_arith) requires size > 0, n >= 0;
    assert forall|m: int| #[trigger] (m * size) == size * n implies m == n by { assert(m * size == n * size ==> m == n) by (nonlinear_arith) requires size > 0; }
}
@@fn mem_utils::layout_of(capacity) -> r
@props C11 C13 C01 C07 C08 C12 C05
@requires
fits::<T>(capacity as int),
@ensures
r.size == sz::<T>() * capacity,
r.align == al::<T>(),
@@macro alloc
@prologue
let vx_dangling_len = Ghost(capacity as int);
proof { if sz::<T>() > 0 { lemma_count(sz::<T>(), capacity as int); } assert(sz::<T>() == 0 ==> sz::<T>() * capacity == 0) by (nonlinear_arith); }
@@fn mem_utils::alloc(capacity) -> r
@props C11 C13 C01 C07 C08 C12 C05
@requires
fits::<T>(capacity as int),
@ensures
owned(r, capacity as int),
forall|i: int| 0 <= i < capacity ==> (#[trigger] r@[i]) is None,
%%alloc
@@fn mem_utils::alloc_zeroed(capacity) -> r
@props C11 C13 C01 C07 C08 C12 C05
@requires
fits::<T>(capacity as int),
@ensures
owned(r, capacity as int),
forall|i: int| 0 <= i < capacity ==> (#[trigger] r@[i]) is None || r@[i] == Some(zeroed::<T>()),
sz::<T>() > 0 ==> forall|i: int| 0 <= i < capacity ==> (#[trigger] r@[i]) == Some(zeroed::<T>()),
%%alloc
@@fn mem_utils::dealloc(ptr, capacity)
@props C11 C13 C01 C07 C08 C12 C05
@ptr ptr=own
@opt zfree=1
@requires
owned(ptr, capacity as int),
fits::<T>(capacity as int),
@@fn mem_utils::realloc(ptr, old_capacity, new_capacity) -> r
@props C11 C13 C01 C07 C08 C12 C05
@ptr ptr=own
@requires
owned(ptr, old_capacity as int),
fits::<T>(old_capacity as int), fits::<T>(new_capacity as int), old_capacity <= new_capacity,
@ensures
owned(r, new_capacity as int),
forall|i: int| 0 <= i < new_capacity ==> #[trigger] r@[i] == (if i < old_capacity { ptr@[i] } else { None }),
@@fn mem_utils::realloc_with_uninit_capacity_zeroing(ptr, old_capacity, new_capacity) -> r
@props C11 C13 C01 C07 C08 C12 C05
@ptr ptr=own
@requires
owned(ptr, old_capacity as int),
fits::<T>(old_capacity as int), fits::<T>(new_capacity as int), old_capacity <= new_capacity, sz::<T>() > 0,
@ensures
owned(r, new_capacity as int),
forall|i: int| 0 <= i < new_capacity ==> #[trigger] r@[i] == (if i < old_capacity { ptr@[i] } else { Some(zeroed::<T>()) }),
@@module bitvec_utils
@@raw
broadcast use {group_sizes, axiom_zeroed_u32};
pub open spec fn bit(w: u32, j: u32) -> bool { (w >> j) & 1 == 1 }
pub open spec fn getb(s: Seq<Option<u32>>, i: int) -> bool { bit(s[i / 32].unwrap(), (i % 32) as u32) }
/// an owned bit vector for indices 0..n
pub open spec fn bv_ok(b: RawBuf<u32>, n: int) -> bool { owned(b, words(n)) && all_init(b@) }
pub open spec fn same_words(a: RawBuf<u32>, b: RawBuf<u32>) -> bool { a.live() == b.live() && a.id() == b.id() && a.blk() == b.blk() && a@.len() == b@.len() && (forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i] is Some) == (b@[i] is Some)) }
pub proof fn lemma_bits()
    ensures
        forall|v: u32, i: u32, j: u32| #![trigger bit(v | (1u32 << i), j)] i < 32 && j < 32 ==> bit(v | (1u32 << i), j) == (bit(v, j) || i == j),
        forall|v: u32, i: u32, j: u32| #![trigger bit(v & !(1u32 << i), j)] i < 32 && j < 32 ==> bit(v & !(1u32 << i), j) == (bit(v, j) && i != j),
        forall|v: u32, i: u32, j: u32| #![trigger bit(v ^ (1u32 << i), j)] i < 32 && j < 32 ==> bit(v ^ (1u32 << i), j) == (if i == j { !bit(v, j) } else { bit(v, j) }),
        forall|v: u32, i: u32| #![trigger v & (1u32 << i)] i < 32 ==> (((v & (1u32 << i)) == (1u32 << i)) == bit(v, i)) && (((v & (1u32 << i)) != 0) == bit(v, i)),
        forall|j: u32| j < 32 ==> !#[trigger] bit(0, j),
{
    assert forall|v: u32, i: u32, j: u32| #![trigger bit(v | (1u32 << i), j)] i < 32 && j < 32 implies bit(v | (1u32 << i), j) == (bit(v, j) || i == j) by {
        assert(i < 32 && j < 32 ==> ((((v | (1u32 << i)) >> j) & 1 == 1) == (((v >> j) & 1 == 1) || i == j))) by (bit_vector);
    }
    assert forall|v: u32, i: u32, j: u32| #![trigger bit(v & !(1u32 << i), j)] i < 32 && j < 32 implies bit(v & !(1u32 << i), j) == (bit(v, j) && i != j) by {
        assert(i < 32 && j < 32 ==> ((((v & !(1u32 << i)) >> j) & 1 == 1) == (((v >> j) & 1 == 1) && i != j))) by (bit_vector);
    }
    assert forall|v: u32, i: u32, j: u32| #![trigger bit(v ^ (1u32 << i), j)] i < 32 && j < 32 implies bit(v ^ (1u32 << i), j) == (if i == j { !bit(v, j) } else { bit(v, j) }) by {
        assert(i < 32 && j < 32 ==> ((((v ^ (1u32 << i)) >> j) & 1 == 1) == (if i == j { !((v >> j) & 1 == 1) } else { (v >> j) & 1 == 1 }))) by (bit_vector);
    }
    assert forall|v: u32, i: u32| #![trigger v & (1u32 << i)] i < 32 implies (((v & (1u32 << i)) == (1u32 << i)) == bit(v, i)) && (((v & (1u32 << i)) != 0) == bit(v, i)) by {
        assert(i < 32 ==> (((v & (1u32 << i)) == (1u32 << i)) == ((v >> i) & 1 == 1))) by (bit_vector);
        assert(i < 32 ==> (((v & (1u32 << i)) != 0) == ((v >> i) & 1 == 1))) by (bit_vector);
    }
    assert forall|j: u32| j < 32 implies !#[trigger] bit(0, j) by { assert(j < 32 ==> !((0u32 >> j) & 1 == 1)) by (bit_vector); }
}
@@fn bitvec_utils::get_len(elements) -> r
@props C01 C07 C13
@opt reflect=words default=elements/32int+1
@prologue
proof { assert(elements >> 5usize == elements / 32usize) by (bit_vector); }
@requires
elements <= isize::MAX,
@ensures
r == words(elements as int),
@@fn bitvec_utils::alloc(len) -> r
@props C01 C07 C13
@requires
fits::<u32>(words(len as int)), len <= isize::MAX,
@ensures
bv_ok(r, len as int),
forall|i: int| 0 <= i < 32 * r@.len() ==> !#[trigger] getb(r@, i),
@prologue
proof { lemma_bits(); }
@@fn bitvec_utils::get_bitvec_base_bits() -> r
@props C01 C07 C13
@ensures
r == 32,
@@fn bitvec_utils::dealloc(ptr, len)
@props C01 C07 C13
@ptr ptr=own
@requires
owned(ptr, words(len as int)), fits::<u32>(words(len as int)), len <= isize::MAX,
@@fn bitvec_utils::realloc(ptr, old_len, new_len) -> r
@props C01 C07 C13
@ptr ptr=own
@requires
bv_ok(ptr, old_len as int), old_len <= new_len <= isize::MAX, fits::<u32>(words(new_len as int)), fits::<u32>(words(old_len as int)),
@ensures
bv_ok(r, new_len as int),
forall|i: int| 0 <= i < 32 * r@.len() ==> #[trigger] getb(r@, i) == (i < 32 * ptr@.len() && getb(ptr@, i)),
@prologue
proof { lemma_bits(); }
@@macro setbit
@requires
old(ptr).live(), bit_index < 32 * old(ptr)@.len(), all_init(old(ptr)@),
@prologue
proof { lemma_bits(); }
@@fn bitvec_utils::set_bit_off(ptr, bit_index)
@props C07 C13
%%setbit
@ensures
same_words(*final(ptr), *old(ptr)), all_init(final(ptr)@),
forall|i: int| 0 <= i < 32 * final(ptr)@.len() ==> #[trigger] getb(final(ptr)@, i) == (getb(old(ptr)@, i) && i != bit_index),
@@fn bitvec_utils::set_bit_on(ptr, bit_index)
@props C07 C13
%%setbit
@ensures
same_words(*final(ptr), *old(ptr)), all_init(final(ptr)@),
forall|i: int| 0 <= i < 32 * final(ptr)@.len() ==> #[trigger] getb(final(ptr)@, i) == (getb(old(ptr)@, i) || i == bit_index),
@@fn bitvec_utils::toggle_bit(ptr, bit_index)
@props C01 C13
%%setbit
@ensures
same_words(*final(ptr), *old(ptr)), all_init(final(ptr)@),
forall|i: int| 0 <= i < 32 * final(ptr)@.len() ==> #[trigger] getb(final(ptr)@, i) == (if i == bit_index { !getb(old(ptr)@, i) } else { getb(old(ptr)@, i) }),
@@fn bitvec_utils::is_bit_on(ptr, bit_index) -> r
@props C01 C07 C13
@requires
bit_index < 32 * ptr@.len(), all_init(ptr@),
@ensures
r == getb(ptr@, bit_index as int),
@prologue
proof { lemma_bits(); }
