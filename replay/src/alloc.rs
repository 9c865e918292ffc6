//! A strict global allocator: exact alignment only, red zones, poisoned fresh and freed memory,
//! layout bookkeeping, quarantine, leak accounting. It records the first problem it sees.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Strict;
const RZ: usize = 64;
const HDR: usize = 64;
const MAGIC: u64 = 0x5afe_a110_c0de_0001;
const DEAD: u64 = 0x5afe_dead_c0de_0002;
pub static TRACK: AtomicBool = AtomicBool::new(false);
/// what fresh memory holds
pub static FRESH: AtomicUsize = AtomicUsize::new(0xCD);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
static PROBLEM: AtomicUsize = AtomicUsize::new(0);
static QHEAD: AtomicUsize = AtomicUsize::new(0);
static QBYTES: AtomicUsize = AtomicUsize::new(0);

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    user: usize,
    total: usize,
    tracked: usize,
    next: usize,
}
pub const MSG: [&str; 8] = [
    "", "deallocation of memory that is not a live allocation", "deallocation with a layout different from the allocation's",
    "write outside an allocation (red zone damaged)", "allocation of zero size", "write to freed memory", "double free", "leak",
];
fn problem(i: usize) { let _ = PROBLEM.compare_exchange(0, i, SeqCst, SeqCst); }
pub fn take_problem() -> Option<&'static str> {
    let p = PROBLEM.swap(0, SeqCst);
    if p == 0 { None } else { Some(MSG[p]) }
}
unsafe fn drain() {
    let mut h = QHEAD.swap(0, SeqCst);
    QBYTES.store(0, SeqCst);
    while h != 0 {
        let hp = h as *mut Hdr;
        let next = (*hp).next;
        for k in 0..(*hp).size {
            if *(((*hp).user + k) as *const u8) != 0xDD { problem(5); break; }
        }
        System.dealloc(hp as *mut u8, Layout::from_size_align_unchecked((*hp).total, 16));
        h = next;
    }
}
pub fn flush() { unsafe { drain() } }

unsafe impl GlobalAlloc for Strict {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let tracked = TRACK.load(Relaxed);
        if l.size() == 0 { if tracked { problem(4) } ; return l.align() as *mut u8; }
        let a = l.align();
        let total = HDR + 16 + l.size() + RZ + 2 * a + 16;
        let base = System.alloc(Layout::from_size_align_unchecked(total, 16)) as usize;
        if base == 0 { return base as *mut u8; }
        // aligned to `a` but (when tracked) deliberately not to 2a: callers may rely on nothing more
        let mut user = (base + HDR + 16 + a - 1) / a * a;
        if tracked && user % (2 * a) == 0 { user += a; }
        *(base as *mut Hdr) = Hdr { magic: MAGIC, size: l.size(), align: a, user, total, tracked: tracked as usize, next: 0 };
        ((user - 8) as *mut usize).write_unaligned(base);
        ((user - 16) as *mut u64).write_unaligned(MAGIC);
        std::ptr::write_bytes(user as *mut u8, if tracked { FRESH.load(Relaxed) as u8 } else { 0xCD }, l.size());
        std::ptr::write_bytes((user + l.size()) as *mut u8, 0xFB, RZ);
        if tracked { LIVE.fetch_add(1, SeqCst); }
        user as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 0 { if TRACK.load(Relaxed) { problem(4) } return; }
        let user = p as usize;
        if user < 4096 || ((user - 16) as *const u64).read_unaligned() != MAGIC { problem(1); return; }
        let hp = ((user - 8) as *const usize).read_unaligned() as *mut Hdr;
        if (*hp).user != user { problem(1); return; }
        if (*hp).magic != MAGIC { problem(6); return; }
        if (*hp).size != l.size() || (*hp).align != l.align() { problem(2); }
        for k in 0..RZ {
            if *((user + (*hp).size + k) as *const u8) != 0xFB { problem(3); break; }
        }
        if (*hp).tracked != 0 {
            LIVE.fetch_sub(1, SeqCst);
            (*hp).magic = DEAD;
            std::ptr::write_bytes(p, 0xDD, (*hp).size);
            (*hp).next = QHEAD.load(SeqCst);
            QHEAD.store(hp as usize, SeqCst);
            if QBYTES.fetch_add((*hp).total, SeqCst) > 32 << 20 { drain() }
            return;
        }
        System.dealloc(hp as *mut u8, Layout::from_size_align_unchecked((*hp).total, 16));
    }
}
