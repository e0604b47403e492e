//! Global allocator: counts what the guest allocates (part of the step clock), enforces a budget,
//! and is a switch point for the scheduler.
use crate::{sched, sim};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering};

pub struct SimAlloc;

pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// 0 for none
pub static BUDGET: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BUDGET: AtomicI64 = AtomicI64::new(0);

fn note(size: usize) {
    if sim::is_guest() {
        let n = ALLOCS.fetch_add(1, Ordering::Relaxed) + 1;
        let live = LIVE.fetch_add(size as i64, Ordering::Relaxed) + size as i64;
        if live > PEAK.load(Ordering::Relaxed) {
            PEAK.store(live, Ordering::Relaxed);
        }
        let b = BUDGET.load(Ordering::Relaxed);
        if b != 0 && n > b {
            unsafe { libc::_exit(78) };
        }
        let lb = LIVE_BUDGET.load(Ordering::Relaxed);
        if lb != 0 && live > lb {
            unsafe { libc::_exit(79) };
        }
        sched::point(sched::ALLOC);
    }
}


// ---------------------------------------------------------------- where memory is

/// Four regions in a row. What a run allocates goes there if the scenario says where memory is to
/// be; a block freed is not used again, and all are when none is left. When full, the system's.
const REGION: usize = 48 << 20;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static PLACE: AtomicU64 = AtomicU64::new(0);
static DICE: AtomicU64 = AtomicU64::new(0);

pub fn place(how: u64) {
    if how != 0 && BASE.load(Ordering::Relaxed) == 0 {
        let p = unsafe { crate::interpose::raw_syscall(libc::SYS_mmap, 0, 4 * REGION, (libc::PROT_READ | libc::PROT_WRITE) as usize, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as usize, usize::MAX, 0) };
        if p > 0 {
            BASE.store(p as usize, Ordering::SeqCst);
        }
    }
    if BASE.load(Ordering::Relaxed) != 0 && BLOCKS.load(Ordering::SeqCst) == 0 {
        for n in &NEXT {
            n.store(0, Ordering::SeqCst);
        }
    }
    DICE.store(how, Ordering::SeqCst);
    PLACE.store(how, Ordering::SeqCst);
}

fn ours(p: *mut u8) -> bool {
    let b = BASE.load(Ordering::Relaxed);
    b != 0 && (p as usize) >= b && (p as usize) < b + 4 * REGION
}

fn take(l: Layout) -> Option<*mut u8> {
    let how = PLACE.load(Ordering::Relaxed);
    if how == 0 || !sim::is_guest() || l.size() > REGION / 2 {
        return None;
    }
    let b = BASE.load(Ordering::Relaxed);
    if b == 0 {
        return None;
    }
    // each region is filled from one end
    let (k, up) = match how {
        1 => (0, true),
        2 => (3, false),
        _ => {
            let d = crate::rng::mix(DICE.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed));
            ((d & 3) as usize, d & 1 == 0)
        }
    };
    let need = l.size().max(1) + l.align();
    let at = NEXT[k].fetch_add(need, Ordering::Relaxed);
    if at + need > REGION {
        return None;
    }
    BLOCKS.fetch_add(1, Ordering::Relaxed);
    let lo = b + k * REGION + if up { at } else { REGION - at - need };
    Some(((lo + l.align() - 1) & !(l.align() - 1)) as *mut u8)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        take(l).unwrap_or_else(|| System.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if sim::is_guest() {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        if ours(p) {
            BLOCKS.fetch_sub(1, Ordering::Relaxed);
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        match take(l) {
            Some(p) => {
                std::ptr::write_bytes(p, 0, l.size());
                p
            }
            None => System.alloc_zeroed(l),
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            note(n - l.size());
        } else if sim::is_guest() {
            LIVE.fetch_sub((l.size() - n) as i64, Ordering::Relaxed);
        }
        if !ours(p) {
            return System.realloc(p, l, n);
        }
        if n <= l.size() {
            return p;
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = take(nl).unwrap_or_else(|| System.alloc(nl));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size());
            BLOCKS.fetch_sub(1, Ordering::Relaxed);
        }
        q
    }
}
