//! Deterministic scheduler for real threads: one runs at a time, and who runs next is decided only
//! by the scenario's list of slices. Switch points are simulated file system calls, allocations,
//! basic blocks of the library, its accesses to statics and to the shared sources and parser, and
//! any attempt to block (futex wait, yield, sleep).
use crate::interpose::raw_syscall;
use crate::rng::mix;
use crate::sim;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

pub const FS: u8 = 1;
pub const ALLOC: u8 = 2;
/// every basic block of the library
pub const EDGE: u8 = 4;
/// accesses to memory which threads may share, and the blocks right after
pub const SHARED: u8 = 8;
const AFTER: u32 = 24;
/// blocks without a system call or allocation after which another thread runs in any case, so that
/// one which spins does not spin for ever
const FAIR: u32 = 50_000;

static ENABLED: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicU32 = AtomicU32::new(u32::MAX);
static REMAINING: AtomicU64 = AtomicU64::new(0);
static STUCK: AtomicU32 = AtomicU32::new(0);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
pub static BLOCKS: AtomicU64 = AtomicU64::new(0);
pub static HASH: AtomicU64 = AtomicU64::new(0);
pub static EDGES: AtomicU64 = AtomicU64::new(0);
pub static SHARES: AtomicU64 = AtomicU64::new(0);
static MASK: AtomicU32 = AtomicU32::new(0);
static mut RANGES: [(usize, usize); 3] = [(0, 0); 3];
static mut STATE: Option<State> = None;

pub struct State {
    slices: Vec<(u8, u32)>,
    next: usize,
    live: Vec<bool>,
    mask: u8,
    tail: u32, // slice length once the list is used up
    rr: usize,
}

thread_local! {
    static TID: Cell<u32> = const { Cell::new(u32::MAX) };
    static SOON: Cell<u32> = const { Cell::new(0) };
    static SPUN: Cell<u32> = const { Cell::new(0) };
}

pub fn enabled() -> bool {
    ENABLED.load(Ordering::Relaxed)
}

fn tid() -> u32 {
    TID.try_with(|t| t.get()).unwrap_or(u32::MAX)
}

#[allow(static_mut_refs)]
fn state() -> &'static mut State {
    unsafe { STATE.as_mut().unwrap() }
}

/// `shared`: address and size of what the threads share
pub fn start(threads: usize, slices: Vec<(u8, u32)>, mask: u8, tail: u32, shared: [(usize, usize); 2]) {
    MASK.store(mask as u32, Ordering::SeqCst);
    EDGES.store(0, Ordering::SeqCst);
    SHARES.store(0, Ordering::SeqCst);
    unsafe {
        RANGES[1] = shared[0];
        RANGES[2] = shared[1];
        *std::ptr::addr_of_mut!(STATE) = Some(State { slices, next: 0, live: vec![true; threads], mask, tail: tail.max(1), rr: 0 });
    }
    SWITCHES.store(0, Ordering::SeqCst);
    POINTS.store(0, Ordering::SeqCst);
    BLOCKS.store(0, Ordering::SeqCst);
    HASH.store(0, Ordering::SeqCst);
    STUCK.store(0, Ordering::SeqCst);
    CURRENT.store(u32::MAX, Ordering::SeqCst);
    ENABLED.store(true, Ordering::SeqCst);
}

pub fn stop() {
    ENABLED.store(false, Ordering::SeqCst);
}

fn futex_wait(val: u32) {
    unsafe {
        raw_syscall(libc::SYS_futex, &CURRENT as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
    }
}

fn futex_wake() {
    unsafe {
        raw_syscall(libc::SYS_futex, &CURRENT as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, i32::MAX as usize, 0, 0, 0);
    }
}

fn wait_for_turn(me: u32) {
    loop {
        let c = CURRENT.load(Ordering::SeqCst);
        if c == me {
            return;
        }
        futex_wait(c);
    }
}

/// pick the next thread to run, other than `not` if there is any other
fn choose(not: Option<u32>) -> Option<u32> {
    let st = state();
    let n = st.live.len();
    if !st.live.iter().any(|l| *l) {
        return None;
    }
    let others = st.live.iter().enumerate().any(|(i, l)| *l && Some(i as u32) != not);
    let (mut t, len) = if st.next < st.slices.len() {
        let s = st.slices[st.next];
        st.next += 1;
        (s.0 as usize % n, s.1)
    } else {
        st.rr = (st.rr + 1) % n;
        (st.rr, st.tail)
    };
    for _ in 0..=n {
        if st.live[t] && !(others && Some(t as u32) == not) {
            break;
        }
        t = (t + 1) % n;
    }
    REMAINING.store(len.max(1) as u64, Ordering::SeqCst);
    Some(t as u32)
}

fn note_switch(to: u32) {
    SWITCHES.fetch_add(1, Ordering::Relaxed);
    let h = HASH.load(Ordering::Relaxed);
    HASH.store(mix(h ^ ((to as u64) << 48) ^ POINTS.load(Ordering::Relaxed)), Ordering::Relaxed);
}

fn hand_over(me: u32, to: u32) {
    if to != me {
        note_switch(to);
        CURRENT.store(to, Ordering::SeqCst);
        futex_wake();
        wait_for_turn(me);
    }
}

/// a point where the scheduler may switch
pub fn point(kind: u8) {
    if !enabled() {
        return;
    }
    let me = tid();
    if me == u32::MAX || sim::mode() == sim::HOST {
        return;
    }
    sim::host(|| {
        if kind & (FS | ALLOC) != 0 {
            SPUN.set(0);
            STUCK.store(0, Ordering::Relaxed);
        }
        if state().mask & kind == 0 {
            return;
        }
        POINTS.fetch_add(1, Ordering::Relaxed);
        let r = REMAINING.load(Ordering::Relaxed);
        if r > 1 {
            REMAINING.store(r - 1, Ordering::Relaxed);
            return;
        }
        if let Some(to) = choose(None) {
            hand_over(me, to);
        }
    });
}

/// the writable statics of this program
extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// called before each basic block of the library
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    if !ENABLED.load(Ordering::Relaxed) || tid() == u32::MAX || sim::mode() == sim::HOST {
        return;
    }
    EDGES.store(EDGES.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
    let m = MASK.load(Ordering::Relaxed) as u8;
    if m & EDGE != 0 {
        point(EDGE);
    } else if m & SHARED != 0 {
        let soon = SOON.get();
        if soon > 0 {
            SOON.set(soon - 1);
            point(SHARED);
        }
    }
    let q = SPUN.get() + 1;
    SPUN.set(q);
    // one which has been spinning before gets less and less
    if q > FAIR && (q - FAIR) % 64 == 0 {
        sim::host(|| {
            if let Some(to) = choose(Some(tid())) {
                hand_over(tid(), to);
            }
        });
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

fn access(p: *const u8, size: usize) {
    if MASK.load(Ordering::Relaxed) as u8 & SHARED == 0 || !ENABLED.load(Ordering::Relaxed) {
        return;
    }
    if tid() == u32::MAX || sim::mode() == sim::HOST {
        return;
    }
    let a = p as usize;
    let statics = unsafe { (&__data_start as *const u8 as usize, &_end as *const u8 as usize) };
    let hit = (a >= statics.0 && a < statics.1) || unsafe { (1..3).any(|i| a + size > RANGES[i].0 && a < RANGES[i].0 + RANGES[i].1) };
    if hit {
        SHARES.store(SHARES.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
        SOON.set(AFTER);
        point(SHARED);
    }
}

macro_rules! traced {
    ($($name:ident $n:literal),*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(p: *const u8) {
            access(p, $n)
        }
    )* };
}
traced!(
    __sanitizer_cov_load1 1, __sanitizer_cov_load2 2, __sanitizer_cov_load4 4, __sanitizer_cov_load8 8, __sanitizer_cov_load16 16,
    __sanitizer_cov_store1 1, __sanitizer_cov_store2 2, __sanitizer_cov_store4 4, __sanitizer_cov_store8 8, __sanitizer_cov_store16 16
);

/// this thread cannot go on now
pub fn blocked() {
    let me = tid();
    if me == u32::MAX || !enabled() {
        return;
    }
    sim::host(|| {
        BLOCKS.fetch_add(1, Ordering::Relaxed);
        let s = STUCK.fetch_add(1, Ordering::Relaxed) + 1;
        if s > 400 {
            unsafe { libc::_exit(80) };
        }
        if let Some(to) = choose(Some(me)) {
            hand_over(me, to);
        }
    });
}

/// time passes: all others may go on first
pub fn sleep() {
    if enabled() && tid() != u32::MAX {
        blocked();
        STUCK.store(0, Ordering::Relaxed);
    }
}

/// called by each thread first
pub fn enter(me: u32) {
    TID.with(|t| t.set(me));
    wait_for_turn(me);
}

/// called by the thread which started the others, once they all exist
pub fn go() {
    if let Some(t) = choose(None) {
        note_switch(t);
        CURRENT.store(t, Ordering::SeqCst);
        futex_wake();
    }
}

/// called by each thread last
pub fn leave(me: u32) {
    sim::host(|| {
        TID.with(|t| t.set(u32::MAX));
        state().live[me as usize] = false;
        STUCK.store(0, Ordering::Relaxed);
        if let Some(to) = choose(None) {
            note_switch(to);
            CURRENT.store(to, Ordering::SeqCst);
            futex_wake();
        }
    });
}
