//! Controlled two-thread scheduler.  Scheduling points are the calls of the allocator and the atomic
//! operations of the crate under test (its locks, once-cells, counters; see instrument.sh): an
//! operation under control is preempted at its k-th point, the other thread's operation then runs to
//! its end (or, at bound 2, to its own j-th point), and so on.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub struct Alloc;
thread_local! {
    /// allocations left before this thread gives way; 0: not under control
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static ME: Cell<u32> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        unsafe { System.realloc(p, l, n) }
    }
}
#[inline]
fn point() {
    let n = LEFT.get();
    if n == 0 {
        return;
    }
    SEEN.set(SEEN.get() + 1);
    LEFT.set(n - 1);
    if n == 1 {
        give_way();
    }
}

/// The atomic operations of the instrumented crate: a scheduling point, then the operation itself.
mod atomics {
    use super::point;
    use std::sync::atomic::{Ordering::{Relaxed, SeqCst}, *};
    static POINTS: AtomicU64 = AtomicU64::new(0);
    pub fn seen() -> u64 {
        POINTS.load(SeqCst)
    }
    #[inline]
    fn at() {
        if super::LEFT.get() > 0 {
            POINTS.fetch_add(1, Relaxed);
            point();
        }
    }
    macro_rules! size {
        ($ty:ty, $at:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
            #[unsafe(no_mangle)]
            unsafe extern "C" fn $load(p: *mut $ty, _: i32) -> $ty {
                at();
                unsafe { <$at>::from_ptr(p) }.load(SeqCst)
            }
            #[unsafe(no_mangle)]
            unsafe extern "C" fn $store(p: *mut $ty, v: $ty, _: i32) {
                at();
                unsafe { <$at>::from_ptr(p) }.store(v, SeqCst)
            }
            size!(@rmw $ty, $at, $xchg swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
            #[unsafe(no_mangle)]
            unsafe extern "C" fn $cas(p: *mut $ty, old: $ty, new: $ty, _: i32, _: i32) -> $ty {
                at();
                match unsafe { <$at>::from_ptr(p) }.compare_exchange(old, new, SeqCst, SeqCst) {
                    Ok(x) | Err(x) => x,
                }
            }
        };
        (@rmw $ty:ty, $at:ty, $($f:ident $op:ident),*) => {
            $(#[unsafe(no_mangle)]
            unsafe extern "C" fn $f(p: *mut $ty, v: $ty, _: i32) -> $ty {
                at();
                unsafe { <$at>::from_ptr(p) }.$op(v, SeqCst)
            })*
        };
    }
    size!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
    size!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
    size!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
    size!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);
    #[unsafe(no_mangle)]
    extern "C" fn __tsan_atomic_thread_fence(_: i32) {
        at();
        fence(SeqCst);
    }
    #[unsafe(no_mangle)]
    extern "C" fn __tsan_atomic_signal_fence(_: i32) {
        compiler_fence(SeqCst);
    }
}
/// Atomic operations of the instrumented crate so far.
pub fn atomics_seen() -> u64 {
    atomics::seen()
}

/// whose turn it is; 0: nobody's, 1 and 2: the two threads
static TURN: AtomicU32 = AtomicU32::new(0);
/// bit 0/1: thread 1/2 has finished its operation
static DONE: AtomicU32 = AtomicU32::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);

fn wait_turn(me: u32, patience: Option<Duration>) {
    let start = Instant::now();
    let mut spins = 0u32;
    while TURN.load(SeqCst) != me {
        spins += 1;
        if spins < 2000 {
            std::hint::spin_loop();
        } else {
            std::thread::yield_now();
            if let Some(p) = patience
                && spins % 64 == 0
                && start.elapsed() > p
            {
                // the other thread waits for something this one holds: this schedule cannot go on
                BLOCKED.fetch_add(1, SeqCst);
                return;
            }
        }
    }
}
fn give_way() {
    let me = ME.get();
    let other = 3 - me;
    if DONE.load(SeqCst) & (1 << (other - 1)) != 0 {
        return;
    }
    TURN.store(other, SeqCst);
    // a thread that waits for a lock the paused one holds makes no progress: go on then
    let patience = if BLOCKED.load(SeqCst) < 20 { 60 } else { 4 };
    wait_turn(me, Some(Duration::from_millis(patience)));
}

/// Run `f` as thread `me` of a schedule: start when it is our turn, give way after `k` allocations
/// (0: never).  Returns the result and the number of allocations up to the point.
pub fn run<T>(me: u32, k: u64, f: impl FnOnce() -> T) -> (T, bool) {
    ME.set(me);
    wait_turn(me, Some(Duration::from_millis(600)));
    LEFT.set(k);
    let r = f();
    let reached = LEFT.get() == 0 && k > 0;
    LEFT.set(0);
    DONE.fetch_or(1 << (me - 1), SeqCst);
    TURN.store(3 - me, SeqCst);
    (r, reached)
}
pub fn reset() {
    DONE.store(0, SeqCst);
    TURN.store(1, SeqCst);
}
pub fn blocked() -> u64 {
    BLOCKED.load(SeqCst)
}
/// Allocations of an operation, counted.
pub fn count<T>(f: impl FnOnce() -> T) -> (T, u64) {
    SEEN.set(0);
    LEFT.set(u64::MAX);
    let r = f();
    LEFT.set(0);
    (r, SEEN.get())
}
pub fn reset_to(t: u32) {
    DONE.store(0, SeqCst);
    TURN.store(t, SeqCst);
}
