//! Allocator that counts what a call under test allocates, and refuses absurd
//! requests so that they end the process instead of the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// Bytes allocated and not freed since the process started (wrapping).
static HELD: AtomicUsize = AtomicUsize::new(0);
const LIMIT: usize = 1 << 30;

thread_local! {
    /// What this thread allocates is not the call's.
    static ASIDE: Cell<bool> = const { Cell::new(false) };
}
fn aside() -> bool {
    ASIDE.try_with(|a| a.get()).unwrap_or(true)
}

/// Leave out what `f` allocates (it must free all of it).
pub fn leave_out<T>(f: impl FnOnce() -> T) -> T {
    let was = ASIDE.with(|a| a.replace(true));
    let r = f();
    ASIDE.with(|a| a.set(was));
    r
}

// While counting, LIVE is the growth since `start`, as a wrapping number biased
// by BIAS so that frees of older memory do not underflow.
const BIAS: usize = 1 << 62;

fn add(n: usize) {
    let now = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    PEAK.fetch_max(now, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if aside() {
            return System.alloc(l);
        }
        if ON.load(Relaxed) {
            if l.size() > LIMIT {
                return std::ptr::null_mut();
            }
            add(l.size());
        }
        HELD.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if aside() {
            return System.dealloc(p, l);
        }
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        HELD.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if aside() {
            return System.realloc(p, l, n);
        }
        if ON.load(Relaxed) {
            if n > LIMIT {
                return std::ptr::null_mut();
            }
            if n >= l.size() {
                add(n - l.size());
            } else {
                LIVE.fetch_sub(l.size() - n, Relaxed);
            }
        }
        HELD.fetch_add(n, Relaxed);
        HELD.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn start() {
    LIVE.store(BIAS, Relaxed);
    PEAK.store(BIAS, Relaxed);
    ON.store(true, Relaxed);
}

/// Stop counting; the peak growth in bytes.
pub fn stop() -> usize {
    ON.store(false, Relaxed);
    PEAK.load(Relaxed).saturating_sub(BIAS)
}

/// What the counted call has allocated and not freed.
pub fn kept() -> usize {
    LIVE.load(Relaxed).saturating_sub(BIAS)
}

/// Bytes held now, to be compared with an earlier answer.
pub fn held() -> usize {
    HELD.load(Relaxed)
}
