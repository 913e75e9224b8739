//! Counting allocator: how much a piece of code asks for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

pub struct Counting;

// the same for all threads together
static ALL_ON: AtomicBool = AtomicBool::new(false);
static ALL_NOW: AtomicI64 = AtomicI64::new(0);
static ALL_PEAK: AtomicI64 = AtomicI64::new(0);

fn note(d: i64) {
    if ALL_ON.load(Relaxed) {
        let n = ALL_NOW.fetch_add(d, Relaxed) + d;
        ALL_PEAK.fetch_max(n, Relaxed);
    }
    let _ = ON.try_with(|on| {
        if on.get() {
            NOW.with(|n| {
                n.set(n.get() + d);
                PEAK.with(|p| p.set(p.get().max(n.get())));
            });
            if d > 0 {
                BIGGEST.with(|b| b.set(b.get().max(d as usize)));
            }
        }
    });
}

/// Requests that cannot be meant: refuse them without asking the system.
const ABSURD: usize = 1 << 32;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        if l.size() > ABSURD && ON.try_with(|o| o.get()).unwrap_or(false) {
            kit::ctx::violation(&format!("{} bytes of memory are requested", l.size()));
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Run and return (result, peak of bytes held, biggest single request).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, usize) {
    NOW.with(|n| n.set(0));
    PEAK.with(|n| n.set(0));
    BIGGEST.with(|n| n.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, PEAK.with(|p| p.get()), BIGGEST.with(|b| b.get()))
}
/// Stop counting (before reporting from inside).
pub fn off() {
    let _ = ON.try_with(|o| o.set(false));
}

/// Run and return (result, peak of bytes held by all threads).
pub fn measure_all<T>(f: impl FnOnce() -> T) -> (T, u64) {
    ALL_NOW.store(0, Relaxed);
    ALL_PEAK.store(0, Relaxed);
    ALL_ON.store(true, Relaxed);
    let r = f();
    ALL_ON.store(false, Relaxed);
    (r, ALL_PEAK.load(Relaxed).max(0) as u64)
}
