//! Simulated heap: a global allocator whose failures the simulator decides.
//!
//! Allocations made by the harness itself (inside [`harness`]) never fail; everything else is the
//! code under test while the allocator is armed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Off,
    Count,
    /// fail the k-th allocation only (0-based)
    FailOne(u64),
    /// fail the k-th allocation and all later ones
    FailFrom(u64),
    /// fail once more than this many bytes would be live at once
    Budget(usize),
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    /// largest single request the simulated machine can ever serve
    static HUGE: Cell<u64> = const { Cell::new(0) };
}

pub const MACHINE_LIMIT: usize = 1 << 28;

pub struct SimAlloc;

#[inline]
fn allow(size: usize) -> bool {
    if size > MACHINE_LIMIT {
        let _ = HUGE.try_with(|h| h.set(h.get() + 1));
        return false
    }
    MODE.try_with(|m| {
        let mode = m.get();
        if mode == Mode::Off || DEPTH.with(|d| d.get()) != 0 { return true }
        let k = COUNT.with(|c| { let k = c.get(); c.set(k + 1); k });
        let ok = match mode {
            Mode::Off | Mode::Count => true,
            Mode::FailOne(n) => k != n,
            Mode::FailFrom(n) => k < n,
            Mode::Budget(b) => LIVE.with(|l| l.get() + size as isize) <= b as isize,
        };
        if ok { LIVE.with(|l| l.set(l.get() + size as isize)); }
        else { FAILED.with(|f| f.set(f.get() + 1)); }
        ok
    }).unwrap_or(true)
}

#[inline]
fn release(size: usize) {
    let _ = MODE.try_with(|m| {
        if m.get() != Mode::Off && DEPTH.with(|d| d.get()) == 0 {
            LIVE.with(|l| l.set(l.get() - size as isize));
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !allow(l.size()) { return std::ptr::null_mut() }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !allow(l.size()) { return std::ptr::null_mut() }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        release(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            // a growing reallocation needs the new block while the old one is still live
            if !allow(n) { return std::ptr::null_mut() }
            release(l.size());
        } else {
            release(l.size() - n);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Run harness code: its allocations are not counted and never fail.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G { fn drop(&mut self) { DEPTH.with(|d| d.set(d.get().saturating_sub(1))) } }
    DEPTH.with(|d| d.set(d.get() + 1));
    let _g = G;
    f()
}

/// Called by the panic hook: from here on everything is harness code until the next `arm`.
pub fn panic_mode() { let _ = MODE.try_with(|m| m.set(Mode::Off)); }

pub struct Report { pub allocs: u64, pub failed: u64 }

/// Run `f` (code under test) with the given allocation behaviour.
pub fn armed<R>(mode: Mode, f: impl FnOnce() -> R) -> (R, Report) {
    struct G;
    impl Drop for G { fn drop(&mut self) { MODE.with(|m| m.set(Mode::Off)) } }
    DEPTH.with(|d| d.set(0));
    COUNT.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    LIVE.with(|c| c.set(0));
    MODE.with(|m| m.set(mode));
    let g = G;
    let r = f();
    drop(g);
    (r, Report { allocs: COUNT.with(|c| c.get()), failed: FAILED.with(|c| c.get()) })
}
