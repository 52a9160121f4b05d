//! Counting allocator: lets monitors see every allocation the maps make.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Stats {
    pub allocs: u64,
    pub frees: u64,
    pub bytes: u64,
    pub live: i64,
}
pub fn stats() -> Stats {
    Stats {
        allocs: ALLOCS.with(|c| c.get()),
        frees: FREES.with(|c| c.get()),
        bytes: BYTES.with(|c| c.get()),
        live: LIVE.with(|c| c.get()),
    }
}
/// Starts a new peak measurement; returns the live bytes now
pub fn reset_peak() -> i64 {
    let l = LIVE.with(|c| c.get());
    PEAK.with(|c| c.set(l));
    l
}
pub fn peak() -> i64 {
    PEAK.with(|c| c.get())
}
/// Starts watching for the largest single allocation
pub fn reset_largest() {
    LARGEST.with(|c| c.set(0))
}
pub fn largest() -> usize {
    LARGEST.with(|c| c.get())
}
/// Allocations of this thread larger than `n` bytes fail from now on
pub fn set_limit(n: usize) {
    LIMIT.with(|c| c.set(n))
}
/// Bytes that each run of `f` leaves allocated, if that is so every time. `f` says whether it ran
/// to its end; what it measured means nothing otherwise. Only where this allocator is in use.
pub fn leaks(mut f: impl FnMut() -> bool) -> Option<i64> {
    let mut d = [0; 3];
    if !f() {
        return None;
    }
    for x in &mut d {
        let a = stats().live;
        if !f() {
            return None;
        }
        *x = stats().live - a;
        if *x <= 0 {
            return None;
        }
    }
    d.iter().min().copied()
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let lim = LIMIT.try_with(|c| c.get()).unwrap_or(usize::MAX);
        if l.size() > lim {
            return std::ptr::null_mut();
        }
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LARGEST.try_with(|c| c.set(c.get().max(l.size())));
        let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as u64));
        let _ = LIVE.try_with(|c| {
            let n = c.get() + l.size() as i64;
            c.set(n);
            let _ = PEAK.try_with(|p| {
                if n > p.get() {
                    p.set(n)
                }
            });
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = FREES.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}
