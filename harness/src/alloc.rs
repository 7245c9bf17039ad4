//! The allocator the harness runs on: counts what each thread has live,
//! overwrites memory as it is freed, and moves what is resized, so that
//! a reference which outlived its allocation reads something else.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Mon;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static POISON: Cell<bool> = const { Cell::new(false) };
}

fn add(n: usize) {
    let l = LIVE.with(|c| {
        let l = c.get() + n as i64;
        c.set(l);
        l
    });
    PEAK.with(|c| c.set(c.get().max(l)));
    TOTAL.with(|c| c.set(c.get() + n as u64));
    COUNT.with(|c| c.set(c.get() + 1));
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if POISON.with(|c| c.get()) {
            std::ptr::write_bytes(p, 0xdb, l.size());
        }
        LIVE.with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if POISON.with(|c| c.get()) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.with(|c| c.set(c.get() - l.size() as i64));
            add(n);
        }
        q
    }
}

/// Bytes this thread has allocated and not freed
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// Overwrite what this thread frees
pub fn poison(on: bool) {
    POISON.with(|c| c.set(on))
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    /// most bytes live at once, beyond those live before
    pub peak: u64,
    /// bytes allocated, all in all
    pub total: u64,
    pub count: u64,
    /// bytes live afterwards which were not before
    pub left: i64,
}

/// What running f takes. Its result has to be dropped by f
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let l = live();
    PEAK.with(|c| c.set(l));
    let (t, n) = (TOTAL.with(|c| c.get()), COUNT.with(|c| c.get()));
    let x = f();
    let u = Usage {
        peak: (PEAK.with(|c| c.get()) - l).max(0) as u64,
        total: TOTAL.with(|c| c.get()) - t,
        count: COUNT.with(|c| c.get()) - n,
        left: live() - l,
    };
    (x, u)
}
