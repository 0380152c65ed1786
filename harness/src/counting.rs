//! Global allocator that counts live bytes per thread while measuring.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vcore::codec::Alloc;

struct State {
    on: Cell<bool>,
    live: Cell<isize>,
    peak: Cell<isize>,
    single: Cell<usize>,
}
thread_local! {
    static S: State = const {
        State { on: Cell::new(false), live: Cell::new(0), peak: Cell::new(0), single: Cell::new(0) }
    };
}

pub struct Counting;

fn add(n: usize) {
    let _ = S.try_with(|s| {
        if s.on.get() {
            s.live.set(s.live.get() + n as isize);
            s.peak.set(s.peak.get().max(s.live.get()));
            s.single.set(s.single.get().max(n));
        }
    });
}
fn sub(n: usize) {
    let _ = S.try_with(|s| {
        if s.on.get() {
            s.live.set(s.live.get() - n as isize);
        }
    });
}

// SAFETY: defers to System; the counters do not allocate.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both may be live at once
        add(n);
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}

pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Alloc) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            S.with(|s| s.on.set(false));
        }
    }
    S.with(|s| {
        s.live.set(0);
        s.peak.set(0);
        s.single.set(0);
        s.on.set(true);
    });
    let off = Off;
    let r = f();
    drop(off);
    let a = S.with(|s| Alloc {
        peak: s.peak.get().max(0) as usize,
        single: s.single.get(),
        live: s.live.get(),
    });
    (r, a)
}
