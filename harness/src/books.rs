//! A global allocator that keeps books: which blocks are live, with which layout, and which calls were wrong.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Books;

#[derive(Clone, Copy)]
struct Entry {
    at: usize,
    layout: Layout,
}

const N: usize = if crate::MIRI { 128 } else { 8192 };

struct Table(UnsafeCell<[Option<Entry>; N]>);
// SAFETY: guarded by LOCK.
unsafe impl Sync for Table {}

static TABLE: Table = Table(UnsafeCell::new([None; N]));
static LOCK: AtomicBool = AtomicBool::new(false);
static TRACKING: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static WRONG: AtomicUsize = AtomicUsize::new(0);
static REFUSE_OVER: AtomicUsize = AtomicUsize::new(usize::MAX);
static REFUSE_AFTER: AtomicUsize = AtomicUsize::new(usize::MAX);
static DIRTY: AtomicBool = AtomicBool::new(false);

fn locked<R>(f: impl FnOnce(&mut [Option<Entry>; N]) -> R) -> R {
    while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    // SAFETY: exclusive by the lock.
    let r = f(unsafe { &mut *TABLE.0.get() });
    LOCK.store(false, Ordering::Release);
    r
}

fn note(p: *mut u8, layout: Layout) {
    if p.is_null() || !TRACKING.load(Ordering::Relaxed) {
        return;
    }
    locked(|t| {
        let h = (p as usize >> 4) % N;
        for i in 0..N {
            let e = &mut t[(h + i) % N];
            if e.is_none() {
                *e = Some(Entry { at: p as usize, layout });
                LIVE.fetch_add(1, Ordering::Relaxed);
                TOTAL.fetch_add(1, Ordering::Relaxed);
                return;
            }
        }
        panic!("book table is full");
    })
}

fn gone(p: *mut u8, layout: Layout) {
    if LIVE.load(Ordering::Relaxed) == 0 {
        return;
    }
    locked(|t| {
        // Slots are never compacted, so an entry can be anywhere behind its hash.
        let h = (p as usize >> 4) % N;
        for i in 0..N {
            let e = &mut t[(h + i) % N];
            if let Some(x) = e {
                if x.at == p as usize {
                    if x.layout != layout {
                        WRONG.fetch_add(1, Ordering::Relaxed);
                    }
                    *e = None;
                    LIVE.fetch_sub(1, Ordering::Relaxed);
                    return;
                }
            } else if i > 64 {
                return;
            }
        }
    })
}

fn refuse(layout: Layout) -> bool {
    if layout.size() > REFUSE_OVER.load(Ordering::Relaxed) {
        return true;
    }
    let left = REFUSE_AFTER.load(Ordering::Relaxed);
    if left == usize::MAX {
        return false;
    }
    if left == 0 {
        return true;
    }
    REFUSE_AFTER.store(left - 1, Ordering::Relaxed);
    false
}

unsafe impl GlobalAlloc for Books {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if refuse(layout) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(layout);
        if DIRTY.load(Ordering::Relaxed) && !p.is_null() && !crate::MIRI {
            // Fresh memory holds anything; Miri tracks this itself.
            p.write_bytes(0xD1, layout.size());
        }
        note(p, layout);
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if refuse(layout) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(layout);
        note(p, layout);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        gone(p, layout);
        if DIRTY.load(Ordering::Relaxed) && !crate::MIRI {
            p.write_bytes(0xDD, layout.size());
        }
        System.dealloc(p, layout)
    }
}

/// Let fresh memory have nonzero contents and freed memory lose them.
pub fn dirty(on: bool) {
    DIRTY.store(on, Ordering::Relaxed);
}

pub fn refuse_over(n: usize) {
    REFUSE_OVER.store(n, Ordering::Relaxed);
}

/// Refuse every allocation after the next `n`.
pub fn refuse_after(n: usize) {
    REFUSE_AFTER.store(n, Ordering::Relaxed);
}

/// Run with the books open. Blocks taken in there and not returned yet stay on the books.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    TRACKING.store(true, Ordering::Relaxed);
    let _off = crate::OnDrop(|| TRACKING.store(false, Ordering::Relaxed));
    f()
}

pub fn forget_all() {
    TRACKING.store(false, Ordering::Relaxed);
    locked(|t| {
        if LIVE.load(Ordering::Relaxed) != 0 {
            *t = [None; N];
        }
    });
    LIVE.store(0, Ordering::Relaxed);
    TOTAL.store(0, Ordering::Relaxed);
    WRONG.store(0, Ordering::Relaxed);
    REFUSE_OVER.store(usize::MAX, Ordering::Relaxed);
    REFUSE_AFTER.store(usize::MAX, Ordering::Relaxed);
}

/// Blocks taken while tracking and not returned.
pub fn live() -> usize {
    LIVE.load(Ordering::Relaxed)
}
pub fn total() -> usize {
    TOTAL.load(Ordering::Relaxed)
}
/// Blocks returned with another layout than they were taken with.
pub fn wrong() -> usize {
    WRONG.load(Ordering::Relaxed)
}

/// The live blocks: address and layout.
pub fn blocks() -> Vec<(usize, Layout)> {
    TRACKING.store(false, Ordering::Relaxed);
    let mut v = Vec::with_capacity(N);
    locked(|t| v.extend(t.iter().flatten().map(|e| (e.at, e.layout))));
    v
}
