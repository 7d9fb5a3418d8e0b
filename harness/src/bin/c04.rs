//! C04: Bump through the standard allocator interface and LocalAlloc.
use alloc_traits::util::defaults;
use alloc_traits::{Allocation, LocalAlloc, NonZeroLayout};
use harness::regions::pattern;
use harness::work::work;
use harness::*;
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::collections::{BinaryHeap, HashMap, VecDeque};
use std::mem;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

// ---------------------------------------------------------------- the process's allocator

const POOL: usize = if MIRI { 1 << 15 } else { 1 << 20 };

/// Hands everything to a Bump while switched on; blocks go back to where they came from.
struct Switch(UnsafeCell<Bump<[u64; POOL]>>);
// SAFETY: replaced only while no block of it is live and it is switched off.
unsafe impl Sync for Switch {}
static ON: AtomicBool = AtomicBool::new(false);
/// Exhaustion is handed through.
static STRICT: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static REALLOCS: AtomicUsize = AtomicUsize::new(0);
static ZEROED: AtomicUsize = AtomicUsize::new(0);
static NULLS: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static WRONG: AtomicUsize = AtomicUsize::new(0);

#[global_allocator]
static GLOBAL: Switch = Switch(UnsafeCell::new(Bump::uninit()));

impl Switch {
    fn bump(&self) -> &Bump<[u64; POOL]> {
        // SAFETY: see above.
        unsafe { &*self.0.get() }
    }
    fn has(&self, p: *mut u8) -> bool {
        let at = self.0.get() as usize;
        (p as usize) >= at && (p as usize) < at + mem::size_of::<Bump<[u64; POOL]>>()
    }
    fn ours(&self, p: *mut u8, l: Layout) -> *mut u8 {
        if p.is_null() {
            NULLS.fetch_add(1, Ordering::Relaxed);
            return p;
        }
        CALLS.fetch_add(1, Ordering::Relaxed);
        LIVE.fetch_add(1, Ordering::Relaxed);
        // One past the last byte is still inside, too.
        if p as usize % l.align() != 0 || !self.has(p) || !self.has((p as usize + l.size() - 1) as *mut u8) {
            WRONG.fetch_add(1, Ordering::Relaxed);
        }
        p
    }
    fn reset(&self) {
        assert!(!ON.load(Ordering::Relaxed) && LIVE.load(Ordering::Relaxed) == 0);
        // SAFETY: no block is live, and it is switched off.
        unsafe { (*self.0.get()).reset() }
    }
}

unsafe impl GlobalAlloc for Switch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) {
            return System.alloc(l);
        }
        let p = self.ours(GlobalAlloc::alloc(self.bump(), l), l);
        if p.is_null() && !STRICT.load(Ordering::Relaxed) {
            return System.alloc(l);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) {
            return System.alloc_zeroed(l);
        }
        ZEROED.fetch_add(1, Ordering::Relaxed);
        let p = self.ours(GlobalAlloc::alloc_zeroed(self.bump(), l), l);
        if p.is_null() && !STRICT.load(Ordering::Relaxed) {
            return System.alloc_zeroed(l);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if self.has(p) {
            LIVE.fetch_sub(1, Ordering::Relaxed);
            return GlobalAlloc::dealloc(self.bump(), p, l);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let new = Layout::from_size_align_unchecked(n, l.align());
        if self.has(p) {
            REALLOCS.fetch_add(1, Ordering::Relaxed);
            let q = self.ours(GlobalAlloc::realloc(self.bump(), p, l, n), new);
            if !q.is_null() {
                LIVE.fetch_sub(1, Ordering::Relaxed);
                return q;
            }
            if STRICT.load(Ordering::Relaxed) {
                return q;
            }
        } else if !ON.load(Ordering::Relaxed) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(new);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

fn on<R>(f: impl FnOnce() -> R) -> R {
    ON.store(true, Ordering::SeqCst);
    let _off = OnDrop(|| ON.store(false, Ordering::SeqCst));
    f()
}

/// The same program on the system's allocator and on a Bump.
fn collections(c: &mut Case) {
    if LIVE.load(Ordering::Relaxed) == 0 {
        GLOBAL.reset();
        c.count("pool reused");
    }
    let seed = c.rng.u64();
    let rounds = if c.miri { 3 } else { c.rng.range(2, 12) };
    let threads = c.rng.chance(1, if c.miri { 2 } else { 4 });
    let plain = work(&mut Rng::new(seed), rounds, threads);
    let (calls, re, ze, nulls, wrong) = (CALLS.load(Ordering::Relaxed), REALLOCS.load(Ordering::Relaxed), ZEROED.load(Ordering::Relaxed),
        NULLS.load(Ordering::Relaxed), WRONG.load(Ordering::Relaxed));
    let on_bump = on(|| work(&mut Rng::new(seed), rounds, threads));
    c.step(format!("{} rounds, {} values, digest {:x}", rounds, plain.1, plain.0));
    ck_eq!(on_bump, plain, "outcome of a program on the Bump");
    ck_eq!(WRONG.load(Ordering::Relaxed), wrong, "misplaced blocks");
    c.add("allocator calls", (CALLS.load(Ordering::Relaxed) - calls) as u64);
    c.add("reallocations by collections", (REALLOCS.load(Ordering::Relaxed) - re) as u64);
    c.add("zeroed by collections", (ZEROED.load(Ordering::Relaxed) - ze) as u64);
    c.add("exhausted pool", (NULLS.load(Ordering::Relaxed) - nulls) as u64);
    if threads {
        c.count("threads");
    }
    c.nontrivial();
}

/// Collections that notice exhaustion keep their contents.
fn exhaustion(c: &mut Case) {
    if LIVE.load(Ordering::Relaxed) != 0 {
        c.count("pool kept");
        return;
    }
    GLOBAL.reset();
    let left = c.rng.range(1, 3000);
    // SAFETY: not empty. The block is abandoned.
    let big = unsafe { GlobalAlloc::alloc(GLOBAL.bump(), Layout::from_size_align(POOL * 8 - left / 8 * 8, 8).unwrap()) };
    ck!(!big.is_null(), "no room in a fresh Bump");
    let nulls = NULLS.load(Ordering::Relaxed);
    let mut v: Vec<u32> = vec![];
    let mut q: VecDeque<u64> = VecDeque::new();
    let mut s = String::new();
    let mut m: HashMap<u16, u32> = HashMap::new();
    let mut h: BinaryHeap<u8> = BinaryHeap::new();
    let mut model: (Vec<u32>, Vec<u64>, String, Vec<(u16, u32)>, Vec<u8>) = Default::default();
    for _ in 0..if c.miri { 10 } else { 40 } {
        let n = c.rng.range(1, 60);
        let which = c.rng.below(6);
        let exact = c.rng.chance(1, 2);
        STRICT.store(true, Ordering::SeqCst);
        let r = on(|| match which {
            0 if exact => v.try_reserve_exact(n).is_ok(),
            0 => v.try_reserve(n).is_ok(),
            1 => q.try_reserve(n).is_ok(),
            2 => s.try_reserve(n).is_ok(),
            3 => m.try_reserve(n).is_ok(),
            4 => h.try_reserve(n).is_ok(),
            _ => {
                v.shrink_to_fit();
                true
            }
        });
        STRICT.store(false, Ordering::SeqCst);
        c.step(format!("{}:{}{}", which, n, if r { "" } else { "!" }));
        c.count(if r { "reserved" } else { "reservation refused" });
        if r {
            for i in 0..if which < 5 { n } else { 0 } {
                let x = mix(i as u64 + c.idx * 77);
                match which {
                    0 => {
                        v.push(x as u32);
                        model.0.push(x as u32)
                    }
                    1 => {
                        q.push_back(x);
                        model.1.push(x)
                    }
                    2 => {
                        s.push((b'a' + (x % 26) as u8) as char);
                        model.2.push((b'a' + (x % 26) as u8) as char)
                    }
                    3 => {
                        let k = model.3.len() as u16;
                        m.insert(k, x as u32);
                        model.3.push((k, x as u32))
                    }
                    _ => {
                        h.push(x as u8);
                        model.4.push(x as u8)
                    }
                }
            }
        }
        ck_eq!(v, model.0, "vector");
        ck_eq!(q, model.1, "queue");
        ck_eq!(s, model.2, "string");
        ck!(m.len() == model.3.len() && model.3.iter().all(|(k, x)| m.get(k) == Some(x)), "map");
        let mut hs = h.clone().into_sorted_vec();
        model.4.sort();
        ck_eq!(hs, model.4, "heap");
        hs.clear();
    }
    c.add("exhaustions seen by collections", (NULLS.load(Ordering::Relaxed) - nulls) as u64);
    c.nontrivial();
}

// ---------------------------------------------------------------- the interfaces themselves

struct Block {
    ptr: *mut u8,
    size: usize,
    align: usize,
    data: Vec<u8>,
}

struct Calls<'a, 'c, S> {
    c: &'c mut Case,
    b: &'a Bump<S>,
    lo: usize,
    hi: usize,
    /// Where the last block since the reset ends.
    end: usize,
    live: Vec<Block>,
    tag: u64,
}

fn lay(l: Layout) -> NonZeroLayout {
    NonZeroLayout::from_layout(l.into()).unwrap()
}

impl<'a, S> Calls<'a, '_, S> {
    fn fits(&self, l: Layout) -> bool {
        let start = (self.end + l.align() - 1) / l.align() * l.align();
        start.checked_add(l.size()).map_or(false, |e| e <= self.hi)
    }
    /// Every live block holds what was written to it.
    fn contents(&self, when: &str) {
        for b in &self.live {
            // SAFETY: live, initialised.
            let now = unsafe { std::slice::from_raw_parts(b.ptr, b.size) };
            if now != &b.data[..] {
                let i = (0..b.size).find(|&i| now[i] != b.data[i]);
                fail!("{}: byte {:?} of a live block of {} bytes at +{} changed", when, i, b.size, b.ptr as usize - self.lo);
            }
        }
    }
    /// A block was handed out whose first bytes must be these.
    fn block(&mut self, what: &str, ptr: *mut u8, l: Layout, first: &[u8]) {
        let at = ptr as usize;
        ck!(at % l.align() == 0, "{}: block at +{} not aligned to {}", what, at.wrapping_sub(self.lo), l.align());
        ck!(at >= self.lo && at + l.size() <= self.hi, "{}: block +{} of {} outside the {} bytes", what, at.wrapping_sub(self.lo) as isize, l.size(), self.hi - self.lo);
        for b in &self.live {
            let o = b.ptr as usize;
            ck!(at + l.size() <= o || o + b.size <= at, "{}: block +{} of {} overlaps the live block +{} of {}", what, at - self.lo, l.size(), o - self.lo, b.size);
        }
        // SAFETY: that many bytes must be initialised.
        let now = unsafe { std::slice::from_raw_parts(ptr, first.len()) };
        if now != first {
            let i = (0..first.len()).find(|&i| now[i] != first[i]);
            fail!("{}: byte {:?} of {} is not as required", what, i, first.len());
        }
        self.end = self.end.max(at + l.size());
        self.tag += 1;
        let data = pattern(self.tag, l.size());
        // SAFETY: ours.
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), ptr, l.size()) };
        self.live.push(Block { ptr, size: l.size(), align: l.align(), data });
        self.contents(what);
    }
    fn layout(&mut self) -> Layout {
        let left = self.hi - self.end.min(self.hi);
        let align = 1usize << match self.c.rng.below(12) {
            0 => self.c.rng.range(7, 16),
            1 => self.c.rng.range(17, BITS * 5 / 8),
            _ => self.c.rng.below(7),
        };
        let size = match self.c.rng.below(10) {
            0 => left,
            1 => left + 1,
            2 => left.saturating_sub(self.c.rng.below(8)),
            3 => isize::MAX as usize - align - self.c.rng.below(100),
            4 | 5 => self.c.rng.range(1, 8),
            _ => self.c.rng.range(1, 64),
        };
        Layout::from_size_align(size.clamp(1, isize::MAX as usize - align), align).unwrap()
    }
    fn run(&mut self, steps: usize) {
        for _ in 0..steps {
            let way = self.c.rng.below(5);
            let b = self.b;
            let l = self.layout();
            match self.c.rng.below(10) {
                0..=2 => {
                    self.c.step(format!("alloc{}({},{})", way, l.size(), l.align()));
                    // SAFETY: not empty.
                    let p = unsafe {
                        match way {
                            0 => GlobalAlloc::alloc(b, l),
                            1 => (b as &dyn GlobalAlloc).alloc(l),
                            2 => (b as &dyn LocalAlloc).alloc(lay(l)).map_or(std::ptr::null_mut(), |a| self.given(a, l)),
                            3 => LocalAlloc::alloc(b, lay(l)).map_or(std::ptr::null_mut(), |a| self.given(a, l)),
                            _ => b.alloc(l).map_or(std::ptr::null_mut(), |p| p.as_ptr()),
                        }
                    };
                    self.outcome("alloc", p, l, &[]);
                }
                3 | 4 => {
                    self.c.step(format!("zeroed{}({},{})", way, l.size(), l.align()));
                    // SAFETY: not empty.
                    let p = unsafe {
                        match way {
                            0 => GlobalAlloc::alloc_zeroed(b, l),
                            1 => (b as &dyn GlobalAlloc).alloc_zeroed(l),
                            2 => (b as &dyn LocalAlloc).alloc_zeroed(lay(l)).map_or(std::ptr::null_mut(), |a| self.given(a, l)),
                            3 => defaults::local::alloc_zeroed(b, lay(l)).map_or(std::ptr::null_mut(), |a| self.given(a, l)),
                            _ => LocalAlloc::alloc_zeroed(b, lay(l)).map_or(std::ptr::null_mut(), |a| self.given(a, l)),
                        }
                    };
                    let zeros = vec![0; if p.is_null() { 0 } else { l.size() }];
                    if !p.is_null() {
                        self.c.count("zeroed");
                    }
                    self.outcome("zeroed", p, l, &zeros);
                }
                5 if !self.live.is_empty() => {
                    let i = self.c.rng.below(self.live.len());
                    let x = self.live.swap_remove(i);
                    self.c.step("dealloc");
                    // SAFETY: live.
                    unsafe {
                        let l = Layout::from_size_align(x.size, x.align).unwrap();
                        if way < 3 {
                            GlobalAlloc::dealloc(b, x.ptr, l)
                        } else {
                            let lifetime = Default::default();
                            LocalAlloc::dealloc(b, Allocation { ptr: std::ptr::NonNull::new(x.ptr).unwrap(), layout: lay(l), lifetime })
                        }
                    }
                    self.contents("dealloc");
                    self.c.count("deallocated");
                }
                _ if !self.live.is_empty() => {
                    let i = self.c.rng.below(self.live.len());
                    let x = self.live.swap_remove(i);
                    let old = Layout::from_size_align(x.size, x.align).unwrap();
                    let n = match self.c.rng.below(6) {
                        0 => x.size,
                        1 => x.size.saturating_sub(1).max(1),
                        2 => x.size + 1,
                        3 => self.c.rng.range(1, x.size),
                        _ => l.size(),
                    };
                    // Only the local interface changes the alignment.
                    let local = way >= 2;
                    let align = if local && self.c.rng.chance(2, 3) { l.align() } else { x.align };
                    let n = n.min(isize::MAX as usize - align.max(x.align));
                    let new = Layout::from_size_align(n, align).unwrap();
                    self.c.step(format!("realloc{}({},{} -> {},{})", way, x.size, x.align, n, align));
                    // SAFETY: live, with this layout.
                    let p = unsafe {
                        let a = Allocation { ptr: std::ptr::NonNull::new(x.ptr).unwrap(), layout: lay(old), lifetime: Default::default() };
                        match way {
                            0 => GlobalAlloc::realloc(b, x.ptr, old, n),
                            1 => (b as &dyn GlobalAlloc).realloc(x.ptr, old, n),
                            2 => (b as &dyn LocalAlloc).realloc(a, lay(new)).map_or(std::ptr::null_mut(), |a| self.given(a, new)),
                            _ => LocalAlloc::realloc(b, a, lay(new)).map_or(std::ptr::null_mut(), |a| self.given(a, new)),
                        }
                    };
                    if p.is_null() {
                        ck!(!self.fits(new), "realloc to {:?} failed with room for it", new);
                        ck!(n > x.size || x.ptr as usize % align != 0, "realloc to a smaller size failed");
                        self.live.push(x);
                        self.contents("failed realloc");
                        self.c.count("realloc refused");
                        continue;
                    }
                    self.c.count(if n < x.size { "shrunk" } else if n == x.size { "same size" } else { "grown" });
                    if align > x.align {
                        self.c.count("more alignment");
                    }
                    if p != x.ptr {
                        self.c.count("moved");
                    }
                    self.block("realloc", p, new, &x.data[..n.min(x.size)]);
                }
                _ => (),
            }
        }
    }
    fn given(&self, a: Allocation<'_>, l: Layout) -> *mut u8 {
        ck_eq!((a.layout.size().get(), a.layout.align()), (l.size(), l.align()), "layout of the allocation");
        a.ptr.as_ptr()
    }
    fn outcome(&mut self, what: &str, p: *mut u8, l: Layout, first: &[u8]) {
        if p.is_null() {
            ck!(!self.fits(l), "{} of {:?} failed with {} bytes left", what, l, self.hi - self.end);
            self.contents(what);
            self.c.count("refused");
        } else {
            self.c.count("given");
            self.block(what, p, l, first);
        }
    }
}

fn calls<S: 'static>(c: &mut Case, mk: fn() -> Bump<S>) {
    let align = mem::align_of::<Bump<S>>();
    let size = mem::size_of::<Bump<S>>();
    let mis = c.rng.below(256 / align.min(256)) * align;
    let mut arena = Arena::new(size, 512.max(align), mis, 0xEE);
    let at = arena.mem().as_mut_ptr() as *mut Bump<S>;
    // SAFETY: sized and aligned for it.
    unsafe { at.write(mk()) };
    c.step(format!("{} bytes at {}", mem::size_of::<S>(), mis));
    for round in 0..c.rng.range(1, 3) {
        // SAFETY: exclusive between the rounds.
        let b: &mut Bump<S> = unsafe { &mut *at };
        if round > 0 {
            b.reset();
            c.step("reset");
        }
        let b: &Bump<S> = b;
        // The data is wherever the level reaches from: find its start by the object's bounds.
        let (lo, hi) = (at as usize, at as usize + size);
        let data = data_of(b);
        ck!(data >= lo && data + mem::size_of::<S>() <= hi, "the data area is outside the object");
        let mut k = Calls { c: &mut *c, b, lo: data, hi: data + mem::size_of::<S>(), end: data, live: vec![], tag: round as u64 * 1000 };
        let steps = if k.c.miri { 10 } else { k.c.rng.range(5, 40) };
        k.run(steps);
        if k.end > k.lo {
            k.c.nontrivial();
        }
        arena.check_guards();
    }
}

/// Start of the storage: a one-byte block at the fresh level lies there.
fn data_of<S>(b: &Bump<S>) -> usize {
    let probe: Bump<S> = Bump::uninit();
    match probe.alloc(Layout::new::<u8>()) {
        Some(p) => p.as_ptr() as usize - &probe as *const _ as usize + b as *const _ as usize,
        None => b as *const _ as usize,
    }
}

/// Several threads on one Bump through both interfaces, each watching over its own blocks.
fn threads(c: &mut Case) {
    const N: usize = 3000;
    let mut bump: Box<Bump<[u64; N / 8]>> = Box::new(Bump::uninit());
    for round in 0..c.rng.range(1, 2) {
        if round > 0 {
            bump.reset();
        }
        let b = &*bump;
        let data = data_of(b);
        let nt = c.rng.range(2, 4);
        let steps = if c.miri { 8 } else { 60 };
        let seeds: Vec<Rng> = (0..nt).map(|_| c.rng.fork()).collect();
        let go = AtomicUsize::new(0);
        let results: Vec<Result<(Vec<(usize, usize)>, u64), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .into_iter()
                .enumerate()
                .map(|(t, mut rng)| {
                    let go = &go;
                    s.spawn(move || {
                        go.fetch_add(1, Ordering::SeqCst);
                        while go.load(Ordering::SeqCst) < nt {
                            std::hint::spin_loop();
                            if MIRI {
                                std::thread::yield_now();
                            }
                        }
                        let mut case = Case::scratch(rng.fork());
                        let mut k = Calls { c: &mut case, b, lo: data, hi: data + N, end: data, live: vec![], tag: t as u64 * 100_000 };
                        let mut moved = 0;
                        for _ in 0..steps {
                            let l = Layout::from_size_align(rng.range(1, 40), 1 << rng.below(5)).unwrap();
                            let what = rng.below(6);
                            // SAFETY: valid layouts of live blocks.
                            unsafe {
                                if what < 4 || k.live.is_empty() {
                                    let p = if what % 2 == 0 { GlobalAlloc::alloc(b, l) } else { LocalAlloc::alloc_zeroed(b, lay(l)).map_or(std::ptr::null_mut(), |a| a.ptr.as_ptr()) };
                                    if !p.is_null() {
                                        k.block("alloc", p, l, &vec![0; if what % 2 == 0 { 0 } else { l.size() }]);
                                    }
                                } else {
                                    let i = rng.below(k.live.len());
                                    let x = k.live.swap_remove(i);
                                    let n = rng.range(1, 2 * x.size);
                                    let old = Layout::from_size_align(x.size, x.align).unwrap();
                                    let p = GlobalAlloc::realloc(b, x.ptr, old, n);
                                    if p.is_null() {
                                        k.live.push(x);
                                    } else {
                                        moved += (p != x.ptr) as u64;
                                        k.block("realloc", p, Layout::from_size_align(n, x.align).unwrap(), &x.data[..n.min(x.size)]);
                                    }
                                }
                            }
                        }
                        k.contents("at the end");
                        (k.live.iter().map(|b| (b.ptr as usize, b.size)).collect(), moved)
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| {
                    h.join().map_err(|e| match e.downcast_ref::<OracleFail>() {
                        Some(o) => o.0.clone(),
                        None => payload_text(&*e),
                    })
                })
                .collect()
        });
        let mut all = vec![];
        for r in results {
            match r {
                Ok((v, m)) => {
                    all.extend(v);
                    c.add("moved by threads", m);
                }
                Err(e) => fail!("in a thread: {}", e),
            }
        }
        all.sort();
        for w in all.windows(2) {
            ck!(w[0].0 + w[0].1 <= w[1].0, "blocks of two threads overlap: +{} of {} and +{} of {}", w[0].0 - data, w[0].1, w[1].0 - data, w[1].1);
        }
        c.step(format!("{:x}", all.iter().fold(7, |h, x| mix(h ^ (x.0 - data) as u64 ^ (x.1 as u64) << 32))));
        c.add("blocks of threads", all.len() as u64);
        c.nontrivial();
    }
}

fn main() {
    let mut m = Mon::start("C04");
    m.family("calls", 12000, 160, |c| {
        let uninit = c.rng.chance(1, 2);
        macro_rules! go { ($t:ty) => { if uninit { calls::<$t>(c, Bump::uninit) } else { calls::<$t>(c, Bump::zeroed) } } }
        match c.rng.below(10) {
            0 => go!([u8; 0]),
            1 => go!([u8; 13]),
            2 => go!([u8; 100]),
            3 => go!([u64; 16]),
            4 => go!([u128; 20]),
            5 => go!([u8; 1000]),
            6 => go!([u64; 300]),
            7 => calls::<[u64; 30]>(c, || Bump::new([!0; 30])),
            8 => go!(track_align::A64x8),
            _ => go!([u8; 300]),
        }
    });
    m.family("threads", 800, 60, threads);
    m.family("collections", 1200, 16, collections);
    m.family("exhaustion", 600, 16, exhaustion);
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        m.family("huge", 40, 0, |c| {
            if !huge::shared(|b| grow_and_shrink(c, b)) {
                c.count("no huge memory");
            }
        });
    }
    m.finish()
}

/// Blocks of more bytes than 32 bits count, made of small ones and the other way round.
#[cfg(target_pointer_width = "64")]
fn grow_and_shrink(c: &mut Case, bump: &Bump<[u8; huge::CAP]>) {
    use std::alloc::{GlobalAlloc, Layout};
    struct B {
        p: *mut u8,
        l: Layout,
        data: Vec<u8>,
    }
    let (lo, hi) = (bump as *const _ as usize, bump as *const _ as usize + std::mem::size_of_val(bump));
    let mut live: Vec<B> = vec![];
    for _ in 0..c.rng.range(4, 14) {
        let size = match c.rng.below(4) {
            0 => (1usize << 32) + c.rng.below(600),
            1 => (1usize << 31) + c.rng.below(600),
            _ => c.rng.range(1, 200),
        };
        let i = c.rng.below(live.len() + 1);
        let mut other = None;
        // SAFETY: layouts are not empty, blocks are live.
        let p = unsafe {
            if i == live.len() {
                let l = Layout::from_size_align(size, 1 << c.rng.below(8)).unwrap();
                c.step(format!("alloc {:?}", l));
                let p = GlobalAlloc::alloc(bump, l);
                other = Some(B { p, l, data: vec![] });
                p
            } else if size > 1000 && live[i].l.size() > 1000 {
                // It would copy for long.
                continue;
            } else {
                c.step(format!("{} to {}", live[i].l.size(), size));
                let p = GlobalAlloc::realloc(bump, live[i].p, live[i].l, size);
                if !p.is_null() {
                    let mut b = live.swap_remove(i);
                    b.l = Layout::from_size_align(size, b.l.align()).unwrap();
                    b.p = p;
                    b.data.truncate(size);
                    other = Some(b);
                }
                p
            }
        };
        let Some(mut b) = other.filter(|_| !p.is_null()) else { continue };
        let at = p as usize;
        ck!(lo <= at && at + size <= hi && at % b.l.align() == 0, "a block of {} bytes outside of the bump", size);
        // SAFETY: live.
        unsafe {
            ck!(std::slice::from_raw_parts(p, b.data.len()) == &b.data[..], "contents of a block");
            b.data = harness::regions::pattern(c.rng.u64(), size.min(100));
            std::ptr::copy_nonoverlapping(b.data.as_ptr(), p, b.data.len());
            if size > 200 {
                *p.add(size - 1) = 0x7B;
            }
        }
        live.push(b);
        let mut all: Vec<_> = live.iter().map(|b| (b.p as usize, b.l.size())).collect();
        all.sort();
        ck!(all.windows(2).all(|w| w[0].0 + w[0].1 <= w[1].0), "two blocks overlap");
        for b in &live {
            // SAFETY: live.
            unsafe {
                ck!(std::slice::from_raw_parts(b.p, b.data.len()) == &b.data[..], "contents of a block");
                ck!(b.l.size() <= 200 || *b.p.add(b.l.size() - 1) == 0x7B, "the end of a block of {} bytes", b.l.size());
            }
        }
        if live.iter().map(|b| b.l.size()).sum::<usize>() > 1 << 32 {
            c.count("beyond 32 bits");
            c.nontrivial();
        }
    }
}

mod track_align {
    #[derive(Clone, Copy)]
    #[repr(C, align(64))]
    pub struct A64x8(pub [u8; 512]);
}
