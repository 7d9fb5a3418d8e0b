//! C03: single-threaded semantics of the atomic Bump against an exact space model.
use harness::regions::*;
use harness::track;
use harness::types::*;
use harness::*;
use static_alloc::bump::{Allocation, Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout};
use std::mem::{self, MaybeUninit};

/// A Bump placed at a chosen address inside guarded memory.
struct Place<S: 'static> {
    arena: Arena,
    at: *mut Bump<S>,
}

impl<S: 'static> Place<S> {
    fn new(b: Bump<S>, rng: &mut Rng) -> Self {
        let align = mem::align_of::<Bump<S>>();
        let mis = rng.below(256 / align.min(256)) * align;
        let mut arena = Arena::new(mem::size_of::<Bump<S>>(), 512.max(align), mis, 0xEE);
        let at = arena.mem().as_mut_ptr() as *mut Bump<S>;
        // SAFETY: sized and aligned for it.
        unsafe { at.write(b) };
        Place { arena, at }
    }
    fn get(&self) -> &'static Bump<S> {
        // SAFETY: used only while the place lives, never across a reset.
        unsafe { &*self.at }
    }
    fn get_mut(&mut self) -> &mut Bump<S> {
        unsafe { &mut *self.at }
    }
}

enum Held {
    /// A value that must never be destroyed by the allocator.
    Leaked(Box<dyn Fn() -> bool>),
    /// An owning box; dropping it destroys.
    Boxed(Option<u32>, Box<dyn std::any::Any>, Box<dyn Fn() -> bool>),
}

struct Model<'c> {
    c: &'c mut Case,
    base: usize,
    cap: usize,
    level: usize,
    tokens: std::rc::Rc<Vec<Level>>,
    shadow: Vec<u8>,
    known: Vec<bool>,
    regions: Regions,
    /// Raw regions not yet handed back, by their index.
    given: Vec<(usize, Layout)>,
    held: Vec<Held>,
    expect_undropped: Vec<u32>,
    zst_kept: i64,
    tag: u64,
}

impl Model<'_> {
    fn fit(&self, level: usize, l: Layout) -> Option<usize> {
        let start = align_up(self.base + level, l.align()) - self.base;
        (start.checked_add(l.size())? <= self.cap).then_some(start)
    }

    fn ck_level(&self, got: Level, what: &str) {
        let want = self.tokens[self.level];
        ck!(got == want, "{}: level {:?} differs from expected {:?} of {}", what, got, want, self.cap);
    }

    /// Choose a level argument: (value, token).
    fn pick_level(&mut self) -> usize {
        match self.c.rng.below(10) {
            0..=5 => self.level,
            6 => 0,
            7 | 8 => self.c.rng.range(0, self.level),
            _ => self.c.rng.range(self.level, self.cap),
        }
    }

    /// Expected outcome of a conditioned request; `None` means either failure kind is acceptable.
    fn ck_at(&self, what: &str, given: usize, l: Layout, got: Result<(), Failure>) -> bool {
        let fits = self.fit(given, l).is_some();
        match got {
            Ok(()) => {
                ck!(given == self.level, "{} succeeded at level {} while the current level is {}", what, given, self.level);
                ck!(fits, "{} succeeded without room", what);
                true
            }
            Err(Failure::Exhausted) => {
                ck!(!fits, "{} reports exhaustion although {:?} fits behind level {} of {}", what, l, given, self.cap);
                false
            }
            Err(Failure::Mismatch { observed }) => {
                ck!(given != self.level, "{} reports a mismatch for the current level {}", what, given);
                self.ck_level(observed, what);
                false
            }
        }
    }

    /// A raw region was handed out for `l`.
    fn raw(&mut self, ptr: *mut u8, l: Layout, what: &str) {
        let start = match self.fit(self.level, l) {
            Some(s) => s,
            None => fail!("{} succeeded for {:?} at level {} of {}", what, l, self.level, self.cap),
        };
        self.tag += 1;
        let i = self.regions.add(ptr, l.size(), l.align(), self.tag);
        ck_eq!(ptr as usize - self.base, start, "{}: offset of the region", what);
        self.level = start + l.size();
        let range = start..start + l.size();
        if self.known[range.clone()].iter().all(|&k| k) {
            // SAFETY: known to be initialised.
            if let Some(k) = unsafe { differs(ptr, &self.shadow[range.clone()]) } {
                fail!("{}: stored byte at +{} was overwritten", what, start + k);
            }
            self.c.count("regions over known bytes");
        }
        self.regions.fill(i);
        self.given.push((i, l));
        self.known[range.clone()].fill(true);
        self.shadow[range].copy_from_slice(&pattern(self.tag, l.size()));
        self.c.count("raw regions");
    }

    /// Deallocate or reallocate a raw region, in the midst of everything else.
    fn hand_back<S: 'static>(&mut self, b: &'static Bump<S>) {
        let last = self.given.len() - 1;
        let k = if self.c.rng.chance(1, 2) { last } else { self.c.rng.range(0, last) };
        let (i, l) = self.given.swap_remove(k);
        let ptr = self.regions.live[i].ptr;
        let nz = |l: Layout| alloc_traits::NonZeroLayout::from_layout(l.into()).unwrap();
        let old = alloc_traits::Allocation { ptr: std::ptr::NonNull::new(ptr).unwrap(), layout: nz(l), lifetime: Default::default() };
        if self.c.rng.chance(1, 2) {
            let global = self.c.rng.chance(1, 2);
            self.c.step(format!("dealloc({},{}) by {}", l.size(), l.align(), if global { "GlobalAlloc" } else { "LocalAlloc" }));
            // SAFETY: handed out with this layout and not used by us again. Nobody else gets it before a reset,
            // so that its contents stay.
            unsafe {
                match global {
                    true => GlobalAlloc::dealloc(b, ptr, l),
                    false => alloc_traits::LocalAlloc::dealloc(b, old),
                }
            }
            self.c.count("deallocated");
            return;
        }
        let size = match self.c.rng.below(4) {
            0 => self.c.rng.range(1, l.size()),
            1 => l.size(),
            2 => l.size() + self.c.rng.range(1, 20),
            _ => self.c.rng.range(1, self.cap + 2),
        };
        let global = self.c.rng.chance(1, 2);
        let align = if global { l.align() } else { some_align(&mut self.c.rng, 6) };
        let Ok(new) = Layout::from_size_align(size, align) else { return };
        self.c.step(format!("realloc({},{} to {},{}) by {}", l.size(), l.align(), size, align, if global { "GlobalAlloc" } else { "LocalAlloc" }));
        // SAFETY: handed out with this layout.
        let got = unsafe {
            match global {
                true => GlobalAlloc::realloc(b, ptr, l, size),
                false => alloc_traits::LocalAlloc::realloc(b, old, nz(new)).map_or(std::ptr::null_mut(), |a| a.ptr.as_ptr()),
            }
        };
        let fits = self.fit(self.level, new);
        if got.is_null() {
            ck!(fits.is_none(), "realloc refused {:?} at level {} of {}", new, self.level, self.cap);
            // The old region is kept.
            self.given.push((i, l));
            self.c.count("realloc refused");
            return;
        }
        let keep = l.size().min(size);
        // SAFETY: the common part is initialised.
        if let Some(k) = unsafe { differs(got, &pattern(self.regions.live[i].tag, l.size())[..keep]) } {
            fail!("realloc: byte {} of {} was not preserved", k, keep);
        }
        self.c.count("reallocated");
        let at = ptr as usize - self.base;
        if got == ptr && size <= l.size() {
            // In place. What is cut off is nobody's.
            self.given.push((i, Layout::from_size_align(size, align).unwrap()));
            ck!(got as usize % align == 0, "realloc: a region that is not aligned to {}", align);
            return;
        }
        if got == ptr {
            ck!(at + l.size() == self.level && at + size <= self.cap, "realloc: grown in place over the memory of others");
            ck!(got as usize % align == 0, "realloc: a region that is not aligned to {}", align);
            self.level = at + size;
            self.known[at + l.size()..at + size].fill(false);
            let r = &mut self.regions.live[i];
            (r.size, r.align) = (size, align);
            self.regions.fill(i);
            self.known[at..at + size].fill(true);
            self.shadow[at..at + size].copy_from_slice(&pattern(self.regions.live[i].tag, size));
            self.given.push((i, new));
            return;
        }
        // A region of its own, of which the copied part is known.
        let Some(start) = fits else { fail!("realloc moved to {:?} at level {} of {}", new, self.level, self.cap) };
        ck_eq!(got as usize - self.base, start, "realloc: offset of the region");
        self.known[start..start + keep].fill(false);
        self.raw(got, new, "realloc");
    }

    fn typed<V: Tv>(&mut self, ptr: *mut V, what: &str) {
        let l = Layout::new::<V>();
        if l.size() == 0 {
            ck!(ptr as usize % l.align() == 0 && !ptr.is_null(), "{}: zero-sized value misaligned", what);
            return;
        }
        let start = match self.fit(self.level, l) {
            Some(s) => s,
            None => fail!("{} succeeded for {:?} at level {} of {}", what, l, self.level, self.cap),
        };
        self.tag += 1;
        self.regions.add(ptr as *mut u8, l.size(), l.align(), self.tag);
        ck_eq!(ptr as usize - self.base, start, "{}: offset of the value", what);
        self.level = start + l.size();
        self.known[start..start + l.size()].fill(false);
        self.c.count("typed values");
    }

    fn keep<V: Tv>(&mut self, ptr: *mut V, id: Option<u32>) {
        match id {
            Some(i) => self.expect_undropped.push(i),
            None => self.zst_kept += 1,
        }
        // SAFETY: handed out and kept by nobody else.
        self.held.push(Held::Leaked(Box::new(move || unsafe { (*ptr).intact_as(id) })));
    }

    fn keep_box<V: Tv>(&mut self, b: LeakBox<'static, V>, id: Option<u32>) {
        let p = &*b as *const V;
        match self.c.rng.below(3) {
            0 => {
                drop(b);
                if let Some(id) = id {
                    ck_eq!(track::drops_of(id), 1, "destructions of a boxed value after dropping its box");
                }
            }
            1 => {
                let r = LeakBox::leak(b) as *mut V;
                self.keep(r, id);
            }
            _ => {
                struct Hold<V: 'static>(#[allow(dead_code)] LeakBox<'static, V>);
                self.held.push(Held::Boxed(id, Box::new(Hold(b)), Box::new(move || unsafe { (*p).intact_as(id) })));
            }
        }
    }

    fn check_held(&self) {
        for h in &self.held {
            match h {
                Held::Leaked(f) | Held::Boxed(_, _, f) => ck!(f(), "a value placed in the allocator changed"),
            }
        }
        for &i in &self.expect_undropped {
            ck_eq!(track::drops_of(i), 0, "destructions of leaked value {}", i);
        }
        track::check_sane();
        self.regions.check_contents();
    }

    fn typed_op<S: 'static, V: Tv>(&mut self, b: &'static Bump<S>) {
        let l = Layout::new::<V>();
        let zst = l.size() == 0;
        let op = self.c.rng.below(6);
        let at = if op == 1 || op == 3 || op == 5 { self.pick_level() } else { self.level };
        let tok = self.tokens[at];
        let before = self.level;
        self.c.step(format!("{}<{}/{}>@{}", ["get", "get_at", "leak", "leak_at", "leak_box", "leak_box_at"][op], l.size(), l.align(), at));
        let fits = zst || self.fit(self.level, l).is_some();
        match op {
            0 => match b.get::<V>() {
                Some(a) => {
                    self.typed::<V>(a.ptr.as_ptr(), "get");
                    self.ck_level(a.level, "get");
                    self.init_alloc(a);
                }
                None => ck!(!fits, "get failed although the value fits"),
            },
            1 => {
                let r = b.get_at::<V>(tok);
                if self.at_ok::<V>("get_at", at, r.as_ref().map(|_| ()).map_err(|e| *e)) {
                    let a = r.unwrap();
                    self.typed::<V>(a.ptr.as_ptr(), "get_at");
                    self.ck_level(a.level, "get_at");
                    self.init_alloc(a);
                }
            }
            2 => {
                let v = V::mk();
                let id = v.ident();
                match b.leak(v) {
                    Ok(r) => {
                        let p = r as *mut V;
                        self.typed::<V>(p, "leak");
                        self.keep(p, id);
                    }
                    Err(e) => {
                        ck!(!fits, "leak failed although the value fits");
                        ck_eq!(e.kind(), Failure::Exhausted, "kind of the failure of leak");
                        self.refused(e, id);
                    }
                }
            }
            3 => {
                let v = V::mk();
                let id = v.ident();
                let r = b.leak_at(v, tok);
                let kind = match &r { Ok(_) => Ok(()), Err(e) => Err(e.kind()) };
                if self.at_ok::<V>("leak_at", at, kind) {
                    let (r, level) = r.ok().unwrap();
                    let p = r as *mut V;
                    self.typed::<V>(p, "leak_at");
                    self.ck_level(level, "leak_at");
                    self.keep(p, id);
                } else {
                    self.refused(r.err().unwrap(), id);
                }
            }
            4 => {
                let v = V::mk();
                let id = v.ident();
                match b.leak_box(v) {
                    Some(x) => {
                        self.typed::<V>(&*x as *const V as *mut V, "leak_box");
                        self.keep_box(x, id);
                    }
                    None => {
                        ck!(!fits, "leak_box failed although the value fits");
                        if let Some(id) = id {
                            ck_eq!(track::drops_of(id), 1, "destructions of a value refused by leak_box");
                        }
                    }
                }
            }
            _ => {
                let v = V::mk();
                let id = v.ident();
                let r = b.leak_box_at(v, tok);
                let kind = r.as_ref().map(|_| ()).map_err(|e| *e);
                if self.at_ok::<V>("leak_box_at", at, kind) {
                    let x = r.ok().unwrap();
                    self.typed::<V>(&*x as *const V as *mut V, "leak_box_at");
                    self.keep_box(x, id);
                } else if let Some(id) = id {
                    ck_eq!(track::drops_of(id), 1, "destructions of a value refused by leak_box_at");
                }
            }
        }
        if zst {
            ck_eq!(self.level, before, "level after a zero-sized value");
        }
    }

    fn at_ok<V: Tv>(&mut self, what: &str, at: usize, r: Result<(), Failure>) -> bool {
        if mem::size_of::<V>() == 0 {
            match r {
                Ok(()) => {
                    ck!(at == self.level, "{} of a zero-sized value succeeded at the wrong level", what);
                    true
                }
                Err(Failure::Mismatch { observed }) => {
                    ck!(at != self.level, "{} of a zero-sized value refused at the current level", what);
                    self.ck_level(observed, what);
                    self.c.count("mismatches");
                    false
                }
                Err(Failure::Exhausted) => fail!("{}: exhausted for a zero-sized value", what),
            }
        } else {
            let ok = self.ck_at(what, at, Layout::new::<V>(), r);
            if !ok {
                self.c.count(match r { Err(Failure::Exhausted) => "exhaustions", _ => "mismatches" });
            }
            ok
        }
    }

    fn refused<V: Tv>(&mut self, e: static_alloc::bump::LeakError<V>, id: Option<u32>) {
        self.c.count("refused values");
        if let Some(id) = id {
            ck_eq!(track::drops_of(id), 0, "destructions of a value handed back");
        }
        if self.c.rng.chance(3, 4) {
            let v = e.into_inner();
            ck!(v.intact_as(id), "the refused value was not handed back unchanged");
            drop(v);
        } else {
            drop(e);
        }
        if let Some(id) = id {
            ck_eq!(track::drops_of(id), 1, "destructions of a refused value");
        }
    }

    fn init_alloc<V: Tv>(&mut self, a: Allocation<'static, V>) {
        let p = a.ptr.as_ptr();
        match self.c.rng.below(4) {
            0 => {
                let v = V::mk();
                let id = v.ident();
                // SAFETY: fresh allocation for a `V`.
                let r = unsafe { a.leak(v) } as *mut V;
                ck!(r == p, "Allocation::leak moved the value");
                self.keep(r, id);
            }
            1 => {
                let v = V::mk();
                let id = v.ident();
                let b = unsafe { a.boxed(v) };
                ck!(&*b as *const V == p as *const V, "Allocation::boxed moved the value");
                self.keep_box(b, id);
            }
            2 => {
                let u: &'static mut MaybeUninit<V> = unsafe { a.uninit() };
                ck!(u.as_mut_ptr() == p, "Allocation::uninit moved");
                let v = V::mk();
                let id = v.ident();
                let b = LeakBox::write(LeakBox::from(u), v);
                self.keep_box(b, id);
            }
            _ => {}
        }
    }
}

fn layout(c: &mut Case, cap: usize) -> Layout {
    let align = some_align(&mut c.rng, 7);
    let size = match c.rng.below(10) {
        0 => cap.max(1),
        1 => cap + 1 + c.rng.below(9),
        2 => (isize::MAX as usize) - (align - 1) - c.rng.below(3),
        3 => 1,
        4 => c.rng.range(1, (cap / 3).max(1)),
        _ => c.rng.range(1, (cap / 2).clamp(1, 40)),
    };
    Layout::from_size_align(size, align).unwrap_or(Layout::from_size_align(1, 1).unwrap())
}

thread_local! {
    static TOKENS: std::cell::RefCell<std::collections::HashMap<std::any::TypeId, std::rc::Rc<Vec<Level>>>> = Default::default();
}

/// The levels are opaque: learn them once per storage type by allocating single bytes.
fn tokens<S: 'static>() -> std::rc::Rc<Vec<Level>> {
    let key = std::any::TypeId::of::<S>();
    if let Some(t) = TOKENS.with(|t| t.borrow().get(&key).cloned()) {
        return t;
    }
    let v = std::rc::Rc::new(learn::<S>());
    TOKENS.with(|t| t.borrow_mut().insert(key, v.clone()));
    v
}

fn learn<S: 'static>() -> Vec<Level> {
    let b: Box<Bump<S>> = Box::new(Bump::uninit());
    let mut t = vec![b.level()];
    for _ in 0..mem::size_of::<S>() {
        let a = match b.get_layout(Layout::from_size_align(1, 1).unwrap()) {
            Some(a) => a,
            None => fail!("a storage of {} bytes does not hold that many single bytes", mem::size_of::<S>()),
        };
        ck!(a.level > *t.last().unwrap(), "the level does not increase");
        ck!(a.level == b.level(), "reported level differs from the level after the allocation");
        t.push(a.level);
    }
    ck!(b.alloc(Layout::from_size_align(1, 1).unwrap()).is_none(), "more bytes than the storage has");
    t
}

fn run<S: 'static>(c: &mut Case, mk_new: Option<fn() -> S>) {
    track::reset();
    let cap = mem::size_of::<S>();
    let (b, init): (Bump<S>, Option<Vec<u8>>) = match (c.rng.below(3), mk_new) {
        (0, _) => (Bump::uninit(), None),
        (1, Some(mk)) => {
            let s = mk();
            // SAFETY: only integer arrays are passed here.
            let bytes = unsafe { std::slice::from_raw_parts(&s as *const S as *const u8, cap) }.to_vec();
            (Bump::new(s), Some(bytes))
        }
        // Padding bytes do not survive the move into place, so only known contents are checked.
        _ => (Bump::zeroed(), mk_new.map(|_| vec![0; cap])),
    };
    c.step(format!("Bump<{}/{}>", cap, mem::align_of::<S>()));
    let tokens = tokens::<S>();
    let mut place = Place::new(b, &mut c.rng);
    let (lo, hi) = (place.at as usize, place.at as usize + mem::size_of::<Bump<S>>());
    // Where does the storage start? The first byte handed out tells.
    let probe = place.get().alloc(Layout::from_size_align(1, 1).unwrap());
    ck_eq!(probe.is_some(), cap > 0, "a first byte can be allocated");
    place.get_mut().reset();
    let base = probe.map_or(lo, |p| p.as_ptr() as usize);
    ck!(base >= lo && base + cap <= hi, "storage reaches outside the object");
    ck!(base % mem::align_of::<S>() == 0 || cap == 0, "storage is not aligned as its type demands");
    let mut m = Model {
        base, cap, level: 0, tokens,
        known: vec![init.is_some(); cap],
        shadow: init.unwrap_or(vec![0; cap]),
        regions: Regions::new(base, base + cap),
        given: vec![], held: vec![], expect_undropped: vec![], zst_kept: 0, tag: c.rng.u64() >> 20, c,
    };
    let steps = m.c.rng.range(1, if MIRI { 14 } else { 30 });
    for _ in 0..steps {
        let b = place.get();
        match m.c.rng.below(16) {
            0 => {
                let l = layout(m.c, cap);
                m.c.step(format!("alloc({},{})", l.size(), l.align()));
                match b.alloc(l) {
                    Some(p) => m.raw(p.as_ptr(), l, "alloc"),
                    None => ck!(m.fit(m.level, l).is_none(), "alloc refused {:?} at level {} of {} (base {:#x})", l, m.level, cap, base),
                }
            }
            1 => {
                let l = layout(m.c, cap);
                m.c.step(format!("get_layout({},{})", l.size(), l.align()));
                match b.get_layout(l) {
                    Some(a) => {
                        m.raw(a.ptr.as_ptr(), l, "get_layout");
                        m.ck_level(a.level, "get_layout");
                    }
                    None => ck!(m.fit(m.level, l).is_none(), "get_layout refused {:?} at level {} of {}", l, m.level, cap),
                }
            }
            2 | 3 => {
                let l = layout(m.c, cap);
                let at = m.pick_level();
                let which = m.c.rng.chance(1, 2);
                let what = if which { "alloc_at" } else { "get_layout_at" };
                m.c.step(format!("{}({},{})@{}", what, l.size(), l.align(), at));
                let r = if which { b.alloc_at(l, m.tokens[at]) } else { b.get_layout_at(l, m.tokens[at]) };
                if m.ck_at(what, at, l, r.map(|_| ())) {
                    let a = r.unwrap();
                    m.raw(a.ptr.as_ptr(), l, what);
                    m.ck_level(a.level, what);
                }
            }
            4 => {
                let l = layout(m.c, cap);
                m.c.step(format!("GlobalAlloc({},{})", l.size(), l.align()));
                // SAFETY: non-zero size.
                let p = unsafe { GlobalAlloc::alloc(b, l) };
                if p.is_null() {
                    ck!(m.fit(m.level, l).is_none(), "GlobalAlloc::alloc refused {:?} at level {} of {}", l, m.level, cap);
                } else {
                    m.raw(p, l, "GlobalAlloc::alloc");
                }
            }
            5 => {
                let l = layout(m.c, cap);
                m.c.step(format!("LocalAlloc({},{})", l.size(), l.align()));
                let nz = alloc_traits::NonZeroLayout::from_layout(l.into()).unwrap();
                match alloc_traits::LocalAlloc::alloc(b, nz) {
                    Some(a) => {
                        ck_eq!(Layout::from(a.layout), l, "layout reported by LocalAlloc::alloc");
                        m.raw(a.ptr.as_ptr(), l, "LocalAlloc::alloc")
                    }
                    None => ck!(m.fit(m.level, l).is_none(), "LocalAlloc::alloc refused {:?} at level {} of {}", l, m.level, cap),
                }
            }
            7 if !m.given.is_empty() => m.hand_back(b),
            6 if m.c.rng.chance(1, 3) => {
                m.c.step("reset");
                m.check_held();
                m.held.clear(); // drops held boxes
                track::check_sane();
                place.get_mut().reset();
                m.level = 0;
                m.regions.clear();
                m.given.clear();
            }
            _ => {
                if const { mem::size_of::<S>() >= 50_000 } && m.c.rng.chance(1, 3) {
                    let t = m.c.rng.below(BIG);
                    m.c.count("values of unusual size");
                    with_big!(t, V => m.typed_op::<S, V>(b));
                } else {
                    let t = m.c.rng.below(TYPES);
                    with_tv!(t, V => m.typed_op::<S, V>(b));
                }
            }
        }
        let now = place.get().level();
        m.ck_level(now, "level()");
        if m.level > 0 {
            m.c.nontrivial();
        }
    }
    m.check_held();
    m.held.clear();
    for &i in &m.expect_undropped {
        ck_eq!(track::drops_of(i), 0, "destructions of leaked value {}", i);
    }
    track::with(|l| {
        let want_zero: usize = l.drops.iter().filter(|&&n| n == 0).count();
        ck_eq!(want_zero, m.expect_undropped.len(), "number of values never destroyed");
        ck_eq!(l.zst_live, m.zst_kept, "number of zero-sized values never destroyed");
    });
    track::check_sane();
    place.arena.check_guards();
}

/// `N` values of `V` fit in a storage of `N` values, whatever came before a reset.
fn full<V: Tv, const N: usize>(c: &mut Case) {
    track::reset();
    let mut place = Place::<[V; N]>::new(Bump::uninit(), &mut c.rng);
    c.step(format!("storage of {} values of {}/{}", N, mem::size_of::<V>(), mem::align_of::<V>()));
    for round in 0..3 {
        let b = place.get();
        let mut seen = vec![];
        for i in 0..N {
            let v = V::mk();
            let id = v.ident();
            let how = c.rng.below(3);
            let p: *const V = match how {
                0 => match b.leak(v) { Ok(r) => r as *const V, Err(_) => fail!("value {} of {} refused in round {}", i, N, round) },
                1 => match b.leak_box(v) { Some(x) => LeakBox::leak(x) as *const V, None => fail!("value {} of {} refused in round {}", i, N, round) },
                _ => match b.get::<V>() { Some(a) => unsafe { a.leak(v) as *const V }, None => fail!("value {} of {} refused in round {}", i, N, round) },
            };
            seen.push((p, id));
        }
        for &(p, id) in &seen {
            ck!(unsafe { (*p).intact_as(id) }, "a stored value changed");
        }
        if mem::size_of::<V>() > 0 {
            ck!(b.get::<V>().is_none(), "one more value than the storage holds");
            ck!(b.get::<u8>().is_none(), "space left after filling the storage");
            let mut addrs: Vec<usize> = seen.iter().map(|s| s.0 as usize).collect();
            addrs.dedup();
            ck_eq!(addrs.len(), N, "distinct addresses");
            c.nontrivial();
        }
        place.get_mut().reset();
        if round == 0 {
            // Disturb with other sizes, then reset again.
            while place.get().get::<u8>().is_some() && c.rng.chance(9, 10) {}
            place.get_mut().reset();
        }
    }
    place.arena.check_guards();
}

/// Chain values one after the other by their levels: contiguous for one type.
fn contiguous(c: &mut Case) {
    track::reset();
    let place = Place::<[u64; 64]>::new(Bump::uninit(), &mut c.rng);
    let b = place.get();
    let pre = c.rng.below(9);
    for _ in 0..pre {
        b.get::<u8>();
    }
    c.step(format!("pre {}", pre));
    let t = c.rng.below(7);
    with_tv!(t, V => {
        if mem::size_of::<V>() == 0 { return; }
        let mut level = b.level();
        let mut prev: Option<*const V> = None;
        loop {
            let v = V::mk();
            let id = v.ident();
            match b.leak_at(v, level) {
                Ok((r, l)) => {
                    ck!(r.intact_as(id), "stored value differs");
                    if let Some(p) = prev {
                        ck!(p.wrapping_add(1) == r as *const V, "values chained by level are not contiguous");
                    }
                    // The old level is refused now.
                    match b.get_at::<V>(level) {
                        Err(Failure::Mismatch { observed }) => ck!(observed == l, "mismatch reports another level"),
                        Err(Failure::Exhausted) => {}
                        Ok(_) => fail!("a stale level was accepted"),
                    }
                    prev = Some(r);
                    level = l;
                    ck!(b.level() == level, "level differs from the one reported");
                    c.count("chained values");
                    c.nontrivial();
                }
                Err(e) => {
                    ck_eq!(e.kind(), Failure::Exhausted, "failure at the current level");
                    break;
                }
            }
        }
    });
    track::check_sane();
}

fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for i in 0..N {
        a[i] = mix(i as u64) as u8;
    }
    a
}

#[repr(align(4096))]
struct Page(#[allow(dead_code)] [u8; 4096]);

#[repr(align(64))]
struct Big([u8; 64]);

fn main() {
    let mut m = Mon::start("C03");
    m.family("sequence", 40_000, 220, |c| match c.rng.below(if MIRI { 9 } else { 10 }) {
        0 => run::<[u8; 7]>(c, Some(bytes::<7>)),
        1 => run::<[u8; 64]>(c, Some(bytes::<64>)),
        2 => run::<[u8; 257]>(c, Some(bytes::<257>)),
        3 => run::<[u128; 9]>(c, Some(|| [77; 9])),
        4 => run::<[Big; 3]>(c, Some(|| [Big([1; 64]), Big([2; 64]), Big([3; 64])])),
        5 => run::<()>(c, None),
        6 => run::<[u16; 33]>(c, Some(|| [0xABCD; 33])),
        7 => run::<[u64; 16]>(c, Some(|| [0x0102_0304_0506_0708; 16])),
        8 => run::<(u8, u32)>(c, None),
        _ => run::<[u8; 1000]>(c, Some(bytes::<1000>)),
    });
    m.family("large", 1000, 0, |c| match c.rng.below(5) {
        3 => run::<[Page; 20]>(c, None),
        4 => run::<[u32; 60_000]>(c, None),
        0 => run::<[u8; 70_001]>(c, None),
        1 => run::<[u64; 1 << 14]>(c, None),
        _ => run::<[u128; 1027]>(c, None),
    });
    m.family("full", 1500, 48, |c| {
        let t = c.rng.below(TYPES);
        let n = c.rng.below(5);
        with_tv!(t, V => match n {
            0 => full::<V, 1>(c), 1 => full::<V, 2>(c), 2 => full::<V, 3>(c), 3 => full::<V, 8>(c), _ => full::<V, 13>(c),
        })
    });
    m.family("contiguous", 1500, 40, contiguous);
    #[cfg(target_pointer_width = "64")]
    // More memory than 32 bits can count.
    if m.variant == "dbg" || m.variant == "rel" {
        m.family("huge", 40, 0, |c| {
            let there = huge::shared(|b| {
                let lo = b as *const _ as usize;
                huge::drive(c, b, lo, lo + std::mem::size_of_val(b), huge::CAP)
            });
            if !there {
                c.count("no huge memory");
            }
        });
    }
    m.finish()
}
