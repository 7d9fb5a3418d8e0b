//! C05: the unsynchronized bump allocators against an exact space model.
use harness::regions::*;
use harness::track;
use harness::types::*;
use harness::*;
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Bump, MemBump};
use std::alloc::Layout;
use std::mem::{self, MaybeUninit};
use std::rc::Rc;

thread_local! {
    static TOKENS: Rc<Vec<Level>> = Rc::new(learn());
}

const MAX_LEVEL: usize = if MIRI { 400 } else { 140_000 };

/// Levels are opaque: learn them by allocating single bytes.
fn learn() -> Vec<Level> {
    let mut mem = vec![MaybeUninit::<u64>::new(0); MAX_LEVEL / 8 + 1];
    // SAFETY: any bytes are fine as uninit.
    let bytes = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut MaybeUninit<u8>, mem.len() * 8) };
    let b = MemBump::from_mem(bytes).ok().expect("aligned memory");
    let mut t = vec![b.level()];
    while let Ok(_) = b.alloc_at(Layout::new::<u8>(), *t.last().unwrap()) {
        ck!(b.level() > *t.last().unwrap(), "the level does not increase");
        t.push(b.level());
    }
    ck_eq!(t.len() - 1, b.capacity(), "single bytes allocated");
    t
}

/// A value kept by the program: check, and finish (destroy or give up).
trait Keep {
    fn ok(&self) -> bool;
    fn ident(&self) -> Vec<u32>;
}
struct KeepBox<V: Tv>(LeakBox<'static, V>, Option<u32>, usize);
impl<V: Tv> Keep for KeepBox<V> {
    fn ok(&self) -> bool {
        self.0.intact_as(self.1) && &*self.0 as *const V as usize == self.2
    }
    fn ident(&self) -> Vec<u32> {
        self.1.into_iter().collect()
    }
}
struct KeepSlice<V: Tv>(LeakBox<'static, [MaybeUninit<V>]>, Vec<Option<u32>>);
impl<V: Tv> Keep for KeepSlice<V> {
    fn ok(&self) -> bool {
        // SAFETY: all elements were initialised.
        self.0.iter().zip(&self.1).all(|(v, id)| unsafe { v.assume_init_ref() }.intact_as(*id))
    }
    fn ident(&self) -> Vec<u32> {
        vec![]
    }
}

struct Model<'c> {
    c: &'c mut Case,
    bump: *mut MemBump,
    base: usize,
    cap: usize,
    level: usize,
    tokens: Rc<Vec<Level>>,
    regions: Regions,
    kept: Vec<Box<dyn Keep>>,
    tag: u64,
    again: Vec<(usize, Layout, usize)>,
}

impl Model<'_> {
    fn b(&self) -> &'static MemBump {
        // SAFETY: lives for the whole case, not used across `reset`.
        unsafe { &*self.bump }
    }
    fn fit(&self, level: usize, l: Layout) -> Option<usize> {
        let start = align_up(self.base + level, l.align()) - self.base;
        (start.checked_add(l.size())? <= self.cap).then_some(start)
    }
    fn ck_level(&self, got: Level, what: &str) {
        ck!(got == self.tokens[self.level], "{}: level {:?} differs from expected {} of {}", what, got, self.level, self.cap);
    }
    fn pick_level(&mut self) -> usize {
        match self.c.rng.below(10) {
            0..=5 => self.level,
            6 => 0,
            7 | 8 => self.c.rng.range(0, self.level),
            _ => self.c.rng.range(self.level, self.cap),
        }
    }
    fn took(&mut self, ptr: *mut u8, l: Layout, what: &str) -> usize {
        if l.size() == 0 {
            ck!(!ptr.is_null() && ptr as usize % l.align() == 0, "{}: zero-sized value misaligned", what);
            self.c.count("zero-sized");
            return usize::MAX;
        }
        let start = match self.fit(self.level, l) {
            Some(s) => s,
            None => fail!("{} succeeded for {:?} at level {} of {}", what, l, self.level, self.cap),
        };
        self.tag += 1;
        let i = self.regions.add(ptr, l.size(), l.align(), self.tag);
        ck_eq!(ptr as usize - self.base, start, "{}: offset of the region", what);
        self.again.push((self.level, l, ptr as usize));
        self.level = start + l.size();
        self.c.count("regions");
        i
    }
    fn failure(&mut self, what: &str, at: usize, l: Layout, f: Failure) {
        match f {
            Failure::Exhausted => {
                ck!(l.size() > 0 && self.fit(at, l).is_none(), "{} reports exhaustion although {:?} fits behind level {} of {}", what, l, at, self.cap);
                self.c.count("exhaustions");
            }
            Failure::Mismatch { observed } => {
                ck!(at != self.level, "{} reports a mismatch at the current level {}", what, at);
                self.ck_level(observed, what);
                self.c.count("mismatches");
            }
        }
    }
    fn fits_now(&self, l: Layout) -> bool {
        l.size() == 0 || self.fit(self.level, l).is_some()
    }

    fn typed<V: Tv>(&mut self) {
        let l = Layout::new::<V>();
        let op = self.c.rng.below(5);
        let at = if op == 1 { self.pick_level() } else { self.level };
        self.c.step(format!("{}<{}/{}>@{}", ["get", "get_at", "bump_box", "bump_array", "get_unchecked"][op], l.size(), l.align(), at));
        let name = ["get", "get_at", "bump_box", "bump_array", "get_unchecked"][op];
        self.c.key(if l.size() == 0 { format!("{name}/zst") } else { name.to_string() });
        let b = self.b();
        match op {
            0 | 1 => {
                let r = if op == 0 { b.get::<V>().ok_or(Failure::Exhausted) } else { b.get_at::<V>(self.tokens[at]) };
                match r {
                    Ok(a) => {
                        ck!(at == self.level, "get_at succeeded at level {} while the current level is {}", at, self.level);
                        self.took(a.ptr.as_ptr() as *mut u8, l, name);
                        self.ck_level(a.level, "level of an allocation");
                        if self.c.rng.chance(1, 2) {
                            let v = V::mk();
                            let id = v.ident();
                            // SAFETY: fresh memory for `V`.
                            let x = unsafe { a.boxed(v) };
                            let p = &*x as *const V as usize;
                            self.kept.push(Box::new(KeepBox(x, id, p)));
                        }
                    }
                    Err(f) => self.failure(name, at, l, f),
                }
            }
            2 => match b.bump_box::<V>() {
                Ok(x) => {
                    let p = x.as_ptr();
                    self.took(p as *mut u8, l, "bump_box");
                    let v = V::mk();
                    let id = v.ident();
                    let x = LeakBox::write(x, v);
                    self.kept.push(Box::new(KeepBox(x, id, p as usize)));
                }
                Err(f) => self.failure("bump_box", at, l, f),
            },
            3 => {
                let n = match self.c.rng.below(8) {
                    0 => 0,
                    1 | 2 => hostile_count(&mut self.c.rng, mem::size_of::<V>()),
                    3 if mem::size_of::<V>() > 0 => (self.cap / mem::size_of::<V>()).saturating_sub(1) + self.c.rng.below(3),
                    _ => self.c.rng.range(1, 6),
                };
                self.c.step(format!("n={}", n));
                let arr = Layout::array::<V>(n);
                let zero = matches!(arr, Ok(l) if l.size() == 0);
                self.c.key(if zero { "bump_array/zero".to_string() } else { "bump_array".to_string() });
                match (b.bump_array::<V>(n), arr) {
                    (Ok(mut x), Ok(l)) => {
                        ck_eq!(x.len(), n, "length of an allocated array");
                        self.took(x.as_mut_ptr() as *mut u8, l, "bump_array");
                        if n < 10 || n < 200 && !MIRI {
                            let mut ids = vec![];
                            for s in x.iter_mut() {
                                let v = V::mk();
                                ids.push(v.ident());
                                *s = MaybeUninit::new(v);
                            }
                            self.kept.push(Box::new(KeepSlice(x, ids)));
                        }
                    }
                    (Ok(_), Err(_)) => fail!("an array of unrepresentable size was allocated"),
                    (Err(f), Ok(l)) => self.failure("bump_array", at, l, f),
                    (Err(f), Err(_)) => ck_eq!(f, Failure::Exhausted, "failure for an unrepresentable array"),
                }
            }
            _ => {
                if l.size() == 0 {
                    // Nothing to re-acquire but the level.
                    if self.level < self.cap {
                        // SAFETY: no memory is accessed.
                        let a = unsafe { b.get_unchecked::<V>(self.tokens[self.level]) };
                        self.took(a.ptr.as_ptr() as *mut u8, l, name);
                    }
                    return;
                }
                // Re-acquire some earlier allocation of this layout.
                let Some(&(before, _, addr)) = self.again.iter().rev().find(|a| a.1 == l) else { return };
                self.c.step(format!("again@{}", before));
                // SAFETY: allocated before from this level with the same layout; only the address is used.
                let a = unsafe { b.get_unchecked::<V>(self.tokens[before]) };
                ck_eq!(a.ptr.as_ptr() as usize, addr, "address of a re-acquired allocation from level {}", before);
                self.c.count("re-acquired");
            }
        }
    }

    fn raw(&mut self) {
        let align = some_align(&mut self.c.rng, if MIRI { 7 } else { 11 });
        let size = match self.c.rng.below(10) {
            0 => self.cap.max(1),
            1 => self.cap + 1 + self.c.rng.below(9),
            2 => (isize::MAX as usize) - (align - 1) - self.c.rng.below(3),
            3 => 1,
            4 => (self.cap - self.level).max(1),
            5 => self.c.rng.range(1, (self.cap / 3).max(1)),
            _ => self.c.rng.range(1, (self.cap / 2).clamp(1, 40)),
        };
        let l = Layout::from_size_align(size, align).unwrap_or(Layout::new::<u8>());
        let at = if self.c.rng.chance(1, 2) { self.pick_level() } else { self.level };
        let b = self.b();
        if at == self.level && self.c.rng.chance(2, 3) {
            self.c.step(format!("alloc({},{})", size, align));
            self.c.key("alloc");
            match b.alloc(l) {
                Some(p) => {
                    let i = self.took(p.as_ptr(), l, "alloc");
                    self.regions.fill(i);
                }
                None => self.failure("alloc", at, l, Failure::Exhausted),
            }
        } else {
            self.c.step(format!("alloc_at({},{})@{}", size, align, at));
            self.c.key("alloc_at");
            match b.alloc_at(l, self.tokens[at]) {
                Ok(p) => {
                    ck!(at == self.level, "alloc_at succeeded at level {} while the current level is {}", at, self.level);
                    let i = self.took(p.as_ptr(), l, "alloc_at");
                    self.regions.fill(i);
                }
                Err(f) => self.failure("alloc_at", at, l, f),
            }
        }
    }

    fn check(&self) {
        self.regions.check_contents();
        for k in &self.kept {
            ck!(k.ok(), "a value placed in the bump changed");
            for i in k.ident() {
                ck_eq!(track::drops_of(i), 0, "destructions of a kept value");
            }
        }
        track::check_sane();
    }

    fn run(&mut self) {
        let steps = self.c.rng.range(1, if MIRI { 16 } else { 36 });
        for _ in 0..steps {
            match self.c.rng.below(12) {
                0..=3 => self.raw(),
                4 if self.c.rng.chance(1, 2) => {
                    self.check();
                    self.kept.clear();
                    self.regions.clear();
                    self.again.clear();
                    self.c.step("reset");
                    self.c.key("reset");
                    // SAFETY: nothing else is borrowed from the bump now.
                    unsafe { (*self.bump).reset() };
                    self.level = 0;
                }
                _ => {
                    if self.cap >= 8000 && self.c.rng.chance(1, 3) {
                        let t = self.c.rng.below(BIG);
                        self.c.count("values of unusual size");
                        with_big!(t, V => self.typed::<V>())
                    } else {
                        let t = self.c.rng.below(TYPES);
                        with_tv!(t, V => self.typed::<V>())
                    }
                }
            }
            self.ck_level(self.b().level(), "level()");
            ck_eq!(self.b().capacity(), self.cap, "capacity");
            ck_eq!(self.b().data_ptr().as_ptr() as usize, self.base, "data address");
            if self.level > 0 {
                self.c.nontrivial();
            }
        }
        self.check();
        // Fill the rest byte by byte: exactly what is left.
        let left = self.cap - self.level;
        if left <= if MIRI { 40 } else { 400 } {
            for i in 0..left {
                match self.b().alloc(Layout::new::<u8>()) {
                    Some(p) => {
                        let k = self.took(p.as_ptr(), Layout::new::<u8>(), "alloc of a byte");
                        self.regions.fill(k);
                    }
                    None => fail!("only {} of {} remaining bytes could be allocated", i, left),
                }
            }
            ck!(self.b().alloc(Layout::new::<u8>()).is_none(), "a byte beyond the capacity");
            self.check();
        }
    }
}

fn drive(c: &mut Case, bump: *mut MemBump, obj: (usize, usize), unwritten: usize) {
    // SAFETY: valid for the case.
    let (base, cap) = unsafe { ((*bump).data_ptr().as_ptr() as usize, (*bump).capacity()) };
    ck!(base >= obj.0 && base + cap <= obj.1, "data area +{}..+{} is outside the object of {} bytes",
        base.wrapping_sub(obj.0) as isize, (base + cap).wrapping_sub(obj.0) as isize, obj.1 - obj.0);
    let _ = unwritten;
    if cap >= MAX_LEVEL {
        return;
    }
    c.step(format!("cap {} at {}", cap, base % 128));
    let tag = c.rng.u64() >> 20;
    let mut m = Model {
        c, bump, base, cap, level: 0, tokens: TOKENS.with(|t| t.clone()),
        regions: Regions::new(base, base + cap), kept: vec![], tag, again: vec![],
    };
    m.ck_level(m.b().level(), "level of a fresh bump");
    m.run();
}

/// A sized bump placed at a chosen address.
fn sized<S>(c: &mut Case) {
    let align = mem::align_of::<Bump<S>>();
    let mis = c.rng.below(256 / align.min(256)) * align;
    let mut arena = Arena::new(mem::size_of::<Bump<S>>(), 512.max(align), mis, 0xEE);
    let zeroed = c.rng.chance(1, 2);
    let at = arena.mem().as_mut_ptr() as *mut Bump<S>;
    c.step(format!("unsync::Bump<{}/{}>", mem::size_of::<S>(), mem::align_of::<S>()));
    // SAFETY: sized and aligned for it.
    unsafe {
        at.write(if zeroed { Bump::zeroed() } else { Bump::uninit() });
        let mb: *mut MemBump = &mut **at;
        ck!((*mb).capacity() >= mem::size_of::<S>(), "a bump sized by a type has capacity {} for {} bytes", (*mb).capacity(), mem::size_of::<S>());
        let cap = (*mb).capacity();
        if zeroed && cap > 0 && align <= 8 {
            let p = (*mb).alloc(Layout::from_size_align(cap, 1).unwrap());
            let Some(p) = p else { fail!("a fresh bump of {} bytes has no room for them", cap) };
            ck!(differs(p.as_ptr(), &vec![0; cap]).is_none(), "a zeroed bump holds other bytes");
            (*mb).reset();
        }
        // At least one value fits, and it is zeroed.
        match (*at).get::<S>() {
            Some(a) => {
                ck!(a.ptr.as_ptr() as usize % mem::align_of::<S>() == 0, "misaligned value");
                let bytes = a.ptr.as_ptr() as *const u8;
                if zeroed && align > 8 {
                    ck!(differs(bytes, &vec![0; mem::size_of::<S>()]).is_none(), "a zeroed bump holds other bytes");
                }
            }
            None => fail!("no room for one value of the type that sizes the bump"),
        }
        (*at).reset();
        let obj = (at as usize, at as usize + mem::size_of::<Bump<S>>());
        let mb: *mut MemBump = &mut **at;
        drive(c, mb, obj, 0);
    }
    arena.check_guards();
}

fn from_mem(c: &mut Case) {
    let len = c.rng.range(8, if MIRI { 200 } else { 900 });
    let mut arena = Arena::new(len, 512, 0, 0xEE);
    let mis = c.rng.below(512);
    if mis > 0 {
        arena = Arena::new(len, 512, mis, 0xEE);
    }
    c.step(format!("from_mem({})+{}", len, mis));
    let obj = (arena.addr(), arena.addr() + len);
    let lo = arena.ptr() as *mut MaybeUninit<u8>;
    // SAFETY: the whole region, used by nobody else.
    match MemBump::from_mem(unsafe { std::slice::from_raw_parts_mut(lo, len) }) {
        Ok(b) => {
            let raw = LeakBox::into_raw(b);
            drive(c, raw, obj, 0);
        }
        Err(_) => ck!(len < 8 + (8 - mis % 8) % 8, "memory of {} bytes refused", len),
    }
    arena.check_guards();
}

fn heap(c: &mut Case) {
    let cap = c.rng.range(0, if MIRI { 200 } else { 900 });
    c.step(format!("MemBump::new({})", cap));
    let mut b = MemBump::new(cap);
    ck!(b.capacity() >= cap, "a heap bump has capacity {}, asked for {}", b.capacity(), cap);
    let raw: *mut MemBump = &mut *b;
    let obj = (raw as *mut u8 as usize, raw as *mut u8 as usize + mem::size_of_val(&*b));
    let raw: *mut MemBump = &mut *b;
    drive(c, raw, obj, 0);
}

/// Space for large regions and alignments.
fn large(c: &mut Case) {
    let cap = (1 << c.rng.range(13, 17)) - 1 + c.rng.below(70);
    if c.rng.chance(1, 2) {
        c.step(format!("MemBump::new({})", cap));
        let mut b = MemBump::new(cap);
        ck!(b.capacity() >= cap, "a heap bump has capacity {}, asked for {}", b.capacity(), cap);
        let raw: *mut MemBump = &mut *b;
        let obj = (raw as *mut u8 as usize, raw as *mut u8 as usize + mem::size_of_val(&*b));
        drive(c, raw, obj, 0);
    } else {
        let mis = c.rng.below(512);
        let mut arena = Arena::new(cap, 512, mis, 0xEE);
        c.step(format!("from_mem({})+{}", cap, mis));
        let obj = (arena.addr(), arena.addr() + cap);
        let lo = arena.ptr() as *mut MaybeUninit<u8>;
        // SAFETY: the whole region, used by nobody else.
        match MemBump::from_mem(unsafe { std::slice::from_raw_parts_mut(lo, cap) }) {
            Ok(b) => drive(c, LeakBox::into_raw(b), obj, 0),
            Err(_) => fail!("memory of {} bytes refused", cap),
        }
        arena.check_guards();
    }
}

#[repr(align(16))]
struct Al16<const N: usize>([u8; N]);
#[repr(align(64))]
struct Al64<const N: usize>([u8; N]);
#[repr(align(4096))]
struct Page(#[allow(unused)] [u8; 4096 * 3]);
#[repr(align(256))]
struct Al256;
#[repr(align(512))]
struct Al512(#[allow(unused)] [u8; 512]);

#[global_allocator]
static BOOKS: books::Books = books::Books;

fn main() {
    let mut m = Mon::start("C05");
    books::dirty(true);
    m.family("sized", 30_000, 170, |c| {
        track::reset();
        match c.rng.below(8) {
            0 => sized::<[u8; 64]>(c),
            1 => sized::<[u64; 32]>(c),
            2 => sized::<[u8; 7]>(c),
            3 => sized::<()>(c),
            4 => sized::<u8>(c),
            5 => sized::<[u16; 77]>(c),
            6 => sized::<[u8; 301]>(c),
            _ => sized::<[u32; 5]>(c),
        }
    });
    m.family("large", 900, 0, |c| {
        track::reset();
        large(c)
    });
    // Storage aligned more strictly than the header.
    m.family("overaligned", 12_000, 90, |c| {
        track::reset();
        match c.rng.below(7) {
            0 => sized::<u128>(c),
            1 => sized::<Al16<112>>(c),
            2 => sized::<Al64<256>>(c),
            3 => sized::<Al64<64>>(c),
            4 => sized::<[u128; 9]>(c),
            5 => sized::<Al512>(c),
            6 if !MIRI && c.rng.chance(1, 8) => sized::<Page>(c),
            _ => sized::<Al256>(c),
        }
    });
    m.family("from_mem", 15_000, 90, |c| {
        track::reset();
        from_mem(c)
    });
    m.family("heap", 15_000, 90, |c| {
        track::reset();
        heap(c)
    });
    #[cfg(target_pointer_width = "64")]
    // More memory than 32 bits can count.
    if m.variant == "dbg" || m.variant == "rel" {
        books::dirty(false);
        m.family("huge", 60, 0, |c| {
            let len = huge::CAP - c.rng.below(20);
            match (huge::Lazy::new(len), c.rng.chance(1, 2)) {
                (Some(_), true) => {
                    let b = static_alloc::unsync::MemBump::new(len);
                    ck!(b.capacity() >= len, "capacity {} of a bump for {}", b.capacity(), len);
                    let lo = &*b as *const _ as *const u8 as usize;
                    huge::drive(c, &*b, lo, lo + std::mem::size_of_val(&*b), b.capacity());
                }
                (Some(m), false) => {
                    let lo = m.ptr() as usize;
                    let slice = unsafe { std::slice::from_raw_parts_mut(m.ptr() as *mut std::mem::MaybeUninit<u8>, len) };
                    let b = static_alloc::unsync::MemBump::from_mem(slice).ok().expect("enough memory");
                    ck!(b.capacity() + 64 > len, "capacity {} of a bump over {}", b.capacity(), len);
                    huge::drive(c, &*b, lo, lo + len, b.capacity());
                }
                _ => c.count("no huge memory"),
            }
        });
    }
    m.finish()
}
