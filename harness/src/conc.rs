//! Concurrent histories of one atomic Bump: operations, their execution, and the decision whether a history is
//! linearizable with exact accounting.
use crate::regions::*;
use crate::{ck, Arena, Rng};
use alloc_traits::{LocalAlloc, NonZeroLayout};
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout};
use std::mem;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// Which level a conditional request names.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At {
    /// The one seen last by the thread.
    Seen,
    /// That many bytes behind the one seen last, capped.
    Ahead(usize),
    Fixed(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Alloc { size: usize, align: usize, via: u8 },
    AllocAt { size: usize, align: usize, at: At, via: u8 },
    Typed { ty: u8, via: u8 },
    TypedAt { ty: u8, at: At, via: u8 },
    Level,
    Zst { via: u8 },
    ZstAt { at: At },
    /// Give back one of the thread's own raw regions: changes nothing.
    Free { pick: u8, via: u8 },
}

/// A pointer that crosses threads.
#[derive(Clone, Copy, Debug)]
pub struct P(pub *mut u8);
unsafe impl Send for P {}
unsafe impl Sync for P {}
impl P {
    pub fn at(self) -> usize {
        self.0 as usize
    }
}

#[derive(Clone, Debug)]
pub enum Res {
    /// A region, with the level behind it where the call tells.
    Ok(P, Option<Level>),
    Refused,
    Exhausted,
    Mismatch(Level),
    Level(Level),
    Nothing,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub th: usize,
    pub op: Op,
    /// Layout of the request, size 0 if there is none.
    pub size: usize,
    pub align: usize,
    /// Index of the level named.
    pub given: Option<usize>,
    pub begin: u64,
    pub end: u64,
    pub res: Res,
}

/// A Bump at some address that is aligned as little as possible, with guards around it.
pub struct Placed<S: 'static> {
    arena: Arena,
    at: *mut Bump<S>,
}
unsafe impl<S: 'static> Send for Placed<S> {}
unsafe impl<S: 'static> Sync for Placed<S> {}

impl<S: 'static> Placed<S> {
    pub fn new(b: Bump<S>, rng: &mut Rng) -> Self {
        let align = mem::align_of::<Bump<S>>();
        let mis = rng.below(256 / align.min(256)) * align;
        let mut arena = Arena::new(mem::size_of::<Bump<S>>(), 256.max(align), mis, 0xEE);
        let at = arena.mem().as_mut_ptr() as *mut Bump<S>;
        // SAFETY: sized and aligned for it.
        unsafe { at.write(b) };
        Placed { arena, at }
    }
    pub fn get(&self) -> &Bump<S> {
        unsafe { &*self.at }
    }
    pub fn get_mut(&mut self) -> &mut Bump<S> {
        unsafe { &mut *self.at }
    }
    pub fn check_guards(&self) {
        self.arena.check_guards()
    }
}

/// Threads wait until everyone is here.
pub struct Gate(pub AtomicUsize, pub usize);
impl Gate {
    pub fn new(n: usize) -> Gate {
        Gate(AtomicUsize::new(0), n)
    }
    pub fn pass(&self) {
        let n = self.0.fetch_add(1, SeqCst) / self.1 + 1;
        let mut spins = 0u32;
        while self.0.load(SeqCst) < n * self.1 {
            spins += 1;
            if crate::MIRI || spins > 2000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

pub fn delay(rng: &mut Rng, jitter: usize) {
    if jitter > 0 && rng.chance(1, 3) {
        if crate::MIRI {
            std::thread::yield_now();
        } else {
            for _ in 0..rng.below(jitter) {
                std::hint::spin_loop();
            }
        }
    }
}

/// Levels are opaque: learn them by allocating single bytes, and where the storage lies within the object.
pub struct Known {
    pub tokens: Vec<Level>,
    pub offset: usize,
    pub cap: usize,
}

pub fn learn<S>() -> Known {
    let b: Box<Bump<S>> = Box::new(Bump::uninit());
    let one = Layout::new::<u8>();
    let (mut tokens, mut offset) = (vec![b.level()], 0);
    for i in 0..mem::size_of::<S>() {
        match b.get_layout(one) {
            Some(a) => {
                if i == 0 {
                    offset = a.ptr.as_ptr() as usize - &*b as *const _ as usize;
                }
                ck!(a.level > *tokens.last().unwrap() && a.level == b.level(), "the level after an allocation");
                tokens.push(a.level);
            }
            None => crate::fail!("a storage of {} bytes does not hold that many single bytes", mem::size_of::<S>()),
        }
    }
    Known { tokens, offset, cap: mem::size_of::<S>() }
}

impl Known {
    pub fn index(&self, l: Level) -> Option<usize> {
        self.tokens.binary_search(&l).ok()
    }
}

macro_rules! types {
    ($($n:literal $t:ty),*) => {
        pub const TYPES: u8 = [$($n),*].len() as u8;
        pub fn layout_of(ty: u8) -> Layout {
            match ty { $($n => Layout::new::<$t>(),)* _ => unreachable!() }
        }
        fn typed<S>(b: &Bump<S>, ty: u8, via: u8, at: Option<Level>, tag: u64) -> Res {
            match ty { $($n => typed_as::<S, $t>(b, via, at, tag),)* _ => unreachable!() }
        }
    };
}
#[repr(align(32))]
#[derive(Clone, Copy)]
pub struct W32(#[allow(dead_code)] [u8; 32]);
types!(0 u8, 1 u16, 2 [u8; 3], 3 u32, 4 u64, 5 [u16; 5], 6 u128, 7 W32, 8 [u64; 3]);

/// A value of known bytes (the types have no padding).
fn value<T: Copy>(tag: u64) -> T {
    // Without a use of the heap, as this may be interrupted (c23).
    let mut p = [0u64; 4];
    for (i, w) in p.iter_mut().enumerate() {
        *w = pattern_word(tag, i as u64);
    }
    assert!(mem::size_of::<T>() <= 32);
    // SAFETY: all bit patterns are valid for the types above.
    unsafe { (p.as_ptr() as *const T).read_unaligned() }
}

fn fail_res(f: Failure) -> Res {
    match f {
        Failure::Exhausted => Res::Exhausted,
        Failure::Mismatch { observed } => Res::Mismatch(observed),
    }
}

fn typed_as<S, T: Copy>(b: &Bump<S>, via: u8, at: Option<Level>, tag: u64) -> Res {
    let v: T = value(tag);
    // SAFETY: the memory stays alive, handed out pointers are kept as addresses of it.
    unsafe {
        match at {
            None => match via % 4 {
                0 => match b.get::<T>() {
                    Some(a) => {
                        let (l, p) = (a.level, a.ptr.as_ptr());
                        p.write(v);
                        Res::Ok(P(p as *mut u8), Some(l))
                    }
                    None => Res::Refused,
                },
                1 => match b.leak_box(v) {
                    Some(x) => Res::Ok(P(LeakBox::into_raw(x) as *mut u8), None),
                    None => Res::Refused,
                },
                2 => match b.leak(v) {
                    Ok(r) => Res::Ok(P(r as *mut T as *mut u8), None),
                    Err(e) => match e.kind() {
                        Failure::Exhausted => Res::Refused,
                        other => crate::fail!("leak fails with {:?}", other),
                    },
                },
                _ => match b.get::<T>() {
                    Some(a) => {
                        let l = a.level;
                        Res::Ok(P(a.leak(v) as *mut T as *mut u8), Some(l))
                    }
                    None => Res::Refused,
                },
            },
            Some(at) => match via % 3 {
                0 => match b.get_at::<T>(at) {
                    Ok(a) => {
                        let l = a.level;
                        Res::Ok(P(a.leak(v) as *mut T as *mut u8), Some(l))
                    }
                    Err(f) => fail_res(f),
                },
                1 => match b.leak_box_at(v, at) {
                    Ok(x) => Res::Ok(P(LeakBox::into_raw(x) as *mut u8), None),
                    Err(f) => fail_res(f),
                },
                _ => match b.leak_at(v, at) {
                    Ok((r, l)) => Res::Ok(P(r as *mut T as *mut u8), Some(l)),
                    Err(e) => fail_res(e.kind()),
                },
            },
        }
    }
}

fn opt(p: *mut u8) -> Res {
    if p.is_null() {
        Res::Refused
    } else {
        Res::Ok(P(p as *mut u8), None)
    }
}

/// A region the thread got, with the contents it wrote.
#[derive(Clone, Debug)]
pub struct Got {
    pub ptr: P,
    pub size: usize,
    pub align: usize,
    pub tag: u64,
    /// Asked for by layout.
    pub raw: bool,
    /// Given back, which invalidates nothing.
    pub freed: bool,
}

impl Got {
    /// # Safety
    /// The region was handed out and is not used by anyone else.
    pub unsafe fn check(&self) {
        if let Some(k) = differs(self.ptr.0, &pattern(self.tag, self.size)) {
            crate::fail!("contents of a region of {} bytes changed at byte {}", self.size, k);
        }
    }
    /// # Safety
    /// See `check`.
    pub unsafe fn rewrite(&mut self, tag: u64) {
        self.tag = tag;
        std::ptr::copy_nonoverlapping(pattern(tag, self.size).as_ptr(), self.ptr.0, self.size)
    }
}

/// One thread's use of a Bump.
pub struct User<'k> {
    pub th: usize,
    pub known: &'k Known,
    pub seen: Level,
    pub seen_index: usize,
    pub recs: Vec<Rec>,
    pub got: Vec<Got>,
    pub next_tag: u64,
    /// Levels are judged, too.
    pub strict: bool,
}

impl<'k> User<'k> {
    pub fn new(th: usize, known: &'k Known) -> Self {
        User { th, known, seen: known.tokens[0], seen_index: 0, recs: vec![], got: vec![], next_tag: (th as u64 + 1) * 1_000_000, strict: true }
    }

    fn token(&self, at: At) -> usize {
        match at {
            At::Seen => self.seen_index,
            At::Ahead(n) => (self.seen_index + n).min(self.known.cap),
            At::Fixed(n) => n.min(self.known.cap),
        }
    }

    /// Do `op`; `stamp` gives the time.
    pub fn run<S>(&mut self, b: &Bump<S>, op: Op, stamp: &dyn Fn() -> u64) {
        self.next_tag += 1;
        let tag = self.next_tag;
        let (size, align) = match op {
            Op::Alloc { size, align, .. } | Op::AllocAt { size, align, .. } => (size, align),
            Op::Typed { ty, .. } | Op::TypedAt { ty, .. } => (layout_of(ty).size(), layout_of(ty).align()),
            _ => (0, 1),
        };
        let given = match op {
            Op::AllocAt { at, .. } | Op::TypedAt { at, .. } | Op::ZstAt { at } => Some(self.token(at)),
            _ => None,
        };
        let lvl = given.map(|g| self.known.tokens[g]);
        let layout = Layout::from_size_align(size, align).unwrap();
        let begin = stamp();
        let mut written = false;
        // SAFETY: layouts are not empty, memory is used as long as the Bump lives.
        let res = unsafe {
            match op {
                Op::Alloc { via, .. } => {
                    let nz = || NonZeroLayout::from_layout(layout.into()).unwrap();
                    match via % 6 {
                        0 => b.alloc(layout).map_or(Res::Refused, |p| opt(p.as_ptr())),
                        1 => match b.get_layout(layout) {
                            Some(a) => Res::Ok(P(a.ptr.as_ptr()), Some(a.level)),
                            None => Res::Refused,
                        },
                        2 => opt(GlobalAlloc::alloc(b, layout)),
                        3 => {
                            let p = GlobalAlloc::alloc_zeroed(b, layout);
                            zeros(p, size);
                            opt(p)
                        }
                        4 => LocalAlloc::alloc(b, nz()).map_or(Res::Refused, |a| opt(a.ptr.as_ptr())),
                        _ => LocalAlloc::alloc_zeroed(b, nz()).map_or(Res::Refused, |a| {
                            zeros(a.ptr.as_ptr(), size);
                            opt(a.ptr.as_ptr())
                        }),
                    }
                }
                Op::AllocAt { via, .. } => match if via % 2 == 0 { b.alloc_at(layout, lvl.unwrap()) } else { b.get_layout_at(layout, lvl.unwrap()) } {
                    Ok(a) => Res::Ok(P(a.ptr.as_ptr()), Some(a.level)),
                    Err(f) => fail_res(f),
                },
                Op::Typed { ty, via } => {
                    written = true;
                    typed(b, ty, via, None, tag)
                }
                Op::TypedAt { ty, via, .. } => {
                    written = true;
                    typed(b, ty, via, lvl, tag)
                }
                Op::Level => Res::Level(b.level()),
                Op::Zst { via } => match via % 2 {
                    0 => match b.get::<()>() {
                        Some(a) => Res::Level(a.level),
                        None => crate::fail!("no room for a value without size"),
                    },
                    _ => match b.leak(()) {
                        Ok(_) => Res::Level(b.level()),
                        Err(_) => crate::fail!("no room for a value without size"),
                    },
                },
                Op::Free { pick, via } => {
                    let n = self.got.len();
                    if n > 0 {
                        let g = &mut self.got[n - 1 - pick as usize % n];
                        if g.raw && !g.freed {
                            g.freed = true;
                            let layout = Layout::from_size_align(g.size, g.align).unwrap();
                            if via % 2 == 0 {
                                GlobalAlloc::dealloc(b, g.ptr.0, layout);
                            } else {
                                let layout = NonZeroLayout::from_layout(layout.into()).unwrap();
                                let ptr = std::ptr::NonNull::new(g.ptr.0).unwrap();
                                LocalAlloc::dealloc(b, alloc_traits::Allocation { ptr, layout, lifetime: Default::default() });
                            }
                        }
                    }
                    Res::Nothing
                }
                Op::ZstAt { .. } => match b.get_at::<()>(lvl.unwrap()) {
                    Ok(a) => Res::Level(a.level),
                    Err(f) => fail_res(f),
                },
            }
        };
        let end = stamp();
        match &res {
            Res::Ok(p, l) => {
                let mut g = Got { ptr: *p, size, align, tag, raw: !written, freed: false };
                ck!(g.ptr.at() % align == 0, "region at {:#x} for alignment {}", p.at(), align);
                if !written {
                    // SAFETY: freshly handed out.
                    unsafe { g.rewrite(tag) };
                }
                self.got.push(g);
                if let Some(l) = l {
                    self.see(*l);
                }
            }
            Res::Mismatch(l) | Res::Level(l) => self.see(*l),
            _ => (),
        }
        self.recs.push(Rec { th: self.th, op, size, align, given, begin, end, res });
    }

    fn see(&mut self, l: Level) {
        match self.known.index(l) {
            Some(i) => {
                self.seen_index = i;
                self.seen = l;
            }
            None if !self.strict => (),
            None => crate::fail!("level {:?} is none of a storage of {} bytes", l, self.known.cap),
        }
    }

    pub fn check_contents(&self) {
        for g in &self.got {
            // SAFETY: handed out to this user.
            unsafe { g.check() }
        }
    }
}

unsafe fn zeros(p: *const u8, n: usize) {
    if !p.is_null() {
        for i in 0..n {
            ck!(p.add(i).read() == 0, "zeroed memory has byte {} set", i);
        }
    }
}

pub fn random_op(rng: &mut Rng, cap: usize, at_calls: bool) -> Op {
    let at = |rng: &mut Rng| match rng.below(8) {
        0..=4 => At::Seen,
        5 => At::Ahead(rng.range(1, 9)),
        _ => At::Fixed(rng.range(0, cap)),
    };
    let size = |rng: &mut Rng| match rng.below(10) {
        0 => rng.range(1, cap.max(1) + 4),
        1 => rng.range(1, (cap / 2).max(1)),
        _ => rng.range(1, (cap / 6).clamp(1, 24)),
    };
    let align = |rng: &mut Rng| 1usize << *rng.pick(&[0, 0, 0, 1, 2, 3, 3, 4, 5, 7]);
    match rng.below(if at_calls { 15 } else { 10 }) {
        0..=3 => Op::Alloc { size: size(rng), align: align(rng), via: rng.below(6) as u8 },
        4..=6 => Op::Typed { ty: rng.below(TYPES as usize) as u8, via: rng.below(4) as u8 },
        7 => Op::Level,
        8 => Op::Zst { via: rng.below(2) as u8 },
        9 => Op::Free { pick: *rng.pick(&[0, 0, 0, 1, 2, 7]), via: rng.below(2) as u8 },
        10 | 11 => Op::AllocAt { size: size(rng), align: align(rng), at: at(rng), via: rng.below(2) as u8 },
        12 | 13 => Op::TypedAt { ty: rng.below(TYPES as usize) as u8, at: at(rng), via: rng.below(3) as u8 },
        _ => Op::ZstAt { at: at(rng) },
    }
}

#[derive(Default, Debug)]
pub struct Seen {
    pub taken: u64,
    pub refused: u64,
    pub mismatches: u64,
    pub exhausted: u64,
    pub reads: u64,
    /// Calls of different threads that were under way at the same time.
    pub overlapping: u64,
}

fn show(r: &Rec, base: usize, known: &Known) -> String {
    let l = |l: &Level| known.index(*l).map_or("?".into(), |i| i.to_string());
    let res = match &r.res {
        Res::Ok(p, lv) => format!("+{}..+{}{}", p.at().wrapping_sub(base) as isize, p.at().wrapping_sub(base) as isize + r.size as isize, lv.as_ref().map_or(String::new(), |x| format!(" level {}", l(x)))),
        Res::Refused => "none".into(),
        Res::Exhausted => "exhausted".into(),
        Res::Mismatch(x) => format!("mismatch, level {}", l(x)),
        Res::Level(x) => format!("level {}", l(x)),
        Res::Nothing => "done".into(),
    };
    format!("[{}-{}] thread {} {:?}{} -> {}", r.begin, r.end, r.th, r.op, r.given.map_or(String::new(), |g| format!(" at {}", g)), res)
}

pub fn print(recs: &[Rec], base: usize, known: &Known) -> String {
    let mut v: Vec<&Rec> = recs.iter().collect();
    v.sort_by_key(|r| r.begin);
    v.iter().map(|r| show(r, base, known)).collect::<Vec<_>>().join("; ")
}

/// Regions are apart from each other, inside the storage, and aligned.
pub fn disjoint(got: &[Got], base: usize, cap: usize) {
    let mut v: Vec<&Got> = got.iter().collect();
    v.sort_by_key(|g| g.ptr.at());
    let mut end = base;
    for g in v {
        ck!(g.ptr.at() >= base && g.ptr.at() + g.size <= base + cap, "region +{}..+{} is outside the storage of {} bytes", g.ptr.at().wrapping_sub(base) as isize,
            g.ptr.at().wrapping_sub(base) as isize + g.size as isize, cap);
        ck!(g.ptr.at() >= end, "region +{}..+{} overlaps another that ends at +{}", g.ptr.at() - base, g.ptr.at() - base + g.size, end - base);
        ck!(g.ptr.at() % g.align == 0, "region +{} is not aligned to {}", g.ptr.at() - base, g.align);
        end = g.ptr.at() + g.size;
    }
}

/// Is there an order of all calls that respects real time and in which each does what it says? Every success raises the level, so
/// their order is that of their addresses and the levels in between are known; what remains is whether the moments of these
/// changes can be placed so that every other call finds a moment of its own.
pub fn linearize(recs: &[Rec], base: usize, known: &Known, last: Level) -> Seen {
    let cap = known.cap;
    let mut seen = Seen::default();
    let mut wins: Vec<&Rec> = recs.iter().filter(|r| matches!(r.res, Res::Ok(..))).collect();
    let at = |r: &Rec| if let Res::Ok(p, _) = r.res { p.at() } else { 0 };
    wins.sort_by_key(|r| at(r));
    // levels[k] after k successes.
    let mut levels = vec![0usize];
    for r in &wins {
        let before = *levels.last().unwrap();
        let want = align_up(base + before, r.align);
        ck!(at(r) >= base + before && at(r) + r.size <= base + cap, "{} overlaps the region before it or leaves the storage", show(r, base, known));
        ck!(at(r) == want, "{}: no success explains the level it starts from, the one before it is {}", show(r, base, known), before);
        let after = want - base + r.size;
        if let Res::Ok(_, Some(l)) = &r.res {
            ck!(known.index(*l) == Some(after), "{}: the level behind the region is {}", show(r, base, known), after);
        }
        if let Some(g) = r.given {
            ck!(g == before, "{}: success at level {} although the level was {}", show(r, base, known), g, before);
        }
        levels.push(after);
        seen.taken += 1;
    }
    ck!(known.index(last) == levels.last().copied(), "the level at the end is {:?}, the regions handed out reach to {}", known.index(last), levels.last().unwrap());
    // Moments of the changes: the k-th (from level k-1 to k) within lo[k]..=hi[k].
    let n = wins.len();
    let (mut lo, mut hi) = (vec![0u64; n + 2], vec![u64::MAX; n + 2]);
    let mut why_lo: Vec<Option<&Rec>> = vec![None; n + 2];
    let mut why_hi: Vec<Option<&Rec>> = vec![None; n + 2];
    let fits = |level: usize, r: &Rec| align_up(base + level, r.align).checked_add(r.size).map_or(false, |e| e <= base + cap);
    fn raise<'r>(lo: &mut [u64], why: &mut [Option<&'r Rec>], k: usize, t: u64, r: &'r Rec) {
        if t > lo[k] {
            lo[k] = t;
            why[k] = Some(r);
        }
    }
    fn cap_at<'r>(hi: &mut [u64], why: &mut [Option<&'r Rec>], k: usize, t: u64, r: &'r Rec) {
        if t < hi[k] {
            hi[k] = t;
            why[k] = Some(r);
        }
    }
    for (k, r) in wins.iter().enumerate() {
        raise(&mut lo, &mut why_lo, k + 1, r.begin, r);
        cap_at(&mut hi, &mut why_hi, k + 1, r.end, r);
    }
    for r in recs {
        let mut read = |l: Level| {
            let i = known.index(l);
            let k = match i.and_then(|i| levels.binary_search(&i).ok()) {
                Some(k) => k,
                None => crate::fail!("{}: the level was never {:?}", show(r, base, known), i),
            };
            // Level k lasts from its change (k) to the next (k + 1).
            cap_at(&mut hi, &mut why_hi, k, r.end, r);
            if k < n {
                raise(&mut lo, &mut why_lo, k + 1, r.begin, r);
            }
            levels[k]
        };
        match &r.res {
            Res::Ok(..) | Res::Nothing => (),
            Res::Level(l) => {
                seen.reads += 1;
                let l = read(*l);
                if let Some(g) = r.given {
                    ck!(g == l, "{}: success at level {} although the level was {}", show(r, base, known), g, l);
                }
            }
            Res::Mismatch(l) => {
                seen.mismatches += 1;
                let l = read(*l);
                ck!(r.given != Some(l), "{}: a mismatch with the very level that was named", show(r, base, known));
            }
            Res::Exhausted => {
                seen.exhausted += 1;
                ck!(!fits(r.given.unwrap(), r), "{}: it fits behind that level", show(r, base, known));
            }
            Res::Refused => {
                seen.refused += 1;
                // Refused for good from some level on.
                match levels.iter().position(|&l| !fits(l, r)) {
                    Some(0) => (),
                    Some(k) => cap_at(&mut hi, &mut why_hi, k, r.end, r),
                    None => crate::fail!("{}: refused although it always fits", show(r, base, known)),
                }
            }
        }
    }
    // Level 0 is there from the start.
    hi[0] = u64::MAX;
    let (mut t, mut from) = (0, None);
    for k in 1..=n {
        if lo[k] > t {
            t = lo[k];
            from = why_lo[k];
        }
        ck!(t <= hi[k], "no sequential order explains it: by {} the level was {} or more ({}), which is too late for {}", t, levels[k],
            from.map_or(String::new(), |r| show(r, base, known)), why_hi[k].map_or(String::new(), |r| show(r, base, known)));
    }
    let mut by: Vec<&Rec> = recs.iter().collect();
    by.sort_by_key(|r| r.begin);
    for w in by.windows(2) {
        if w[1].begin < w[0].end && w[0].th != w[1].th {
            seen.overlapping += 1;
        }
    }
    seen
}
