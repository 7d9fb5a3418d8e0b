//! C24: a call outside its documented domain is refused by its panic (or error) and changes nothing else; a call
//! within the domain never panics, whatever its size.
use harness::conc::Placed;
use harness::regions::*;
use harness::track::{self, Tr, A16, A4, A64, A8};
use harness::types::*;
use harness::*;
use static_alloc::bump::Level;
use static_alloc::leaked::{Alloca, LeakBox};
use static_alloc::unsync::{self, MemBump};
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::mem::{align_of, size_of, MaybeUninit};
use std::ops::Bound;
use without_alloc::alloc::{LeakedAllocation, LocalAllocLeakExt};
use without_alloc::rc::Rc;
use without_alloc::uninit::{Uninit, UninitView};
use without_alloc::FixedVec;

const FAR: usize = if MIRI { 1 << 14 } else { 1 << 26 };
static DONOR: Bump<[u8; FAR]> = Bump::uninit();

/// Levels of another allocator, all larger than any capacity used here.
fn foreign() -> Vec<Level> {
    thread_local!(static LEVELS: std::cell::OnceCell<Vec<Level>> = const { std::cell::OnceCell::new() });
    LEVELS.with(|l| {
        l.get_or_init(|| {
            let mut v = vec![];
            let mut at = 0;
            for to in [4096, 4097, 4104, 4608, 8192, FAR / 2 + 1, FAR - 8, FAR] {
                let a = DONOR.get_layout(Layout::from_size_align(to - at, 1).unwrap()).expect("room in the donor");
                v.push(a.level);
                at = to;
            }
            v
        })
        .clone()
    })
}

/// Sizes and alignments up to the largest there are, not zero-sized.
fn extreme(c: &mut Case) -> Layout {
    loop {
        let align = 1usize << c.rng.below(BITS - 1);
        let size = match c.rng.below(6) {
            0 => isize::MAX as usize - c.rng.below(70),
            1 => (isize::MAX as usize) & !(align - 1),
            2 => 1usize << c.rng.below(BITS - 1),
            3 => c.rng.u64() as usize >> 1,
            4 => c.rng.range(1, 9),
            _ => c.rng.range(1, 4096),
        };
        if size > 0 {
            if let Ok(l) = Layout::from_size_align(size, align) {
                return l;
            }
        }
    }
}

fn empty(c: &mut Case) -> Layout {
    let top = if c.rng.chance(1, 2) { 8 } else { BITS - 1 };
    Layout::from_size_align(0, 1 << c.rng.below(top)).unwrap()
}

/// Expect the panic.
fn refused<R>(what: &str, f: impl FnOnce() -> R) {
    ck!(may_panic(f).is_err(), "{} must panic and did not", what);
}

/// A call within the domain.
fn fine<R>(what: &dyn Fn() -> String, f: impl FnOnce() -> R) -> R {
    match may_panic(f) {
        Ok(r) => r,
        Err(_) => fail!("{} is within the domain and panicked: {}", what(), last_panic()),
    }
}

/// What the two kinds of bump have in common.
trait Any {
    fn level(&self) -> Level;
    fn cap(&self) -> usize;
    fn alloc(&self, l: Layout) -> Option<*mut u8>;
    /// Entry points at a level, the successful ones give an address.
    fn alloc_at(&self, via: usize, l: Layout, at: Level) -> Option<*mut u8>;
    fn extreme(&self, via: usize, l: Layout) -> Option<*mut u8>;
    /// A value given to a call at a level: true if placed.
    fn value_at<V>(&self, via: usize, v: V, at: Level) -> bool;
    fn array<V>(&self, n: usize) -> Option<*mut u8>;
}

impl<S> Any for Bump<S> {
    fn level(&self) -> Level {
        self.level()
    }
    fn cap(&self) -> usize {
        size_of::<S>()
    }
    fn alloc(&self, l: Layout) -> Option<*mut u8> {
        self.alloc(l).map(|p| p.as_ptr())
    }
    fn alloc_at(&self, via: usize, l: Layout, at: Level) -> Option<*mut u8> {
        match via % 2 {
            0 => self.alloc_at(l, at).ok().map(|a| a.ptr.as_ptr()),
            _ => self.get_layout_at(l, at).ok().map(|a| a.ptr.as_ptr()),
        }
    }
    fn extreme(&self, via: usize, l: Layout) -> Option<*mut u8> {
        let some = |p: *mut u8| if p.is_null() { None } else { Some(p) };
        match via % 5 {
            0 => self.alloc(l).map(|p| p.as_ptr()),
            1 => self.get_layout(l).map(|a| a.ptr.as_ptr()),
            // SAFETY: the size is not zero.
            2 => some(unsafe { GlobalAlloc::alloc(self, l) }),
            3 if l.size() > 1 << 20 || l.align() > 1 << 20 => some(unsafe { GlobalAlloc::alloc_zeroed(self, l) }),
            _ => self.alloc_at(l, self.level()).ok().map(|a| a.ptr.as_ptr()),
        }
    }
    fn value_at<V>(&self, via: usize, v: V, at: Level) -> bool {
        match via % 3 {
            0 => self.leak_at(v, at).map(|(v, _)| unsafe { std::ptr::drop_in_place(v) }).is_ok(),
            1 => self.leak_box_at(v, at).is_ok(),
            _ => match self.leak_at(v, at) {
                Ok((v, _)) => {
                    // SAFETY: nothing uses it afterwards.
                    unsafe { std::ptr::drop_in_place(v) };
                    true
                }
                Err(e) => {
                    drop(e.into_inner());
                    false
                }
            },
        }
    }
    fn array<V>(&self, n: usize) -> Option<*mut u8> {
        self.fixed_vec::<V>(n).map(|mut v| {
            ck!(v.capacity() >= n, "a vector of capacity {} for {}", v.capacity(), n);
            v.as_mut_ptr() as *mut u8
        })
    }
}

impl Any for MemBump {
    fn level(&self) -> Level {
        self.level()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn alloc(&self, l: Layout) -> Option<*mut u8> {
        self.alloc(l).map(|p| p.as_ptr())
    }
    fn alloc_at(&self, _: usize, l: Layout, at: Level) -> Option<*mut u8> {
        self.alloc_at(l, at).ok().map(|p| p.as_ptr())
    }
    fn extreme(&self, via: usize, l: Layout) -> Option<*mut u8> {
        match via % 2 {
            0 => self.alloc(l).map(|p| p.as_ptr()),
            _ => self.alloc_at(l, self.level()).ok().map(|p| p.as_ptr()),
        }
    }
    fn value_at<V>(&self, _: usize, v: V, at: Level) -> bool {
        match self.get_at::<V>(at) {
            // SAFETY: fresh memory for a `V`, and nothing uses the value afterwards.
            Ok(a) => unsafe {
                std::ptr::drop_in_place(a.leak(v));
                true
            },
            Err(_) => {
                drop(v);
                false
            }
        }
    }
    fn array<V>(&self, n: usize) -> Option<*mut u8> {
        self.bump_array::<V>(n).ok().map(|b| {
            ck_eq!(b.len(), n, "length of an array");
            LeakBox::leak(b).as_mut_ptr() as *mut u8
        })
    }
}

/// Refused and accepted calls in turn; `lo..hi` is the memory.
fn bump<B: Any + ?Sized>(c: &mut Case, b: &B, lo: usize, hi: usize) {
    let far = foreign();
    let mut all = Regions::new(lo, hi);
    let n = c.rng.range(3, if c.miri { 12 } else { 30 });
    for _ in 0..n {
        let level = b.level();
        let via = c.rng.below(60);
        match c.rng.below(9) {
            0 => {
                let l = empty(c);
                c.step(format!("alloc {:?}", l));
                refused("an allocation of size 0", || b.alloc(l));
                ck!(b.level() == level, "a refused allocation of size 0 changed the level");
                c.count("empty layouts refused");
            }
            1 => {
                // Whether this is refused is not documented, but it takes nothing.
                let l = empty(c);
                c.step(format!("alloc_at {:?}", l));
                let _ = may_panic(|| b.alloc_at(via, l, level));
                ck!(b.level() >= level, "the level fell");
                ck!(b.level() == level || l.align() > 1, "an empty request changed the level");
                c.count("empty layouts at a level");
            }
            2 | 3 => {
                let at = *c.rng.pick(&far);
                let l = if c.rng.chance(1, 4) { extreme(c) } else { Layout::from_size_align(c.rng.range(1, 40), 1 << c.rng.below(5)).unwrap() };
                c.step(format!("alloc_at {:?} far", l));
                if let Ok(Some(_)) = may_panic(|| b.alloc_at(via, l, at)) {
                    fail!("{:?} was allocated at a level beyond the capacity", l);
                }
                ck!(b.level() == level, "a call with a level of another allocator changed the level");
                c.count("foreign levels refused");
            }
            4 => {
                let at = *c.rng.pick(&far);
                let before = track::created();
                let kind = c.rng.below(5);
                c.step(format!("value {} far", kind));
                let placed = may_panic(|| match kind {
                    0 => b.value_at(via, Tr::<A4, 0>::new(), at),
                    1 => b.value_at(via, Tr::<A8, 24>::new(), at),
                    2 => b.value_at(via, Tr::<A64, 40>::new(), at),
                    3 => b.value_at(via, track::Z::<A4>::new(), at),
                    _ => b.value_at(via, B1::mk(), at),
                });
                if let Ok(true) = placed {
                    fail!("a value was placed at a level beyond the capacity");
                }
                if let Err(e) = placed {
                    drop(e);
                    c.count("panics with a value");
                }
                ck!(b.level() == level, "a call with a level of another allocator changed the level");
                for id in before..track::created() {
                    ck_eq!(track::drops_of(id), 1, "destructions of the value of a refused call");
                }
                track::check_all_dropped();
                c.count("values refused");
            }
            5 => {
                let l = extreme(c);
                c.step(format!("extreme {:?}", l));
                let r = fine(&|| format!("an allocation of {:?}", l), || b.extreme(via, l));
                match r {
                    Some(p) => {
                        let i = all.add(p, l.size(), l.align(), c.rng.u64());
                        all.fill(i);
                        c.nontrivial();
                    }
                    None => ck!(b.level() == level, "a refused allocation changed the level"),
                }
                c.count("extreme layouts");
            }
            6 => {
                let n = hostile_count(&mut c.rng, 8);
                let kind = c.rng.below(4);
                c.step(format!("array {} {}", n, kind));
                let (p, size, align) = fine(&|| format!("an array of {} elements", n), || match kind {
                    0 => (b.array::<u8>(n), n as u128, 1),
                    1 => (b.array::<[u8; 3]>(n), 3 * n as u128, 1),
                    2 => (b.array::<u64>(n), 8 * n as u128, 8),
                    _ => (b.array::<[u64; 0]>(n), 0, 8),
                });
                match p {
                    Some(p) if size > 0 => {
                        ck!(size <= b.cap() as u128, "an array of {} bytes from {}", size, b.cap());
                        let i = all.add(p, size as usize, align, c.rng.u64());
                        all.fill(i);
                        c.nontrivial();
                    }
                    Some(_) => {}
                    None => {
                        ck!(size > 0, "an array without bytes was refused");
                        ck!(b.level() == level, "a refused array changed the level");
                    }
                }
                c.count("hostile arrays");
            }
            _ => {
                let l = Layout::from_size_align(c.rng.range(1, 30), 1 << c.rng.below(5)).unwrap();
                c.step(format!("alloc {:?}", l));
                let r = fine(&|| format!("an allocation of {:?}", l), || b.alloc(l));
                // A refusal has to be right even after refused calls: exactness is that of C03 and C05.
                match r {
                    Some(p) => {
                        let i = all.add(p, l.size(), l.align(), c.rng.u64());
                        all.fill(i);
                        c.nontrivial();
                        c.count("allocations between");
                    }
                    None => {
                        let free = b.cap() - all.live.iter().map(|r| r.at + r.size - lo).max().unwrap_or(0).min(b.cap());
                        ck!(free < l.size() + l.align() + 16, "{:?} was refused with {} bytes left", l, free);
                        ck!(b.level() == level, "a refused allocation changed the level");
                    }
                }
            }
        }
        all.check_contents();
        track::check_sane();
    }
}

fn shared<S: 'static>(c: &mut Case) {
    let p = Placed::<S>::new(Bump::uninit(), &mut c.rng);
    let b = p.get();
    let lo = b as *const _ as usize;
    bump(c, b, lo, lo + size_of::<Bump<S>>());
    p.check_guards();
}

fn unshared<S: 'static>(c: &mut Case) {
    let mut place: Box<unsync::Bump<S>> = Box::new(unsync::Bump::uninit());
    let b: &mut MemBump = &mut place;
    let lo = b.data_ptr().as_ptr() as usize;
    let hi = lo + b.capacity();
    bump(c, b, lo, hi);
}

fn borrowed(c: &mut Case) {
    let (len, mis) = (c.rng.range(16, 400), c.rng.below(16));
    let mut mem = Arena::new(len, 16, mis, 0xA5);
    {
        let slice = mem.mem();
        let (from, to) = (slice.as_ptr() as usize, slice.as_ptr() as usize + slice.len());
        if let Ok(b) = MemBump::from_mem(slice) {
            ck!(b.data_ptr().as_ptr() as usize >= from, "data before the memory");
            let lo = b.data_ptr().as_ptr() as usize;
            let hi = lo + b.capacity();
            ck!(hi <= to, "data behind the memory");
            bump(c, &*b, lo, hi);
        }
    }
    mem.check_guards();
}

fn heap(c: &mut Case) {
    if c.rng.chance(1, 3) {
        // The header does not fit into any object with that much data.
        let cap = *c.rng.pick(&[usize::MAX, usize::MAX - 7, usize::MAX - 8, usize::MAX - 15, isize::MAX as usize, isize::MAX as usize - size_of::<usize>() + 1, 1 << (BITS - 1)]);
        c.step(format!("MemBump::new({})", cap));
        refused("a bump larger than any object", || MemBump::new(cap));
        c.count("impossible capacities");
        c.nontrivial();
        return;
    }
    let cap = c.rng.below(300);
    let b = MemBump::new(cap);
    let lo = b.data_ptr().as_ptr() as usize;
    let hi = lo + b.capacity();
    bump(c, &*b, lo, hi);
}

// ---------------------------------------------------------------- vectors

fn bad_range(c: &mut Case, len: usize) -> (Bound<usize>, Bound<usize>) {
    let mut at = || match c.rng.below(6) {
        0 => usize::MAX,
        1 => usize::MAX - 1,
        2 => len + 1 + c.rng.below(4),
        3 => len,
        _ => c.rng.below(len + 1),
    };
    let (a, b) = (at(), at());
    let one = |r: usize, n: usize| match r {
        0 => Bound::Included(n),
        1 => Bound::Excluded(n),
        _ => Bound::Unbounded,
    };
    let (x, y) = (c.rng.below(3), c.rng.below(3));
    (one(x, a), one(y, b))
}

/// Start and end, if the range is one of a slice of `len`.
fn resolve(r: (Bound<usize>, Bound<usize>), len: usize) -> Option<(usize, usize)> {
    let s = match r.0 {
        Bound::Included(n) => n as u128,
        Bound::Excluded(n) => n as u128 + 1,
        Bound::Unbounded => 0,
    };
    let e = match r.1 {
        Bound::Included(n) => n as u128 + 1,
        Bound::Excluded(n) => n as u128,
        Bound::Unbounded => len as u128,
    };
    if s <= e && e <= len as u128 { Some((s as usize, e as usize)) } else { None }
}

fn vector<T: Tv>(c: &mut Case) {
    let cap = c.rng.below(9);
    let mut store: Vec<MaybeUninit<T>> = (0..cap).map(|_| MaybeUninit::uninit()).collect();
    let mut v = FixedVec::new(Uninit::from(&mut store[..]));
    let mut ids: Vec<Option<u32>> = vec![];
    let mut gone = 0u64;
    let n = c.rng.range(3, 14);
    for _ in 0..n {
        let (len, cap) = (v.len(), v.capacity());
        let drops = |_: ()| track::with(|l| l.drops.iter().map(|&d| d as u64).sum::<u64>() + l.zst_drops);
        match c.rng.below(8) {
            0 | 1 if ids.len() < 40 => {
                let x = T::mk();
                let id = x.ident();
                match fine(&|| "push".into(), || v.push(x)) {
                    Ok(()) => {
                        ck!(len < cap, "pushed into a full vector");
                        ids.push(id);
                    }
                    Err(x) => {
                        ck!(len == cap, "refused with room");
                        ck!(x.intact_as(id), "the value given back");
                        drop(x);
                        gone += 1;
                    }
                }
                c.step("push");
            }
            2 | 3 if size_of::<T>() > 0 || !c.rng.chance(1, 2) => {
                let at = match c.rng.below(4) {
                    0 => usize::MAX,
                    1 => cap.saturating_add(1),
                    2 => (usize::MAX / size_of::<T>().max(1)).saturating_add(1),
                    _ => cap.saturating_add(c.rng.range(1, 1000)),
                };
                if at <= cap {
                    continue;
                }
                c.step(format!("split {}", at));
                if c.rng.chance(1, 2) {
                    refused("split_borrowed behind the capacity", || v.split_borrowed(at).len());
                } else {
                    refused("split_and_shrink_to behind the capacity", || v.split_and_shrink_to(at).len());
                }
                c.count("splits refused");
            }
            4 | 5 => {
                let r = bad_range(c, len);
                c.step(format!("drain {:?} of {}", r, len));
                match resolve(r, len) {
                    Some((s, e)) => {
                        let k = fine(&|| format!("drain {:?} of {}", r, len), || {
                            let d = v.drain(r);
                            ck_eq!(d.len(), e - s, "drained elements");
                            d.count()
                        });
                        ck_eq!(k, e - s, "drained elements");
                        ids.drain(s..e);
                        gone += (e - s) as u64;
                        c.count("ranges drained");
                    }
                    None => {
                        refused("a drain out of range", || v.drain(r).len());
                        c.count("ranges refused");
                    }
                }
            }
            6 => {
                let (r, i) = (bad_range(c, len), len.saturating_add(c.rng.below(3)));
                c.step(format!("index {:?} {}", r, i));
                refused("an index behind the length", || v[i].ident());
                refused("a mutable index behind the length", || (&mut v[i]).ident());
                if resolve(r, len).is_none() {
                    refused("a slice out of range", || v.as_slice()[r].len());
                    if let (Bound::Included(a), Bound::Excluded(b)) = r {
                        refused("a slice out of range", || v[a..b].len());
                        refused("a mutable slice out of range", || (&mut v[a..b]).len());
                    }
                }
                c.count("indices refused");
            }
            _ if ids.len() < 30 && cap < 64 => {
                // One more than there is room for.
                let room = cap - len;
                let extra = c.rng.range(1, 4);
                c.step(format!("extend {} + {}", room, extra));
                let pulled = Cell::new(0);
                let new = std::cell::RefCell::new(vec![]);
                refused("an extend behind the capacity", || {
                    v.extend((0..room + extra).map(|_| {
                        pulled.set(pulled.get() + 1);
                        let x = T::mk();
                        new.borrow_mut().push(x.ident());
                        x
                    }))
                });
                let new = new.into_inner();
                ck!(new.len() >= room, "extend gave up before the vector was full");
                ids.extend(&new[..room]);
                gone += (new.len() - room) as u64;
                c.count("extends refused");
                c.nontrivial();
            }
            _ => {
                let to = if c.rng.chance(1, 2) { len } else { usize::MAX - c.rng.below(2) };
                c.step(format!("truncate {}", to));
                fine(&|| format!("truncate({})", to), || v.truncate(to));
            }
        }
        ck_eq!(v.len(), ids.len(), "length after the call");
        ck_eq!(v.capacity(), cap, "capacity after the call");
        ck!(v.iter().zip(&ids).all(|(x, id)| x.intact_as(*id)), "contents after the call");
        ck_eq!(drops(()), gone, "destructions");
        track::check_sane();
    }
    drop(v);
    track::check_all_dropped();
}

// ---------------------------------------------------------------- counted, invented, scratch

fn counted<T: Tv>(c: &mut Case) {
    let want = Rc::<T>::layout();
    let mis = c.rng.below(want.align() * 2);
    let len = match c.rng.below(4) {
        0 => want.size(),
        1 => want.size() - 1,
        2 => c.rng.below(want.size() + 1),
        _ => want.size() + c.rng.below(40),
    };
    let mis = if c.rng.chance(1, 3) { 0 } else { mis };
    let fill = c.rng.u64() as u8;
    let mut mem = Arena::new(len, want.align() * 2, mis, fill);
    let base = mem.addr();
    let fits = base % want.align() == 0 && len >= want.size();
    c.step(format!("Rc of {:?} in {} bytes at {}", want, len, base % want.align()));
    let val = T::mk();
    let id = val.ident();
    let slice = mem.mem();
    let n = slice.len();
    // SAFETY: the arena is borrowed mutably for as long.
    let uninit = unsafe { Uninit::from_memory(std::ptr::NonNull::new(slice.as_mut_ptr() as *mut u8).unwrap(), n) };
    if fits {
        let rc = fine(&|| "Rc::new with memory that fits".into(), || Rc::new(val, uninit));
        ck!(rc.intact_as(id), "the value of an Rc");
        ck_eq!((Rc::strong_count(&rc), Rc::weak_count(&rc)), (1, 1), "counts");
        ck!(&*rc as *const T as usize >= base && &*rc as *const T as usize + size_of::<T>() <= base + len, "the value lies in the memory");
        drop(rc);
        c.count("memory accepted");
    } else {
        refused("Rc::new with memory that does not fit", || Rc::new(val, uninit));
        track::check_all_dropped();
        // SAFETY: initialised by the arena, nothing may have been written.
        let same = unsafe { std::slice::from_raw_parts(mem.ptr(), len) }.iter().all(|&b| b == fill);
        ck!(same, "a refused Rc wrote to its memory");
        c.count("memory refused");
        c.nontrivial();
    }
    track::check_all_dropped();
    mem.check_guards();
}

fn invented<T>(c: &mut Case) {
    let size = size_of::<T>();
    c.step(format!("invent size {} align {}", size, align_of::<T>()));
    if size == 0 {
        let u = fine(&|| "invent_for_zst".into(), || Uninit::<T>::invent_for_zst());
        ck!(u.as_ptr() as usize % align_of::<T>() == 0, "alignment of an invented value");
        let w = fine(&|| "invent_for_zst".into(), || UninitView::<T>::invent_for_zst());
        ck!(w.as_ptr() as usize % align_of::<T>() == 0, "alignment of an invented value");
        let l = fine(&|| "zst_fake_alloc".into(), || LeakedAllocation::<T>::zst_fake_alloc());
        ck!(l.uninit.as_ptr() as usize % align_of::<T>() == 0, "alignment of an invented value");
        c.count("invented");
    } else {
        refused("invent_for_zst of a type with a size", || Uninit::<T>::invent_for_zst().byte_capacity());
        refused("invent_for_zst of a type with a size", || UninitView::<T>::invent_for_zst().byte_capacity());
        refused("zst_fake_alloc of a type with a size", || LeakedAllocation::<T>::zst_fake_alloc().uninit.byte_capacity());
        c.count("inventions refused");
    }
    c.nontrivial();
}

fn scratch<T: Tv>(c: &mut Case) {
    let size = size_of::<T>().max(1);
    let len = match c.rng.below(3) {
        0 => ((1 << 20) / size + c.rng.range(1, 100)).max(1),
        1 => (isize::MAX as usize / size).saturating_sub(c.rng.range(3, 300)),
        _ => 1usize << c.rng.range(21, BITS - 9),
    };
    if size_of::<T>() == 0 || (len as u128) * size as u128 > isize::MAX as u128 - 4096 {
        return;
    }
    c.step(format!("alloca {} of {}", len, size));
    let Some(a) = fine(&|| format!("Alloca::new({})", len), || Alloca::<T>::new(len)) else {
        fail!("{} elements of {} bytes are representable", len, size)
    };
    let held = T::mk();
    let ran = Cell::new(false);
    let flag = &ran;
    refused("scratch memory of more than a MiB", || {
        a.run(move |s| {
            flag.set(true);
            drop(held);
            s.len()
        })
    });
    ck!(!ran.get(), "the closure of a refused run was called");
    track::check_all_dropped();
    c.count("scratch refused");
    c.nontrivial();
}

// ---------------------------------------------------------------- views of memory

/// Every operation of a view is defined for every argument: it gives a part or refuses, and never panics.
macro_rules! views {
    ($name:ident, $V:ident) => {
        fn $name<T: 'static>(c: &mut Case) {
            let (size, align) = (size_of::<T>(), align_of::<T>());
            let len = match c.rng.below(4) {
                0 => 0,
                1 => c.rng.below(size + 2),
                _ => c.rng.below(size * 6 + 20),
            };
            let mis = c.rng.below(64);
            let mut mem = Arena::new(len, 128, mis, 0xC9);
            let base = mem.addr();
            // SAFETY: the arena outlives the view.
            let whole = unsafe { $V::<()>::from_memory(std::ptr::NonNull::new(mem.ptr()).unwrap(), len) };
            c.step(format!("{} bytes at {} mod 64, size {} align {}", len, base % 64, size, align));
            let at = |c: &mut Case, n: usize| match c.rng.below(6) {
                0 => usize::MAX - c.rng.below(3),
                1 => hostile_count(&mut c.rng, size),
                2 => n.saturating_add(c.rng.range(1, 9)),
                3 => n,
                _ => c.rng.below(n.min(1 << 20) + 1),
            };
            // The parts of a split lie in the memory split, in order.
            let part = |what: &str, from: usize, n: usize, kept: (usize, usize), given: (usize, usize)| {
                ck!(kept.1 <= n && given.1 <= n && kept.1 + given.1 <= n, "{}: {} and {} bytes of {}", what, kept.1, given.1, n);
                for (a, k) in [kept, given] {
                    ck!(k == 0 || a >= from && a + k <= from + n, "{}: a part outside the memory", what);
                }
                ck!(kept.1 == 0 || given.1 == 0 || kept.0 + kept.1 <= given.0 || given.0 + given.1 <= kept.0, "{}: parts overlap", what);
            };
            let mut raw = whole;
            let n = c.rng.below(7);
            for _ in 0..n {
                let (from, n) = (raw.as_ptr() as usize, raw.size());
                match c.rng.below(5) {
                    0 => {
                        let l = if c.rng.chance(1, 3) { empty(c) } else { extreme(c) };
                        c.step(format!("split_layout {:?}", l));
                        let r = fine(&|| format!("split_layout({:?}) of {}", l, n), || raw.split_layout(l));
                        match r {
                            Some(p) => {
                                // The rest is given, the memory of the layout is kept, or the other way round.
                                part("split_layout", from, n, (raw.as_ptr() as usize, raw.size()), (p.as_ptr() as usize, p.size()));
                            }
                            None => ck!(raw.as_ptr() as usize == from && raw.size() == n, "a refused split changed the view"),
                        }
                        c.count("layouts split off");
                    }
                    1 => {
                        let k = at(c, n);
                        c.step(format!("split_at_byte {}", k));
                        let r = fine(&|| format!("split_at_byte({}) of {}", k, n), || raw.split_at_byte(k));
                        match r {
                            Some(p) => {
                                ck!(k <= n, "a split behind the end");
                                part("split_at_byte", from, n, (raw.as_ptr() as usize, raw.size()), (p.as_ptr() as usize, p.size()));
                                if c.rng.chance(1, 2) {
                                    raw = p;
                                }
                            }
                            None => ck!(k > n && raw.size() == n, "split_at_byte({}) of {} was refused", k, n),
                        }
                        c.count("bytes split off");
                    }
                    2 => {
                        c.step("split_cast");
                        let r = fine(&|| format!("split_cast of {} bytes", n), || raw.split_cast::<T>());
                        match r {
                            Some(p) => part("split_cast", from, n, (raw.as_ptr() as usize, raw.size()), (p.as_ptr() as usize, p.size())),
                            None => ck!(raw.as_ptr() as usize == from && raw.size() == n, "a refused cast changed the view"),
                        }
                    }
                    3 => {
                        c.step("split_to_fit");
                        let r = fine(&|| format!("split_to_fit of {} bytes", n), || raw.split_to_fit());
                        part("split_to_fit", from, n, (raw.as_ptr() as usize, raw.size()), (r.as_ptr() as usize, r.size()));
                        raw = r;
                    }
                    _ => {
                        let l = if c.rng.chance(1, 2) { empty(c) } else { extreme(c) };
                        let r = fine(&|| format!("fits({:?})", l), || raw.fits(l));
                        ck!(r == (from % l.align() == 0 && l.size() <= n), "fits({:?}) of {} bytes at {:#x}", l, n, from);
                    }
                }
            }
            let (from, n) = (raw.as_ptr() as usize, raw.size());
            let fit = from % align == 0;
            match fine(&|| "cast".into(), || raw.cast::<T>()) {
                Ok(one) => {
                    ck!(fit && n >= size && one.size() == n, "a cast of {} bytes at {:#x}", n, from);
                    let mut one = one;
                    let k = at(c, n);
                    let r = fine(&|| format!("split_at_byte({}) of {}", k, n), || one.split_at_byte(k));
                    ck!(r.is_some() == (k >= size && k <= n), "split_at_byte({}) of {} bytes for one of {}", k, n, size);
                    let m = one.size();
                    let rest = fine(&|| "split_to_fit".into(), || one.split_to_fit());
                    ck!(one.size() == size && rest.size() == m - size, "split_to_fit of {} bytes", m);
                    raw = fine(&|| "cast".into(), || one.cast::<()>().ok()).unwrap();
                    c.nontrivial();
                }
                Err(same) => {
                    ck!(!(fit && n >= size) && same.size() == n, "a cast of {} bytes at {:#x} was refused", n, from);
                    raw = same;
                }
            }
            let n = raw.size();
            let mut all = match fine(&|| "cast_slice".into(), || raw.cast_slice::<T>()) {
                Ok(all) if fit => all,
                Ok(_) => fail!("a misaligned slice"),
                Err(same) => {
                    ck!(!fit && same.size() == n, "a slice of {} bytes at {:#x} was refused", n, from);
                    fine(&|| "empty".into(), || $V::<[T]>::empty())
                }
            };
            for _ in 0..c.rng.range(2, 9) {
                let (from, n, cap) = (all.as_begin_ptr() as usize, all.size(), all.capacity());
                ck!(cap == n.checked_div(size).unwrap_or(usize::MAX), "a capacity of {} with {} bytes for elements of {}", cap, n, size);
                let k = c.rng.below(5);
                c.step(format!("{} of {}", ["split_at", "split_first", "split_last", "shrink_to_fit", "empty"][k], n));
                match k {
                    0 => {
                        let k = at(c, cap);
                        let r = fine(&|| format!("split_at({}) of {}", k, cap), || all.split_at(k));
                        ck_eq!(r.is_some(), k <= cap, "split_at({}) of {}", k, cap);
                        match r {
                            Some(p) => {
                                part("split_at", from, n, (all.as_begin_ptr() as usize, all.size()), (p.as_begin_ptr() as usize, p.size()));
                                if c.rng.chance(1, 2) {
                                    all = p;
                                }
                            }
                            None => ck!(all.size() == n, "a refused split changed the view"),
                        }
                    }
                    1 | 2 => {
                        let r = fine(&|| format!("split of an end of {} elements", cap), || if k == 1 { all.split_first() } else { all.split_last() });
                        ck_eq!(r.is_some(), cap > 0, "an end of {} elements", cap);
                        match r {
                            Some(p) => part("split of an end", from, n, (all.as_begin_ptr() as usize, all.size()), (p.as_ptr() as usize, p.size())),
                            None => {
                                ck!(all.size() == n && all.as_begin_ptr() as usize == from, "a refused split changed the view");
                                c.count("ends of nothing refused");
                            }
                        }
                    }
                    3 => {
                        let r = fine(&|| "shrink_to_fit".into(), || all.shrink_to_fit());
                        part("shrink_to_fit", from, n, (all.as_begin_ptr() as usize, all.size()), (r.as_ptr() as usize, r.size()));
                        ck!(size == 0 || all.capacity() == cap, "shrink_to_fit changed the capacity");
                    }
                    _ => {
                        let e = fine(&|| "empty".into(), || if c.rng.chance(1, 2) { $V::<[T]>::empty() } else { Default::default() });
                        ck!(e.size() == 0 && e.as_begin_ptr() as usize % align == 0, "an empty view");
                        if c.rng.chance(1, 4) {
                            all = e;
                        }
                    }
                }
                c.count("slices");
            }
            mem.check_guards();
        }
    };
}
views!(unique_views, Uninit);
views!(shared_views, UninitView);

fn main() {
    let mut m = Mon::start("C24");
    m.family("shared", 4_000, 60, |c| {
        track::reset();
        match c.rng.below(8) {
            0 => shared::<()>(c),
            1 => shared::<[u8; 1]>(c),
            2 => shared::<[u8; 61]>(c),
            3 => shared::<[u16; 33]>(c),
            4 => shared::<[u64; 40]>(c),
            5 => shared::<[u128; 7]>(c),
            6 => shared::<(A64, [u8; 200])>(c),
            _ => shared::<[u8; 4000]>(c),
        }
    });
    m.family("unshared", 4_000, 60, |c| {
        track::reset();
        match c.rng.below(8) {
            0 => unshared::<()>(c),
            1 => unshared::<[u8; 1]>(c),
            2 => unshared::<[u8; 61]>(c),
            3 => unshared::<[u16; 33]>(c),
            4 => unshared::<[u64; 40]>(c),
            5 => unshared::<[u128; 7]>(c),
            6 => unshared::<(A64, [u8; 200])>(c),
            _ => unshared::<[u8; 4000]>(c),
        }
    });
    m.family("borrowed", 3_000, 50, |c| {
        track::reset();
        borrowed(c)
    });
    m.family("heap", 2_000, 40, |c| {
        track::reset();
        heap(c)
    });
    m.family("vector", 8_000, 120, |c| {
        track::reset();
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => vector::<T>(c))
    });
    m.family("counted", 6_000, 80, |c| {
        track::reset();
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => counted::<T>(c))
    });
    m.family("invented", 60, 14, |c| match c.idx % 14 {
        0 => invented::<()>(c),
        1 => invented::<u8>(c),
        2 => invented::<[u64; 0]>(c),
        3 => invented::<[u64; 1]>(c),
        4 => invented::<A16>(c),
        5 => invented::<(A64, u8)>(c),
        6 => invented::<track::Z<A64>>(c),
        7 => invented::<&'static u8>(c),
        8 => invented::<String>(c),
        9 => invented::<std::marker::PhantomData<String>>(c),
        10 => invented::<Option<()>>(c),
        11 => invented::<[u8; 3]>(c),
        12 => invented::<[(); 30]>(c),
        _ => invented::<bool>(c),
    });
    m.family("views", 12_000, 100, |c| {
        macro_rules! go { ($($i:literal $T:ty),*) => { match c.idx / 2 % 11 {
            $($i => if c.idx % 2 == 0 { unique_views::<$T>(c) } else { shared_views::<$T>(c) })*
            _ => unreachable!(),
        } } }
        go!(0 u8, 1 u16, 2 [u8; 3], 3 u64, 4 (), 5 [u32; 0], 6 A64, 7 [u16; 9], 8 (A16, u8), 9 [u64; 40], 10 String)
    });
    m.family("scratch", 2_000, 30, |c| {
        track::reset();
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => scratch::<T>(c))
    });
    m.finish()
}
