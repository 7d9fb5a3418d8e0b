//! C06: bump allocators over borrowed or heap memory stay inside it and round-trip.
use harness::regions::*;
use harness::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::MemBump;
use std::alloc::Layout;
use std::mem::{self, MaybeUninit};

#[global_allocator]
static BOOKS: books::Books = books::Books;

const HEADER: usize = mem::size_of::<usize>();

struct Slice {
    arena: Arena,
    len: usize,
}

impl Slice {
    /// `len` bytes, `mis` bytes behind an aligned address.
    fn new(len: usize, mis: usize) -> Self {
        Slice { arena: Arena::new(len, 64, mis, 0xA7), len }
    }
    fn lo(&self) -> usize {
        self.arena.addr()
    }
    fn hi(&self) -> usize {
        self.arena.addr() + self.len
    }
    fn bytes(&self) -> &'static mut [MaybeUninit<u8>] {
        // SAFETY: one borrower at a time, within the case.
        unsafe { std::slice::from_raw_parts_mut(self.arena.ptr() as *mut MaybeUninit<u8>, self.len) }
    }
    /// The bytes outside of `occ` still have their first contents.
    fn untouched_outside(&self, occ: (usize, usize), what: &str) {
        for (a, b) in [(self.lo(), occ.0.max(self.lo())), (occ.1.min(self.hi()), self.hi())] {
            if a < b {
                // SAFETY: initialised by the arena.
                let d = unsafe { differs(self.arena.ptr().add(a - self.lo()), &vec![0xA7; b - a]) };
                ck!(d.is_none(), "{}: a byte of the slice outside of the bump's region changed", what);
            }
        }
        self.arena.check_guards();
    }
}

struct Seen {
    at: usize,
    cap: usize,
    data: usize,
}

fn look(b: &MemBump) -> Seen {
    Seen { at: b as *const MemBump as *const u8 as usize, cap: b.capacity(), data: b.data_ptr().as_ptr() as usize }
}

/// Where the region of a bump must be, given the slice.
fn place(c: &mut Case, s: &Slice, b: &MemBump, what: &str) -> Seen {
    let v = look(b);
    ck!(v.at % mem::align_of::<usize>() == 0, "{}: the header is misaligned", what);
    ck!(v.at >= s.lo() && v.at + HEADER <= s.hi(), "{}: the header is outside of the slice", what);
    ck!(v.data >= v.at + HEADER && v.data + v.cap <= s.hi(), "{}: the data area +{}..+{} is outside of the slice of {} bytes behind the header at +{}",
        what, v.data as isize - s.lo() as isize, (v.data + v.cap) as isize - s.lo() as isize, s.len, v.at - s.lo());
    ck!(v.at + mem::size_of_val(b) <= s.hi(), "{}: the object reaches outside of the slice", what);
    c.count("bumps over slices");
    v
}

/// Values, arrays of them and memory for them, written and left there.
fn values(c: &mut Case, b: &MemBump, regions: &mut Regions) {
    fn one<V>(c: &mut Case, b: &MemBump, regions: &mut Regions) {
        let level = b.level();
        let (p, n): (*mut V, usize) = match c.rng.below(5) {
            0 => match b.get::<V>() {
                Some(a) => (a.ptr.as_ptr(), 1),
                None => return,
            },
            1 => match b.get_at::<V>(level) {
                Ok(a) => (a.ptr.as_ptr(), 1),
                Err(_) => return,
            },
            2 => match b.alloc_at(Layout::new::<V>(), level) {
                Ok(p) => (p.as_ptr() as *mut V, 1),
                Err(_) => return,
            },
            3 => match b.bump_box::<V>() {
                Ok(x) => (LeakBox::leak(x).as_mut_ptr(), 1),
                Err(_) => return,
            },
            _ => {
                let n = c.rng.below(9);
                match b.bump_array::<V>(n) {
                    Ok(x) => (LeakBox::leak(x).as_mut_ptr() as *mut V, n),
                    Err(_) => return,
                }
            }
        };
        let size = mem::size_of::<V>() * n;
        let i = regions.add(p as *mut u8, size, mem::align_of::<V>(), c.rng.u64() >> 8);
        regions.fill(i);
        c.count("values");
        if size > 0 {
            ck!(b.level() > level, "the level after a value of {} bytes", size);
        }
    }
    match c.rng.below(6) {
        0 => one::<u8>(c, b, regions),
        1 => one::<u16>(c, b, regions),
        2 => one::<u64>(c, b, regions),
        3 => one::<[u8; 5]>(c, b, regions),
        4 => one::<u128>(c, b, regions),
        _ => one::<[u32; 7]>(c, b, regions),
    }
}

/// Allocate and write in a bump; returns what was written and is still live.
fn work(c: &mut Case, b: &MemBump, regions: &mut Regions, most: usize) {
    let n = c.rng.below(most);
    for _ in 0..n {
        if c.rng.chance(1, 3) {
            values(c, b, regions);
            continue;
        }
        let l = match c.rng.below(5) {
            0 => Layout::from_size_align(b.capacity().max(1), 1).unwrap(),
            1 => Layout::new::<u64>(),
            2 => Layout::from_size_align(c.rng.range(1, 30), 1 << c.rng.below(5)).unwrap(),
            _ => Layout::from_size_align(c.rng.range(1, 8), 1).unwrap(),
        };
        if let Some(p) = b.alloc(l) {
            let tag = c.rng.u64() >> 8;
            let i = regions.add(p.as_ptr(), l.size(), l.align(), tag);
            regions.fill(i);
            c.count("allocations");
        }
    }
    // Often up to the last byte.
    if c.rng.chance(1, 2) {
        let mut n = 0;
        for size in [1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1usize] {
            while let Some(p) = b.alloc(Layout::from_size_align(size, 1).unwrap()) {
                let i = regions.add(p.as_ptr(), size, 1, c.rng.u64() >> 8);
                regions.fill(i);
                n += size;
                ck!(n <= b.capacity(), "more bytes than the capacity");
            }
        }
        c.count("filled to the brim");
    }
    regions.check_contents();
}

fn slice_case(c: &mut Case, len: usize, mis: usize) {
    let s = Slice::new(len, mis);
    c.step(format!("{} bytes at {} mod 64", len, mis));
    let pad = (mem::align_of::<usize>() - s.lo() % mem::align_of::<usize>()) % mem::align_of::<usize>();
    let fits = len >= pad + HEADER;
    c.key("from_mem");
    let b = match MemBump::from_mem(s.bytes()) {
        Ok(b) => {
            ck!(fits, "a bump was made over {} bytes at misalignment {}", len, mis % 8);
            b
        }
        Err(_) => {
            ck!(!fits, "a slice of {} bytes at misalignment {} was refused", len, mis % 8);
            s.untouched_outside((s.lo(), s.lo()), "refused slice");
            c.count("slices refused");
            return;
        }
    };
    let v = place(c, &s, &b, "from_mem");
    // Fresh: the whole capacity is available.
    let zero = b.level();
    if v.cap > 0 {
        let p = b.alloc(Layout::from_size_align(v.cap, 1).unwrap());
        ck!(p.map(|p| p.as_ptr() as usize) == Some(v.data), "a fresh bump does not have its whole capacity available");
        c.nontrivial();
    }
    let mut b = b;
    b.reset();
    ck!(b.level() == zero, "the level of a fresh bump is not that after a reset");
    let mut regions = Regions::new(v.data, v.data + v.cap);
    work(c, &b, &mut regions, 5);
    s.untouched_outside((v.at, v.data + v.cap), "after allocations");
    let rounds = c.rng.range(1, 3);
    for _ in 0..rounds {
        let level = b.level();
        let size = mem::size_of_val(&*b);
        c.step("into_mem");
        c.key("into_mem");
        let back = MemBump::into_mem(b);
        let (at, n) = (back.as_ptr() as usize, back.len());
        ck!(at >= s.lo() && at + n <= s.hi(), "the returned memory reaches outside of the slice");
        ck_eq!(at, v.at, "start of the returned memory");
        ck_eq!(n, size, "length of the returned memory");
        ck!(at + n >= v.data + v.cap, "the returned memory lacks a part of the data area");
        if c.rng.chance(3, 4) {
            c.step("from_mem_unchecked");
            c.key("from_mem_unchecked");
            // SAFETY: came from `into_mem`.
            b = unsafe { MemBump::from_mem_unchecked(back) };
            let w = place(c, &s, &b, "from_mem_unchecked");
            ck_eq!((w.at, w.cap, w.data), (v.at, v.cap, v.data), "header address, capacity and data address after a round trip");
            ck!(b.level() == level, "the level changed by a round trip from {:?} to {:?}", level, b.level());
            regions.check_contents();
            c.count("round trips");
        } else {
            c.step("from_mem again");
            c.key("from_mem again");
            b = match MemBump::from_mem(back) {
                Ok(b) => b,
                Err(_) => fail!("memory returned by into_mem was refused"),
            };
            let w = place(c, &s, &b, "second from_mem");
            ck_eq!((w.at, w.cap, w.data), (v.at, v.cap, v.data), "header address, capacity and data address over the same memory");
            ck!(b.level() == zero, "a new bump over used memory is not fresh");
            regions.check_contents();
            regions.clear();
            c.count("renewals");
        }
        work(c, &b, &mut regions, 3);
    }
    s.untouched_outside((v.at, v.data + v.cap), "at the end");
    // Dropping the box gives nothing back and changes nothing.
    drop(b);
    regions.check_contents();
    s.arena.check_guards();
}

fn heap_case(c: &mut Case) {
    let top = if MIRI { 10 } else if c.rng.chance(1, 8) { 20 } else { 14 };
    let ask = match c.rng.below(5) { 4 => c.rng.round(top), 0 => c.rng.below(20), 1 => c.rng.below(300), 2 => 8 * c.rng.below(40), _ => c.rng.below(if MIRI { 300 } else { 5000 }) };
    c.step(format!("MemBump::new({})", ask));
    c.key("new");
    books::forget_all();
    let mut b = books::tracked(|| MemBump::new(ask));
    ck!(b.capacity() >= ask, "capacity {} is less than the {} asked for", b.capacity(), ask);
    let blocks = books::blocks();
    ck_eq!(blocks.len(), 1, "blocks taken for one heap bump");
    let (lo, hi) = (blocks[0].0, blocks[0].0 + blocks[0].1.size());
    let v = look(&b);
    ck!(v.at == lo && v.data >= lo + HEADER && v.data + v.cap <= hi, "the bump reaches outside of its block");
    let fresh = b.level();
    let mut regions = Regions::new(v.data, v.data + v.cap);
    if ask > 0 {
        ck!(b.alloc(Layout::from_size_align(ask, 1).unwrap()).is_some(), "a fresh heap bump does not have the capacity asked for: level {:?}", fresh);
        b.reset();
        c.nontrivial();
    }
    ck!(b.level() == fresh, "the level of a fresh heap bump is not that after a reset");
    work(c, &b, &mut regions, 6);
    drop(b);
    ck_eq!(books::live(), 0, "blocks not returned by dropping the heap bump");
    ck_eq!(books::wrong(), 0, "blocks returned with another layout");
    books::forget_all();
    c.count("heap bumps");
}

fn main() {
    let mut m = Mon::start("C06");
    books::dirty(true);
    // Every short length at every misalignment.
    m.family("small", 2_600, 130, |c| {
        let i = if MIRI { c.rng.below(2600) as u64 } else { c.idx };
        slice_case(c, (i % 325 / 8) as usize, (i % 8) as usize)
    });
    m.family("any", 30_000, 130, |c| {
        let top = if MIRI { 9 } else if c.rng.chance(1, 16) { 17 } else { 13 };
        let len = match c.rng.below(4) { 3 => c.rng.round(top).max(8), 0 => c.rng.range(8, 100), 1 => 8 * c.rng.range(1, 40), _ => c.rng.range(8, if MIRI { 200 } else { 1500 }) };
        let mis = c.rng.below(64);
        slice_case(c, len, mis)
    });
    m.family("heap", 15_000, 90, heap_case);
    // A bump inside a bump: memory allocated from one is borrowed by the other.
    m.family("nested", 6_000, 60, |c| {
        let s = Slice::new(if MIRI { 300 } else { 900 }, c.rng.below(8));
        let outer = MemBump::from_mem(s.bytes()).ok().expect("enough memory");
        let mut taken: Vec<(usize, usize)> = vec![];
        for _ in 0..c.rng.range(1, 4) {
            let n = c.rng.below(150);
            c.step(format!("inner over {}", n));
            let Ok(arr) = outer.bump_array::<u8>(n) else { continue };
            let mem: &mut [MaybeUninit<u8>] = LeakBox::leak(arr);
            let (lo, hi) = (mem.as_ptr() as usize, mem.as_ptr() as usize + mem.len());
            if let Ok(inner) = MemBump::from_mem(mem) {
                let v = look(&inner);
                ck!(v.at >= lo && v.data + v.cap <= hi, "the inner bump reaches outside of its memory");
                let mut r = Regions::new(v.data, v.data + v.cap);
                work(c, &inner, &mut r, 4);
                let back = MemBump::into_mem(inner);
                ck!(back.as_ptr() as usize >= lo && back.as_ptr() as usize + back.len() <= hi, "the returned memory reaches outside");
                r.check_contents();
                c.count("nested bumps");
                c.nontrivial();
            }
            for &(a, b) in &taken {
                ck!(n == 0 || b <= lo || hi <= a, "two arrays overlap");
            }
            if n > 0 {
                taken.push((lo, hi));
            }
        }
        s.arena.check_guards();
    });
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        // Memory that 32 bits can not count.
        m.family("huge", 100, 0, |c| {
            let (mis, len) = (c.rng.below(64), (5usize << 30) + c.rng.below(200));
            let Some(mem) = huge::Lazy::new(mis + len) else { return c.count("no huge memory") };
            let lo = mem.ptr() as usize + mis;
            c.step(format!("{} bytes", len));
            // SAFETY: exclusively ours.
            let s: &mut [MaybeUninit<u8>] = unsafe { std::slice::from_raw_parts_mut(lo as *mut _, len) };
            let Ok(mut b) = MemBump::from_mem(s) else { fail!("memory of {} bytes was refused", len) };
            let v = look(&b);
            ck!(v.at >= lo && v.at < lo + 8 && v.data >= v.at + HEADER && v.data + v.cap <= lo + len, "the bump reaches outside of its memory");
            let mut made: Vec<(usize, usize, u8)> = vec![];
            for _ in 0..c.rng.range(1, 4) {
                for _ in 0..c.rng.below(4) {
                    let n = *c.rng.pick(&[1usize, 100, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 9]) + c.rng.below(3);
                    let Some(p) = b.alloc(Layout::from_size_align(n, 1).unwrap()) else { continue };
                    let at = p.as_ptr() as usize;
                    ck!(at >= v.data && at + n <= v.data + v.cap, "{} bytes outside of the data area", n);
                    ck!(made.iter().all(|&(a, m, _)| a + m <= at || at + n <= a), "{} bytes that overlap others", n);
                    let tag = c.rng.u64() as u8 | 1;
                    // SAFETY: handed out.
                    unsafe {
                        *p.as_ptr() = tag;
                        *p.as_ptr().add(n - 1) = tag;
                    }
                    made.push((at, n, tag));
                }
                let level = b.level();
                let size = mem::size_of_val(&*b);
                ck!(size >= HEADER + v.cap, "the object has {} bytes for a capacity of {}", size, v.cap);
                let back = MemBump::into_mem(b);
                ck_eq!((back.as_ptr() as usize, back.len()), (v.at, size), "the memory returned");
                // SAFETY: came from `into_mem`.
                b = unsafe { MemBump::from_mem_unchecked(back) };
                let w = look(&b);
                ck_eq!((w.at, w.cap, w.data), (v.at, v.cap, v.data), "header address, capacity and data address after a round trip");
                ck!(b.level() == level, "the level changed by a round trip");
                for &(a, n, tag) in &made {
                    // SAFETY: written before.
                    ck!(unsafe { *(a as *const u8) == tag && *((a + n - 1) as *const u8) == tag }, "contents of {} bytes", n);
                }
                c.count("round trips");
            }
            if made.iter().map(|m| m.1).sum::<usize>() > 1 << 32 {
                c.count("beyond 32 bits");
                c.nontrivial();
            }
        });
    }
    m.finish();
}
