//! Bumps over more memory than 32 bits can count, of which only a few pages are touched.
use crate::{ck, fail, Case};
use static_alloc::bump::{Failure, Level};
use static_alloc::unsync::MemBump;
use static_alloc::Bump;
use std::alloc::Layout;

pub const CAP: usize = (5 << 30) + 4096 + 40;

pub trait Both {
    fn level(&self) -> Level;
    fn alloc(&self, l: Layout) -> Option<*mut u8>;
    fn alloc_at(&self, l: Layout, at: Level) -> Result<*mut u8, Failure>;
    fn word_at(&self, at: Level) -> Result<*mut u64, Failure>;
}

impl<S> Both for Bump<S> {
    fn level(&self) -> Level {
        self.level()
    }
    fn alloc(&self, l: Layout) -> Option<*mut u8> {
        self.alloc(l).map(|p| p.as_ptr())
    }
    fn alloc_at(&self, l: Layout, at: Level) -> Result<*mut u8, Failure> {
        self.alloc_at(l, at).map(|a| a.ptr.as_ptr())
    }
    fn word_at(&self, at: Level) -> Result<*mut u64, Failure> {
        self.get_at::<u64>(at).map(|a| a.ptr.as_ptr())
    }
}

impl Both for MemBump {
    fn level(&self) -> Level {
        self.level()
    }
    fn alloc(&self, l: Layout) -> Option<*mut u8> {
        self.alloc(l).map(|p| p.as_ptr())
    }
    fn alloc_at(&self, l: Layout, at: Level) -> Result<*mut u8, Failure> {
        self.alloc_at(l, at).map(|p| p.as_ptr())
    }
    fn word_at(&self, at: Level) -> Result<*mut u64, Failure> {
        self.get_at::<u64>(at).map(|a| a.ptr.as_ptr())
    }
}

extern "C" {
    fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(at: *mut u8, len: usize) -> i32;
}

/// Zeroed pages that take up memory once they are touched.
pub struct Lazy(*mut u8, usize);
impl Lazy {
    pub fn new(len: usize) -> Option<Lazy> {
        // SAFETY: a fresh private anonymous mapping without reservation.
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
        if p as isize == -1 { None } else { Some(Lazy(p, len)) }
    }
    pub fn ptr(&self) -> *mut u8 {
        self.0
    }
}
impl Drop for Lazy {
    fn drop(&mut self) {
        // SAFETY: from `new`.
        unsafe { munmap(self.0, self.1) };
    }
}

/// A zeroed shared Bump of that size, if a fresh one is all zeroes (it can not be moved in place).
pub fn shared(f: impl FnOnce(&Bump<[u8; CAP]>)) -> bool {
    let small: Bump<[u8; 64]> = Bump::zeroed();
    let n = std::mem::size_of_val(&small);
    // SAFETY: within the object. There is no padding that would matter.
    let zero = (0..n).all(|i| unsafe { (&small as *const _ as *const u8).add(i).read_volatile() } == 0);
    if !zero {
        return false;
    }
    match Lazy::new(std::mem::size_of::<Bump<[u8; CAP]>>()) {
        // SAFETY: the fresh state is all zeroes.
        Some(m) => f(unsafe { &*(m.ptr() as *const Bump<[u8; CAP]>) }),
        None => return false,
    }
    true
}

/// A fresh bump of `cap` bytes in `lo..hi`.
pub fn drive<B: Both + ?Sized>(c: &mut Case, b: &B, lo: usize, hi: usize, cap: usize) {
    let mut live: Vec<(*mut u8, usize, u8)> = vec![];
    let Some(first) = b.alloc(Layout::new::<u8>()) else { fail!("a fresh bump has no room for a byte") };
    let base = first as usize;
    ck!(lo <= base && base + cap <= hi, "the data does not lie in the memory");
    note(&mut live, first, 1, 3);
    let mut at = 1usize;
    let mut levels = vec![b.level()];
    let mut full = 0;
    while full < 3 && live.len() < 60 {
        let left = cap - at;
        let size = match c.rng.below(9) {
            0 => (1usize << 32) + c.rng.below(5) - 2,
            1 => (1usize << 31) + c.rng.below(5) - 2,
            2 => left + c.rng.below(3) - (left > 0) as usize,
            3 => c.rng.range(1, 1 << 30),
            4 => left.saturating_sub(1 << 32) + c.rng.below(9),
            5 => c.rng.range(1, 1 << 20),
            _ => c.rng.range(1, 64),
        }
        .max(1);
        let align = if c.rng.chance(1, 6) { 1 << c.rng.range(10, 33) } else { 1 << c.rng.below(7) };
        let start = (base + at).next_multiple_of(align) - base;
        let fits = start + size <= cap;
        let l = Layout::from_size_align(size, align).unwrap();
        let via = c.rng.below(4);
        c.step(format!("{} {:?}", via, l));
        let now = b.level();
        ck!(now == *levels.last().unwrap(), "the level changed between calls");
        let got = match via {
            0 => b.alloc(l),
            1 => match b.alloc_at(l, now) {
                Ok(p) => Some(p),
                Err(Failure::Exhausted) => None,
                Err(e) => fail!("{:?} at the current level", e),
            },
            2 if levels.len() > 1 => {
                // A level of the past is told the current one, or that it would not have fit.
                let old = levels[c.rng.below(levels.len() - 1)];
                match b.alloc_at(Layout::from_size_align(1, 1).unwrap(), old) {
                    Err(Failure::Mismatch { observed }) => ck!(observed == now, "the level observed"),
                    r => fail!("{:?} at a level of the past", r.is_ok()),
                }
                b.alloc(l)
            }
            _ => {
                let word = (base + at).next_multiple_of(8) - base;
                match b.word_at(now) {
                    Ok(p) => {
                        ck!(word + 8 <= cap && p as usize - base == word, "a word at {} instead of {} of {}", p as usize - base, word, cap);
                        note(&mut live, p as *mut u8, 8, c.rng.u64() as u8);
                        at = word + 8;
                        let after = b.level();
                        ck!(after > now, "the level after an allocation");
                        levels.push(after);
                    }
                    Err(_) => {
                        ck!(word + 8 > cap, "a word was refused at {} of {}", word, cap);
                        full += 1;
                    }
                }
                continue;
            }
        };
        match got {
            Some(p) => {
                ck!(fits, "{} bytes at {} were allocated from {}", size, start, cap);
                ck!(p as usize - base == start, "{:?} was placed at {} instead of {}", l, p as usize - base, start);
                at = start + size;
                note(&mut live, p, size, c.rng.u64() as u8);
                let after = b.level();
                ck!(after > now, "the level after an allocation");
                levels.push(after);
                if at > 1 << 32 {
                    c.nontrivial();
                    c.count("beyond 32 bits");
                }
            }
            None => {
                ck!(!fits, "{:?} was refused at {} of {}", l, at, cap);
                ck!(b.level() == now, "a refused allocation changed the level");
                full += 1;
            }
        }
    }
    for &(p, n, tag) in &live {
        // SAFETY: regions written before.
        let (a, z) = unsafe { (*p, *p.add(n - 1)) };
        ck!(z == !tag && (a == tag || n == 1), "contents of a region of {} bytes changed", n);
    }
}

fn note(live: &mut Vec<(*mut u8, usize, u8)>, p: *mut u8, n: usize, tag: u8) {
    // SAFETY: the region was handed out.
    unsafe {
        *p.add(n - 1) = !tag;
        if n > 1 {
            *p = tag;
        }
    }
    live.push((p, n, tag));
}
