//! A conforming but unhelpful allocator: refuses at chosen calls, hands out more than requested, at addresses of the
//! least possible alignment, keeps books and scribbles over everything it takes back.
use crate::Rng;
use alloc_traits::{AllocTime, Allocation, Layout, LocalAlloc, NonZeroLayout};
use std::cell::{Cell, RefCell};
use std::ptr::NonNull;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Alloc { at: usize, size: usize, align: usize, asked: (usize, usize) },
    Refused { asked: (usize, usize) },
    Dealloc { at: usize, size: usize, align: usize },
}

pub struct Hostile {
    blocks: RefCell<Vec<Block>>,
    pub log: RefCell<Vec<Ev>>,
    pub wrong: RefCell<Vec<String>>,
    calls: Cell<usize>,
    /// Refuse the call with this number, and all later ones if `forever`.
    pub refuse_at: Cell<usize>,
    pub forever: Cell<bool>,
    /// 0: exact, 1: some slack, 2: a lot, 3: round up to a power of two with that alignment too.
    pub slack: Cell<u8>,
    rng: RefCell<Rng>,
    /// What fresh memory holds.
    pub fresh: Cell<u8>,
}

struct Block {
    raw: *mut u8,
    raw_layout: std::alloc::Layout,
    at: usize,
    size: usize,
    align: usize,
    live: bool,
}

const CANARY: u8 = 0xC9;
const SIDE: usize = 32;
/// Larger requests are refused.
const LIMIT: usize = 1 << 20;

impl Hostile {
    pub fn new(mut rng: Rng) -> Self {
        let slack = rng.below(4) as u8;
        let refuse_at = if rng.chance(1, 3) { rng.below(6) } else { usize::MAX };
        let forever = rng.chance(1, 2);
        let fresh = *rng.pick(&[0x5Au8, 0xFF, 0x01]);
        Hostile {
            blocks: RefCell::default(),
            log: RefCell::default(),
            wrong: RefCell::default(),
            calls: Cell::new(0),
            refuse_at: Cell::new(refuse_at),
            forever: Cell::new(forever),
            slack: Cell::new(slack),
            rng: RefCell::new(rng),
            fresh: Cell::new(fresh),
        }
    }

    /// Forget what was logged, return it.
    pub fn take_log(&self) -> Vec<Ev> {
        std::mem::take(&mut self.log.borrow_mut())
    }

    /// Blocks handed out and not returned.
    pub fn live(&self) -> Vec<(usize, usize)> {
        self.blocks.borrow().iter().filter(|b| b.live).map(|b| (b.at, b.size)).collect()
    }

    /// A live block holds this range.
    pub fn owns(&self, at: usize, size: usize) -> bool {
        self.blocks.borrow().iter().any(|b| b.live && at >= b.at && at + size <= b.at + b.size)
    }

    /// All bytes around the blocks are as they were; no wrong calls were made.
    pub fn check(&self) {
        if let Some(x) = self.wrong.borrow().first() {
            crate::fail!("{}", x);
        }
        for b in self.blocks.borrow().iter() {
            // Around a block, and all of a block that was returned.
            let around = |lo: usize, hi: usize, want: u8, what: &str| {
                // SAFETY: inside the raw block, initialised.
                let now = unsafe { std::slice::from_raw_parts(b.raw.add(lo - b.raw as usize), hi - lo) };
                let same = now == &vec![want; hi - lo][..];
                if !same {
                    let k = now.iter().position(|&x| x != want).unwrap() + lo;
                    crate::fail!("{} of {} bytes at {:#x} was written at {}", what, b.size, b.at, k as isize - b.at as isize);
                }
            };
            around(b.at - SIDE, b.at, CANARY, "memory before a block");
            around(b.at + b.size, b.at + b.size + SIDE, CANARY, "memory behind a block");
            if !b.live {
                around(b.at, b.at + b.size, 0xDE, "a returned block");
            }
        }
    }

    fn give(&self, layout: NonZeroLayout, call: usize) -> Option<Allocation<'_>> {
        let (asked, align) = (layout.size().get(), layout.align());
        let at = self.refuse_at.get();
        let refused = call == at || (call > at && self.forever.get());
        if refused || asked > LIMIT {
            self.log.borrow_mut().push(Ev::Refused { asked: (asked, align) });
            return None;
        }
        let mut rng = self.rng.borrow_mut();
        let (size, ralign) = match self.slack.get() {
            0 => (asked, align),
            1 => (asked + rng.below(9), align),
            2 => (asked * 2 + rng.below(70), align),
            _ => {
                let n = asked.next_power_of_two().max(align);
                (n, if rng.chance(1, 2) { n.min(256).max(align) } else { align })
            }
        };
        let big = ralign.max(SIDE) * 2;
        let raw_layout = std::alloc::Layout::from_size_align(size + 2 * big + 2 * SIDE, big).unwrap();
        // SAFETY: not empty; offsets are in bounds.
        unsafe {
            let raw = std::alloc::alloc(raw_layout);
            assert!(!raw.is_null());
            raw.write_bytes(CANARY, raw_layout.size());
            // Aligned to `ralign` but not to anything more.
            let off = big.max(SIDE) + ralign;
            let ptr = raw.add(off);
            ptr.write_bytes(self.fresh.get(), size);
            self.blocks.borrow_mut().push(Block { raw, raw_layout, at: ptr as usize, size, align: ralign, live: true });
            self.log.borrow_mut().push(Ev::Alloc { at: ptr as usize, size, align: ralign, asked: (asked, align) });
            let layout = Layout::from(std::alloc::Layout::from_size_align(size, ralign).unwrap());
            Some(Allocation { ptr: NonNull::new(ptr).unwrap(), layout: NonZeroLayout::from_layout(layout).unwrap(), lifetime: AllocTime::default() })
        }
    }
}

// SAFETY: the contract is checked by `check`; blocks stay valid until the allocator goes.
unsafe impl<'a> LocalAlloc<'a> for Hostile {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        self.give(layout, n)
    }
    unsafe fn dealloc(&'a self, a: Allocation<'a>) {
        let at = a.ptr.as_ptr() as usize;
        self.log.borrow_mut().push(Ev::Dealloc { at, size: a.layout.size().get(), align: a.layout.align() });
        match self.blocks.borrow_mut().iter_mut().find(|b| b.live && b.at == at) {
            Some(b) => {
                if (b.size, b.align) != (a.layout.size().get(), a.layout.align()) {
                    self.wrong.borrow_mut().push(format!(
                        "a block of {} bytes was returned with a layout of {} bytes aligned to {}", b.size, a.layout.size(), a.layout.align()));
                }
                b.live = false;
                a.ptr.as_ptr().write_bytes(0xDE, b.size);
            }
            None => self.wrong.borrow_mut().push("a block that is not live was returned".into()),
        }
    }
}

impl Drop for Hostile {
    fn drop(&mut self) {
        for b in self.blocks.borrow().iter() {
            // SAFETY: from `alloc`.
            unsafe { std::alloc::dealloc(b.raw, b.raw_layout) }
        }
    }
}
