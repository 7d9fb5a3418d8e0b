//! C20: default methods of LocalAlloc and the layout types.
use alloc_traits::util::defaults;
use alloc_traits::{Allocation, Layout, LocalAlloc, NonZeroLayout};
use harness::hostile::{Ev, Hostile};
use harness::regions::pattern;
use harness::track::{A1, A128, A16, A2, A32, A4, A64, A8};
use harness::*;
use std::alloc::Layout as Core;
use std::convert::TryFrom;

fn nz(size: usize, align: usize) -> NonZeroLayout {
    NonZeroLayout::from_layout(Core::from_size_align(size, align).unwrap().into()).unwrap()
}

struct Block<'a> {
    a: Allocation<'a>,
    data: Vec<u8>,
}

impl Block<'_> {
    fn check(&self, when: &str) {
        // SAFETY: live and initialised.
        let now = unsafe { std::slice::from_raw_parts(self.a.ptr.as_ptr(), self.data.len()) };
        if now == &self.data[..] {
            return;
        }
        if let Some(i) = (0..now.len()).find(|&i| now[i] != self.data[i]) {
            fail!("{}: byte {} of a live allocation of {} bytes changed", when, i, now.len());
        }
    }
}

fn history(c: &mut Case) {
    let a = Hostile::new(c.rng.fork());
    c.step(format!("slack {} refuse {} {}", a.slack.get(), a.refuse_at.get() as isize, a.forever.get()));
    let mut live: Vec<Block> = vec![];
    let mut tag = 0;
    for _ in 0..if c.miri { 12 } else { c.rng.range(5, 30) } {
        tag += 1;
        let size = match c.rng.below(12) {
            0 => (1 << 20) + 1 + c.rng.below(9),
            1 => *c.rng.pick(&[isize::MAX as usize - 4096, 1 << (BITS - 24)]),
            2..=5 => c.rng.range(1, 9),
            _ => c.rng.range(1, 300),
        };
        let align = 1usize << c.rng.below(9);
        let layout = nz(size, align);
        // The methods, through a trait object, or the functions they are documented to be.
        let way = c.rng.below(3);
        a.take_log();
        match c.rng.below(8) {
            0 | 1 => {
                c.step(format!("alloc({},{})", size, align));
                if let Some(x) = a.alloc(layout) {
                    let data = pattern(tag, x.layout.size().get());
                    // SAFETY: ours.
                    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), x.ptr.as_ptr(), data.len()) };
                    live.push(Block { a: x, data });
                }
            }
            2..=4 => {
                c.step(format!("zeroed({},{})", size, align));
                let r = match way {
                    0 => a.alloc_zeroed(layout),
                    1 => (&a as &dyn LocalAlloc).alloc_zeroed(layout),
                    _ => defaults::local::alloc_zeroed(&a, layout),
                };
                let log = a.take_log();
                match (&r, &log[..]) {
                    (Some(x), &[Ev::Alloc { at, size: n, align: al, asked }]) => {
                        ck_eq!(asked, (size, align), "layout asked of the allocator");
                        ck_eq!((x.ptr.as_ptr() as usize, x.layout.size().get(), x.layout.align()), (at, n, al), "the zeroed allocation");
                        // SAFETY: initialised, live.
                        let now = unsafe { std::slice::from_raw_parts(x.ptr.as_ptr(), n) };
                        if now != &vec![0; n][..] {
                            let i = now.iter().position(|&b| b != 0);
                            fail!("byte {:?} of {} (asked for {}) of a zeroed allocation is not zero", i, n, size);
                        }
                        c.count(if n > size { "zeroed with slack" } else { "zeroed" });
                    }
                    (None, [Ev::Refused { asked }]) => {
                        ck_eq!(*asked, (size, align), "layout asked of the allocator");
                        c.count("zeroed refused");
                    }
                    _ => fail!("zeroed allocation of {} bytes: success {}, calls {:?}", size, r.is_some(), log),
                }
                if let Some(x) = r {
                    let data = vec![0; x.layout.size().get()];
                    live.push(Block { a: x, data });
                }
            }
            5 if !live.is_empty() => {
                c.step("dealloc");
                let i = c.rng.below(live.len());
                // SAFETY: live.
                unsafe { a.dealloc(live.swap_remove(i).a) };
            }
            _ if !live.is_empty() => {
                let i = c.rng.below(live.len());
                let old = live.swap_remove(i);
                let oldn = old.a.layout.size().get();
                let size = if c.rng.chance(1, 3) && size < 4096 { (oldn + c.rng.below(5)).saturating_sub(2).max(1) } else { size };
                let layout = nz(size, align);
                c.step(format!("realloc({} -> {},{})", oldn, size, align));
                // SAFETY: live.
                let r = unsafe {
                    match way {
                        0 => a.realloc(old.a, layout),
                        1 => (&a as &dyn LocalAlloc).realloc(old.a, layout),
                        _ => defaults::local::realloc(&a, old.a, layout),
                    }
                };
                let log = a.take_log();
                let was = (old.a.ptr.as_ptr() as usize, oldn, old.a.layout.align());
                match (&r, &log[..]) {
                    (Some(x), &[Ev::Alloc { at, size: n, align: al, asked }, Ev::Dealloc { at: dat, size: dn, align: dal }]) => {
                        ck_eq!(asked, (size, align), "layout asked of the allocator");
                        ck_eq!((x.ptr.as_ptr() as usize, x.layout.size().get(), x.layout.align()), (at, n, al), "the new allocation");
                        ck_eq!((dat, dn, dal), was, "the allocation that was released");
                        let k = size.min(oldn);
                        // SAFETY: initialised, live.
                        let now = unsafe { std::slice::from_raw_parts(x.ptr.as_ptr(), n) };
                        if now[..k] != old.data[..k] {
                            let i = (0..k).find(|&i| now[i] != old.data[i]);
                            fail!("realloc from {} to {} bytes (got {}): byte {:?} was not preserved", oldn, size, n, i);
                        }
                        // What lies beyond both is not touched.
                        let hi = n.min(oldn);
                        if now[hi..] != vec![a.fresh.get(); n - hi][..] {
                            let i = (hi..n).find(|&i| now[i] != a.fresh.get());
                            fail!("realloc from {} to {} bytes (got {}): byte {:?} was written", oldn, size, n, i);
                        }
                        c.count(if size < oldn { "shrunk" } else if size == oldn { "same size" } else { "grown" });
                    }
                    (None, [Ev::Refused { asked }]) => {
                        ck_eq!(*asked, (size, align), "layout asked of the allocator");
                        old.check("after a refused realloc");
                        c.count("realloc refused");
                    }
                    _ => fail!("realloc from {} to {} bytes: success {}, calls {:?}", oldn, size, r.is_some(), log),
                }
                match r {
                    Some(x) => {
                        let data = pattern(tag, x.layout.size().get());
                        // SAFETY: ours.
                        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), x.ptr.as_ptr(), data.len()) };
                        live.push(Block { a: x, data });
                    }
                    None => live.push(old),
                }
            }
            _ => {}
        }
        a.check();
        for b in &live {
            b.check("between operations");
        }
        let mut want: Vec<_> = live.iter().map(|b| (b.a.ptr.as_ptr() as usize, b.a.layout.size().get())).collect();
        let mut have = a.live();
        want.sort();
        have.sort();
        ck_eq!(have, want, "live blocks on the books");
    }
    if live.len() > 1 {
        c.nontrivial();
    }
}

fn one<T>() {
    let core = Core::new::<T>();
    let l = Layout::new::<T>();
    ck_eq!((l.size(), l.align()), (core.size(), core.align()), "layout of a type");
    ck_eq!(Core::from(l), core, "conversion of a layout");
    match NonZeroLayout::new::<T>() {
        Some(n) => {
            ck!(core.size() > 0, "a non-zero layout of an empty type");
            same(n, core);
        }
        None => ck_eq!(core.size(), 0, "size of a type without non-zero layout"),
    }
}

fn same(n: NonZeroLayout, core: Core) {
    ck_eq!((n.size().get(), n.align()), (core.size(), core.align()), "a non-zero layout");
    ck_eq!(Core::from(n), core, "conversion of a non-zero layout");
}

fn layouts(c: &mut Case) {
    for _ in 0..20 {
        let align = 1usize << c.rng.below(BITS - 1);
        let max = isize::MAX as usize + 1 - align;
        let size = match c.rng.below(5) {
            0 => 0,
            1 => max - (c.rng.below(3)).min(max),
            2 => c.rng.below(20).min(max),
            _ => (c.rng.u64() as usize >> c.rng.below(BITS - 1)).min(max),
        };
        let core = Core::from_size_align(size, align).unwrap();
        let l = Layout::from(core);
        ck_eq!((l.size(), l.align()), (size, align), "a layout");
        ck_eq!(Core::from(l), core, "conversion of a layout");
        for r in [NonZeroLayout::from_layout(l), NonZeroLayout::try_from(l).ok(), NonZeroLayout::try_from(core).ok()] {
            ck_eq!(r.is_some(), size != 0, "existence of a non-zero layout for size {}", size);
            if let Some(n) = r {
                same(n, core);
                ck!(n == NonZeroLayout::from_layout(l).unwrap(), "layouts differ");
            }
        }
        // Different ones do not compare equal.
        if size > 0 {
            let other = Core::from_size_align(size - 1, align).unwrap();
            ck!(Layout::from(other) != l && Layout::from(core) == l, "comparison of layouts");
        }
        c.obs(size as u64 ^ (align as u64).rotate_left(9));
    }
    one::<()>();
    one::<u8>();
    one::<[u16; 3]>();
    one::<[u64; 0]>();
    one::<u128>();
    one::<(u8, u64)>();
    one::<(A1, A2, A4, A8, A16, A32, A64, A128)>();
    one::<[A128; 4]>();
    one::<(A128, u8)>();
    one::<std::convert::Infallible>();
    one::<&str>();
    c.nontrivial();
    c.count("layouts");
}

#[cfg(target_pointer_width = "64")]
mod huge {
    use super::*;
    use alloc_traits::AllocTime;
    use std::cell::{Cell, RefCell};
    use std::ptr::NonNull;

    /// Hands out one part of the memory after the other.
    struct Parts {
        mem: harness::huge::Lazy,
        len: usize,
        at: Cell<usize>,
        freed: RefCell<Vec<(usize, usize, usize)>>,
    }

    // SAFETY: all parts are distinct and stay where they are.
    unsafe impl<'a> LocalAlloc<'a> for Parts {
        fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
            let at = self.at.get().next_multiple_of(layout.align());
            if at + layout.size().get() > self.len {
                return None;
            }
            self.at.set(at + layout.size().get());
            let ptr = NonNull::new(self.mem.ptr().wrapping_add(at)).unwrap();
            Some(Allocation { ptr, layout, lifetime: AllocTime::default() })
        }
        unsafe fn dealloc(&'a self, a: Allocation<'a>) {
            self.freed.borrow_mut().push((a.ptr.as_ptr() as usize, a.layout.size().get(), a.layout.align()));
        }
    }

    /// Blocks of more bytes than 32 bits count, made of small ones and the other way round.
    pub fn grow_and_shrink(c: &mut Case) {
        let len = 11usize << 30;
        let Some(mem) = harness::huge::Lazy::new(len) else { return c.count("no huge memory") };
        let a = Parts { mem, len, at: Cell::new(0), freed: RefCell::default() };
        let small = c.rng.range(1, 300);
        let align = 1 << c.rng.below(9);
        let mut b = a.alloc(nz(small, align)).unwrap();
        let data = pattern(c.rng.u64(), small);
        // SAFETY: ours.
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), b.ptr.as_ptr(), small) };
        let mut kept = small;
        for _ in 0..c.rng.range(1, 5) {
            let n = match c.rng.below(4) {
                0 => (1usize << 32) + c.rng.below(600),
                1 => (1usize << 31) + c.rng.below(600),
                _ => c.rng.range(1, 400),
            };
            // The whole of a block is kept: that of two large ones would take long.
            if n > 1000 && b.layout.size().get() > 1000 {
                continue;
            }
            let align = 1 << c.rng.below(9);
            c.step(format!("{} to {} align {}", b.layout.size(), n, align));
            let old = (b.ptr.as_ptr() as usize, b.layout.size().get(), b.layout.align());
            a.freed.borrow_mut().clear();
            let room = len - a.at.get();
            // SAFETY: from `a`.
            match unsafe { a.realloc(b, nz(n, align)) } {
                Some(x) => {
                    let at = x.ptr.as_ptr() as usize;
                    ck!(x.layout.size().get() >= n && at % align == 0, "{:?} for {} bytes", x.layout, n);
                    kept = kept.min(n);
                    // SAFETY: live and initialised.
                    let now = unsafe { std::slice::from_raw_parts(at as *const u8, kept) };
                    ck!(now == &data[..kept], "contents of a block changed from {} to {} bytes", old.1, n);
                    if at != old.0 {
                        ck_eq!(*a.freed.borrow(), [old], "blocks returned");
                    }
                    if n > 1 << 32 || old.1 > 1 << 32 {
                        c.count("beyond 32 bits");
                        c.nontrivial();
                    }
                    b = x;
                }
                None => {
                    ck!(n + 600 > room, "{} bytes were refused", n);
                    ck!(a.freed.borrow().is_empty(), "a block was returned although a larger one was refused");
                    return;
                }
            }
        }
    }
}

fn main() {
    let mut m = Mon::start("C20");
    m.family("history", 40_000, 200, history);
    m.family("layouts", 5_000, 20, layouts);
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        m.family("huge", 40, 0, huge::grow_and_shrink);
    }
    m.finish();
}
