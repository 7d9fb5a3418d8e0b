//! C07: chained allocators keep every box valid until the chain is dropped.
use harness::track;
use harness::types::*;
use harness::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::Chain;
use std::mem::{self, MaybeUninit};

#[global_allocator]
static BOOKS: books::Books = books::Books;

/// A value placed in the chain.
struct Kept<'a> {
    at: usize,
    size: usize,
    id: Option<u32>,
    ok: Box<dyn Fn() -> bool + 'a>,
}

fn keep<'a, V: Tv>(b: LeakBox<'a, MaybeUninit<V>>) -> Kept<'a> {
    let p = b.as_ptr() as usize;
    let v = V::mk();
    let id = v.ident();
    let b = LeakBox::write(b, v);
    Kept { at: p, size: mem::size_of::<V>(), id, ok: Box::new(move || b.intact_as(id) && &*b as *const V as usize == p) }
}

fn size(c: &mut Case) -> usize {
    match c.rng.below(6) {
        5 => c.rng.round(if MIRI { 9 } else { 14 }),
        0 => c.rng.below(9),
        1 => 8 * c.rng.below(20),
        2 => c.rng.below(64),
        _ => c.rng.below(500),
    }
}

/// Put a byte array of exactly `N` bytes; sizes up to the remaining capacity must fit.
fn byte_fit(c: &mut Case, ch: &Chain) {
    macro_rules! tries { ($($n:literal)*) => { $( let rem = ch.remaining_capacity(); if rem == $n || rem + 1 == $n {
        let ok = ch.bump_box::<[u8; $n]>().is_ok();
        ck_eq!(ok, $n <= rem, "a byte array of {} fits into {} remaining bytes", $n, rem);
        ck_eq!(ch.remaining_capacity(), if ok { rem - $n } else { rem }, "remaining capacity after {} bytes", $n);
        c.count("exact fits");
    } )* } }
    tries!(160 129 128 100 97 96 80 72 65 64 63 56 48 40 33 32 31 25 24 23 17 16 15 12 11 10 9 8 7 6 5 4 3 2 1 0);
}

fn history(c: &mut Case) {
    track::reset();
    books::forget_all();
    let first = size(c);
    c.step(format!("new({})", first));
    c.key("new");
    let ch = match books::tracked(|| Chain::new(first)) {
        Ok(ch) => ch,
        Err(_) => fail!("a chain of {} bytes was refused", first),
    };
    let mut blocks = 1usize;
    ck_eq!(books::live(), 1, "blocks of a chain of one");
    ck!(ch.capacity() >= first, "capacity {} of a chain of {}", ch.capacity(), first);
    ck_eq!(ch.remaining_capacity(), ch.capacity(), "remaining capacity of a fresh chain");
    let mut kept: Vec<Kept<'_>> = vec![];
    let steps = c.rng.range(2, if MIRI { 10 } else { 24 });
    for _ in 0..steps {
        match c.rng.below(8) {
            0 | 1 => {
                let n = size(c);
                c.step(format!("chain({})", n));
                c.key("chain");
                let new = match books::tracked(|| Chain::new(n)) { Ok(x) => x, Err(_) => fail!("a chain of {} bytes was refused", n) };
                // The new chain may have been used before; its boxes are given up.
                if c.rng.chance(1, 3) {
                    let _ = new.bump_box::<u8>();
                    let _ = new.bump_box::<[u8; 3]>();
                }
                let (cap, rem) = (new.capacity(), new.remaining_capacity());
                ck!(cap >= n, "capacity {} of a block of {}", cap, n);
                books::tracked(|| ch.chain(new));
                blocks += 1;
                ck_eq!(ch.capacity(), cap, "capacity after chaining");
                ck_eq!(ch.remaining_capacity(), rem, "remaining capacity after chaining");
                ck_eq!(books::live(), blocks, "blocks after chaining");
                c.count("blocks chained");
                if !kept.is_empty() {
                    c.nontrivial();
                }
            }
            2 => {
                c.step("exact");
                c.key("exact");
                byte_fit(c, &ch);
            }
            3 => {
                // Down to the last byte.
                c.step("drain");
                c.key("drain");
                let rem = ch.remaining_capacity();
                if rem <= if MIRI { 12 } else { 600 } {
                    for left in (0..rem).rev() {
                        match ch.bump_box::<u8>() {
                            Ok(b) => kept.push(Kept { at: b.as_ptr() as usize, size: 1, id: None, ok: Box::new(|| true) }),
                            Err(_) => fail!("a byte does not fit into {} remaining", left + 1),
                        }
                        ck_eq!(ch.remaining_capacity(), left, "remaining capacity");
                    }
                    ck!(ch.bump_box::<u8>().is_err(), "a byte beyond the capacity");
                }
            }
            _ => {
                let t = c.rng.below(harness::types::TYPES);
                with_tv!(t, V => {
                    c.step(format!("bump_box<{}/{}>", mem::size_of::<V>(), mem::align_of::<V>()));
                    c.key(if mem::size_of::<V>() == 0 { "bump_box/zst" } else { "bump_box" });
                    let rem = ch.remaining_capacity();
                    match ch.bump_box::<V>() {
                        Ok(b) => {
                            let used = rem - ch.remaining_capacity();
                            let (s, a) = (mem::size_of::<V>(), mem::align_of::<V>());
                            ck!(b.as_ptr() as usize % a == 0, "a value is misaligned");
                            ck!(used >= s && (used < s + a) && (s > 0 || used == 0), "a value of {} bytes took {} of the remaining capacity", s, used);
                            kept.push(keep::<V>(b));
                            c.count("values placed");
                        }
                        Err(_) => {
                            ck!(mem::size_of::<V>() > 0 && rem < mem::size_of::<V>() + mem::align_of::<V>() - 1,
                                "a value of {}/{} was refused with {} bytes remaining", mem::size_of::<V>(), mem::align_of::<V>(), rem);
                            ck_eq!(ch.remaining_capacity(), rem, "remaining capacity after a refusal");
                            c.count("values refused");
                        }
                    }
                });
            }
        }
        let k = kept.last();
        if let Some(k) = k {
            for q in &kept[..kept.len() - 1] {
                ck!(q.size == 0 || k.size == 0 || q.at + q.size <= k.at || k.at + k.size <= q.at, "two values overlap");
            }
        }
        for k in &kept {
            ck!((k.ok)(), "a value in the chain changed");
            if let Some(id) = k.id {
                ck_eq!(track::drops_of(id), 0, "destructions of a live boxed value");
            }
        }
        ck_eq!(books::live(), blocks, "blocks held");
    }
    // Every value lies in one of the blocks.
    let held = books::blocks();
    for k in &kept {
        ck!(k.size == 0 || held.iter().any(|(at, l)| *at <= k.at && k.at + k.size <= at + l.size()), "a value lies outside of all blocks");
    }
    c.key("drop");
    drop(kept);
    track::check_all_dropped();
    drop(ch);
    ck_eq!(books::live(), 0, "blocks never returned");
    ck_eq!(books::wrong(), 0, "blocks returned with another layout");
    books::forget_all();
}

fn main() {
    let mut m = Mon::start("C07");
    books::dirty(true);
    m.family("history", 30_000, 260, history);
    // A chain of chains: only the memory of the first link of the argument must be kept, nothing may leak.
    m.family("merge", 5_000, 50, |c| {
        track::reset();
        books::forget_all();
        let mk = |c: &mut Case| {
            let n = size(c);
            c.step(format!("new({})", n));
            books::tracked(|| Chain::new(n)).ok().expect("a chain")
        };
        let a = mk(c);
        let box_a = a.bump_box::<u8>().ok().map(|b| LeakBox::write(b, 17u8));
        for _ in 0..c.rng.range(1, 3) {
            let b = mk(c);
            for _ in 0..c.rng.below(6) {
                let inner = mk(c);
                b.chain(inner);
            }
            let (cap, rem) = (b.capacity(), b.remaining_capacity());
            a.chain(b);
            ck_eq!((a.capacity(), a.remaining_capacity()), (cap, rem), "capacity and remaining capacity after chaining a chain");
            if let Some(x) = &box_a {
                ck_eq!(**x, 17, "value in the first block");
            }
            let y = a.bump_box::<u16>().ok().map(|b| LeakBox::write(b, 999u16));
            if let Some(y) = &y {
                ck_eq!(**y, 999, "value in the new block");
            }
        }
        drop(box_a);
        drop(a);
        ck_eq!(books::live(), 0, "blocks never returned");
        ck_eq!(books::wrong(), 0, "blocks returned with another layout");
        books::forget_all();
        c.nontrivial();
        c.count("chains merged");
    });
    // Long chains are dropped without recursion.
    m.family("long", 8, 0, |c| {
        books::forget_all();
        let n = [10_000, 60_000, 100_000, 200_000][c.idx as usize / 2 % 4];
        let merged = c.idx % 2 == 1;
        c.step(format!("{} blocks {} on a stack of 64 KiB", n, if merged { "chained" } else { "dropped" }));
        let t = std::thread::Builder::new().stack_size(64 << 10).spawn(move || {
            let ch = Chain::new(8).ok().expect("a chain");
            for _ in 0..n {
                ch.chain(Chain::new(1).ok().expect("a chain"));
            }
            if merged {
                // All links but the first go at once.
                let to = Chain::new(8).ok().expect("a chain");
                let v = to.bump_box::<u64>().ok().map(|b| LeakBox::write(b, 5));
                to.chain(ch);
                ck!(v.map_or(false, |v| *v == 5), "value in the first block");
                drop(to);
            } else {
                drop(ch);
            }
        });
        ck!(t.unwrap().join().is_ok(), "dropping a long chain failed");
        c.count("long chains");
        c.nontrivial();
    });
    m.family("refused", 3_000, 40, |c| {
        books::forget_all();
        c.key("error");
        let n = match c.rng.below(6) {
            0 => usize::MAX,
            1 => isize::MAX as usize - c.rng.below(40),
            2 => isize::MAX as usize + c.rng.below(40),
            3 => usize::MAX - c.rng.below(40),
            4 => 1 << (BITS - 2),
            _ => c.rng.range(64, 4096),
        };
        c.step(format!("new({})", n));
        // The system allocator is never asked for the huge ones: what it answers is not the question.
        books::refuse_over(if n <= 4096 { 60 } else { 1 << 30 });
        let r = may_panic(|| books::tracked(|| Chain::new(n)));
        books::refuse_over(usize::MAX);
        match r {
            Ok(Ok(_)) => fail!("a chain of {} bytes cannot exist", n),
            Ok(Err(e)) => ck!(e.allocation_size() >= n && e.allocation_size() - n <= 64, "the error for {} bytes reports {}", n, e.allocation_size()),
            Err(_) => fail!("a size of {} panicked: {}", n, last_panic()),
        }
        ck_eq!(books::live(), 0, "blocks kept by a refused chain");
        c.count("sizes refused");
        c.nontrivial();
    });
    #[cfg(target_pointer_width = "64")]
    // Blocks with more bytes than 32 bits can count; hardly a page of them is touched.
    if (m.variant == "dbg" || m.variant == "rel") && huge::Lazy::new(13 << 30).is_some() {
        books::dirty(false);
        m.family("huge", 40, 0, |c| {
            books::forget_all();
            type Big = [u8; (1 << 32) + 24];
            type Half = [u8; 1 << 31];
            {
                let extra = c.rng.below(70);
                let Ok(chain) = books::tracked(|| Chain::new((5 << 30) + extra)) else { return c.count("no huge memory") };
                ck!(chain.capacity() >= (5 << 30) + extra, "capacity {} of a chain for {}", chain.capacity(), (5usize << 30) + extra);
                let mut taken: Vec<(usize, usize)> = vec![];
                let mut words = vec![];
                let mut left = chain.capacity();
                for _ in 0..c.rng.range(3, 12) {
                    let kind = c.rng.below(4);
                    c.step(format!("{}", kind));
                    let size = match kind { 0 => 8, 1 => 1, 2 => size_of::<Big>(), _ => size_of::<Half>() };
                    let at = match kind {
                        0 => chain.bump_box::<u64>().ok().map(|b| {
                            let b = LeakBox::write(b, c.idx ^ left as u64);
                            let at = &*b as *const u64 as usize;
                            words.push((b, c.idx ^ left as u64));
                            at
                        }),
                        1 => chain.bump_box::<u8>().ok().map(|b| &*b as *const _ as usize),
                        2 => chain.bump_box::<Big>().ok().map(|b| &*b as *const _ as usize),
                        _ => chain.bump_box::<Half>().ok().map(|b| &*b as *const _ as usize),
                    };
                    match at {
                        Some(at) => {
                            ck!(size <= left, "{} bytes with {} left", size, left);
                            ck!(taken.iter().all(|&(a, n)| a + n <= at || at + size <= a), "two boxes overlap");
                            taken.push((at, size));
                            let (lo, hi) = (taken.iter().map(|t| t.0).min().unwrap(), taken.iter().map(|t| t.0 + t.1).max().unwrap());
                            ck!(hi - lo <= chain.capacity(), "boxes reach over {} bytes", hi - lo);
                            left = left.min(chain.capacity() - (hi - lo));
                            if size > 1 << 32 {
                                c.count("beyond 32 bits");
                                c.nontrivial();
                            }
                        }
                        // Padding of the start and of words.
                        None => ck!(size + 32 > left, "{} bytes were refused with {} left", size, left),
                    }
                    for (w, v) in &words {
                        ck_eq!(**w, *v, "contents");
                    }
                }
            }
            ck_eq!(books::live(), 0, "blocks kept");
        });
    }
    m.finish();
}
