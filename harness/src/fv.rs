//! Driver and model of the fixed capacity vector, shared by C15 and C16.
use crate::track::{self, Alive};
use crate::types::Tv;
use crate::*;
use std::cell::Cell;
use std::mem::{align_of, size_of};
use std::ops::{Bound, RangeBounds};
use without_alloc::fixed_vec::Drain;
use without_alloc::{FixedVec, Uninit};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// Observable contents and results, out-of-range arguments.
    Model,
    /// Destruction, with panics and leaks.
    Drops,
}

type Id = Option<u32>;

struct H<'a, T> {
    v: FixedVec<'a, T>,
    m: Vec<Id>,
    cap: usize,
    at: usize,
}

fn look<T: Tv>(h: &mut H<'_, T>) {
    ck_eq!(h.v.len(), h.m.len(), "length");
    ck_eq!(h.v.capacity(), h.cap, "capacity");
    ck_eq!(h.v.is_empty(), h.m.is_empty(), "is_empty");
    ck_eq!(h.v.as_slice().len(), h.m.len(), "length of the slice");
    ck!(h.v.as_ptr() as usize != 0 && h.v.as_ptr() as usize % align_of::<T>() == 0, "the elements are not aligned to {}", align_of::<T>());
    if size_of::<T>() > 0 && h.cap > 0 {
        ck_eq!(h.v.as_slice().as_ptr() as usize, h.at, "address of the first element");
        ck_eq!(h.v.as_mut_slice().as_ptr() as usize, h.at, "address of the first element");
        ck_eq!((h.v.as_ptr() as usize, h.v.as_mut_ptr() as usize), (h.at, h.at), "raw pointers");
    }
    for (i, (x, id)) in h.v.iter().zip(&h.m).enumerate() {
        ck!(x.intact_as(*id), "element {} of {} is {:?}, expected {:?}", i, h.m.len(), x.ident(), id);
    }
}

struct Src<'s, T> {
    left: usize,
    made: &'s Cell<usize>,
    born: &'s std::cell::RefCell<Vec<Id>>,
    ended: &'s Cell<usize>,
    panic_at: usize,
    hint: (usize, Option<usize>),
    _t: std::marker::PhantomData<T>,
}

impl<T: Tv> Iterator for Src<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.made.get() == self.panic_at {
            std::panic::panic_any("source");
        }
        if self.left == 0 {
            self.ended.set(self.ended.get() + 1);
            return None;
        }
        self.left -= 1;
        self.made.set(self.made.get() + 1);
        let v = T::mk();
        self.born.borrow_mut().push(v.ident());
        Some(v)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn bound(c: &mut Case, len: usize) -> Bound<usize> {
    let n = match c.rng.below(12) {
        0 => usize::MAX,
        1 => len + 1,
        2 => len,
        3 => 0,
        _ => c.rng.below(len + 1),
    };
    match c.rng.below(5) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Included(n),
        _ => Bound::Excluded(n),
    }
}

fn resolve(r: &(Bound<usize>, Bound<usize>), len: usize) -> Option<(usize, usize)> {
    let s = match r.start_bound() {
        Bound::Unbounded => 0,
        Bound::Included(n) => *n as u128,
        Bound::Excluded(n) => *n as u128 + 1,
    };
    let e = match r.end_bound() {
        Bound::Unbounded => len as u128,
        Bound::Included(n) => *n as u128 + 1,
        Bound::Excluded(n) => *n as u128,
    };
    (s <= e && e <= len as u128).then(|| (s as usize, e as usize))
}

/// Choose one of the elements to have a panicking destructor.
fn arm(c: &mut Case, mode: Mode, of: &[Id]) -> Option<usize> {
    if mode == Mode::Model || of.is_empty() || !c.rng.chance(1, 4) {
        return None;
    }
    let i = c.rng.below(of.len());
    let id = of[i]?;
    track::panic_on(id);
    c.step(format!("panic at {}", i));
    Some(i)
}

pub fn run<T: Tv>(c: &mut Case, mode: Mode) {
    run_with::<T>(c, mode, false)
}

/// With thousands of elements.
pub fn many<T: Tv>(c: &mut Case, mode: Mode) {
    run_with::<T>(c, mode, true)
}

fn run_with<T: Tv>(c: &mut Case, mode: Mode, many: bool) {
    track::reset();
    let mut alive = Alive::default();
    let size = size_of::<T>();
    let len = match c.rng.below(5) {
        _ if many => {
            let n = 1 << c.rng.range(6, 12);
            size * c.rng.range(n, 2 * n) + c.rng.below(size + align_of::<T>())
        }
        0 => c.rng.below(size + 2),
        // Now and then many elements.
        1 if !c.miri && c.rng.chance(1, 4) => size.max(1) * c.rng.range(13, 100) + c.rng.below(align_of::<T>()),
        _ => c.rng.below(size.max(1) * 12 + align_of::<T>()),
    };
    let mis = c.rng.below(64);
    let mut arena = Arena::new(len, 128, mis, 0xB6);
    let pad = regions::align_up(arena.addr(), align_of::<T>()) - arena.addr();
    let fit = pad <= len;
    let room = if fit { len - pad } else { 0 };
    let cap = if size == 0 { usize::MAX } else { room / size };
    c.step(format!("{} bytes at {} mod 128, size {} align {}", len, mis, size, align_of::<T>()));
    {
        let (base, top) = (arena.addr(), arena.addr() + arena.len());
        let mem: Uninit<'_, [u8]> = Uninit::from_maybe_uninit_slice(arena.mem());
        let v: FixedVec<'_, T> = if pad == 0 && c.rng.chance(1, 2) {
            FixedVec::new(mem.as_memory().cast_slice::<T>().expect("aligned"))
        } else {
            FixedVec::from_unaligned(mem)
        };
        let mut pool = vec![H { v, m: vec![], cap, at: base + pad }];
        let _ = top;
        let n = if c.miri { 14 } else if many { c.rng.range(4, 14) } else { c.rng.range(5, 60) };
        if many {
            let extend = c.rng.chance(1, 4);
            source(c, mode, &mut pool[0], &mut alive, extend);
        }
        for _ in 0..n {
            if track::created() > if size < 4 { 120 } else if many { 20_000 } else { 700 } {
                break;
            }
            let i = c.rng.below(pool.len());
            step(c, mode, &mut pool, i, &mut alive);
            for h in &mut pool {
                look(h);
            }
            alive.check("between operations");
        }
        if pool.iter().any(|h| !h.m.is_empty()) {
            c.nontrivial();
        }
        while !pool.is_empty() {
            let i = c.rng.below(pool.len());
            c.step("drop");
            finish(c, mode, pool.swap_remove(i), &mut alive);
            for h in &mut pool {
                look(h);
            }
        }
        alive.check("all vectors dropped");
    }
    arena.check_guards();
}

fn finish<T: Tv>(c: &mut Case, mode: Mode, h: H<'_, T>, alive: &mut Alive) {
    let armed = arm(c, mode, &h.m);
    let r = may_panic(|| drop(h.v));
    ck_eq!(r.is_err(), armed.is_some(), "a panic came out of dropping a vector");
    for id in h.m {
        alive.dead(id);
    }
    alive.check("after dropping a vector");
    c.count("vectors dropped");
    if armed.is_some() {
        c.count("panicking destructors");
    }
}

fn drain<T: Tv>(c: &mut Case, mode: Mode, h: &mut H<'_, T>, alive: &mut Alive) {
    let mut r = (bound(c, h.m.len()), bound(c, h.m.len()));
    while mode == Mode::Drops && resolve(&r, h.m.len()).is_none() {
        r = (bound(c, h.m.len()), bound(c, h.m.len()));
    }
    c.step(format!("drain {:?} of {}", r, h.m.len()));
    let Some((s, e)) = resolve(&r, h.m.len()) else {
        let v = &mut h.v;
        let bad = may_panic(|| v.drain(r).len());
        ck!(bad.is_err(), "draining {:?} from {} elements did not panic", r, h.m.len());
        c.count("refused drains");
        return;
    };
    let tail = h.m.split_off(e);
    let mut range = std::collections::VecDeque::from(h.m.split_off(s));
    let every = 1 + range.len() / 60;
    let mut d = h.v.drain(r);
    let steps = c.rng.below(range.len() + 2);
    let mut held: Vec<(T, Id)> = vec![];
    let mut used = false;
    let mut broken = false;
    for k in 0..steps {
        ck_eq!((d.len(), d.size_hint(), d.is_empty()), (range.len(), (range.len(), Some(range.len())), range.is_empty()), "length of a drain");
        ck_eq!(ExactSizeIterator::len(&d), range.len(), "length of a drain");
        ck_eq!(d.as_slice().len(), range.len(), "length of the slice of a drain");
        ck!(k % every != 0 || d.as_slice().iter().zip(&range).all(|(x, id)| x.intact_as(*id)), "slice of a drain");
        // The mutable view is of the same elements in the same place.
        let (view, at) = (d.as_slice().as_ptr() as usize, d.as_mut_slice().as_ptr() as usize);
        ck_eq!(view, at, "place of the slices of a drain");
        let left = d.as_mut_slice();
        ck_eq!(left.len(), range.len(), "slice of a drain");
        ck!(k % every != 0 || left.iter().zip(&range).all(|(x, id)| x.intact_as(*id)), "mutable slice of a drain");
        if range.len() > 1 && c.rng.chance(1, 5) {
            let (x, y) = (c.rng.below(range.len()), c.rng.below(range.len()));
            left.swap(x, y);
            range.swap(x, y);
            c.count("elements of a drain swapped");
        }
        if !range.is_empty() && c.rng.chance(1, 6) {
            let x = c.rng.below(range.len());
            let v = T::mk();
            let id = v.ident();
            alive.born(id);
            left[x] = v;
            alive.dead(range[x]);
            range[x] = id;
            c.count("elements of a drain replaced");
        }
        let front = c.rng.chance(1, 2);
        if c.rng.chance(1, 5) {
            // Skip some of them.
            let n = if c.rng.chance(1, 6) { c.rng.below(range.len() + 3) } else { c.rng.below(4) };
            let skip = n.min(range.len());
            let skipped: Vec<Id> = if front { range.drain(..skip).collect() } else { let at = range.len() - skip; range.drain(at..).rev().collect() };
            let armed = arm(c, mode, &skipped);
            c.step(format!("{} {}", if front { "nth" } else { "nth_back" }, n));
            let got = may_panic(|| if front { d.nth(n) } else { d.nth_back(n) });
            ck_eq!(got.is_err(), armed.is_some(), "a panic came out of skipping elements of a drain");
            let Ok(got) = got else {
                // What is left of it is as good as any drain which was not finished.
                range.extend(skipped);
                broken = true;
                c.count("panicking destructors");
                break;
            };
            for id in skipped {
                alive.dead(id);
            }
            let want = if front { range.pop_front() } else { range.pop_back() };
            match (got, want) {
                (Some(x), Some(id)) => {
                    ck!(x.intact_as(id), "drained {:?} behind {}, expected {:?}", x.ident(), n, id);
                    held.push((x, id));
                }
                (None, None) => {}
                (g, w) => fail!("drain gave {:?} behind {}, expected {:?}", g.map(|x| x.ident()), n, w),
            }
            alive.check("after skipping elements of a drain");
            used = true;
            continue;
        }
        let (got, want) = if front {
            (d.next(), range.pop_front())
        } else {
            (d.next_back(), range.pop_back())
        };
        match (got, want) {
            (Some(x), Some(id)) => {
                ck!(x.intact_as(id), "drained {:?}, expected {:?}", x.ident(), id);
                held.push((x, id));
                used = true;
            }
            (None, None) => {}
            (g, w) => fail!("drain gave {:?}, expected {:?}", g.map(|x| x.ident()), w),
        }
    }
    let range = Vec::from(range);
    if used && !tail.is_empty() {
        c.count("drained with a tail");
    }
    if broken {
        drop(d);
        resync(h, s, range, tail, alive);
    } else if c.rng.chance(1, 4) {
        consume(c, d, &range, alive);
        h.m.extend(tail);
    } else if mode == Mode::Drops && c.rng.chance(1, 6) {
        c.step("leak");
        std::mem::forget(d);
        resync(h, s, range, tail, alive);
        c.count("leaked drains");
    } else {
        let armed = arm(c, mode, &range);
        let r = may_panic(|| drop(d));
        ck_eq!(r.is_err(), armed.is_some(), "a panic came out of dropping a drain");
        if armed.is_some() {
            // As documented this may leak the rest of the elements.
            resync(h, s, range, tail, alive);
            c.count("panicking destructors");
        } else {
            for id in range {
                alive.dead(id);
            }
            h.m.extend(tail);
        }
    }
    look(h);
    alive.check("after a drain");
    for (x, id) in held {
        ck!(x.intact_as(id), "a drained element changed");
        drop(x);
        alive.dead(id);
    }
    c.count("drains");
}

/// Use up a drain by one of the methods of iterators. Each must visit the elements in order.
fn consume<T: Tv>(c: &mut Case, mut d: Drain<'_, T>, range: &[Id], alive: &mut Alive) {
    let how = c.rng.below(16);
    c.step(format!("consume the drain, way {}", how));
    let n = range.len();
    let k = c.rng.below(n + 1);
    let mut seen: Vec<Id> = vec![];
    let mut see = |x: &T| seen.push(x.ident());
    let mut back = false;
    let mut upto = n;
    match how {
        0 => d.for_each(|x| see(&x)),
        1 => ck_eq!(d.fold(0, |i, x| { see(&x); i + 1 }), n, "folded elements"),
        2 => { back = true; ck_eq!(d.rfold(0, |i, x| { see(&x); i + 1 }), n, "folded elements") }
        3 => ck_eq!(d.map(|x| see(&x)).count(), n, "counted elements"),
        4 => { upto = 0; ck_eq!(d.count(), n, "counted elements") }
        5 => { upto = 0; let last = d.last(); ck_eq!(last.as_ref().map(|x| x.ident()), range.last().copied(), "last element of a drain") }
        6 => d.collect::<Vec<T>>().iter().for_each(&mut see),
        7 => { back = true; d.rev().collect::<Vec<T>>().iter().for_each(&mut see) }
        8 => { upto = n.min(k + 1); let mut i = 0; d.all(|x| { see(&x); i += 1; i <= k }); }
        9 => { upto = n.min(k + 1); let mut i = 0; d.any(|x| { see(&x); i += 1; i > k }); }
        10 => { upto = n.min(k + 1); ck_eq!(d.position({ let mut i = 0; let see = &mut see; move |x| { see(&x); i += 1; i > k } }), (k < n).then_some(k), "position in a drain") }
        11 => { upto = n.min(k + 1); back = true; ck_eq!(d.rposition({ let mut i = 0; let see = &mut see; move |x| { see(&x); i += 1; i > k } }), (k < n).then(|| n - 1 - k), "position in a drain") }
        12 => { upto = n.min(k + 1); let _ = d.try_fold(0, |i, x| { see(&x); if i < k { Ok(i + 1) } else { Err(()) } }); }
        13 => { upto = n.min(k + 1); back = true; let _ = d.try_rfold(0, |i, x| { see(&x); if i < k { Ok(i + 1) } else { Err(()) } }); }
        14 => { let (a, b): (Vec<T>, Vec<T>) = { let mut i = 0; d.partition(|_| { i += 1; i <= k }) }; ck_eq!((a.len(), b.len()), (k, n - k), "partition of a drain"); a.iter().chain(&b).for_each(&mut see) }
        _ => {
            let got: Vec<Id> = d.step_by(k + 1).map(|x| x.ident()).collect();
            let want: Vec<Id> = range.iter().step_by(k + 1).copied().collect();
            ck_eq!(got, want, "every element at a distance of {} of a drain", k + 1);
            upto = 0;
        }
    }
    let want: Vec<Id> = if back { range.iter().rev().take(upto).copied().collect() } else { range[..upto].to_vec() };
    ck_eq!(seen, want, "elements visited by way {} in a drain", how);
    for id in range {
        alive.dead(*id);
    }
    c.count("drains consumed");
}

/// After a drain was left behind: the elements from `s` on may be kept, destroyed or lost, but what
/// is exposed must be alive, each element once.
fn resync<T: Tv>(h: &mut H<'_, T>, s: usize, range: Vec<Id>, tail: Vec<Id>, alive: &mut Alive) {
    ck!(h.v.len() >= s && h.v.len() <= s + range.len() + tail.len(), "length after an unfinished drain");
    let mut now: Vec<Id> = h.v.iter().map(|x| x.ident()).collect();
    ck!(now[..s] == h.m[..s], "elements before an unfinished drain");
    h.m = now.clone();
    let mut rest: Vec<Id> = now.split_off(s);
    if size_of::<T>() == 0 {
        let live = track::with(|l| l.zst_live);
        ck!(live <= alive.zsts && live >= h.m.len() as i64, "zero-sized elements after an unfinished drain");
        alive.zsts = live;
        return;
    }
    for id in &rest {
        ck!(range.contains(id) || tail.contains(id), "an unfinished drain exposes {:?}", id);
        ck_eq!(track::drops_of(id.unwrap()), 0, "destructions of an element exposed by an unfinished drain");
    }
    let k = rest.len();
    rest.sort();
    rest.dedup();
    ck_eq!(rest.len(), k, "distinct elements exposed by an unfinished drain");
    for id in range.iter().chain(&tail) {
        if track::drops_of(id.unwrap()) == 1 {
            alive.dead(*id);
        }
    }
}

fn source<T: Tv>(c: &mut Case, mode: Mode, h: &mut H<'_, T>, alive: &mut Alive, extend: bool) {
    let free = h.cap - h.m.len();
    let n = if size_of::<T>() == 0 { if c.rng.chance(1, 20) && !c.miri { c.rng.below(6000) } else if c.rng.chance(1, 6) { c.rng.below(60) } else { c.rng.below(9) } } else { match c.rng.below(4) { 0 => free, 1 => free + 1, _ => c.rng.below(free + 4) } };
    let (made, ended, born) = (Cell::new(0), Cell::new(0), std::cell::RefCell::new(vec![]));
    let panic_at = if mode == Mode::Drops && c.rng.chance(1, 4) { c.rng.below(n + 1) } else { usize::MAX };
    let hint = *c.rng.pick(&[(0, None), (0, Some(0)), (usize::MAX, None), (n, Some(n)), (n + 3, Some(1))]);
    c.step(format!("{} {} items, room {}, panic {}", if extend { "extend" } else { "fill" }, n, free as isize, panic_at as isize));
    let src: Src<'_, T> = Src { left: n, made: &made, born: &born, ended: &ended, panic_at, hint, _t: std::marker::PhantomData };
    let take = n.min(free);
    if extend {
        let v = &mut h.v;
        let r = may_panic(|| v.extend(src));
        let hits = panic_at <= take && (panic_at < take || true);
        // The source is asked once more to see whether there is a surplus.
        let over = n > free;
        ck_eq!(r.is_err(), over || hits, "extending by {} with room for {} panicked", n, free as isize);
        let stored = take.min(panic_at);
        let pulled = if hits { panic_at.min(take) } else { take + over as usize };
        ck_eq!(made.get(), pulled, "items pulled by extend");
        for (k, id) in born.borrow().iter().enumerate() {
            alive.born(*id);
            if k < stored {
                h.m.push(*id);
            } else {
                alive.dead(*id);
            }
        }
        if over && !hits {
            c.count("extended beyond capacity");
        }
    } else {
        let v = &mut h.v;
        // The end is only asked for while there is room.
        let asks = if n < free { take + 1 } else { take };
        let hits = panic_at < asks;
        let r = may_panic(|| v.fill(src).left);
        ck_eq!(r.is_err(), hits, "filling with {} items panicked", n);
        let stored = if hits { panic_at } else { take };
        ck_eq!(made.get(), stored, "items pulled with room for {}", free as isize);
        if let Ok(left) = r {
            ck_eq!(left, n - take, "items left in the returned iterator");
            ck_eq!(ended.get(), (n < free) as usize, "polls of the end with room for {}", free as isize);
        }
        for id in born.borrow().iter() {
            alive.born(*id);
            h.m.push(*id);
        }
        if n >= free {
            c.count("filled");
        }
    }
    if panic_at <= take {
        c.count("panicking sources");
    }
}

fn step<'a, T: Tv>(c: &mut Case, mode: Mode, pool: &mut Vec<H<'a, T>>, i: usize, alive: &mut Alive) {
    let size = size_of::<T>();
    let h = &mut pool[i];
    match c.rng.below(22) {
        0..=4 => {
            c.step("push");
            let v = T::mk();
            let id = v.ident();
            alive.born(id);
            match h.v.push(v) {
                Ok(()) => {
                    ck!(h.m.len() < h.cap, "pushed beyond the capacity of {}", h.cap);
                    h.m.push(id);
                    c.count("pushed");
                }
                Err(v) => {
                    ck!(h.m.len() == h.cap, "refused to push with {} of {}", h.m.len(), h.cap);
                    ck!(v.intact_as(id), "the refused element changed");
                    alive.check("after a refused push");
                    drop(v);
                    alive.dead(id);
                    c.count("push refused");
                }
            }
        }
        5 | 6 => {
            c.step("pop");
            match (h.v.pop(), h.m.pop()) {
                (Some(v), Some(id)) => {
                    ck!(v.intact_as(id), "popped {:?}, expected {:?}", v.ident(), id);
                    alive.check("after a pop");
                    look(h);
                    drop(v);
                    alive.dead(id);
                    c.count("popped");
                }
                (None, None) => c.count("pop refused"),
                (g, w) => fail!("pop gave {:?}, expected {:?}", g.map(|v| v.ident()), w),
            }
        }
        7 | 8 => {
            let to = match c.rng.below(6) {
                0 => usize::MAX,
                1 => h.m.len() + 1,
                2 => 0,
                _ => c.rng.below(h.m.len() + 1),
            };
            let clear = to == 0 && c.rng.chance(1, 2);
            c.step(format!("truncate({}) of {}", to as isize, h.m.len()));
            let gone = if to < h.m.len() { h.m.split_off(to) } else { vec![] };
            let armed = arm(c, mode, &gone);
            track::clear_events();
            let v = &mut h.v;
            let r = may_panic(|| if clear { v.clear() } else { v.truncate(to) });
            ck_eq!(r.is_err(), armed.is_some(), "a panic came out of truncating");
            let keep = armed.unwrap_or(0);
            if let Some(k) = armed {
                // Stops at the panicking one; the ones before it stay.
                h.m.extend(&gone[..k]);
                c.count("panicking destructors");
            }
            let want: Vec<u32> = gone[keep..].iter().rev().flatten().copied().collect();
            if size > 0 {
                ck_eq!(track::order(), want, "order of destruction while truncating");
            }
            for id in &gone[keep..] {
                alive.dead(*id);
            }
            c.count("truncated");
        }
        9..=11 => drain(c, mode, h, alive),
        12 | 13 => source(c, mode, h, alive, false),
        14 => source(c, mode, h, alive, true),
        15 | 16 => {
            // A temporary split.
            let at = split_point(c, h.cap, h.m.len());
            c.step(format!("split_borrowed({}) of {}", at as isize, h.m.len()));
            if at > h.cap {
                let v = &mut h.v;
                ck!(may_panic(|| v.split_borrowed(at).len()).is_err(), "split at {} of {} did not panic", at, h.cap);
                c.count("refused splits");
                return;
            }
            let tail = if at < h.m.len() { h.m.split_off(at) } else { vec![] };
            {
                let child = h.v.split_borrowed(at);
                let place = if size == 0 { 0 } else { h.at + at * size };
                let ccap = if size == 0 { usize::MAX } else { h.cap - at };
                let mut k = H { v: child, m: tail, cap: ccap, at: place };
                look(&mut k);
                for _ in 0..c.rng.below(3) {
                    let v = T::mk();
                    let id = v.ident();
                    alive.born(id);
                    match k.v.push(v) {
                        Ok(()) => k.m.push(id),
                        Err(v) => {
                            ck_eq!(k.m.len(), k.cap, "refused to push into a split");
                            drop(v);
                            alive.dead(id)
                        }
                    }
                    look(&mut k);
                }
                if c.rng.chance(1, 2) {
                    if let Some(v) = k.v.pop() {
                        let id = k.m.pop().unwrap();
                        ck!(v.intact_as(id), "popped from a split");
                        drop(v);
                        alive.dead(id);
                    }
                }
                finish(c, mode, k, alive);
            }
            c.count("splits");
        }
        17 => {
            let at = split_point(c, h.cap, h.m.len());
            c.step(format!("split_and_shrink_to({}) of {}", at as isize, h.m.len()));
            if at > h.cap {
                let v = &mut h.v;
                ck!(may_panic(|| v.split_and_shrink_to(at).len()).is_err(), "split at {} of {} did not panic", at, h.cap);
                c.count("refused splits");
                return;
            }
            if pool.len() > 5 {
                return;
            }
            let h = &mut pool[i];
            let tail = if at < h.m.len() { h.m.split_off(at) } else { vec![] };
            let v = h.v.split_and_shrink_to(at);
            let k = H { v, m: tail, cap: if size == 0 { usize::MAX } else { h.cap - at }, at: h.at + at.wrapping_mul(size) };
            if size > 0 {
                h.cap = at;
            }
            pool.push(k);
            c.count("splits");
        }
        18 => {
            c.step("shrink_to_fit");
            let cap = h.cap;
            let r = h.v.shrink_to_fit();
            if size > 0 {
                ck!(r.size() < size + align_of::<T>() && (cap == 0 || r.as_ptr() as usize == h.at + cap * size), "the rest of {} bytes behind the elements", r.size());
            }
            drop(r);
            ck_eq!(h.v.shrink_to_fit().size(), 0, "the rest behind a vector that was shrunk");
        }
        19 if !h.m.is_empty() => {
            c.step("write");
            let k = c.rng.below(h.m.len());
            let v = T::mk();
            let id = v.ident();
            alive.born(id);
            // Any of the mutable views leads to the same element.
            match c.rng.below(8) {
                0 => h.v[k..][0] = v,
                1 => h.v[..=k][k] = v,
                2 => h.v.as_mut_slice()[k] = v,
                3 => *h.v.iter_mut().nth(k).unwrap() = v,
                4 => AsMut::<[T]>::as_mut(&mut h.v)[k] = v,
                5 => std::borrow::BorrowMut::<[T]>::borrow_mut(&mut h.v)[k] = v,
                6 => drop(unsafe { h.v.as_mut_ptr().add(k).replace(v) }),
                _ => h.v[k] = v,
            }
            alive.dead(h.m[k]);
            h.m[k] = id;
        }
        20 if h.m.len() > 1 => {
            c.step("swap");
            let (a, b) = (c.rng.below(h.m.len()), c.rng.below(h.m.len()));
            h.v.swap(a, b);
            h.m.swap(a, b);
            let k = c.rng.below(h.m.len());
            h.v.rotate_left(k);
            h.m.rotate_left(k);
            ck!(h.v[k..].len() == h.m.len() - k && h.v[k].intact_as(h.m[k]), "indexing");
            c.count("rearranged");
        }
        _ => {
            // Out of range indices.
            let (v, n) = (&mut h.v, h.m.len());
            ck!(may_panic(|| { let _ = &v[n]; }).is_err(), "index {} of {} did not panic", n, n);
            ck!(may_panic(|| { let _ = &mut v[n + 1..]; }).is_err(), "range {}.. of {} did not panic", n + 1, n);
            ck!(v.get(n).is_none(), "element {} of {}", n, n);
            c.count("indices refused");
        }
    }
}

fn split_point(c: &mut Case, cap: usize, len: usize) -> usize {
    match c.rng.below(8) {
        0 => cap,
        1 => cap.saturating_add(1 + c.rng.below(3)),
        2 => usize::MAX,
        3 => len.min(cap),
        4 => 0,
        _ => c.rng.below(cap.min(len + 6) + 1),
    }
}
