//! C12: Fill inserts in order up to capacity and never discards an item it pulled.
use fill::Fill;
use harness::books;
use harness::track::{self, Tr};
use harness::*;
use std::cell::Cell;
use std::collections::VecDeque;

/// The type of errors.
type V = Tr;

#[derive(Default)]
struct Stats {
    polls: Cell<usize>,
    pulled: Cell<usize>,
    ended: Cell<bool>,
    after_end: Cell<usize>,
}

/// An iterator following a script; `None` entries are ends, after which an unfused one goes on.
struct Src<'a, T> {
    script: &'a mut VecDeque<Option<T>>,
    st: &'a Stats,
    hint: (usize, Option<usize>),
    panic_at: usize,
}

impl<T> Iterator for Src<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.st.polls.set(self.st.polls.get() + 1);
        if self.st.polls.get() == self.panic_at {
            std::panic::panic_any("source");
        }
        if self.st.ended.get() {
            self.st.after_end.set(self.st.after_end.get() + 1);
        }
        match self.script.pop_front() {
            Some(Some(t)) => {
                self.st.pulled.set(self.st.pulled.get() + 1);
                Some(t)
            }
            Some(None) => {
                self.st.ended.set(true);
                None
            }
            None => {
                self.st.ended.set(true);
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// A container under test. Errors are numbered by the level at which they occur, outermost 0.
trait Cont: Fill<Self::It> {
    type It;
    const DEPTH: usize;
    /// Room left, `usize::MAX` if unlimited.
    fn free(&self) -> usize;
    fn ids(&self, out: &mut Vec<u32>);
    fn item(err: Option<usize>) -> (Self::It, Option<u32>);
    /// A container in a random state and its ids.
    fn mk(rng: &mut Rng) -> Self;
    fn buf(&self) -> (usize, usize);
}

trait Item: Sized {
    fn make() -> Self;
    fn id(&self) -> u32;
    fn live(&self, id: u32);
}

impl<A: Copy + 'static, const N: usize> Item for Tr<A, N> {
    fn make() -> Self {
        val()
    }
    fn id(&self) -> u32 {
        self.id
    }
    #[track_caller]
    fn live(&self, id: u32) {
        self.assert_live(id)
    }
}

/// Call with one of the item types, mostly the small one.
macro_rules! sized {
    ($c:ident, $T:ident => $e:expr) => {
        match $c.rng.below(8) {
            0 => { type $T = Tr<track::A16, 0>; $e }
            1 => { type $T = Tr<track::A64, 40>; $e }
            2 => { type $T = Tr<track::A4, 100>; $e }
            3 => { type $T = Tr<track::A8, 1000>; $e }
            _ => { type $T = Tr; $e }
        }
    };
}

const CAPS: &[usize] = &[0, 1, 2, 3, 5, 8, 13, 0, 1, 2, 3, 5, 8, 13, 17, 34, 66, if MIRI { 12 } else { 300 }];

fn val<A: Copy + 'static, const N: usize>() -> Tr<A, N> {
    Tr::new()
}

impl<A: Copy + 'static, const N: usize> Cont for Vec<Tr<A, N>> {
    type It = Tr<A, N>;
    const DEPTH: usize = 0;
    fn free(&self) -> usize {
        self.capacity() - self.len()
    }
    fn ids(&self, out: &mut Vec<u32>) {
        out.extend(self.iter().map(|v| v.id))
    }
    fn item(_: Option<usize>) -> (Tr<A, N>, Option<u32>) {
        let v = val();
        let i = v.id;
        (v, Some(i))
    }
    fn mk(rng: &mut Rng) -> Self {
        let cap = *rng.pick(CAPS);
        let mut v = Vec::with_capacity(cap);
        let n = if cap == 0 { 0 } else { rng.range(0, cap) };
        v.extend((0..n).map(|_| val()));
        v
    }
    fn buf(&self) -> (usize, usize) {
        (self.as_ptr() as usize, self.capacity())
    }
}

impl<A: Copy + 'static, const N: usize> Cont for VecDeque<Tr<A, N>> {
    type It = Tr<A, N>;
    const DEPTH: usize = 0;
    fn free(&self) -> usize {
        self.capacity() - self.len()
    }
    fn ids(&self, out: &mut Vec<u32>) {
        out.extend(self.iter().map(|v| v.id))
    }
    fn item(e: Option<usize>) -> (Tr<A, N>, Option<u32>) {
        Vec::<Tr<A, N>>::item(e)
    }
    fn mk(rng: &mut Rng) -> Self {
        let cap = *rng.pick(CAPS);
        let mut v = VecDeque::with_capacity(cap);
        // Move the head around so that the free room wraps.
        for _ in 0..rng.below(10) {
            if cap > 0 {
                v.push_back(val());
                v.pop_front();
            }
        }
        let n = if cap == 0 { 0 } else { rng.range(0, cap) };
        for _ in 0..n {
            if rng.chance(1, 2) {
                v.push_back(val())
            } else {
                v.push_front(val())
            }
        }
        v
    }
    fn buf(&self) -> (usize, usize) {
        (0, self.capacity())
    }
}

impl<A: Copy + 'static, const N: usize> Cont for Option<Tr<A, N>> {
    type It = Tr<A, N>;
    const DEPTH: usize = 0;
    fn free(&self) -> usize {
        self.is_none() as usize
    }
    fn ids(&self, out: &mut Vec<u32>) {
        out.extend(self.iter().map(|v| v.id))
    }
    fn item(e: Option<usize>) -> (Tr<A, N>, Option<u32>) {
        Vec::<Tr<A, N>>::item(e)
    }
    fn mk(rng: &mut Rng) -> Self {
        rng.chance(1, 3).then(val)
    }
    fn buf(&self) -> (usize, usize) {
        (0, 0)
    }
}

impl Cont for () {
    type It = ();
    const DEPTH: usize = 0;
    fn free(&self) -> usize {
        usize::MAX
    }
    fn ids(&self, _: &mut Vec<u32>) {}
    fn item(_: Option<usize>) -> ((), Option<u32>) {
        ((), None)
    }
    fn mk(_: &mut Rng) {}
    fn buf(&self) -> (usize, usize) {
        (0, 0)
    }
}

impl<C: Cont> Cont for Result<C, V> {
    type It = Result<C::It, V>;
    const DEPTH: usize = C::DEPTH + 1;
    fn free(&self) -> usize {
        self.as_ref().map_or(0, |c| c.free())
    }
    fn ids(&self, out: &mut Vec<u32>) {
        match self {
            Ok(c) => c.ids(out),
            Err(e) => out.push(e.id),
        }
    }
    fn item(err: Option<usize>) -> (Self::It, Option<u32>) {
        if err == Some(0) {
            let v = V::new();
            let i = v.id;
            return (Err(v), Some(i));
        }
        let (v, i) = C::item(err.map(|e| e - 1));
        (Ok(v), i)
    }
    fn mk(rng: &mut Rng) -> Self {
        if rng.chance(1, 8) {
            Err(V::new())
        } else {
            Ok(C::mk(rng))
        }
    }
    fn buf(&self) -> (usize, usize) {
        self.as_ref().map_or((0, 0), |c| c.buf())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Item,
    Err(usize),
    End,
}

fn script(c: &mut Case, depth: usize, long: usize) -> Vec<S> {
    let n = c.rng.range(0, long);
    let ends = c.rng.below(4);
    let errs = if depth > 0 { c.rng.below(4) } else { 0 };
    let mut v: Vec<S> = (0..n)
        .map(|_| {
            if c.rng.below(24) < ends {
                S::End
            } else if c.rng.below(16) < errs {
                S::Err(c.rng.below(depth))
            } else {
                S::Item
            }
        })
        .collect();
    // An unfused iterator goes on behind its end.
    v.push(S::End);
    for _ in 0..c.rng.below(4) {
        v.push(S::Item);
    }
    v
}

fn run<C: Cont>(c: &mut Case, name: &str) {
    track::reset();
    books::forget_all();
    let mut cont = C::mk(&mut c.rng);
    let method = c.rng.below(4);
    for round in 0..c.rng.range(1, 2) {
        let free = cont.free();
        let plan = script(c, C::DEPTH, if free > 13 && free < 1000 { free * 3 / 2 } else { 18 });
        // What must be pulled.
        let (mut polls, mut pulled, mut full, mut lost_level) = (0, 0, free == 0, None);
        for s in &plan {
            if full {
                break;
            }
            polls += 1;
            match s {
                S::End => break,
                S::Item => {
                    pulled += 1;
                    full = pulled == free;
                }
                S::Err(l) => {
                    pulled += 1;
                    full = true;
                    lost_level = Some(*l);
                }
            }
        }
        let panic_at = if c.rng.chance(1, 12) && polls > 0 { c.rng.range(1, polls) } else { usize::MAX };
        c.step(format!("{} free {} method {} panic {} {}", name, free, method, panic_at as i64,
            plan.iter().map(|s| match s { S::Item => ".".into(), S::Err(l) => l.to_string(), S::End => "|".to_string() }).collect::<String>()));
        let mut ids = vec![];
        let mut sc: VecDeque<Option<C::It>> = plan.iter().map(|s| match s {
            S::End => { ids.push(None); None }
            S::Item => { let (v, i) = C::item(None); ids.push(i); Some(v) }
            S::Err(l) => { let (v, i) = C::item(Some(*l)); ids.push(i); Some(v) }
        }).collect();
        let mut before = vec![];
        cont.ids(&mut before);
        let buf = cont.buf();
        let hint = *c.rng.pick(&[(0, None), (0, Some(0)), (3, Some(3)), (usize::MAX, None), (100, Some(7)), (1, Some(usize::MAX))]);
        let st = Stats::default();
        let total = books::total();
        let mut tail_some = None;
        let mut count = None;
        let r = {
            let src = Src { script: &mut sc, st: &st, hint, panic_at };
            let cont = &mut cont;
            let (tail_some, count) = (&mut tail_some, &mut count);
            may_panic(move || books::tracked(move || match method {
                0 => cont.fill(src),
                1 => {
                    let t = cont.fill_and_keep_tail(src);
                    // The tail is still the same iterator.
                    *tail_some = Some(true);
                    let _ = t.panic_at;
                }
                2 => *count = Some(cont.fill_count(src)),
                _ => *tail_some = Some(cont.checked_fill(src).is_some()),
            }))
        };
        let panicked = panic_at <= polls;
        ck_eq!(r.is_err(), panicked, "a panic came out");
        if panicked {
            // Everything pulled before stays.
            pulled = panic_at - 1;
            polls = panic_at;
            lost_level = None;
            c.count("source panics");
        } else {
            ck_eq!(books::total() - total, 0, "allocations while filling");
        }
        ck_eq!(st.after_end.get(), 0, "polls after the end");
        ck_eq!(st.pulled.get(), pulled, "items pulled with room for {}", free as i64);
        ck_eq!(st.polls.get(), polls, "polls of the iterator with room for {}", free as i64);
        if let Some(n) = count {
            ck_eq!(n, pulled, "count of pulled items");
        }
        if method == 3 && !panicked {
            ck_eq!(tail_some, Some(full), "the checked variant returns the tail");
        }
        // The container's contents.
        let mut after = vec![];
        cont.ids(&mut after);
        let taken: Vec<u32> = plan.iter().zip(&ids).take(pulled).filter_map(|(_, i)| *i).collect();
        match lost_level {
            None => {
                ck_eq!(after, before.iter().chain(&taken).copied().collect::<Vec<_>>(), "contents");
                ck_eq!(cont.buf(), buf, "buffer and capacity");
                for i in &after {
                    ck_eq!(track::drops_of(*i), 0, "destructions of a stored item");
                }
            }
            Some(_) => {
                ck_eq!(after, vec![*taken.last().unwrap()], "the error that ended filling is what is stored");
                ck_eq!(track::drops_of(after[0]), 0, "destructions of a stored error");
                for i in before.iter().chain(&taken[..taken.len() - 1]) {
                    ck_eq!(track::drops_of(*i), 1, "destructions of the contents replaced by an error");
                }
                c.count("error ends");
            }
        }
        // The tail continues at the first item not stored.
        let rest: Vec<Option<u32>> = ids[polls.min(ids.len()) - panicked as usize..].to_vec();
        ck_eq!(sc.len(), rest.len(), "items left in the iterator");
        for i in rest.iter().flatten() {
            ck_eq!(track::drops_of(*i), 0, "destructions of an item never pulled");
        }
        drop(sc);
        track::check_sane();
        if pulled > 0 {
            c.nontrivial();
        }
        c.count(if full { "filled to capacity" } else { "iterator ended" });
        if free == 0 {
            c.count("already full");
        }
        let _ = round;
    }
    drop(cont);
    track::check_all_dropped();
    books::forget_all();
}

fn some_len(c: &mut Case) -> usize {
    if !MIRI && c.rng.chance(1, 16) { c.rng.below(300) } else { c.rng.below(9) }
}

/// Slices are filled through the iterator over the places.
fn slice<T: Item>(c: &mut Case) {
    track::reset();
    let len = some_len(c);
    let skip = c.rng.below(len + 1);
    let back = c.rng.below(len - skip + 1);
    let fallible = c.rng.below(3);
    let method = c.rng.below(4);
    let mut data: Vec<T> = (0..len).map(|_| T::make()).collect();
    let old: Vec<u32> = data.iter().map(|v| v.id()).collect();
    let free = len - skip - back;
    let plan: Vec<S> = {
        let d = if fallible > 0 { 1 } else { 0 };
        script(c, d, 12.max(free * 3 / 2))
    };
    let (mut polls, mut pulled, mut full, mut err) = (0, 0, free == 0, None);
    for s in &plan {
        if full {
            break;
        }
        polls += 1;
        match s {
            S::End => break,
            S::Item => {
                pulled += 1;
                full = pulled == free;
            }
            S::Err(_) => {
                err = Some(pulled);
                pulled += 1;
                full = true;
            }
        }
    }
    c.step(format!("slice {} skip {} back {} fallible {} method {} {}", len, skip, back, fallible, method,
        plan.iter().map(|s| match s { S::Item => ".", S::Err(_) => "e", S::End => "|" }).collect::<String>()));
    let st = Stats::default();
    let hint = *c.rng.pick(&[(0, None), (0, Some(0)), (usize::MAX, None)]);
    let mut ids = vec![];
    let mut it = data.iter_mut();
    for _ in 0..skip {
        it.next();
    }
    for _ in 0..back {
        it.next_back();
    }
    let (left, count, tail): (Option<usize>, Option<usize>, Option<bool>);
    macro_rules! go {
        ($cont:expr, $src:expr) => {
            match method {
                0 => { $cont.fill($src); (None, None) }
                1 => { let _ = $cont.fill_and_keep_tail($src); (None, None) }
                2 => (Some($cont.fill_count($src)), None),
                _ => (None, Some($cont.checked_fill($src).is_some())),
            }
        };
    }
    if fallible == 0 {
        let mut sc: VecDeque<Option<T>> = plan.iter().map(|s| if *s == S::End { ids.push(None); None } else { let v = T::make(); ids.push(Some(v.id())); Some(v) }).collect();
        let src = Src { script: &mut sc, st: &st, hint, panic_at: usize::MAX };
        (count, tail) = go!(it, src);
        left = Some(it.len());
        ck_eq!(sc.len(), plan.len() - polls, "items left in the iterator");
    } else {
        let mut sc: VecDeque<Option<Result<T, V>>> = plan.iter().map(|s| match s {
            S::End => { ids.push(None); None }
            S::Item => { let v = T::make(); ids.push(Some(v.id())); Some(Ok(v)) }
            S::Err(_) => { let v = V::new(); ids.push(Some(v.id)); Some(Err(v)) }
        }).collect();
        let src = Src { script: &mut sc, st: &st, hint, panic_at: usize::MAX };
        let mut cont: Result<_, V> = Ok(it);
        (count, tail) = go!(cont, src);
        ck_eq!(sc.len(), plan.len() - polls, "items left in the iterator");
        match (&cont, err) {
            (Ok(it), None) => left = Some(it.len()),
            (Err(e), Some(k)) => {
                ck_eq!(Some(e.id), ids[k], "the stored error");
                left = None;
                c.count("error ends");
            }
            (r, e) => fail!("ended with error: {}, expected error: {}", r.is_err(), e.is_some()),
        }
    }
    ck_eq!((st.polls.get(), st.pulled.get(), st.after_end.get()), (polls, pulled, 0), "polls, items pulled and polls after the end for {} places", free);
    let stored = err.unwrap_or(pulled);
    if let Some(l) = left {
        ck_eq!(l, free - stored, "places left");
    }
    if let Some(n) = count {
        ck_eq!(n, pulled, "count of pulled items");
    }
    if let Some(t) = tail {
        ck_eq!(t, full, "the checked variant returns the tail");
    }
    for i in 0..len {
        let want = if i >= skip && i < skip + stored { ids[i - skip].unwrap() } else { old[i] };
        data[i].live(want);
        if want != old[i] {
            ck_eq!(track::drops_of(old[i]), 1, "destructions of a replaced value");
        }
    }
    drop(data);
    track::check_sane();
    for (i, id) in ids.iter().enumerate() {
        if let Some(id) = id {
            ck_eq!(track::drops_of(*id), 1, "destructions of item {}", i);
        }
    }
    if stored > 0 {
        c.nontrivial();
    }
    c.count("slices");
}

/// Filling by swap.
fn swap<T: Item>(c: &mut Case) {
    track::reset();
    let (a, b) = (some_len(c), some_len(c));
    let method = c.rng.below(4);
    c.step(format!("swap {} places with {} items, method {}", a, b, method));
    let mut places: Vec<T> = (0..a).map(|_| T::make()).collect();
    let mut items: Vec<T> = (0..b).map(|_| T::make()).collect();
    let st = Stats::default();
    {
        let mut sc: VecDeque<Option<&mut T>> = items.iter_mut().map(Some).collect();
        sc.push_back(None);
        let src = Src { script: &mut sc, st: &st, hint: (0, None), panic_at: usize::MAX };
        let mut it = places.iter_mut();
        match method {
            0 => it.fill(src),
            1 => {
                let t: Vec<u32> = { let mut t = it.fill_and_keep_tail(src); std::iter::from_fn(|| if t.script.is_empty() { None } else { t.script.pop_front().flatten() }).map(|v| v.id()).collect() };
                ck_eq!(t, (a.min(b) as u32..b as u32).map(|i| i + a as u32).collect::<Vec<_>>(), "tail");
            }
            2 => ck_eq!(it.fill_count(src), a.min(b), "count"),
            _ => ck_eq!(it.checked_fill(src).is_some(), b >= a, "checked variant"),
        }
        ck_eq!(it.len(), a - a.min(b), "places left");
    }
    ck_eq!(st.pulled.get(), a.min(b), "items pulled");
    ck_eq!(st.polls.get(), if b >= a { a } else { b + 1 }, "polls");
    for i in 0..a {
        places[i].live((if i < b { a + i } else { i }) as u32);
    }
    for i in 0..b {
        items[i].live((if i < a { i } else { a + i }) as u32);
    }
    if a.min(b) > 0 {
        c.nontrivial();
    }
    drop((places, items));
    track::check_all_dropped();
    c.count("swaps");
}

/// Containers of zero-sized items and truly infinite iterators.
fn endless(c: &mut Case) {
    // A container that grows without end must not take the machine with it.
    books::refuse_over(1 << 20);
    let _reset = OnDrop(|| books::refuse_over(usize::MAX));
    let cap = c.rng.below(30);
    let mut v: Vec<u64> = Vec::with_capacity(cap);
    let cap = v.capacity();
    let from = c.rng.u64() >> 1;
    let tail = v.fill_and_keep_tail(from..);
    ck_eq!(tail.start, from + cap as u64, "tail of an infinite range");
    ck!(v.iter().copied().eq(from..from + cap as u64), "contents");
    let mut r: Result<Result<VecDeque<u64>, u8>, i8> = Ok(Ok(VecDeque::with_capacity(cap)));
    let room = r.as_ref().unwrap().as_ref().unwrap().capacity() as u64;
    let n = Cell::new(0u64);
    let tail = r.fill_count(std::iter::repeat_with(|| { n.set(n.get() + 1); ck!(n.get() < room + 9, "a full container pulls without end"); Ok(Ok(n.get())) }));
    ck_eq!((tail as u64, n.get()), (room, room), "items pulled from an infinite iterator");
    ck!(r.unwrap().unwrap().into_iter().eq(1..=room), "contents");
    track::reset();
    let k = c.rng.below(20);
    let mut z: Vec<track::Z> = Vec::new();
    ck_eq!(z.fill_count((0..k).map(|_| track::Z::new())), k, "zero-sized items");
    ck_eq!(z.len(), k, "zero-sized items");
    drop(z);
    track::check_all_dropped();
    let mut o = None;
    ck_eq!(o.fill_and_keep_tail(from..).start, from + 1, "tail of an option");
    ck_eq!(o.fill_and_keep_tail(from..).start, from, "tail of a full option");
    let mut u: Result<(), u32> = Ok(());
    let seen = Cell::new(0);
    u.fill(std::iter::repeat_with(|| { seen.set(seen.get() + 1); ck!(seen.get() < k + 9, "pulls behind an error"); if seen.get() > k { Err(9) } else { Ok(()) } }));
    ck_eq!((u, seen.get()), (Err(9), k + 1), "the unit container ends at the first error");
    c.obs((cap * 100 + k) as u64);
    c.nontrivial();
    c.count("infinite iterators");
}

/// A container of the user that does not take the first end for an answer.
struct Insist {
    items: Vec<V>,
    room: usize,
    tries: usize,
}

impl Fill<V> for Insist {
    fn fill<I: IntoIterator<Item = V>>(&mut self, iter: I) {
        let mut iter = iter.into_iter();
        let mut ends = 0;
        while self.items.len() < self.room && ends < self.tries {
            match iter.next() {
                Some(v) => self.items.push(v),
                None => ends += 1,
            }
        }
    }
}

/// The provided wrappers around a container that asks again after an end, or after an error.
fn insist(c: &mut Case) {
    track::reset();
    let levels = c.rng.range(0, 3);
    let mut cont = Ok(Ok(Ok(Insist { items: vec![], room: c.rng.below(9), tries: c.rng.range(1, 4) })));
    let room = match &cont { Ok(Ok(Ok::<_, V>(i))) => (i.room, i.tries), _ => unreachable!() };
    let plan = script(c, levels, 18);
    let method = c.rng.below(4);
    c.step(format!("{:?} below {} results, method {}: {}", room, levels, method,
        plan.iter().map(|s| match s { S::Item => ".".into(), S::Err(l) => l.to_string(), S::End => "|".to_string() }).collect::<String>()));
    // The checked variant never asks behind an end.
    let fused = method == 3;
    let (mut polls, mut stored, mut ends, mut err) = (0, vec![], 0, None);
    let mut ended = false;
    for (k, s) in plan.iter().chain(std::iter::repeat(&S::End)).enumerate() {
        if stored.len() == room.0 || ends == room.1 {
            break;
        }
        polls += 1;
        match s {
            S::End => {
                ended = true;
                ends += 1;
                if fused {
                    break;
                }
            }
            S::Item => stored.push(k),
            S::Err(l) => {
                err = Some((k, *l));
                break;
            }
        }
    }
    let mut ids = vec![];
    type R<T> = Result<T, V>;
    let mut sc: VecDeque<Option<R<R<R<V>>>>> = plan.iter().map(|s| match s {
        S::End => { ids.push(None); None }
        s => {
            let v = V::new();
            ids.push(Some(v.id));
            // Levels not in use are the outer ones.
            let off = 3 - levels;
            Some(match s {
                S::Err(l) if l + off == 0 => Err(v),
                S::Err(l) if l + off == 1 => Ok(Err(v)),
                S::Err(_) => Ok(Ok(Err(v))),
                _ => Ok(Ok(Ok(v))),
            })
        }
    }).collect();
    let st = Stats::default();
    let (mut count, mut tail) = (None, None);
    {
        let src = Src { script: &mut sc, st: &st, hint: (0, None), panic_at: usize::MAX };
        macro_rules! go {
            ($cont:expr, $src:expr) => {
                match method {
                    0 => $cont.fill($src),
                    1 => drop($cont.fill_and_keep_tail($src)),
                    2 => count = Some($cont.fill_count($src)),
                    _ => tail = Some($cont.checked_fill($src).is_some()),
                }
            };
        }
        match (levels, &mut cont) {
            (0, Ok(Ok(Ok(i)))) => go!(i, src.map(|r| r.ok().and_then(|r| r.ok()).and_then(|r| r.ok()).unwrap())),
            (1, Ok(Ok(r))) => go!(r, src.map(|r| r.ok().and_then(|r| r.ok()).unwrap())),
            (2, Ok(r)) => go!(r, src.map(|r| r.ok().unwrap())),
            (_, r) => go!(r, src),
        }
    }
    let pulled = stored.len() + err.is_some() as usize;
    ck_eq!((st.polls.get(), st.pulled.get()), (polls, pulled), "polls and items pulled through {} results for a container of the user", levels);
    ck_eq!(sc.len(), plan.len().saturating_sub(polls), "items left in the iterator");
    if let Some(n) = count {
        ck_eq!(n, pulled, "count of pulled items");
    }
    if let Some(t) = tail {
        ck_eq!(t, !ended, "the checked variant returns the tail");
    }
    let at = |l: usize| err.and_then(|(k, e)| if e + 3 - levels == l { ids[k] } else { None });
    let items = match &cont {
        Err(e) => { ck_eq!(Some(e.id), at(0), "the stored error"); None }
        Ok(Err(e)) => { ck_eq!(Some(e.id), at(1), "the stored error"); None }
        Ok(Ok(Err(e))) => { ck_eq!(Some(e.id), at(2), "the stored error"); None }
        Ok(Ok(Ok(i))) => { ck!(err.is_none(), "an error was not stored"); Some(i) }
    };
    if let Some(i) = items {
        ck!(i.items.iter().map(|v| Some(v.id)).eq(stored.iter().map(|&k| ids[k])), "items stored");
    } else {
        c.count("errors for a container of the user");
    }
    if pulled > 0 {
        c.nontrivial();
    }
    drop((cont, sc));
    track::check_all_dropped();
    c.count("containers of the user");
}

/// More items than 16 bits count, into containers with or without room for them.
fn many(c: &mut Case) {
    let n = (1u64 << 16) + c.rng.below(300) as u64 - 150;
    let room = match c.rng.below(3) { 0 => n as usize + c.rng.below(9), _ => (1 << 16) + c.rng.below(300) - 150 };
    let way = c.rng.below(6);
    c.step(format!("{} items, room for {}, way {}", n, room, way));
    let min = |room: usize| (n as usize).min(room);
    match way {
        0 => {
            let mut v: Vec<u64> = Vec::with_capacity(room);
            let room = v.capacity();
            ck_eq!(v.fill_count(0..n), min(room), "items counted");
            ck!(v.into_iter().eq((0..n).take(room)), "contents");
        }
        1 => {
            let mut v: VecDeque<u64> = VecDeque::with_capacity(room);
            let room = v.capacity();
            let mut tail = v.fill_and_keep_tail(0..n);
            ck_eq!(tail.next(), if room < n as usize { Some(room as u64) } else { None }, "tail");
            ck!(v.into_iter().eq((0..n).take(room)), "contents");
        }
        2 => {
            let mut v: Vec<()> = vec![];
            ck_eq!(v.fill_count((0..n).map(|_| ())), n as usize, "items counted");
            ck_eq!(v.len(), n as usize, "length");
        }
        3 => {
            let mut v = vec![u64::MAX; room];
            let mut it = v.iter_mut();
            ck_eq!(Fill::<u64>::fill_count(&mut it, 0..n), min(room), "items counted");
            ck_eq!(it.len(), room - min(room), "elements left");
            ck!(v.into_iter().eq((0..n).chain(std::iter::repeat(u64::MAX)).take(room)), "contents");
        }
        4 => {
            // An error behind that many items.
            let at = n - c.rng.below(300) as u64;
            let mut r: Result<Vec<u64>, u64> = Ok(Vec::with_capacity(room));
            let room = r.as_ref().unwrap().capacity();
            let count = r.fill_count((0..n).map(|k| if k == at { Err(k) } else { Ok(k) }));
            if at < room as u64 && at < n {
                ck!(r == Err(at), "an error behind {} items", at);
                ck_eq!(count, at as usize + 1, "items counted");
            } else {
                ck_eq!(count, min(room), "items counted");
                ck!(r.unwrap().into_iter().eq((0..n).take(room)), "contents");
            }
        }
        _ => {
            let mut u: Result<(), u64> = Ok(());
            let at = n - 1 - c.rng.below(3) as u64;
            let count = u.fill_count((0..n).map(|k| if k == at { Err(k) } else { Ok(()) }));
            ck_eq!((count, u), (at as usize + 1, Err(at)), "items for the unit container");
        }
    }
    c.nontrivial();
    c.count("many items");
}

/// Containers with room for more bytes than 32 bits can count.
#[cfg(target_pointer_width = "64")]
fn huge(c: &mut Case) {
    let n = (1usize << 32) + c.rng.below(5000);
    // Nothing is read that was not written, or zeroed by the system.
    let Some(m) = harness::huge::Lazy::new(n) else { return c.count("no huge memory") };
    let k = c.rng.below(60);
    let way = c.rng.below(5);
    c.step(format!("{} bytes, way {}, {} free", n, way, k));
    let free = k;
    let reserved = || {
        let mut v: Vec<u8> = Vec::new();
        v.try_reserve_exact(n).ok().map(|()| v)
    };
    match way {
        0 => {
            let Some(mut v) = reserved() else { return c.count("no huge memory") };
            ck_eq!(v.fill_count(0..k as u8), k, "items for an empty vector");
            ck!(v.iter().copied().eq(0..k as u8), "contents");
        }
        1 => {
            let Some(v) = reserved() else { return c.count("no huge memory") };
            let mut v = VecDeque::from(v);
            ck_eq!(v.fill_count(0..k as u8), k, "items for an empty deque");
            ck!(v.iter().copied().eq(0..k as u8), "contents");
        }
        2 => {
            let Some(mut v) = reserved() else { return c.count("no huge memory") };
            let len = v.capacity() - free;
            // SAFETY: not read before it is written.
            unsafe { v.set_len(len) };
            let pulled = Cell::new(0);
            let count = v.fill_count(std::iter::repeat_with(|| { pulled.set(pulled.get() + 1); ck!(pulled.get() < 99, "pulls without end"); pulled.get() as u8 }));
            ck_eq!((count, pulled.get()), (free, free), "items for a vector with {} of {}", len, v.capacity());
            ck_eq!(v.len(), len + free, "length");
            ck!(v[len..].iter().copied().eq(1..=free as u8), "contents");
        }
        3 => {
            let Some(mut v) = reserved() else { return c.count("no huge memory") };
            let len = v.capacity() - free;
            // SAFETY: not read before it is written.
            unsafe { v.set_len(len) };
            let mut v = VecDeque::from(v);
            // Where it begins does not matter.
            let off = c.rng.below(40);
            for _ in 0..off {
                v.pop_front();
            }
            let free = v.capacity() - v.len();
            let pulled = Cell::new(0);
            let count = v.fill_count(std::iter::repeat_with(|| { pulled.set(pulled.get() + 1); ck!(pulled.get() < 199, "pulls without end"); pulled.get() as u8 }));
            ck_eq!((count, pulled.get()), (free, free), "items for a deque");
            ck!(v.iter().rev().take(free).copied().eq((1..=free as u8).rev()), "contents");
        }
        _ => {
            // SAFETY: zeroed, exclusively ours.
            let all = unsafe { std::slice::from_raw_parts_mut(m.ptr(), n) };
            let mut it = all.iter_mut();
            ck_eq!(Fill::<u8>::fill_count(&mut it, 1..k as u8 + 1), k, "items for a slice");
            ck_eq!(it.len(), n - k, "elements left");
            let mut it = all[n - k..].iter_mut();
            ck_eq!(Fill::<u8>::fill_count(&mut it, 1..), k, "items for the end of a slice");
            ck!(all.iter().copied().take(k).eq(1..k as u8 + 1) && all.iter().rev().copied().take(k + 1).eq((0..k as u8 + 1).rev()), "contents");
        }
    }
    c.nontrivial();
    c.count("beyond 32 bits");
}

fn main() {
    let mut m = Mon::start("C12");
    let n = 12_000;
    m.family("vec", n, 40, |c| sized!(c, V => run::<Vec<V>>(c, "Vec")));
    m.family("deque", n, 40, |c| sized!(c, V => run::<VecDeque<V>>(c, "VecDeque")));
    m.family("option", n / 2, 30, |c| sized!(c, V => run::<Option<V>>(c, "Option")));
    m.family("unit", n / 4, 10, |c| run::<()>(c, "()"));
    m.family("result", n * 4, 150, |c| match c.rng.below(9) {
        0 => run::<Result<Vec<V>, V>>(c, "Result<Vec>"),
        1 => run::<Result<VecDeque<V>, V>>(c, "Result<VecDeque>"),
        2 => run::<Result<Option<V>, V>>(c, "Result<Option>"),
        3 => run::<Result<Result<Vec<V>, V>, V>>(c, "Result<Result<Vec>>"),
        4 => run::<Result<Result<Result<VecDeque<V>, V>, V>, V>>(c, "Result<Result<Result<VecDeque>>>"),
        5 => run::<Result<(), V>>(c, "Result<()>"),
        6 => sized!(c, W => run::<Result<Vec<W>, V>>(c, "Result<Vec>")),
        7 => sized!(c, W => run::<Result<Result<Option<W>, V>, V>>(c, "Result<Result<Option>>")),
        _ => run::<Result<Result<Option<V>, V>, V>>(c, "Result<Result<Option>>"),
    });
    m.family("slice", n * 2, 60, |c| sized!(c, V => slice::<V>(c)));
    m.family("swap", n, 40, |c| sized!(c, V => swap::<V>(c)));
    m.family("endless", n / 4, 20, endless);
    m.family("insist", n * 2, 40, insist);
    m.family("many", 400, 0, many);
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        m.family("huge", 100, 0, huge);
    }
    m.finish();
}
