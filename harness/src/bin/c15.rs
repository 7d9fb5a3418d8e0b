//! C15: FixedVec behaves as a Vec limited to its capacity.
use harness::fv::{many, run, Mode};
use harness::*;
use std::mem::MaybeUninit;
use without_alloc::{FixedVec, Uninit};

/// The same calls on a growable vector of plain values that refuses to exceed the capacity.
fn plain(c: &mut Case) {
    let n = if c.rng.chance(1, 8) { c.rng.below(120) } else { c.rng.below(10) };
    let mut mem = vec![MaybeUninit::<u16>::uninit(); n];
    let mut v = FixedVec::new(Uninit::from(&mut mem[..]));
    let mut w: Vec<u16> = vec![];
    ck_eq!(v.capacity(), n, "capacity");
    for _ in 0..if c.miri { 20 } else { 30 } {
        let x = c.rng.below(5) as u16;
        match c.rng.below(9) {
            0..=3 => {
                let r = v.push(x);
                ck_eq!(r, if w.len() < n { w.push(x); Ok(()) } else { Err(x) }, "push");
            }
            4 => ck_eq!(v.pop(), w.pop(), "pop"),
            5 => { let k = c.rng.below(n + 1); v.truncate(k); w.truncate(k) }
            6 => {
                let a = c.rng.below(w.len() + 1);
                let b = c.rng.range(a, w.len());
                let (rev, part) = (c.rng.chance(1, 2), c.rng.below(4));
                let x: Vec<u16> = if rev { v.drain(a..b).rev().take(part).collect() } else { v.drain(a..b).take(part).collect() };
                let y: Vec<u16> = if rev { w.drain(a..b).rev().take(part).collect() } else { w.drain(a..b).take(part).collect() };
                ck_eq!(x, y, "drained");
            }
            7 => {
                let free = n - w.len();
                let mut rest = v.fill(100..);
                w.extend((100..).take(free));
                ck_eq!(rest.next(), Some(100 + free as u16), "rest of a fill");
            }
            _ => { v.sort(); w.sort(); v.reverse(); w.reverse() }
        }
        ck_eq!(&*v, &w[..], "contents");
        ck_eq!(v.first(), w.first(), "first");
        ck_eq!(v.iter().max(), w.iter().max(), "max");
        c.step(format!("{:?}", w));
    }
    if n > 0 {
        c.nontrivial();
    }
    c.count("plain");
}

/// More elements than 32 bits can count, which take up no memory.
fn long(c: &mut Case) {
    #[derive(Clone, Copy, PartialEq, Debug)]
    struct Nothing;
    let mut none: [std::mem::MaybeUninit<Nothing>; 0] = [];
    let mut v: FixedVec<Nothing> = FixedVec::new(Uninit::from(&mut none[..]));
    ck_eq!(v.capacity(), usize::MAX, "capacity for elements without a size");
    let mut len = match c.rng.below(4) {
        0 => HALF + c.rng.below(9) - 4,
        1 => HALF / 2 + c.rng.below(9) - 4,
        2 => usize::MAX - c.rng.below(9),
        _ => c.rng.u64() as usize,
    };
    // SAFETY: the elements need no initialisation.
    unsafe { v.set_len(len) };
    for _ in 0..c.rng.range(3, 12) {
        ck_eq!(v.len(), len, "length");
        ck_eq!(v.as_slice().len(), len, "length of the slice");
        ck_eq!(v.is_empty(), len == 0, "emptiness");
        let k = c.rng.below(6);
        c.step(format!("{} {}", k, len));
        match k {
            0 => match v.push(Nothing) {
                Ok(()) => len += 1,
                Err(Nothing) => ck_eq!(len, usize::MAX, "length of a full vector"),
            },
            1 => match v.pop() {
                Some(Nothing) => len -= 1,
                None => ck_eq!(len, 0, "length of an empty vector"),
            },
            2 if c.rng.chance(1, 4) => {
                // A drain of any length, which is only looked at.
                let a = match c.rng.below(3) { 0 => c.rng.below(9).min(len), _ => c.rng.below(len.saturating_add(1).max(1)) };
                let b = match c.rng.below(3) { 0 => len, _ => a + c.rng.below((len - a).saturating_add(1)) };
                let mut d = v.drain(a..b);
                let mut n = b - a;
                for _ in 0..c.rng.below(6) {
                    ck_eq!((d.len(), d.is_empty(), d.size_hint()), (n, n == 0, (n, Some(n))), "length of a drain");
                    ck_eq!((d.as_slice().len(), d.as_mut_slice().len()), (n, n), "length of the slice of a drain");
                    let got = if c.rng.chance(1, 2) { d.next() } else { d.next_back() };
                    ck_eq!(got, if n > 0 { Some(Nothing) } else { None }, "drained");
                    n -= got.is_some() as usize;
                }
                std::mem::forget(d);
                ck!(v.len() >= a && v.len() <= len, "length after an unfinished drain");
                len = v.len();
            }
            2 => {
                let n = c.rng.below(20).min(len);
                let from = match c.rng.below(3) { 0 => len - n, 1 => 0, _ => c.rng.below((len - n).saturating_add(1)) };
                let mut d = v.drain(from..from + n);
                ck_eq!(d.len(), n, "length of a drain");
                ck_eq!(d.as_slice().len(), n, "length of the slice of a drain");
                if n > 0 && c.rng.chance(1, 2) {
                    ck_eq!(d.next_back(), Some(Nothing), "drained");
                }
                drop(d);
                len -= n;
            }
            3 => {
                let to = len.saturating_sub(c.rng.below(30));
                v.truncate(to);
                len = to;
            }
            4 => {
                let n = c.rng.below(20).min(len);
                let mut other = v.split_borrowed(len - n);
                ck_eq!(other.len(), n, "length of the part split off");
                ck!(other.push(Nothing).is_ok(), "a push into the part split off");
                drop(other);
                len -= n;
            }
            _ => {
                let room = usize::MAX - len;
                let n = c.rng.below(20);
                let mut rest = v.fill((0..n).map(|_| Nothing));
                let took = n.min(room);
                len += took;
                let mut left = 0;
                while rest.next().is_some() {
                    left += 1;
                }
                ck_eq!(left, n - took, "items given back");
            }
        }
    }
    c.nontrivial();
    c.count("long");
}

/// More bytes of elements than 32 bits can count, of which few are touched.
#[cfg(target_pointer_width = "64")]
fn huge<T: Copy + PartialEq + std::fmt::Debug>(c: &mut Case, mk: fn(u64) -> T) {
    use std::collections::BTreeMap;
    let size = std::mem::size_of::<T>();
    let bytes = (5usize << 30) + c.rng.below(9000);
    let Some(m) = harness::huge::Lazy::new(bytes) else { return c.count("no huge memory") };
    // SAFETY: exclusively ours for that many bytes.
    let u = unsafe { Uninit::from_memory(std::ptr::NonNull::new(m.ptr()).unwrap(), bytes) };
    let cap = bytes / size;
    let mut v = FixedVec::new(u.cast_slice::<T>().unwrap());
    c.step(format!("{} bytes, elements of {}", bytes, size));
    ck_eq!((v.capacity(), v.len()), (cap, 0), "capacity and length");
    ck!(v.push(mk(1)).is_ok() && v.as_slice() == [mk(1)], "a push");
    // Zeroes are values.
    let at = |k: usize, c: &mut Case| (k / size + c.rng.below(40)).saturating_sub(20).min(cap);
    let mut len = match c.rng.below(4) {
        0 => at(1 << 31, c),
        1 => cap - c.rng.below(9),
        _ => at(1 << 32, c),
    };
    let mut at: BTreeMap<usize, T> = BTreeMap::from([(0, mk(1))]);
    // SAFETY: plain values.
    unsafe { v.set_len(len) };
    let look = |v: &FixedVec<T>, at: &BTreeMap<usize, T>, len: usize| {
        ck_eq!((v.len(), v.as_slice().len(), v.is_empty(), v.capacity()), (len, len, false, cap), "length and capacity");
        for i in (len - 30..len + 2).chain([0, 1, 1 << 31, 1 << 32]) {
            let want = if i < len { Some(at.get(&i).copied().unwrap_or(mk(0))) } else { None };
            ck!(v.get(i).copied() == want, "element {} of {}", i, len);
        }
        ck!(v.last().copied() == v.get(len - 1).copied() && v.as_slice().as_ptr() as usize == v.as_slice().first().unwrap() as *const T as usize, "ends");
    };
    for _ in 0..c.rng.range(3, 14) {
        let x = mk(c.rng.u64());
        let k = c.rng.below(8);
        c.step(format!("{} {}", k, len));
        match k {
            0 | 1 => {
                let r = v.push(x);
                ck!(r == if len < cap { Ok(()) } else { Err(x) }, "push at {} of {}", len, cap);
                if r.is_ok() {
                    at.insert(len, x);
                    len += 1;
                }
            }
            2 => {
                let got = v.pop();
                len -= 1;
                ck!(got == Some(at.remove(&len).unwrap_or(mk(0))), "pop of {}", len);
            }
            3 => {
                let i = len - 1 - c.rng.below(20);
                v[i] = x;
                at.insert(i, x);
            }
            4 if c.rng.chance(1, 3) => {
                // A drain of any length, which is only looked at.
                let a = c.rng.below(30);
                let b = len - c.rng.below(30);
                let mut d = v.drain(a..b);
                let (mut s, mut e) = (a, b);
                let want = |i: usize| at.get(&i).copied().unwrap_or(mk(0));
                for _ in 0..c.rng.below(8) {
                    ck_eq!((d.len(), d.size_hint(), d.as_slice().len(), d.as_mut_slice().len()), (e - s, (e - s, Some(e - s)), e - s, e - s), "length of a drain");
                    ck!(d.as_slice()[0] == want(s) && d.as_slice()[e - s - 1] == want(e - 1), "ends of a drain");
                    if c.rng.chance(1, 2) {
                        ck!(d.next() == Some(want(s)), "drained element {} of {}..{}", s, a, b);
                        s += 1;
                    } else {
                        e -= 1;
                        ck!(d.next_back() == Some(want(e)), "drained element {} of {}..{}", e, a, b);
                    }
                }
                std::mem::forget(d);
                ck!(v.len() >= a && v.len() <= len, "length after an unfinished drain");
                for i in 0..a {
                    ck!(v[i] == want(i), "element {} before an unfinished drain", i);
                }
                c.count("long drains");
                break;
            }
            4 => {
                let a = len - c.rng.below(25);
                let b = c.rng.range(a, len);
                let part = c.rng.below(4);
                let got: Vec<T> = v.drain(a..b).take(part).collect();
                let want: Vec<T> = (a..b).take(part).map(|i| at.get(&i).copied().unwrap_or(mk(0))).collect();
                ck!(got == want, "drained {}..{} of {}", a, b, len);
                let tail: Vec<_> = (b..len).map(|i| at.get(&i).copied().unwrap_or(mk(0))).collect();
                at.split_off(&a);
                at.extend(tail.into_iter().enumerate().map(|(i, x)| (a + i, x)));
                len -= b - a;
            }
            5 => {
                len -= c.rng.below(20);
                v.truncate(len);
                at.split_off(&len);
            }
            6 => {
                let to = len - c.rng.below(20);
                let mut other = v.split_borrowed(to);
                ck_eq!((other.len(), other.capacity()), (len - to, cap - to), "part split off");
                for (i, y) in other.as_mut_slice().iter_mut().enumerate() {
                    ck!(*y == at.get(&(to + i)).copied().unwrap_or(mk(0)), "element {} of the part split off at {}", i, to);
                }
                let room = cap - len;
                let got = other.fill((0..room.min(50) + 3).map(|_| x)).count();
                ck_eq!(got, (room.min(50) + 3).saturating_sub(room), "items that did not fit");
                drop(other);
                // What is behind was of the other part.
                at.split_off(&to);
                len = to;
            }
            _ => {
                let n = c.rng.below(30);
                let from = c.rng.u64() >> 1;
                let mut rest = v.fill((from..from + n as u64).map(mk));
                let took = n.min(cap - len);
                ck!(rest.next() == if took < n { Some(mk(from + took as u64)) } else { None }, "rest of a fill");
                for i in 0..took {
                    at.insert(len + i, mk(from + i as u64));
                }
                len += took;
            }
        }
        look(&v, &at, len);
    }
    // Dropping would visit billions of values, for nothing.
    std::mem::forget(v);
    c.nontrivial();
    c.count("beyond 32 bits");
}

fn main() {
    let mut m = Mon::start("C15");
    m.family("history", 40_000, 220, |c| {
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => run::<T>(c, Mode::Model))
    });
    if m.variant != "miri" {
        m.family("many", 1_200, 0, |c| {
            let i = 2 + c.rng.below(harness::types::TYPES - 2);
            with_tv!(i, T => many::<T>(c, Mode::Model))
        });
    }
    m.family("plain", 4_000, 30, plain);
    m.family("long", 400, 30, long);
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        m.family("huge", 150, 0, |c| match c.rng.below(3) {
            0 => huge::<u8>(c, |x| x as u8),
            1 => huge::<u64>(c, |x| x),
            _ => huge::<[u64; 512]>(c, |x| [x; 512]),
        });
    }
    m.finish();
}
