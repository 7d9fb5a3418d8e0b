//! C19: allocator extension helpers over every conforming allocator.
use alloc_traits::NonZeroLayout;
use harness::hostile::{Ev, Hostile};
use harness::track::{self, Alive, A16, A64};
use harness::types::Tv;
use harness::*;
use std::fmt::Debug;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::rc::Rc;

/// What a helper did to the allocator's books.
struct Seen {
    allocs: Vec<(usize, usize)>,
    refused: bool,
}

fn watch<R>(a: &Hostile, c: &mut Case, f: impl FnOnce() -> R) -> (R, Seen) {
    a.take_log();
    let before = a.live();
    let r = f();
    a.check();
    let log = a.take_log();
    let refused = log.iter().any(|e| matches!(e, Ev::Refused { .. }));
    let after = a.live();
    let allocs: Vec<_> = after.iter().filter(|b| !before.contains(b)).copied().collect();
    ck!(before.iter().all(|b| after.contains(b)), "a helper returned a block it did not take");
    c.obs(allocs.len() as u64 * 2 + refused as u64);
    (r, Seen { allocs, refused })
}

impl Seen {
    /// The result is `None` exactly if the allocator refused or no layout exists; nothing leaks then.
    fn result(&self, c: &mut Case, some: bool, representable: bool, what: &str) {
        ck_eq!(some, representable && !self.refused, "{}: success (refused by the allocator: {}, representable: {})", what, self.refused, representable);
        if some {
            c.count("given");
        } else {
            ck!(self.allocs.is_empty(), "{}: memory leaked by a failing call", what);
            c.count(if representable { "refused" } else { "not representable" });
        }
    }
    /// The object lies in memory of this very call.
    fn inside(&self, at: usize, size: usize, align: usize, what: &str) {
        ck!(at % align == 0 && at != 0, "{}: the result is not aligned to {}", what, align);
        if size > 0 {
            ck!(self.allocs.iter().any(|&(b, n)| at >= b && at + size <= b + n), "{}: the result of {} bytes lies outside the allocated memory", what, size);
        }
    }
}

fn values<T: Tv>(c: &mut Case) {
    track::reset();
    let mut alive = Alive::default();
    let a = Hostile::new(c.rng.fork());
    let (size, align) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
    c.step(format!("size {} align {} slack {} refuse {}", size, align, a.slack.get(), a.refuse_at.get() as isize));
    let mk = |alive: &mut Alive| {
        let v = T::mk();
        let id = v.ident();
        alive.born(id);
        (v, id)
    };
    let mut boxes = vec![];
    let mut rcs = vec![];
    let mut vecs = vec![];
    let steps = if c.miri { 7 } else { c.rng.range(3, 12) };
    for _ in 0..steps {
        match c.rng.below(6) {
            0 => {
                let wide = !c.miri && c.rng.chance(1, 20);
                let n = c.rng.range(1, if wide { 9000 } else { 200 });
                let al = 1usize << c.rng.below(if wide { 14 } else { 8 });
                c.step(format!("alloc_layout({},{})", n, al));
                let l = std::alloc::Layout::from_size_align(n, al).unwrap();
                let l = NonZeroLayout::from_layout(l.into()).unwrap();
                let (r, s) = watch(&a, c, || a.alloc_layout(l));
                s.result(c, r.is_some(), true, "alloc_layout");
                if let Some(r) = r {
                    let (at, k) = (r.uninit.as_ptr() as usize, r.uninit.byte_capacity());
                    ck!(k >= n, "alloc_layout: {} bytes instead of {}", k, n);
                    s.inside(at, k, al, "alloc_layout");
                    // SAFETY: the region is ours.
                    unsafe { (r.uninit.as_ptr() as *mut u8).write_bytes(0x33, k) };
                }
            }
            1 => {
                c.step("alloc_t");
                let (r, s) = watch(&a, c, || a.alloc_t::<T>());
                s.result(c, r.is_some(), true, "alloc_t");
                if let Some(r) = r {
                    ck!(r.uninit.byte_capacity() >= size, "alloc_t: too small");
                    s.inside(r.uninit.as_ptr() as usize, r.uninit.byte_capacity().min(if size == 0 { 0 } else { usize::MAX }), align, "alloc_t");
                    let (v, id) = mk(&mut alive);
                    let p = r.uninit.init(v);
                    ck!(p.intact_as(id), "initialised value");
                    // SAFETY: nobody else destroys it.
                    unsafe { std::ptr::drop_in_place(p) };
                    alive.dead(id);
                }
            }
            2 => {
                c.step("boxed");
                let (v, id) = mk(&mut alive);
                let (r, s) = watch(&a, c, || a.boxed(v));
                s.result(c, r.is_some(), true, "boxed");
                match r {
                    Some(b) => {
                        s.inside(&*b as *const T as usize, size, align, "boxed");
                        ck!(b.intact_as(id), "boxed value");
                        boxes.push((b, id));
                    }
                    None => alive.dead(id),
                }
            }
            3 => {
                c.step("rc");
                let (v, id) = mk(&mut alive);
                let (r, s) = watch(&a, c, || a.rc(v));
                s.result(c, r.is_some(), true, "rc");
                match r {
                    Some(b) => {
                        s.inside(&*b as *const T as usize, size.max(1), align, "rc");
                        ck!(b.intact_as(id), "shared value");
                        ck_eq!((Rc::strong_count(&b), Rc::weak_count(&b)), (1, 1), "counts");
                        rcs.push((b, id));
                    }
                    None => alive.dead(id),
                }
            }
            _ => {
                let (n, representable) = match c.rng.below(6) {
                    0 => (0, true),
                    1 if size > 0 => {
                        // Around the limit of representable sizes: those below it the allocator refuses.
                        let lim = (isize::MAX as usize + 1 - align) / size;
                        let n = *c.rng.pick(&[lim, lim + 1, lim - 1, usize::MAX, usize::MAX / size, (usize::MAX / size).saturating_add(1), usize::MAX / 2 + 1]);
                        (n, n <= lim)
                    }
                    1 => (*c.rng.pick(&[usize::MAX, usize::MAX / 2, 1 << (BITS - 24)]), true),
                    _ => (c.rng.below(20), true),
                };
                c.step(format!("fixed_vec({})", n));
                let (r, s) = watch(&a, c, || a.fixed_vec::<T>(n));
                s.result(c, r.is_some(), representable, "fixed_vec");
                if let Some(mut v) = r {
                    ck!(v.capacity() >= n && v.len() == 0, "fixed_vec: capacity {} instead of {}", v.capacity(), n);
                    let mut ids = vec![];
                    for _ in 0..v.capacity().min(if size < 4 { 12 } else { 40 }.min(if c.miri { 6 } else { 99 })) {
                        let (x, id) = mk(&mut alive);
                        ck!(v.push(x).is_ok(), "push into a vector with room");
                        ids.push(id);
                    }
                    s.inside(v.as_ptr() as usize, size * v.len(), align, "fixed_vec");
                    vecs.push((v, ids));
                    if n > 1000 {
                        c.count("huge capacities");
                    }
                }
            }
        }
        a.check();
        alive.check("between operations");
        for (b, id) in &boxes {
            ck!(b.intact_as(*id), "boxed value changed");
        }
        for (b, id) in &rcs {
            ck!(b.intact_as(*id), "shared value changed");
        }
        for (v, ids) in &vecs {
            ck!(v.iter().zip(ids).all(|(x, id)| x.intact_as(*id)), "vector element changed");
        }
    }
    if boxes.len() + rcs.len() + vecs.len() > 1 {
        c.nontrivial();
    }
    drop((boxes, rcs, vecs));
    alive.ids.clear();
    alive.zsts = 0;
    alive.check("end");
    a.check();
}

trait Cp: Copy + PartialEq + Debug + 'static {
    fn of(x: u64) -> Self;
}
macro_rules! cp { ($($t:ty => $e:expr;)*) => { $(impl Cp for $t { fn of(x: u64) -> Self { let f: fn(u64) -> $t = $e; f(x) } })* } }
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
struct Wide(A64, [u64; 3]);
cp! {
    u8 => |x| x as u8;
    u16 => |x| x as u16;
    u64 => |x| x;
    char => |x| char::from_u32(x as u32 % 0xD000).unwrap();
    [u8; 3] => |x| [x as u8, (x >> 8) as u8, (x >> 16) as u8];
    [u16; 5] => |x| std::array::from_fn(|i| (x >> i) as u16);
    Wide => |x| Wide(A64, [x, !x, x << 1]);
    () => |_| ();
    A16 => |_| A16;
    A64 => |_| A64;
}

fn slices<T: Cp>(c: &mut Case) {
    let a = Hostile::new(c.rng.fork());
    let (size, align) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
    c.step(format!("copies, size {} align {} slack {} refuse {}", size, align, a.slack.get(), a.refuse_at.get() as isize));
    let mut out: Vec<(&mut [T], Vec<T>)> = vec![];
    for _ in 0..if c.miri { 5 } else { c.rng.range(2, 9) } {
        let n = if !c.miri && c.rng.chance(1, 40) { 200 + c.rng.below(6000) } else { *c.rng.pick(&[0, 1, 2, 3, 7, 8, 30, 31, 100]) };
        let src: Vec<T> = (0..n).map(|_| T::of(c.rng.u64())).collect();
        let skip = c.rng.below(n + 1);
        let src = &src[skip..];
        c.step(format!("copy_slice({})", src.len()));
        let (r, s) = watch(&a, c, || a.copy_slice(src));
        s.result(c, r.is_some(), true, "copy_slice");
        if let Some(r) = r {
            ck_eq!(r.len(), src.len(), "length of the copied slice");
            s.inside(r.as_ptr() as usize, std::mem::size_of_val(r), align, "copy_slice");
            ck_eq!(r, src, "contents of the copied slice");
            // It is ours to change.
            let mut want = src.to_vec();
            if !r.is_empty() {
                let i = c.rng.below(r.len());
                r[i] = T::of(c.rng.u64());
                want[i] = r[i];
            }
            if size == 0 && !r.is_empty() {
                c.count("zero-sized elements");
            }
            out.push((r, want));
        }
        for (r, want) in &out {
            ck_eq!(&**r, &want[..], "a copied slice, later");
        }
    }
    if out.len() > 1 {
        c.nontrivial();
    }
    a.check();
}

fn strings(c: &mut Case) {
    let a = Hostile::new(c.rng.fork());
    c.step(format!("strings, slack {} refuse {}", a.slack.get(), a.refuse_at.get() as isize));
    let mut out = vec![];
    for _ in 0..5 {
        let n = if !c.miri && c.rng.chance(1, 20) { 200 + c.rng.below(6000) } else { *c.rng.pick(&[0usize, 1, 3, 17, 64]) };
        let src: String = (0..n).map(|_| *c.rng.pick(&['a', 'ß', '\u{1F600}', '\0', 'z', '€'])).collect();
        c.step(format!("copy_str({})", src.len()));
        let (r, s) = watch(&a, c, || a.copy_str(&src));
        s.result(c, r.is_some(), true, "copy_str");
        if let Some(r) = r {
            s.inside(r.as_ptr() as usize, r.len(), 1, "copy_str");
            out.push((r, src));
            c.count("strings");
        }
        for (r, want) in &out {
            ck_eq!(*r, want, "a copied string");
            ck!(std::str::from_utf8(r.as_bytes()).is_ok(), "copied string is not UTF-8");
        }
    }
    c.nontrivial();
    a.check();
}

#[cfg(feature = "nightly")]
mod dst {
    use super::*;
    use std::any::Any;
    use std::mem::ManuallyDrop;

    /// A value behind a trait object: moved into the allocation, destroyed there by us.
    pub fn dynamic<T: Tv>(c: &mut Case) {
        track::reset();
        let a = Hostile::new(c.rng.fork());
        let (size, align) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
        c.step(format!("copy_dst, size {} align {} slack {} refuse {}", size, align, a.slack.get(), a.refuse_at.get() as isize));
        let mut out: Vec<(&mut dyn Any, Option<u32>)> = vec![];
        let mut alive = Alive::default();
        for _ in 0..4 {
            let v = ManuallyDrop::new(T::mk());
            let id = v.ident();
            alive.born(id);
            let d: &ManuallyDrop<dyn Any> = &v;
            // SAFETY: the source is not used again on success.
            let (r, s) = watch(&a, c, || unsafe { a.copy_dst::<dyn Any>(d) });
            s.result(c, r.is_some(), true, "copy_dst");
            alive.check("after copy_dst");
            match r {
                Some(r) => {
                    s.inside(r as *const dyn Any as *const u8 as usize, size, align, "copy_dst");
                    match r.downcast_ref::<T>() {
                        Some(v) => ck!(v.intact_as(id), "value moved by copy_dst"),
                        None => fail!("copy_dst changed the type"),
                    }
                    ck_eq!(std::mem::size_of_val(r), size, "size of the copied value");
                    out.push((r, id));
                }
                None => {
                    drop(ManuallyDrop::into_inner(v));
                    alive.dead(id);
                }
            }
        }
        for (r, id) in out {
            // SAFETY: moved here, nobody else destroys it.
            unsafe { std::ptr::drop_in_place(r) };
            alive.dead(id);
        }
        alive.check("end");
        a.check();
        c.nontrivial();
        c.count("dyn");
    }

    /// Slices and strings.
    pub fn other(c: &mut Case) {
        let a = Hostile::new(c.rng.fork());
        fn md<T: ?Sized>(x: &T) -> &ManuallyDrop<T> {
            // SAFETY: the same layout.
            unsafe { &*(x as *const T as *const ManuallyDrop<T>) }
        }
        let src: Vec<u32> = (0..if !c.miri && c.rng.chance(1, 40) { 60 + c.rng.below(3000) } else { c.rng.below(9) }).map(|_| c.rng.u64() as u32).collect();
        c.step(format!("copy_dst of [u32; {}], slack {}", src.len(), a.slack.get()));
        // SAFETY: plain data.
        let (r, s) = watch(&a, c, || unsafe { a.copy_dst::<[u32]>(md(&src[..])) });
        s.result(c, r.is_some(), true, "copy_dst");
        if let Some(r) = r {
            s.inside(r.as_ptr() as usize, r.len() * 4, 4, "copy_dst");
            ck_eq!(r, &src[..], "copied slice");
        }
        let t = &["", "x", "grüße", "longer text than the other ones"][c.rng.below(4)];
        // SAFETY: plain data.
        let (r, s) = watch(&a, c, || unsafe { a.copy_dst::<str>(md(*t)) });
        s.result(c, r.is_some(), true, "copy_dst");
        if let Some(r) = r {
            s.inside(r.as_ptr() as usize, r.len(), 1, "copy_dst");
            ck_eq!(&*r, *t, "copied string");
        }
        let k = c.rng.below(5);
        // SAFETY: plain data.
        let (r, s) = watch(&a, c, || unsafe { a.copy_dst::<[A64]>(md(&vec![A64; k][..])) });
        s.result(c, r.is_some(), true, "copy_dst");
        if let Some(r) = r {
            ck_eq!(r.len(), k, "length of a copied slice of zero-sized values");
            ck!(r.as_ptr() as usize % 64 == 0, "alignment of a copied slice of zero-sized values");
        }
        let x = c.rng.u64();
        // SAFETY: plain data.
        let (r, s) = watch(&a, c, || unsafe { a.copy_dst::<dyn Debug>(md(&x as &dyn Debug)) });
        s.result(c, r.is_some(), true, "copy_dst");
        if let Some(r) = r {
            ck_eq!(format!("{:?}", r), format!("{:?}", x), "behaviour of the copied value");
        }
        a.check();
        c.obs(src.len() as u64 * 8 + k as u64);
        c.nontrivial();
        c.count("dst");
    }
}

/// Vectors and blocks of more bytes than 32 bits can count, from a Bump that has them.
#[cfg(target_pointer_width = "64")]
fn huge_requests(c: &mut Case, bump: &static_alloc::Bump<[u8; huge::CAP]>) {
    let (lo, hi) = (bump as *const _ as usize, bump as *const _ as usize + std::mem::size_of_val(bump));
    let mut taken: Vec<(usize, usize)> = vec![];
    // What is sure to be there.
    let mut left = huge::CAP;
    let mut vecs = vec![];
    for k in 0..c.rng.range(3, 12) as u64 {
        let way = c.rng.below(4);
        let n = match c.rng.below(3) {
            0 => (1usize << 31) + c.rng.below(20) - 10,
            1 => (1usize << 32) + c.rng.below(20) - 10,
            _ => c.rng.below(1000),
        };
        c.step(format!("{} {}", way, n));
        let got = match way {
            0 => bump.fixed_vec::<u8>(n).map(|v| (v.capacity(), n, vecs.push((Some(v), None, k)))),
            1 => bump.fixed_vec::<u64>(n / 8).map(|v| (v.capacity() * 8, n / 8 * 8, vecs.push((None, Some(v), k)))),
            2 => {
                let Some(l) = alloc_traits::NonZeroLayout::from_layout(std::alloc::Layout::from_size_align(n, 1).unwrap().into()) else { continue };
                bump.alloc_layout(l).map(|a| {
                    ck!(a.uninit.byte_capacity() >= n, "{} bytes of {}", a.uninit.byte_capacity(), n);
                    let Ok(u) = a.uninit.cast_slice::<u8>() else { fail!("memory is not bytes") };
                    vecs.push((Some(without_alloc::FixedVec::new(u)), None, k));
                    (n, n, ())
                })
            }
            _ => bump.boxed(k).map(|b| {
                ck_eq!(*b, k, "a boxed value");
                let at = &*b as *const u64 as usize;
                ck!(lo <= at && at + 8 <= hi && taken.iter().all(|&(a, n)| a + n <= at || at + 8 <= a), "a box overlaps something");
                taken.push((at, 8));
                std::mem::forget(b);
                (0, 0, ())
            }),
        };
        let Some((cap, want, ())) = got else {
            let n = if way == 3 { 8 } else { n };
            ck!(n + 64 > left, "{} bytes were refused with {} left", n, left);
            continue;
        };
        left = left.saturating_sub(if way == 3 { 16 } else { want + 8 });
        if way == 3 {
            continue;
        }
        ck!(cap >= want, "a capacity of {} bytes for {}", cap, want);
        let at = match vecs.last_mut().unwrap() {
            (Some(v), _, k) => {
                ck!(want == 0 || v.push(*k as u8 + 1).is_ok(), "a push");
                if want > 1 {
                    // SAFETY: the first elements after the first one stay zeroes.
                    unsafe { v.set_len(want) };
                    v[want - 1] = *k as u8 + 1;
                }
                v.as_ptr() as usize
            }
            (_, Some(v), k) => {
                ck!(want == 0 || v.push(*k).is_ok(), "a push");
                if want > 8 {
                    // SAFETY: zeroes.
                    unsafe { v.set_len(want / 8) };
                    v[want / 8 - 1] = *k;
                }
                v.as_ptr() as usize
            }
            _ => unreachable!(),
        };
        if want > 0 {
            ck!(lo <= at && at + want <= hi, "memory outside of the allocator's");
            ck!(taken.iter().all(|&(a, n)| a + n <= at || at + want <= a), "{} bytes that overlap something", want);
            taken.push((at, want));
        }
        if want > 1 << 32 {
            c.count("beyond 32 bits");
            c.nontrivial();
        }
    }
    for v in vecs {
        match &v {
            (Some(b), _, k) => ck!(b.first().map_or(true, |x| *x == *k as u8 + 1) && b.last() == b.first(), "contents of {} bytes", b.len()),
            (_, Some(b), k) => ck!(b.first().map_or(true, |x| x == k) && b.last() == b.first(), "contents of {} words", b.len()),
            _ => (),
        }
        std::mem::forget(v);
    }
}

fn main() {
    let mut m = Mon::start("C19");
    m.family("values", 20_000, 90, |c| {
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => values::<T>(c))
    });
    m.family("slices", 20_000, 60, |c| match c.rng.below(10) {
        0 => slices::<u8>(c),
        1 => slices::<u16>(c),
        2 => slices::<u64>(c),
        3 => slices::<char>(c),
        4 => slices::<[u8; 3]>(c),
        5 => slices::<[u16; 5]>(c),
        6 => slices::<Wide>(c),
        7 => slices::<()>(c),
        8 => slices::<A16>(c),
        _ => slices::<A64>(c),
    });
    m.family("strings", 2_000, 15, strings);
    m.family("big", 800, 0, |c| {
        let i = c.rng.below(harness::types::BIG);
        with_big!(i, T => values::<T>(c))
    });
    #[cfg(feature = "nightly")]
    {
        m.family("dynamic", 10_000, 40, |c| {
            let i = c.rng.below(harness::types::TYPES);
            with_tv!(i, T => dst::dynamic::<T>(c))
        });
        m.family("other", 4_000, 25, dst::other);
    }
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        m.family("huge", 60, 0, |c| {
            if !huge::shared(|b| huge_requests(c, b)) {
                c.count("no huge memory");
            }
        });
    }
    m.finish();
}
