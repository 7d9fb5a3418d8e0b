//! C14: splitting and casting uninitialised regions partitions them exactly.
use harness::regions;
use harness::*;
use std::alloc::Layout;
use std::mem::{align_of, size_of, MaybeUninit};
use without_alloc::{Uninit, uninit::UninitView};

type T3 = [u8; 3];
#[repr(align(16))]
#[derive(Clone, Copy)]
struct Q16([u8; 32]);
#[repr(align(64))]
#[derive(Clone, Copy)]
struct Q64([u8; 64]);
#[repr(align(4))]
#[derive(Clone, Copy)]
struct Z4;
#[repr(align(32))]
#[derive(Clone, Copy)]
struct Z32;
#[repr(C)]
#[derive(Clone, Copy)]
struct P12(u32, u64, u8);

/// Start and length of a part.
type Iv = (usize, usize);

macro_rules! parts {
    ($($one:ident $many:ident $t:ty;)*) => {
        enum Part<'a> {
            $( $one(Uninit<'a, $t>), $many(Uninit<'a, [$t]>), )*
        }
        fn iv(p: &Part) -> Iv {
            match p { $(
                Part::$one(u) => (u.as_ptr() as *mut u8 as usize, u.size()),
                Part::$many(u) => (u.as_ptr() as *mut u8 as usize, u.size()),
            )* }
        }
        fn ptr(p: &Part) -> *mut u8 {
            match p { $( Part::$one(u) => u.as_ptr() as *mut u8, Part::$many(u) => u.as_ptr() as *mut u8, )* }
        }
        fn print(p: &Part) {
            match p { $( Part::$one(u) => shown(u), Part::$many(u) => shown(u), )* }
        }
        fn check(p: &Part) {
            match p { $( Part::$one(u) => one(u), Part::$many(u) => many(u), )* }
        }
        fn act<'a>(c: &mut Case, p: Part<'a>, out: &mut Vec<Part<'a>>) {
            match p { $(
                Part::$one(u) => {
                    let mut u = match sized(c, u, out) { Some(u) => u, None => return };
                    if size_of::<$t>() == 0 && c.rng.chance(1, 2) {
                        // Memory without a type offers more.
                        let m = u.as_memory();
                        return memory(c, m, out);
                    }
                    match c.rng.below(3) {
                        0 => {
                            let at = byte(c, &u.borrow(), size_of::<$t>());
                            let rest = at_byte(c, &mut u, at);
                            out.extend(rest.map(Part::Mem));
                            out.push(Part::$one(u));
                        }
                        1 => {
                            c.step("split_to_fit");
                            let (at, len) = (u.as_ptr() as *mut u8 as usize, u.size());
                            let size = size_of::<$t>();
                            let v = { let mut v = u.borrow(); let r = v.split_to_fit(); (span(&v), vspan(&r)) };
                            let r = u.split_to_fit();
                            ck_eq!((uspan(&u), uspan(&r)), ((at, size), (at + size, len - size)), "split_to_fit");
                            ck_eq!(v, ((at, size), (at + size, len - size)), "split_to_fit of a view");
                            let again = u.split_to_fit();
                            ck_eq!((uspan(&u), uspan(&again)), ((at, size), (at + size, 0)), "split_to_fit twice");
                            c.count("fitted");
                            out.push(Part::Mem(r));
                            out.push(Part::$one(u));
                        }
                        _ => {
                            let m = u.as_memory();
                            memory(c, m, out);
                        }
                    }
                }
                Part::$many(u) => {
                    match slice(c, u) {
                        Sliced::Two(a, b) => { out.push(Part::$many(a)); out.push(Part::$many(b)); }
                        Sliced::One(a, b) => { out.push(Part::$many(a)); out.push(Part::$one(b)); }
                        Sliced::Rest(a, b) => { out.push(Part::$many(a)); out.push(Part::Mem(b)); }
                        Sliced::Keep(a) => out.push(Part::$many(a)),
                        Sliced::Mem(a) => memory(c, a, out),
                    }
                }
            )* }
        }
        /// Cast to another type, or hand the region on.
        fn casts<'a, T>(c: &mut Case, u: Uninit<'a, T>, out: &mut Vec<Part<'a>>) -> Option<Uninit<'a, T>> {
            let mut k = c.rng.below(2 * [$(stringify!($one)),*].len());
            $(
                if k == 0 {
                    return match cast::<T, $t>(c, u) { Ok(v) => { out.push(Part::$one(v)); None } Err(u) => Some(u) };
                }
                k -= 1;
                if k == 0 {
                    return match cast_slice::<T, $t>(c, u) { Ok(v) => { out.push(Part::$many(v)); None } Err(u) => Some(u) };
                }
                k = k.wrapping_sub(1);
            )*
            Some(u)
        }
        fn memory<'a>(c: &mut Case, mut u: Uninit<'a, ()>, out: &mut Vec<Part<'a>>) {
            if c.rng.chance(1, 4) {
                let at = byte(c, &u.borrow(), 0);
                let rest = at_byte(c, &mut u, at);
                out.extend(rest.map(Part::Mem));
                return out.push(Part::Mem(u));
            }
            if c.rng.chance(1, 4) {
                let l = layout(c, u.size());
                let rest = by_layout(c, &mut u, l);
                out.extend(rest.map(Part::Mem));
                return out.push(Part::Mem(u));
            }
            let mut k = c.rng.below(2 * [$(stringify!($one)),*].len());
            $(
                if k == 0 {
                    let r = split_cast::<$t>(c, &mut u);
                    out.extend(r.map(Part::$one));
                    return out.push(Part::Mem(u));
                }
                k -= 1;
                if k == 0 {
                    let r = split_slice::<$t>(c, &mut u);
                    out.extend(r.map(Part::$many));
                    return out.push(Part::Mem(u));
                }
                k = k.wrapping_sub(1);
            )*
            out.push(Part::Mem(u));
        }
        /// Turn every part into references and use all of them at once.
        fn use_all<'a>(c: &mut Case, parts: Vec<Part<'a>>) {
            let mut used: Vec<(&'a mut [MaybeUninit<u8>], u64)> = vec![];
            for p in parts {
                let (at, len) = iv(&p);
                let tag = c.rng.u64();
                match p { $(
                    Part::$one(u) => {
                        let size = size_of::<$t>();
                        let m: &'a mut MaybeUninit<$t> = u.into_maybe_uninit();
                        ck_eq!(m as *mut _ as usize, at, "address of the reference");
                        ck!(at % align_of::<$t>() == 0 && len >= size, "a part of {} bytes at alignment offset {} for size {}", len, at % align_of::<$t>(), size);
                        // SAFETY: that many bytes behind a unique reference.
                        used.push((unsafe { std::slice::from_raw_parts_mut(m.as_mut_ptr() as *mut MaybeUninit<u8>, size) }, tag));
                    }
                    Part::$many(u) => {
                        let m: &'a mut [MaybeUninit<$t>] = u.into_maybe_uninit_slice();
                        ck_eq!(m.as_ptr() as usize, at, "address of the reference");
                        let n = std::mem::size_of_val(m);
                        ck!(n <= len, "a slice of {} bytes from a part of {}", n, len);
                        ck_eq!(m.len(), elems(len, size_of::<$t>()), "elements of the reference for {} bytes and elements of {}", len, size_of::<$t>());
                        // SAFETY: that many bytes behind a unique reference.
                        used.push((unsafe { std::slice::from_raw_parts_mut(m.as_mut_ptr() as *mut MaybeUninit<u8>, n) }, tag));
                    }
                )* }
            }
            // Of the longest ones both ends.
            let ends = |n: usize| if n < 1 << 24 { [0..n, n..n] } else { [0..100, n - 100..n] };
            for (m, tag) in &mut used {
                for (i, r) in ends(m.len()).into_iter().enumerate() {
                    let w = regions::pattern(tag.wrapping_add(i as u64), r.len());
                    for (b, w) in m[r].iter_mut().zip(w) {
                        b.write(w);
                    }
                }
            }
            for (m, tag) in &used {
                for (i, r) in ends(m.len()).into_iter().enumerate() {
                    let w = regions::pattern(tag.wrapping_add(i as u64), r.len());
                    // SAFETY: written before.
                    if let Some(k) = unsafe { regions::differs(m[r.clone()].as_ptr() as *const u8, &w) } {
                        fail!("byte {} of a part of {} bytes was changed through another part", r.start + k, m.len());
                    }
                }
            }
            c.add("parts used", used.len() as u64);
        }
    };
}

parts! {
    Mem Mems ();
    B Bs u8;
    H Hs u16;
    W Ws u32;
    T Ts T3;
    P Ps P12;
    Q Qs Q16;
    X Xs Q64;
    Z Zs Z4;
    Y Ys Z32;
}

fn span<T: ?Sized>(v: &UninitView<'_, T>) -> Iv {
    (v.as_ptr() as *const u8 as usize, v.size())
}
fn vspan<T: ?Sized>(v: &UninitView<'_, T>) -> Iv {
    ck_eq!(v.byte_capacity(), v.size(), "byte_capacity of a view");
    ck_eq!(v.as_non_null().as_ptr() as *const u8 as usize, v.as_ptr() as *const u8 as usize, "pointers of a view");
    span(v)
}
fn uspan<T: ?Sized>(v: &Uninit<'_, T>) -> Iv {
    ck_eq!(v.byte_capacity(), v.size(), "byte_capacity");
    ck_eq!(v.as_non_null().as_ptr() as *const u8 as usize, v.as_ptr() as *const u8 as usize, "pointers of a region");
    (v.as_ptr() as *const u8 as usize, v.size())
}

/// Copies and prints of a region and its view say where it is and how long.
fn shown<T: ?Sized>(u: &Uninit<'_, T>) {
    let at = uspan(u);
    let v = u.borrow();
    let w = v.clone();
    ck_eq!((vspan(&w), vspan(&v), vspan(&w.borrow())), (at, at, at), "a copy of a view");
    for (what, text) in [("region", format!("{:?}", u)), ("view", format!("{:?}", v))] {
        ck!(text.contains(&format!("{:x}", at.0)) && text.contains(&format!("{}", at.1)), "a {} of {} bytes at {:x} prints as {:?}", what, at.1, at.0, text);
    }
}

/// Pointer, capacity and length of a typed part agree.
fn one<T>(u: &Uninit<'_, T>) {
    let (at, len) = uspan(u);
    ck!(at % align_of::<T>() == 0, "a part for alignment {} is {} off", align_of::<T>(), at % align_of::<T>());
    ck!(len >= size_of::<T>(), "a part of {} bytes for a type of {}", len, size_of::<T>());
    ck!(u.fits(Layout::new::<T>()), "a typed part does not fit its type");
    ck_eq!(vspan(&u.borrow()), (at, len), "the shared view of a part");
    ck_eq!(u.borrow().into_maybe_uninit() as *const _ as usize, at, "reference through the shared view of a part");
    // SAFETY: only their pointers and lengths are looked at.
    unsafe {
        ck_eq!(uspan(&Uninit::from_view(u.borrow())), (at, len), "a region from a view");
        ck_eq!(vspan(&UninitView::new(u.as_non_null(), len)), (at, len), "a view of a pointer");
        ck_eq!(uspan(&Uninit::new(u.as_non_null(), len)), (at, len), "a region of a pointer");
    }
}

fn elems(len: usize, size: usize) -> usize {
    if size == 0 { usize::MAX } else { len / size }
}

fn many<T>(u: &Uninit<'_, [T]>) {
    let (at, len) = uspan(u);
    let n = elems(len, size_of::<T>());
    ck!(at % align_of::<T>() == 0, "a slice for alignment {} is {} off", align_of::<T>(), at % align_of::<T>());
    ck_eq!(u.capacity(), n, "capacity of {} bytes for elements of {}", len, size_of::<T>());
    ck_eq!(u.as_begin_ptr() as usize, at, "begin of a slice");
    ck_eq!(u.as_ptr().len(), n, "length of the slice pointer for {} bytes and elements of {}", len, size_of::<T>());
    let v = u.borrow();
    ck_eq!((vspan(&v), v.capacity(), v.as_begin_ptr() as usize), ((at, len), n, at), "the shared view of a slice");
    ck_eq!((v.as_ptr() as *mut [T]).len(), n, "length of the view's slice pointer");
    let m = v.into_maybe_uninit_slice();
    ck_eq!((m.as_ptr() as usize, m.len()), (at, n), "the reference through the shared view of a slice");
}

fn byte(c: &mut Case, v: &UninitView<'_, impl Sized>, size: usize) -> usize {
    let len = v.size();
    match c.rng.below(6) {
        0 => size.wrapping_sub(1),
        1 => size,
        2 => len,
        3 => len + 1,
        4 => if c.rng.chance(1, 4) { usize::MAX } else { 0 },
        _ => inside(c, len),
    }
}

/// A number up to `len`, of a huge one often where counters of 32 bits end.
fn inside(c: &mut Case, len: usize) -> usize {
    #[cfg(target_pointer_width = "64")]
    if len > 1 << 31 && c.rng.chance(2, 3) {
        let n = if c.rng.chance(1, 3) { 1usize << 31 } else { 1 << 32 };
        return (n + c.rng.below(260) - 130).min(len);
    }
    c.rng.below(len + 1)
}

fn at_byte<'a, T>(c: &mut Case, u: &mut Uninit<'a, T>, at: usize) -> Option<Uninit<'a, ()>> {
    c.step(format!("split_at_byte({}) of {} for size {}", at as isize, u.size(), size_of::<T>()));
    let (a, len) = uspan(u);
    let ok = size_of::<T>() <= at && at <= len;
    let want = if ok { ((a, at), Some((a + at, len - at))) } else { ((a, len), None) };
    let mut v = u.borrow();
    let r = v.split_at_byte(at);
    ck_eq!((vspan(&v), r.as_ref().map(vspan)), want, "split_at_byte of a view");
    let r = u.split_at_byte(at);
    ck_eq!((uspan(u), r.as_ref().map(uspan)), want, "split_at_byte");
    if ok && len > 0 {
        c.nontrivial();
    }
    c.count(if ok { "splits" } else { "refusals" });
    r
}

fn layout(c: &mut Case, len: usize) -> Layout {
    let align = 1usize << if c.rng.chance(1, 16) { c.rng.below(BITS - 1) } else { c.rng.below(8) };
    let size = match c.rng.below(5) {
        0 => 0,
        1 => len,
        2 => len + 1,
        3 => isize::MAX as usize - (align.max(128) - 1),
        _ => inside(c, len),
    };
    Layout::from_size_align(size, align).unwrap_or(Layout::new::<()>())
}

fn want_layout(a: usize, len: usize, l: Layout) -> (Iv, Option<Iv>) {
    let pad = regions::align_up(a, l.align()) - a;
    if pad.checked_add(l.size()).map_or(false, |n| n <= len) {
        ((a, pad), Some((a + pad, len - pad)))
    } else {
        ((a, len), None)
    }
}

fn by_layout<'a>(c: &mut Case, u: &mut Uninit<'a, ()>, l: Layout) -> Option<Uninit<'a, ()>> {
    let (a, len) = uspan(u);
    c.step(format!("split_layout({},{}) of {} at offset {}", l.size() as isize, l.align(), len, a % l.align()));
    let want = want_layout(a, len, l);
    ck_eq!(u.fits(l), a % l.align() == 0 && l.size() <= len, "fits");
    let mut v = u.borrow();
    ck_eq!(v.fits(l), a % l.align() == 0 && l.size() <= len, "fits of a view");
    let r = v.split_layout(l);
    ck_eq!((vspan(&v), r.as_ref().map(vspan)), want, "split_layout of a view");
    // SAFETY: the signature ties the result to the borrow although both parts are for `'a`.
    let r = u.split_layout(l).map(|r| unsafe { std::mem::transmute::<Uninit<'_, ()>, Uninit<'a, ()>>(r) });
    ck_eq!((uspan(u), r.as_ref().map(uspan)), want, "split_layout");
    if let Some(r) = &r {
        c.nontrivial();
        ck!(r.fits(l), "the part does not fit its layout");
    }
    c.count(if want.1.is_some() { "splits" } else { "refusals" });
    r
}

fn split_cast<'a, U>(c: &mut Case, u: &mut Uninit<'a, ()>) -> Option<Uninit<'a, U>> {
    let (a, len) = uspan(u);
    let l = Layout::new::<U>();
    c.step(format!("split_cast({},{}) of {} at offset {}", l.size(), l.align(), len, a % l.align()));
    let want = want_layout(a, len, l);
    let mut v = u.borrow();
    let r = v.split_cast::<U>();
    ck_eq!((vspan(&v), r.as_ref().map(vspan)), want, "split_cast of a view");
    let r = u.split_cast::<U>();
    ck_eq!((uspan(u), r.as_ref().map(uspan)), want, "split_cast");
    c.count(if want.1.is_some() { "splits" } else { "refusals" });
    if r.is_some() {
        c.nontrivial();
    }
    r
}

fn split_slice<'a, U>(c: &mut Case, u: &mut Uninit<'a, ()>) -> Option<Uninit<'a, [U]>> {
    let (a, len) = uspan(u);
    let l = Layout::from_size_align(0, align_of::<U>()).unwrap();
    c.step(format!("split_slice({},{}) of {} at offset {}", size_of::<U>(), l.align(), len, a % l.align()));
    let want = want_layout(a, len, l);
    let mut v = u.borrow();
    let r = v.split_slice::<U>();
    ck_eq!((vspan(&v), r.as_ref().map(vspan)), want, "split_slice of a view");
    let r = u.split_slice::<U>();
    ck_eq!((uspan(u), r.as_ref().map(uspan)), want, "split_slice");
    c.count(if want.1.is_some() { "splits" } else { "refusals" });
    r
}

fn cast<'a, T, U>(c: &mut Case, u: Uninit<'a, T>) -> Result<Uninit<'a, U>, Uninit<'a, T>> {
    let (a, len) = uspan(&u);
    c.step(format!("cast({},{}) of {} at offset {}", size_of::<U>(), align_of::<U>(), len, a % align_of::<U>()));
    let ok = a % align_of::<U>() == 0 && size_of::<U>() <= len;
    ck_eq!(u.fits(Layout::new::<U>()), ok, "fits");
    match u.borrow().cast::<U>() {
        Ok(v) => ck!(ok && vspan(&v) == (a, len), "cast of a view"),
        Err(v) => ck!(!ok && vspan(&v) == (a, len), "refused cast of a view"),
    }
    c.count(if ok { "casts" } else { "refusals" });
    match u.cast::<U>() {
        Ok(v) => { ck!(ok && uspan(&v) == (a, len), "cast accepted for {} bytes", len); Ok(v) }
        Err(v) => { ck!(!ok && uspan(&v) == (a, len), "cast refused for {} bytes", len); Err(v) }
    }
}

fn cast_slice<'a, T, U>(c: &mut Case, u: Uninit<'a, T>) -> Result<Uninit<'a, [U]>, Uninit<'a, T>> {
    let (a, len) = uspan(&u);
    c.step(format!("cast_slice({},{}) of {} at offset {}", size_of::<U>(), align_of::<U>(), len, a % align_of::<U>()));
    let ok = a % align_of::<U>() == 0;
    match u.borrow().cast_slice::<U>() {
        Ok(v) => ck!(ok && vspan(&v) == (a, len) && v.capacity() == elems(len, size_of::<U>()), "cast_slice of a view"),
        Err(v) => ck!(!ok && vspan(&v) == (a, len), "refused cast_slice of a view"),
    }
    c.count(if ok { "casts" } else { "refusals" });
    match u.cast_slice::<U>() {
        Ok(v) => { ck!(ok && uspan(&v) == (a, len), "cast_slice accepted for {} bytes", len); Ok(v) }
        Err(v) => { ck!(!ok && uspan(&v) == (a, len), "cast_slice refused for {} bytes", len); Err(v) }
    }
}

/// Operations that change the type.
fn sized<'a, T>(c: &mut Case, u: Uninit<'a, T>, out: &mut Vec<Part<'a>>) -> Option<Uninit<'a, T>> {
    if c.rng.chance(1, 3) {
        casts(c, u, out)
    } else {
        Some(u)
    }
}

enum Sliced<'a, T> {
    Two(Uninit<'a, [T]>, Uninit<'a, [T]>),
    One(Uninit<'a, [T]>, Uninit<'a, T>),
    Rest(Uninit<'a, [T]>, Uninit<'a, ()>),
    Keep(Uninit<'a, [T]>),
    Mem(Uninit<'a, ()>),
}

fn slice<'a, T>(c: &mut Case, mut u: Uninit<'a, [T]>) -> Sliced<'a, T> {
    let (a, len) = uspan(&u);
    let size = size_of::<T>();
    let cap = elems(len, size);
    let ctx = format!("slice of {} bytes, elements of {}", len, size);
    match c.rng.below(6) {
        0 | 1 => {
            let at = match c.rng.below(6) {
                0 => 0,
                1 => cap,
                2 => cap.wrapping_add(1),
                3 => if c.rng.chance(1, 2) { usize::MAX } else { (usize::MAX / size.max(1)).wrapping_add(1) },
                _ => if size == 0 { c.rng.u64() as usize } else { inside(c, len) / size },
            };
            c.step(format!("split_at({}) {}", at as isize, ctx));
            let bytes = at as u128 * size as u128;
            let ok = bytes <= len as u128;
            let bytes = bytes as usize;
            let want = if ok { ((a, bytes), Some((a + bytes, len - bytes))) } else { ((a, len), None) };
            let mut v = u.borrow();
            let r = v.split_at(at);
            ck_eq!((vspan(&v), r.as_ref().map(vspan)), want, "split_at of a view");
            ck_eq!((v.as_ptr() as *mut [T]).len(), v.capacity(), "length and capacity of a split view");
            let r = u.split_at(at);
            ck_eq!((uspan(&u), r.as_ref().map(uspan)), want, "split_at");
            c.count(if ok { "splits" } else { "refusals" });
            many(&u);
            match r { Some(r) => { c.nontrivial(); Sliced::Two(u, r) } None => Sliced::Keep(u) }
        }
        2 => {
            c.step(format!("split_first {}", ctx));
            let want = if cap > 0 { ((a + size, len - size), Some((a, size))) } else { ((a, len), None) };
            let mut v = u.borrow();
            let r = v.split_first();
            ck_eq!((vspan(&v), r.as_ref().map(vspan)), want, "split_first of a view");
            let r = u.split_first();
            ck_eq!((uspan(&u), r.as_ref().map(uspan)), want, "split_first");
            c.count(if cap > 0 { "splits" } else { "refusals" });
            match r { Some(r) => { c.nontrivial(); Sliced::One(u, r) } None => Sliced::Keep(u) }
        }
        3 => {
            c.step(format!("split_last {}", ctx));
            let k = cap.wrapping_sub(1).wrapping_mul(size);
            let want = if cap > 0 { ((a, k), Some((a + k, len - k))) } else { ((a, len), None) };
            let mut v = u.borrow();
            let r = v.split_last();
            ck_eq!((vspan(&v), r.as_ref().map(vspan)), want, "split_last of a view");
            let r = u.split_last();
            ck_eq!((uspan(&u), r.as_ref().map(uspan)), want, "split_last");
            c.count(if cap > 0 { "splits" } else { "refusals" });
            match r { Some(r) => { c.nontrivial(); Sliced::One(u, r) } None => Sliced::Keep(u) }
        }
        4 => {
            c.step(format!("shrink_to_fit {}", ctx));
            let k = cap.wrapping_mul(size);
            let want = ((a, k), (a + k, len - k));
            let mut v = u.borrow();
            let r = v.shrink_to_fit();
            ck_eq!((vspan(&v), vspan(&r)), want, "shrink_to_fit of a view");
            let r = u.shrink_to_fit();
            ck_eq!((uspan(&u), uspan(&r)), want, "shrink_to_fit");
            let again = u.shrink_to_fit();
            ck_eq!((uspan(&u), uspan(&again)), ((a, k), (a + k, 0)), "shrink_to_fit twice");
            c.count("fitted");
            Sliced::Rest(u, r)
        }
        _ => {
            c.step("as_memory");
            let m = u.as_memory();
            ck_eq!(uspan(&m), (a, len), "as_memory");
            Sliced::Mem(m)
        }
    }
}

/// Cut and cast parts of that memory and use what results.
fn walk<'a>(c: &mut Case, first: Part<'a>, base: usize, len: usize) {
    let mut parts = vec![first];
    let n = if c.miri { 12 } else { c.rng.range(3, 40) };
    for _ in 0..n {
        if c.rng.chance(1, 6) {
            for p in &parts {
                check(p);
            }
        }
        let i = c.rng.below(parts.len());
        let p = parts.swap_remove(i);
        let before = iv(&p);
        let k = parts.len();
        act(c, p, &mut parts);
        // The parts cover exactly what was there.
        let mut now: Vec<Iv> = parts[k..].iter().map(iv).collect();
        now.sort();
        let mut at = before.0;
        for (a, l) in &now {
            ck_eq!(*a, at, "the parts of +{}..+{} are not adjacent: {:?}", before.0 - base, before.0 + before.1 - base, now);
            at += l;
        }
        ck_eq!(at, before.0 + before.1, "the parts do not cover +{}..+{}: {:?}", before.0 - base, before.0 + before.1 - base, now);
        for p in &parts[k..] {
            check(p);
            let (a, l) = iv(p);
            ck!(a >= base && a + l <= base + len, "a part outside of its region");
        }
        if parts.len() > 60 {
            break;
        }
    }
    let _ = ptr(&parts[0]);
    if c.rng.chance(1, 16) {
        for p in &parts {
            print(p);
        }
    }
    use_all(c, parts);
}

fn program(c: &mut Case) {
    let len = match c.rng.below(4) {
        0 => c.rng.below(8),
        1 => c.rng.below(64),
        _ => c.rng.below(if c.miri { 400 } else { 2000 }),
    };
    let mis = c.rng.below(128);
    let mut arena = Arena::new(len, 128, mis, 0xEE);
    let base = arena.addr();
    c.step(format!("{} bytes at {} mod 128", len, mis));
    {
        let first: Part = match c.rng.below(3) {
            // SAFETY: exclusively ours for that many bytes.
            0 => Part::Mem(unsafe { Uninit::from_memory(std::ptr::NonNull::new(arena.ptr()).unwrap(), len) }),
            1 => Part::Bs(Uninit::from_maybe_uninit_slice(arena.mem())),
            _ => Part::Bs(Uninit::from(arena.mem())),
        };
        walk(c, first, base, len);
    }
    arena.check_guards();
}

/// Constructors, values, and reborrowing.
fn typed(c: &mut Case) {
    let x = c.rng.u64();
    let mut m = MaybeUninit::<u64>::uninit();
    let at = m.as_ptr() as usize;
    {
        let mut u = Uninit::from(&mut m);
        ck_eq!(uspan(&u), (at, 8), "region of a MaybeUninit");
        one(&u);
        let b = u.borrow_mut();
        ck_eq!(uspan(&b), (at, 8), "a reborrowed region");
        *b.init(1) += x >> 1;
        // SAFETY: initialised.
        unsafe {
            ck_eq!(*u.as_ref(), 1 + (x >> 1), "value");
            *u.as_mut() = x;
            ck_eq!(u.read(), x, "value");
            let v = u.borrow();
            ck_eq!(*v.as_ref(), x, "value by a view");
            ck_eq!((*v.into_ref(), v.into_ref() as *const u64 as usize), (x, at), "value by a view");
            shown(&u);
            let b = u.borrow_mut().into_ref();
            ck_eq!((*b, b as *const u64 as usize), (x, at), "value by reference");
            // The size of the region is that of the value, however it is named.
            let big = Uninit::<u64>::new(u.as_non_null(), 8);
            ck_eq!(uspan(&big), (at, 8), "a region of a pointer");
            *u.into_mut() ^= 1;
        }
    }
    // SAFETY: initialised.
    ck_eq!(unsafe { m.assume_init() }, x ^ 1, "value behind the region");
    let v = UninitView::from(&m);
    ck_eq!((vspan(&v), v.into_maybe_uninit() as *const _ as usize), ((at, 8), at), "view of a MaybeUninit");
    fn both<T>() {
        let mut m = MaybeUninit::<T>::uninit();
        let want = (m.as_ptr() as usize, size_of::<T>());
        let v = UninitView::from(&m);
        ck_eq!((vspan(&v), v.into_maybe_uninit() as *const _ as usize), (want, want.0), "view of a MaybeUninit");
        let u = Uninit::from(&mut m);
        one(&u);
        ck_eq!((uspan(&u), u.into_maybe_uninit() as *mut _ as usize), (want, want.0), "region of a MaybeUninit");
        let e = UninitView::<[T]>::empty();
        ck_eq!((e.size(), (e.as_ptr() as *mut [T]).len()), (0, 0), "an empty view");
        let e = Uninit::<[T]>::empty();
        ck_eq!((e.size(), e.as_ptr().len()), (0, 0), "an empty region");
    }
    both::<u8>();
    both::<T3>();
    both::<Q16>();
    both::<Q64>();
    both::<Z4>();
    both::<P12>();
    both::<[u64; 40]>();
    both::<()>();

    let n = c.rng.below(5);
    let mut arr = vec![MaybeUninit::<P12>::uninit(); n];
    let at = arr.as_ptr() as usize;
    {
        let mut u = Uninit::from(&mut arr[..]);
        many(&u);
        ck_eq!(uspan(&u), (at, n * size_of::<P12>()), "region of a slice");
        shown(&u);
        let mut firsts = vec![];
        while let Some(f) = if c.rng.chance(1, 2) { u.split_first() } else { u.split_last() } {
            let i = (f.as_ptr() as usize - at) / size_of::<P12>();
            firsts.push((i, f.init(P12(i as u32, x, 7))));
            many(&u);
        }
        ck_eq!(firsts.len(), n, "elements split off");
        for (i, f) in &firsts {
            ck_eq!((f.0, f.1, f.2), (*i as u32, x, 7), "value in its part");
        }
        ck_eq!(u.capacity(), 0, "capacity left");
        // SAFETY: of length zero.
        ck_eq!(unsafe { u.as_ref() }.len(), 0, "length left");
    }
    for (i, m) in arr.iter().enumerate() {
        // SAFETY: all were initialised.
        let p = unsafe { m.assume_init() };
        ck_eq!((p.0, p.1, p.2), (i as u32, x, 7), "value in the slice");
    }
    // References made from a part of a slice have that part's length.
    if n > 0 {
        let k = c.rng.below(n + 1);
        let mut u = Uninit::from(&mut arr[..]);
        let mut tail = u.split_at(k).unwrap();
        // SAFETY: all initialised.
        unsafe {
            ck_eq!((u.as_ref().len(), tail.as_ref().len()), (k, n - k), "lengths of the references to two parts");
            for p in u.as_mut() {
                p.2 = 1;
            }
            for p in tail.as_mut() {
                p.2 = 2;
            }
            let (a, b) = (u.into_mut(), tail.into_mut());
            ck!(a.iter().all(|p| p.2 == 1) && b.iter().all(|p| p.2 == 2), "values written through two parts");
        }
        c.count("references");
    }
    let v = UninitView::from(&arr[..]);
    ck_eq!((vspan(&v), v.capacity(), v.into_maybe_uninit_slice().len()), ((at, n * size_of::<P12>()), n, n), "view of a slice");

    let z = Uninit::<Z32>::invent_for_zst();
    ck!(z.as_ptr() as usize % 32 == 0 && !z.as_ptr().is_null() && z.size() == 0, "an invented region");
    z.init(Z32);
    let z = UninitView::<Z4>::invent_for_zst();
    ck!(z.as_ptr() as usize % 4 == 0 && z.size() == 0, "an invented view");
    ck!(may_panic(|| Uninit::<u8>::invent_for_zst()).is_err(), "memory was invented");
    let mut e = Uninit::<[P12]>::empty();
    many(&e);
    ck!(e.size() == 0 && e.split_first().is_none() && e.split_last().is_none() && e.split_at(0).is_some() && e.split_at(1).is_none(), "an empty region");
    ck_eq!(e.into_maybe_uninit_slice().len(), 0, "an empty region");
    let e = Uninit::<[Q64]>::default();
    many(&e);
    shown(&e);
    ck!(e.size() == 0 && e.capacity() == 0, "a default region");
    let e = UninitView::<[P12]>::default();
    ck!(e.size() == 0 && e.as_begin_ptr() as usize % align_of::<P12>() == 0 && e.capacity() == 0, "a default view");
    let e = UninitView::<[Q64]>::empty();
    ck!(e.size() == 0 && e.as_begin_ptr() as usize % 64 == 0 && e.capacity() == 0, "an empty view");
    c.obs(n as u64);
    c.nontrivial();
    c.count("typed");
}

/// Nothing is cut into pieces that do not exist: every split in small regions.
fn small(c: &mut Case) {
    let (len, mis) = (c.idx as usize % 20, c.idx as usize / 20 % 16);
    let mut arena = Arena::new(len, 16, mis, 0);
    c.step(format!("every split of {} bytes at {} mod 16", len, mis));
    for at in 0..len + 2 {
        let mut u = Uninit::from_maybe_uninit_slice(arena.mem()).as_memory();
        at_byte(c, &mut u, at);
    }
    for al in 0..6 {
        for size in 0..len + 2 {
            let mut u = Uninit::from_maybe_uninit_slice(arena.mem()).as_memory();
            by_layout(c, &mut u, Layout::from_size_align(size, 1 << al).unwrap());
        }
    }
    c.nontrivial();
    c.count("small regions");
}

fn main() {
    let mut m = Mon::start("C14");
    m.family("program", 40_000, 260, program);
    m.family("typed", 2_000, 40, typed);
    m.family("small", 320, 20, small);
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        // Memory that 32 bits can not count.
        m.family("huge", 150, 0, |c| {
            let (from, len) = (c.rng.below(200), (5usize << 30) + c.rng.below(5000));
            match huge::Lazy::new(from + len) {
                Some(m) => {
                    let at = m.ptr().wrapping_add(from);
                    c.step(format!("{} bytes", len));
                    c.count("beyond 32 bits");
                    // SAFETY: exclusively ours for that many bytes.
                    let u = unsafe { Uninit::from_memory(std::ptr::NonNull::new(at).unwrap(), len) };
                    walk(c, Part::Mem(u), at as usize, len)
                }
                None => c.count("no huge memory"),
            }
        });
    }
    m.finish();
}
