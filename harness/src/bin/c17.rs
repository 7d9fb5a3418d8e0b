//! C17: without-alloc's Box owns its value and returns its memory in full.
use harness::track::{self, Alive, Tr};
use harness::types::Tv;
use harness::*;
use std::any::Any;
use std::fmt::Debug;
use std::mem::{forget, swap};
use unsize_reg::{CoerceUnsize, Coercion};
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::{Box as WBox, Uninit};

struct Held<'a, T: ?Sized> {
    b: WBox<'a, T>,
    id: Option<u32>,
    at: usize,
    len: usize,
}

struct Region<'a> {
    mem: Uninit<'a, ()>,
    at: usize,
    len: usize,
}

fn look<T: Tv>(h: &mut Held<'_, T>) {
    ck_eq!(&*h.b as *const T as usize, h.at, "address of the value in a box");
    ck_eq!(&mut *h.b as *mut T as usize, h.at, "address of the value in a box");
    ck!(h.b.intact_as(h.id), "the value in a box changed");
}

/// The region a box was given comes back with the same start and byte length.
fn check_region<T: ?Sized>(u: &Uninit<'_, T>, at: usize, len: usize, what: &str) {
    ck_eq!(u.as_ptr() as *const u8 as usize, at, "start of the region returned by {}", what);
    ck_eq!(u.byte_capacity(), len, "byte length of the region returned by {}", what);
}

fn run<T: Tv + Debug, const W: usize>(c: &mut Case) {
    track::reset();
    let mut alive = Alive::default();
    let (size, align) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
    c.step(format!("size {} align {}", size, align));
    let mis = c.rng.below(128);
    let mut arena = Arena::new(2400.max(size * 5), align.max(128), mis, 0xA5);
    let bump: Box<static_alloc::Bump<[u64; W]>> = Box::new(static_alloc::Bump::uninit());
    let mut whole = Uninit::from_maybe_uninit_slice(arena.mem()).as_memory();
    // Cut it into regions that fit a value, with random slack behind.
    let mut free: Vec<Region> = vec![];
    for _ in 0..if c.miri { 5 } else { 8 } {
        let layout = std::alloc::Layout::new::<T>();
        let slack = c.rng.below(40);
        let pad = whole.as_ptr() as usize % align;
        if pad != 0 {
            match whole.split_at_byte(align - pad) {
                Some(rest) => whole = rest,
                None => break,
            }
        }
        let Some(rest) = whole.split_at_byte(layout.size() + slack) else { break };
        let mem = std::mem::replace(&mut whole, rest);
        let (at, len) = (mem.as_ptr() as usize, mem.byte_capacity());
        free.push(Region { mem, at, len });
    }
    let mut boxes: Vec<Held<T>> = vec![];
    let mut raws: Vec<(Uninit<T>, Option<u32>, usize, usize)> = vec![];
    let mk = |alive: &mut Alive| {
        let v = T::mk();
        let id = v.ident();
        alive.born(id);
        (v, id)
    };
    let n = if c.miri { 16 } else { c.rng.range(5, 45) };
    for _ in 0..n {
        match c.rng.below(24) {
            0..=5 if !free.is_empty() => {
                let i = c.rng.below(free.len());
                let r = free.swap_remove(i);
                let (v, id) = mk(&mut alive);
                let Ok(u) = r.mem.cast::<T>() else { fail!("a region that fits was refused by cast") };
                let way = c.rng.below(3);
                c.step(["new", "into_box", "init + from_raw"][way]);
                let b = match way {
                    0 => WBox::new(v, u),
                    1 => u.into_box(v),
                    _ => {
                        let mut u = u;
                        u.borrow_mut().init(v);
                        // SAFETY: just initialised.
                        unsafe { WBox::from_raw(u) }
                    }
                };
                let mut h = Held { b, id, at: r.at, len: r.len };
                look(&mut h);
                boxes.push(h);
                c.count("boxes");
            }
            6 => {
                let (v, id) = mk(&mut alive);
                c.step("boxed");
                match bump.boxed(v) {
                    Some(b) => {
                        let at = &*b as *const T as usize;
                        boxes.push(Held { b, id, at, len: size });
                        c.count("from an allocator");
                    }
                    None => alive.dead(id),
                }
            }
            7 if !raws.is_empty() => {
                c.step("from_raw");
                let i = c.rng.below(raws.len());
                let (u, id, at, len) = raws.swap_remove(i);
                // SAFETY: from into_raw.
                boxes.push(Held { b: unsafe { WBox::from_raw(u) }, id, at, len });
                c.count("ownership resumed");
            }
            _ if boxes.is_empty() => {}
            8 | 9 => {
                c.step("drop");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                drop(h.b);
                alive.dead(h.id);
                c.count("dropped");
            }
            10..=12 => {
                c.step("take");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let (v, u) = WBox::take(h.b);
                ck!(v.intact_as(h.id), "taken value differs");
                alive.check("after take");
                check_region(&u, h.at, h.len, "take");
                // The memory is complete and ready for use while the value lives on elsewhere.
                let mem = u.as_memory();
                for k in 0..h.len {
                    // SAFETY: the region is ours for its whole extent.
                    unsafe { (mem.as_ptr() as *mut u8).add(k).write(0xEE) };
                }
                ck!(v.intact_as(h.id), "the taken value depends on the memory");
                free.push(Region { mem, at: h.at, len: h.len });
                drop(v);
                alive.dead(h.id);
                c.count("taken");
            }
            13 => {
                c.step("leak");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let r = WBox::leak(h.b);
                ck_eq!(r as *mut T as usize, h.at, "address of the leaked value");
                ck!(r.intact_as(h.id), "leaked value differs");
                alive.check("after leak");
                if c.rng.chance(1, 2) {
                    // SAFETY: nobody else destroys it.
                    unsafe { std::ptr::drop_in_place(r) };
                    alive.dead(h.id);
                }
                c.count("leaked");
            }
            14 | 15 => {
                c.step("into_raw");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let u = WBox::into_raw(h.b);
                check_region(&u, h.at, h.len, "into_raw");
                raws.push((u, h.id, h.at, h.len));
                c.count("raw");
            }
            16 => {
                c.step("forget");
                let i = c.rng.below(boxes.len());
                forget(boxes.swap_remove(i).b);
            }
            17 => {
                c.step("assign");
                let i = c.rng.below(boxes.len());
                let (v, id) = mk(&mut alive);
                *boxes[i].b = v;
                alive.dead(boxes[i].id);
                boxes[i].id = id;
                c.count("assigned");
            }
            18 => {
                c.step("swap");
                let (i, j) = (c.rng.below(boxes.len()), c.rng.below(boxes.len()));
                if i != j {
                    let (a, b) = boxes.split_at_mut(i.max(j));
                    let (a, b) = (&mut a[i.min(j)], &mut b[0]);
                    if c.rng.chance(1, 2) {
                        swap(&mut *a.b, &mut *b.b);
                        swap(&mut a.id, &mut b.id);
                    } else {
                        swap(a, b);
                    }
                }
            }
            19 => {
                c.step("unwind");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let r = may_panic(move || {
                    let _b = h.b;
                    std::panic::panic_any("planned")
                });
                let () = match r {
                    Err(_) => (),
                    Ok(()) => fail!("no panic"),
                };
                alive.dead(h.id);
                c.count("dropped unwinding");
            }
            20 if boxes[0].id.is_some() => {
                c.step("panicking destructor");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                track::panic_on(h.id.unwrap());
                let b = h.b;
                let r = may_panic(move || drop(b));
                ck!(r.is_err(), "the panic of a destructor was swallowed");
                alive.dead(h.id);
                c.count("panicking destructors");
            }
            21..=23 => {
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let dynamic: WBox<'_, dyn Any>;
                if c.rng.chance(1, 2) {
                    // SAFETY: none needed, the coercion is the compiler's.
                    dynamic = h.b.unsize(unsafe { Coercion::new(|p: *const T| p as *const dyn Any) });
                } else {
                    let shown: WBox<'_, dyn Debug> = h.b.unsize(Coercion::to_debug());
                    ck_eq!(&*shown as *const dyn Debug as *const u8 as usize, h.at, "address behind dyn Debug");
                    ck_eq!(std::mem::size_of_val(&*shown), size, "size behind dyn Debug");
                    // SAFETY: same value, same region.
                    dynamic = unsafe {
                        let raw = WBox::into_raw(shown);
                        check_region(&raw, h.at, h.len, "into_raw of an unsized box");
                        WBox::from_raw(Uninit::<T>::new(raw.as_non_null().cast(), h.len))
                            .unsize(Coercion::new(|p: *const T| p as *const dyn Any))
                    };
                }
                alive.check("after unsizing");
                match dynamic.downcast_ref::<T>() {
                    Some(v) => ck!(v.intact_as(h.id) && v as *const T as usize == h.at, "value behind dyn"),
                    None => fail!("wrong type behind dyn"),
                }
                c.count("unsized");
                match c.rng.below(3) {
                    0 => {
                        c.step("drop dyn");
                        drop(dynamic);
                        alive.dead(h.id);
                    }
                    1 => {
                        c.step("leak dyn");
                        let r = WBox::leak(dynamic);
                        ck_eq!(r as *mut dyn Any as *mut u8 as usize, h.at, "address of the leaked value");
                        alive.check("after leak of dyn");
                    }
                    _ => {
                        c.step("raw dyn");
                        let raw = WBox::into_raw(dynamic);
                        check_region(&raw, h.at, h.len, "into_raw of an unsized box");
                        // SAFETY: the value is still there.
                        boxes.push(Held {
                            b: unsafe { WBox::from_raw(Uninit::new(raw.as_non_null().cast(), h.len)) },
                            id: h.id,
                            at: h.at,
                            len: h.len,
                        });
                    }
                }
            }
            _ => {
                c.step("pointer");
                let h = &boxes[c.rng.below(boxes.len())];
                ck_eq!(format!("{:p}", h.b), format!("{:p}", h.at as *const u8), "pointer form of a box");
            }
        }
        alive.check("between operations");
        for h in &mut boxes {
            look(h);
        }
        for (u, id, at, len) in &raws {
            check_region(u, *at, *len, "into_raw, later");
            // SAFETY: still initialised.
            ck!(unsafe { u.as_ref().intact_as(*id) }, "raw value changed");
        }
    }
    if boxes.len() + raws.len() >= 2 {
        c.nontrivial();
    }
    c.step("end");
    for h in boxes {
        let id = h.id;
        drop(h.b);
        alive.dead(id);
    }
    alive.check("end");
    drop(raws);
    drop(free);
    arena.check_guards();
    alive.check("raw memory destroys nothing");
}

/// Boxes of arrays viewed as slices.
fn slices(c: &mut Case) {
    fn go<const N: usize>(c: &mut Case) {
        track::reset();
        let mut mem = Arena::new(std::mem::size_of::<[Tr; N]>() + 13, 8, 0, 0xA5);
        let (at, len) = (mem.addr(), mem.len());
        let u = Uninit::from_maybe_uninit_slice(mem.mem()).as_memory();
        let Ok(u) = u.cast::<[Tr; N]>() else { fail!("cast refused") };
        let vals: [Tr; N] = std::array::from_fn(|_| Tr::new());
        let b = WBox::new(vals, u);
        let mut b: WBox<[Tr]> = b.unsize(Coercion::to_slice());
        ck_eq!(b.len(), N, "length of the slice");
        ck_eq!(b.as_ptr() as usize, at, "address of the slice");
        for (i, v) in b.iter().enumerate() {
            v.assert_live(i as u32);
        }
        if N > 1 {
            b.reverse();
        }
        match c.rng.below(3) {
            0 => {
                drop(b);
                track::check_all_dropped();
                ck_eq!(track::order(), (0..N as u32).rev().collect::<Vec<_>>(), "destruction of a boxed slice");
            }
            1 => {
                let raw = WBox::into_raw(b);
                check_region(&raw, at, len, "into_raw of a slice box");
                ck_eq!(track::order().len(), 0, "destroyed by into_raw");
                // SAFETY: still initialised.
                drop(unsafe { WBox::from_raw(raw) });
                track::check_all_dropped();
            }
            _ if N > 0 => {
                let k = c.rng.below(N) as u32;
                track::panic_on(k);
                ck!(may_panic(move || drop(b)).is_err(), "the panic of a destructor was swallowed");
                track::check_all_dropped();
            }
            _ => drop(b),
        }
        mem.check_guards();
        c.obs(N as u64);
        c.nontrivial();
        c.count("slices");
    }
    match c.rng.below(5) {
        0 => go::<0>(c),
        1 => go::<1>(c),
        2 => go::<2>(c),
        3 => go::<5>(c),
        _ => go::<9>(c),
    }
}

/// Regions with more bytes than 32 bits can count.
#[cfg(target_pointer_width = "64")]
fn huge(c: &mut Case) {
    track::reset();
    let len = *c.rng.pick(&[1usize << 31, 1 << 32, (1 << 32) + (1 << 31), 5 << 30]) + c.rng.below(400) - 100;
    c.step(format!("{} bytes", len));
    let Some(m) = harness::huge::Lazy::new(len) else { return c.count("no huge memory") };
    let at = m.ptr() as usize;
    // SAFETY: exclusively ours.
    let u = unsafe { Uninit::from_memory(std::ptr::NonNull::new(m.ptr()).unwrap(), len) };
    let mut mem = u;
    for _ in 0..c.rng.range(1, 6) {
        let Ok(u) = mem.cast::<Tr>() else { fail!("a region that fits was refused by cast") };
        let mut b = WBox::new(Tr::new(), u);
        ck_eq!(&*b as *const Tr as usize, at, "address of the value in a box");
        let id = b.id;
        b.assert_live(id);
        let way = c.rng.below(4);
        c.step(["take", "raw", "unsize", "drop"][way]);
        match way {
            0 => {
                let (v, u) = WBox::take(b);
                v.assert_live(id);
                check_region(&u, at, len, "take");
                mem = u.as_memory();
            }
            1 => {
                let raw = WBox::into_raw(b);
                check_region(&raw, at, len, "into_raw");
                // SAFETY: holds the value.
                b = unsafe { WBox::from_raw(raw) };
                let (v, u) = WBox::take(b);
                v.assert_live(id);
                check_region(&u, at, len, "take");
                mem = u.as_memory();
            }
            2 => {
                let d: WBox<dyn Any> = b.unsize(Coercion!(to dyn Any));
                ck!(d.is::<Tr>(), "type of an unsized box");
                let raw = WBox::into_raw(d);
                check_region(&raw, at, len, "into_raw of an unsized box");
                // SAFETY: holds the value.
                drop(unsafe { WBox::from_raw(raw) });
                break;
            }
            _ => break,
        }
        track::check_sane();
    }
    track::check_all_dropped();
    c.nontrivial();
    c.count("beyond 32 bits");
}

fn main() {
    let mut m = Mon::start("C17");
    m.family("history", 60_000, 330, |c| {
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => run::<T, 256>(c))
    });
    m.family("big", 1_000, 0, |c| {
        let i = c.rng.below(harness::types::BIG);
        with_big!(i, T => run::<T, 32_768>(c))
    });
    m.family("slices", 500, 25, slices);
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        m.family("huge", 60, 0, huge);
    }
    m.finish();
}
