//! C08: a LeakBox owns its value.
use harness::track::{self, Alive};
use harness::types::Tv;
use harness::*;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Chain, MemBump};
use static_alloc::Bump;
use std::any::Any;
use std::mem::{forget, swap, ManuallyDrop, MaybeUninit};

struct Held<'a, T: ?Sized> {
    b: LeakBox<'a, T>,
    id: Option<u32>,
    at: usize,
}

fn look<T: Tv>(h: &mut Held<'_, T>) {
    ck_eq!(&*h.b as *const T as usize, h.at, "address of the value in a box");
    ck_eq!(&mut *h.b as *mut T as usize, h.at, "address of the value in a box");
    ck_eq!(h.b.as_ref() as *const T as usize, h.at, "address seen by as_ref");
    ck_eq!(h.b.as_mut() as *mut T as usize, h.at, "address seen by as_mut");
    ck!(h.b.intact_as(h.id), "the value in a box changed");
}

fn run<T: Tv, const W: usize>(c: &mut Case) {
    track::reset();
    let mut alive = Alive::default();
    c.step(format!("size {} align {}", std::mem::size_of::<T>(), std::mem::align_of::<T>()));
    let shared: Box<Bump<[u64; W]>> = Box::new(Bump::uninit());
    let mut arena = Arena::new(W * 4, 8, 0, 0xA5);
    let mem = MemBump::from_mem(arena.mem()).ok().expect("a bump");
    let chain = Chain::new(W * 4).ok().expect("a chain");
    let mut slots: Vec<MaybeUninit<T>> = (0..12).map(|_| MaybeUninit::uninit()).collect();
    let slots_at = slots.as_ptr() as usize;
    let mut spare = slots.iter_mut();
    let mut boxes: Vec<Held<T>> = vec![];
    let mut raws: Vec<(*mut T, Option<u32>)> = vec![];
    let n = if c.miri { 14 } else { c.rng.range(5, 40) };
    let mk = |alive: &mut Alive| {
        let v = T::mk();
        let id = v.ident();
        alive.born(id);
        (v, id)
    };
    for _ in 0..n {
        let op = c.rng.below(24);
        match op {
            0..=7 => {
                let (v, id) = mk(&mut alive);
                let b: Option<(LeakBox<T>, usize)> = match op {
                    0 => { c.step("leak_box"); shared.leak_box(v).map(|b| { let a = &*b as *const T as usize; (b, a) }) }
                    1 => { c.step("leak_box_at"); shared.leak_box_at(v, shared.level()).ok().map(|b| { let a = &*b as *const T as usize; (b, a) }) }
                    2 | 3 => {
                        c.step(["bump_box", "chain box"][op - 2]);
                        let b = if op == 2 { mem.bump_box::<T>() } else { chain.bump_box::<T>() };
                        match b {
                            Ok(mut b) => { let a = b.as_mut_ptr() as usize; Some((LeakBox::write(b, v), a)) }
                            Err(_) => { drop(v); None }
                        }
                    }
                    4 => {
                        c.step("uninit");
                        match spare.next() {
                            Some(m) => {
                                let a = m.as_ptr() as usize;
                                ck!(a >= slots_at, "slot");
                                if c.rng.chance(1, 2) {
                                    // Previous contents are overwritten, not destroyed.
                                    let (old, _) = mk(&mut alive);
                                    m.write(old);
                                    c.count("previous contents");
                                }
                                Some((LeakBox::write(LeakBox::from(m), v), a))
                            }
                            None => { drop(v); None }
                        }
                    }
                    5 => {
                        c.step("Allocation::boxed");
                        match shared.get::<T>() {
                            // SAFETY: uniquely owned place for a T, from this very allocator.
                            Some(a) => { let at = a.ptr.as_ptr() as usize; Some((unsafe { a.boxed(v) }, at)) }
                            None => { drop(v); None }
                        }
                    }
                    6 => {
                        c.step("from_mut_unchecked");
                        match spare.next() {
                            Some(m) => {
                                let r = m.write(v);
                                let a = r as *mut T as usize;
                                // SAFETY: the MaybeUninit never destroys its contents.
                                Some((unsafe { LeakBox::from_mut_unchecked(r) }, a))
                            }
                            None => { drop(v); None }
                        }
                    }
                    _ => {
                        c.step("assume_init");
                        match spare.next() {
                            Some(m) => {
                                m.write(v);
                                let a = m.as_ptr() as usize;
                                // SAFETY: just written.
                                Some((unsafe { LeakBox::assume_init(LeakBox::from(m)) }, a))
                            }
                            None => { drop(v); None }
                        }
                    }
                };
                match b {
                    Some((b, at)) => {
                        let mut h = Held { b, id, at };
                        look(&mut h);
                        boxes.push(h);
                        c.count("boxes");
                    }
                    None => {
                        // No room, the value is gone.
                        if id.map_or(false, |i| track::drops_of(i) == 1) || id.is_none() {
                            alive.dead(id);
                        }
                    }
                }
            }
            8 if !raws.is_empty() => {
                c.step("from_raw");
                let i = c.rng.below(raws.len());
                let (p, id) = raws.swap_remove(i);
                // SAFETY: from into_raw.
                boxes.push(Held { b: unsafe { LeakBox::from_raw(p) }, id, at: p as usize });
                c.count("ownership resumed");
            }
            _ if boxes.is_empty() => {}
            9 | 10 => {
                c.step("drop");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                drop(h.b);
                alive.dead(h.id);
                c.count("dropped");
            }
            11 => {
                c.step("take");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let v = LeakBox::take(h.b);
                ck!(v.intact_as(h.id), "taken value differs");
                alive.check("after take");
                drop(v);
                alive.dead(h.id);
                c.count("taken");
            }
            12 => {
                c.step("leak");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let r: &mut T = LeakBox::leak(h.b);
                ck_eq!(r as *mut T as usize, h.at, "address of the leaked value");
                ck!(r.intact_as(h.id), "leaked value differs");
                alive.check("after leak");
                if c.rng.chance(1, 2) {
                    // The holder of the reference may still destroy it in place.
                    // SAFETY: nobody else will.
                    unsafe { std::ptr::drop_in_place(r) };
                    alive.dead(h.id);
                }
                c.count("leaked");
            }
            13 | 14 => {
                c.step("into_raw");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let p = LeakBox::into_raw(h.b);
                ck_eq!(p as usize, h.at, "raw address");
                raws.push((p, h.id));
                c.count("raw");
            }
            15 => {
                c.step("forget");
                let i = c.rng.below(boxes.len());
                forget(boxes.swap_remove(i).b);
            }
            16 => {
                c.step("assign");
                let i = c.rng.below(boxes.len());
                let (v, id) = mk(&mut alive);
                *boxes[i].b = v;
                alive.dead(boxes[i].id);
                boxes[i].id = id;
                c.count("assigned");
            }
            17 => {
                c.step("swap");
                let (i, j) = (c.rng.below(boxes.len()), c.rng.below(boxes.len()));
                if i != j {
                    let (lo, hi) = (i.min(j), i.max(j));
                    let (a, b) = boxes.split_at_mut(hi);
                    swap(&mut *a[lo].b, &mut *b[0].b);
                    let t = a[lo].id;
                    a[lo].id = b[0].id;
                    b[0].id = t;
                }
            }
            18 => {
                c.step("unwind");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let r = may_panic(move || {
                    let _b = h.b;
                    std::panic::panic_any("planned")
                });
                let () = match r { Err(_) => (), Ok(()) => fail!("no panic") };
                alive.dead(h.id);
                c.count("dropped unwinding");
            }
            19 if boxes[0].id.is_some() => {
                c.step("panicking destructor");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                track::panic_on(h.id.unwrap());
                let b = h.b;
                let r = may_panic(move || drop(b));
                ck!(r.is_err(), "the panic of a destructor was swallowed");
                alive.dead(h.id);
                c.count("panicking destructors");
            }
            20 => {
                c.step("as dyn");
                let i = c.rng.below(boxes.len());
                let h = boxes.swap_remove(i);
                let p = LeakBox::into_raw(h.b) as *mut dyn Any;
                // SAFETY: from into_raw, unsized.
                let b: LeakBox<dyn Any> = unsafe { LeakBox::from_raw(p) };
                match (*b).downcast_ref::<T>() {
                    Some(v) => ck!(v.intact_as(h.id) && v as *const T as usize == h.at, "value behind dyn"),
                    None => fail!("wrong type behind dyn"),
                }
                alive.check("as dyn");
                drop(b);
                alive.dead(h.id);
                c.count("dyn");
            }
            21 => {
                c.step("into_pin");
                let place: &'static mut MaybeUninit<T> = Box::leak(Box::new(MaybeUninit::uninit()));
                let raw = place as *mut MaybeUninit<T>;
                let (v, id) = mk(&mut alive);
                // SAFETY: freed below, after the last use.
                let b = LeakBox::write(LeakBox::from(unsafe { &mut *raw }), v);
                let mut p = LeakBox::into_pin(b);
                ck_eq!(&*p as *const T as usize, raw as usize, "address of the pinned value");
                ck!(p.intact_as(id), "pinned value");
                let (w, wid) = mk(&mut alive);
                p.as_mut().set(w);
                alive.dead(id);
                ck_eq!(&*p.as_ref() as *const T as usize, raw as usize, "address of the pinned value");
                ck!(p.intact_as(wid), "pinned value");
                alive.check("pinned");
                drop(p);
                alive.dead(wid);
                // SAFETY: from Box::leak.
                drop(unsafe { Box::from_raw(raw) });
                c.count("pinned");
            }
            22 => {
                c.step("pointer");
                let h = &boxes[c.rng.below(boxes.len())];
                if T::mk_is_zst() || h.id.is_some() {
                    ck_eq!(format!("{:p}", h.b), format!("{:p}", h.at as *const u8), "pointer form of a box");
                }
            }
            _ => {
                c.step("array");
                let k = c.rng.below(5);
                let arr = mem.bump_array::<T>(k);
                if let Ok(a) = arr {
                    ck_eq!(a.len(), k, "length of a boxed array");
                    let s: &mut [MaybeUninit<T>] = LeakBox::leak(a);
                    for m in s {
                        let at = m.as_ptr() as usize;
                        let (v, id) = mk(&mut alive);
                        boxes.push(Held { b: LeakBox::write(LeakBox::from(m), v), id, at });
                    }
                    c.count("arrays");
                }
            }
        }
        alive.check("between operations");
        for h in &mut boxes {
            look(h);
        }
        for (p, id) in &raws {
            // SAFETY: still owned by nobody else, valid.
            ck!(unsafe { (**p).intact_as(*id) }, "raw value changed");
        }
    }
    if boxes.len() >= 2 {
        c.nontrivial();
    }
    c.step("end");
    for h in boxes {
        let id = h.id;
        drop(h.b);
        alive.dead(id);
    }
    alive.check("end");
    drop(spare);
    drop(slots);
    drop(mem);
    arena.check_guards();
    alive.check("the stores never destroy anything");
}

trait Zst {
    fn mk_is_zst() -> bool;
}
impl<T> Zst for T {
    fn mk_is_zst() -> bool {
        std::mem::size_of::<T>() == 0
    }
}

/// Types without destructor, slices and strings.
/// A box of a place that belongs to someone else writes through and destroys nothing.
fn plain_copy<T: Copy + PartialEq + std::fmt::Debug>(c: &mut Case, mk: impl Fn(u64) -> T) {
    let (x, y) = (c.rng.u64(), c.rng.u64());
    let mut v = [mk(x), mk(x), mk(x)];
    let at = &v[1] as *const T as usize;
    {
        let mut b = LeakBox::from_mut(&mut v[1]);
        ck_eq!(&*b as *const T as usize, at, "address");
        ck_eq!(*b, mk(x), "contents");
        *b = mk(y);
        match c.rng.below(3) {
            0 => drop(b),
            1 => { ck_eq!(LeakBox::take(b), mk(y), "taken value") }
            _ => { ck_eq!(LeakBox::leak(b) as *mut T as usize, at, "address of the leaked value") }
        }
    }
    ck_eq!(v, [mk(x), mk(y), mk(x)], "writes through a box reach the value, and only it");
}

fn plain(c: &mut Case) {
    let mut v = [c.rng.u64(), c.rng.u64()];
    let old = v;
    let at = v.as_ptr() as usize;
    let mut b = LeakBox::from_mut(&mut v);
    ck_eq!(b.as_ptr() as usize, at, "address");
    ck_eq!(*b, old, "contents");
    b[1] = 7;
    let r = LeakBox::leak(b);
    r[0] = 5;
    ck_eq!(v, [5, 7], "writes through a box reach the value");
    // Boxed slices of uninitialised places.
    let n = c.rng.below(6);
    c.step(format!("slice of {}", n));
    let mut places: Vec<MaybeUninit<u32>> = vec![MaybeUninit::uninit(); n];
    let at = places.as_ptr() as usize;
    let mut b: LeakBox<[MaybeUninit<u32>]> = LeakBox::from(&mut places[..]);
    ck_eq!((b.len(), b.as_ptr() as usize), (n, at), "a box of a slice");
    for (i, m) in b.iter_mut().enumerate() {
        m.write(i as u32 * 3);
    }
    drop(b);
    plain_copy::<()>(c, |_| ());
    plain_copy::<track::A64>(c, |_| track::A64);
    plain_copy::<[u8; 5000]>(c, |x| [x as u8; 5000]);
    plain_copy::<&'static str>(c, |x| ["a", "bc", "def"][x as usize % 3]);
    plain_copy::<(u8, u32, u64)>(c, |x| (x as u8, x as u32, x));
    for (i, m) in places.iter().enumerate() {
        // SAFETY: written through the box.
        ck_eq!(unsafe { m.assume_init() }, i as u32 * 3, "slot");
    }
    // Unsized ownership: dropping the box of a slice destroys every element once.
    track::reset();
    let k = c.rng.below(5);
    let mut vals: ManuallyDrop<Vec<track::Tr>> = ManuallyDrop::new((0..k).map(|_| track::Tr::new()).collect());
    // SAFETY: the vector never destroys its elements again.
    let b: LeakBox<[track::Tr]> = unsafe { LeakBox::from_mut_unchecked_dst(&mut vals[..]) };
    for (i, v) in b.iter().enumerate() {
        v.assert_live(i as u32);
    }
    drop(b);
    track::check_all_dropped();
    // SAFETY: elements are gone.
    unsafe { vals.set_len(0) };
    drop(ManuallyDrop::into_inner(vals));
    track::check_all_dropped();
    c.obs((n * 8 + k) as u64);
    c.nontrivial();
    c.count("plain");
}

trait Dst<'a, T: ?Sized> {
    unsafe fn from_mut_unchecked_dst(v: &'a mut T) -> LeakBox<'a, T>;
}
impl<'a, T: ?Sized> Dst<'a, T> for LeakBox<'a, T> {
    unsafe fn from_mut_unchecked_dst(v: &'a mut T) -> LeakBox<'a, T> {
        LeakBox::from_raw(v)
    }
}

fn main() {
    let mut m = Mon::start("C08");
    m.family("history", 60_000, 350, |c| {
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => run::<T, 1024>(c))
    });
    m.family("big", 1_000, 0, |c| {
        let i = c.rng.below(harness::types::BIG);
        with_big!(i, T => run::<T, 65_536>(c))
    });
    m.family("plain", 500, 20, plain);
    m.finish();
}
