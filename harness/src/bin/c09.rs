//! C09: Alloca provides exactly the requested aligned scratch slice for any type.
use harness::track;
use harness::types::Tv;
use harness::*;
use static_alloc::leaked::Alloca;
use std::cell::Cell;
use std::mem::{align_of, size_of, MaybeUninit};

const BOUND: usize = 1 << 20;

/// Live scratch slices, outermost first: address, bytes.
type Live = Vec<(usize, usize)>;

fn fresh(live: &Live, at: usize, bytes: usize) {
    if bytes == 0 {
        return;
    }
    for (a, n) in live {
        ck!(*n == 0 || at + bytes <= *a || a + n <= at, "a scratch slice overlaps a live one");
    }
}

fn len_for(c: &mut Case, size: usize) -> usize {
    let size = size.max(1);
    let top = if c.miri { 11 } else { 20 };
    match c.rng.below(8) {
        0 => c.rng.below(3),
        1 | 2 => c.rng.below(20),
        3 | 4 | 5 => {
            // Around the sizes at which the implementation may switch.
            let p = 1usize << c.rng.range(3, top);
            let d = c.rng.below(5) as isize - 2;
            ((p / size) as isize + d).max(0) as usize
        }
        _ => {
            let p = 1usize << c.rng.range(3, top);
            c.rng.below(p / size + 1)
        }
    }
}

/// Bytes of one level, recursing with another element type.
fn level<T: Tv>(c: &mut Case, depth: usize, live: &mut Live) {
    let len = len_for(c, size_of::<T>());
    c.step(format!("{} x size {} align {}", len, size_of::<T>(), align_of::<T>()));
    let Some(a) = Alloca::<T>::new(len) else { fail!("{} elements of {} bytes are representable", len, size_of::<T>()) };
    let fits = (len + 1).checked_mul(size_of::<T>()).map_or(false, |n| n <= BOUND);
    let ran = Cell::new(0);
    let token = c.rng.u64();
    let twice = c.rng.chance(1, 4);
    let mut outcome = None;
    for _ in 0..1 + twice as usize {
        ran.set(0);
        let r = may_panic(|| {
            a.run(|s: &mut [MaybeUninit<T>]| {
                ran.set(ran.get() + 1);
                ck_eq!(s.len(), len, "length of the slice");
                let (at, bytes) = (s.as_ptr() as usize, size_of::<T>() * len);
                ck!(at % align_of::<T>() == 0, "a slice for alignment {} starts at an address that is {} off", align_of::<T>(), at % align_of::<T>());
                fresh(live, at, bytes);
                let here = &ran as *const _ as usize;
                ck!(bytes == 0 || here + size_of::<Cell<i32>>() <= at || at + bytes <= here, "a scratch slice overlaps a local variable");
                live.push((at, bytes));
                let tag = c.rng.u64();
                // SAFETY: the whole slice belongs to the closure.
                unsafe { std::slice::from_raw_parts_mut(s.as_mut_ptr() as *mut u8, bytes) }.copy_from_slice(&regions::pattern(tag, bytes));
                if depth > 0 && c.rng.chance(2, 3) {
                    descend(c, depth - 1, live);
                    c.count("nested");
                }
                // SAFETY: initialised above.
                if let Some(i) = unsafe { regions::differs(s.as_ptr() as *const u8, &regions::pattern(tag, bytes)) } {
                    fail!("byte {} of a scratch slice changed during a nested run", i);
                }
                live.pop();
                // The slice works for real values.
                for m in s.iter_mut().take(8) {
                    m.write(T::mk());
                }
                for m in s.iter_mut().take(8) {
                    // SAFETY: written before.
                    unsafe {
                        ck!(m.assume_init_ref().intact_as(m.assume_init_ref().ident()), "value in a scratch slice");
                        m.assume_init_drop()
                    }
                }
                if len > 0 {
                    c.nontrivial();
                }
                token
            })
        });
        match r {
            Ok(t) => {
                ck_eq!(ran.get(), 1, "runs of the closure");
                ck_eq!(t, token, "result of the closure");
                c.count("runs");
                if len == 0 {
                    c.count("empty slices");
                }
                if size_of::<T>() == 0 {
                    c.count("zero-sized elements");
                }
            }
            Err(_) => {
                ck_eq!(ran.get(), 0, "runs of the closure before the refusal");
                ck!(!fits, "{} elements of {} bytes were refused: {}", len, size_of::<T>(), last_panic());
                c.count("refused");
            }
        }
        outcome = Some(());
    }
    let _ = outcome;
    track::check_sane();
}

fn descend(c: &mut Case, depth: usize, live: &mut Live) {
    let i = c.rng.below(harness::types::TYPES);
    with_tv!(i, T => level::<T>(c, depth, live))
}

/// Some deep stack: unoptimised code keeps a slot for every size class.
fn deep(f: impl FnOnce() + Send) {
    if MIRI {
        return f();
    }
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(96 << 20).spawn_scoped(s, f).unwrap().join());
    if let Err(e) = r {
        std::panic::resume_unwind(e)
    }
}

fn representable<T: Tv>(c: &mut Case) {
    let size = size_of::<T>();
    let max = isize::MAX as usize;
    let len = match c.rng.below(7) {
        0 => usize::MAX,
        1 => usize::MAX - c.rng.below(4),
        2 => (max / size.max(1)).saturating_add(c.rng.below(5)),
        3 => (max / size.max(1)).saturating_sub(c.rng.below(5)),
        4 => (usize::MAX / size.max(1)).saturating_add(c.rng.below(4)),
        5 => (c.rng.u64() | 1 << 62) as usize,
        _ => (usize::MAX / size.max(1)).wrapping_add(1 + c.rng.below(300)),
    };
    c.step(format!("new({}) of size {} align {}", len, size, align_of::<T>()));
    let r = may_panic(|| Alloca::<T>::new(len));
    let Ok(r) = r else { fail!("new({}) of size {} panicked: {}", len, size, last_panic()) };
    let bytes = len as u128 * size as u128;
    // One element of slack and the rounding of a layout may be needed.
    let room = bytes + size as u128 + align_of::<T>() as u128 <= max as u128;
    match r {
        None => {
            ck!(!room || len == usize::MAX && size == 0, "{} elements of {} bytes are representable", len, size);
            c.count("not representable");
        }
        Some(a) => {
            ck!(bytes <= max as u128, "{} elements of {} bytes are not representable", len, size);
            let ran = Cell::new(0);
            let r = may_panic(|| a.run(|s| {
                ran.set(ran.get() + 1);
                ck_eq!(s.len(), len, "length of the slice");
                ck!(s.as_ptr() as usize % align_of::<T>() == 0, "alignment of the slice");
            }));
            if bytes < 4096 {
                ck!(r.is_ok() && ran.get() == 1, "{} elements of {} bytes were refused: {}", len, size, last_panic());
                if size == 0 {
                    c.count("huge zero-sized");
                }
            } else {
                ck!(r.is_err() && ran.get() == 0, "{} bytes on the stack", bytes);
                c.count("refused");
            }
        }
    }
    c.nontrivial();
}

fn main() {
    let mut m = Mon::start("C09");
    m.family("nested", 6_000, 220, |c| {
        track::reset();
        deep(|| descend(c, 3, &mut vec![]));
    });
    m.family("representable", 3_000, 60, |c| {
        track::reset();
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => representable::<T>(c))
    });
    m.family("big", 800, 0, |c| {
        track::reset();
        let i = c.rng.below(harness::types::BIG);
        with_big!(i, T => if c.rng.chance(1, 5) { representable::<T>(c) } else { deep(|| level::<T>(c, 1, &mut vec![])) })
    });
    // A panic of the closure comes out unchanged, captured values are destroyed once.
    m.family("panic", 2_000, 40, |c| {
        track::reset();
        let len = c.rng.below(40);
        let guard: track::Tr = track::Tr::new();
        let id = guard.id;
        let r = may_panic(|| {
            Alloca::<u64>::new(len).unwrap().run(|s| {
                let _g = &guard;
                for x in s.iter_mut() {
                    x.write(1);
                }
                let inner: track::Tr = track::Tr::new();
                let _ = &inner;
                std::panic::panic_any(len + 77);
            })
        });
        let e: Box<dyn std::any::Any + Send> = match r { Err(e) => e, Ok(()) => fail!("a panic was swallowed") };
        ck_eq!(e.downcast_ref::<usize>().copied(), Some(len + 77), "payload of the panic");
        ck_eq!(track::drops_of(id), 0, "a borrowed value was destroyed");
        drop(guard);
        track::check_all_dropped();
        c.obs(len as u64);
        c.nontrivial();
        c.count("panics");
    });
    m.finish();
}
