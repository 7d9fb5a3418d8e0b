//! C13: unsizing preserves address, value, ownership, counts and access rights.
use harness::track::{self, Alive, Tr, A16, A64, Z};
use harness::*;
use std::any::Any;
use std::cell::Cell;
use std::fmt::{Debug, Display};
use std::future::Future;
use std::mem::{align_of, align_of_val, size_of, size_of_val, ManuallyDrop, MaybeUninit};
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::{Rc, Weak as RcWeak};
use std::sync::{Arc, Weak as ArcWeak};
use std::task::{Context, Poll};
use unsize_ws::{CoerceUnsized, CoerciblePtr, Coercion};
use without_alloc::{Box as WBox, Uninit};

/// What is known of a target and its values.
struct Target<'a, T, U: ?Sized> {
    mk: &'a dyn Fn() -> T,
    /// The coercion under test, and the compiler's.
    co: &'a dyn Fn() -> Coercion<T, U>,
    raw: fn(*const T) -> *const U,
    /// Behaves like the value (which was made last or given identity).
    see: &'a dyn Fn(&U, &T),
}

/// A pointer type of a user, as the documentation shows.
struct Mine<T: ?Sized>(Box<T>, u32);

// SAFETY: the pointer stays the same.
unsafe impl<T, U: ?Sized> CoerciblePtr<U> for Mine<T> {
    type Pointee = T;
    type Output = Mine<U>;
    fn as_sized_ptr(&mut self) -> *mut T {
        &mut *self.0
    }
    unsafe fn replace_ptr(self, new: *mut U) -> Mine<U> {
        let raw: *mut T = Box::into_raw(self.0);
        Mine(Box::from_raw(raw.replace_ptr(new)), self.1)
    }
}
impl<T: ?Sized> Deref for Mine<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> DerefMut for Mine<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

impl<T, U: ?Sized> Target<'_, T, U> {
    fn addr(p: *const U) -> usize {
        p as *const u8 as usize
    }

    /// Look at a value through a shared view.
    ///
    /// # Safety
    /// `at` is where the value is, and the view may be read.
    unsafe fn read(&self, p: *const U, at: usize) {
        ck_eq!(Self::addr(p), at, "address after unsizing");
        let r = &*p;
        ck_eq!((size_of_val(r), align_of_val(r)), (size_of::<T>(), align_of::<T>()), "dynamic size and alignment");
        // The compiler's own view of the same place, with the pointer's rights.
        let own = &*(self.raw)(p as *const T);
        ck_eq!(size_of_val(own), size_of_val(r), "size by the compiler");
        (self.see)(r, &*(p as *const T));
    }

    /// Replace the value through the view, destroying the old one.
    ///
    /// # Safety
    /// As `read`, and the view may be written.
    unsafe fn write(&self, p: *mut U, at: usize) {
        self.read(p, at);
        *(p as *mut T) = (self.mk)();
        self.read(p, at);
    }
}

fn kinds<T: 'static, U: ?Sized + 'static>(c: &mut Case, name: &'static str, t: &Target<T, U>) {
    let kind = c.rng.below(26);
    c.step(format!("{} size {} kind {}", name, size_of::<T>(), kind));
    c.nontrivial();
    c.count(name);
    let mk = || (t.mk)();
    let co = || (t.co)();
    let live = || track::with(|l| l.drops.iter().filter(|&&n| n == 0).count() as i64 + l.zst_live);
    let base = live();
    // SAFETY of the blocks below: every access is one the original pointer permitted.
    match kind {
        0 => {
            let v = mk();
            let at = &v as *const T as usize;
            let a: &U = (&v).unsize(co());
            let b: &U = (&v).unsize(co());
            unsafe { t.read(a, at) };
            unsafe { t.read(b, at) };
            unsafe { t.read(a, at) };
            (t.see)(a, &v);
            c.count("shared references");
        }
        1 => {
            let mut v = mk();
            let at = &v as *const T as usize;
            let r: &mut U = (&mut v).unsize(co());
            unsafe { t.write(r, at) };
            // A reborrow ends, the original is usable again, and again.
            let r: &mut U = (&mut v).unsize(co());
            unsafe { t.write(r, at) };
            v = mk();
            unsafe { t.read((&v).unsize(co()), at) };
            c.count("mutable references");
        }
        2 => {
            let v = mk();
            let n = live();
            let p: *const T = &v;
            let q: *const U = p.unsize(co());
            unsafe { t.read(q, p as usize) };
            ck_eq!(live(), n, "values alive");
            c.count("const pointers");
        }
        3 => {
            // A const pointer with the right to write.
            let mut v = mk();
            let p: *mut T = &mut v;
            let q: *const U = (p as *const T).unsize(co());
            unsafe { t.write(q as *mut U, p as usize) };
            unsafe { p.replace(mk()) };
            unsafe { t.read(q, p as usize) };
            c.count("const pointers");
        }
        4 | 5 => {
            let mut v = mk();
            let p: *mut T = &mut v;
            let q: *mut U = p.unsize(co());
            let s: *mut U = p.unsize(co());
            unsafe { t.write(q, p as usize) };
            unsafe { t.write(s, p as usize) };
            unsafe { drop(p.replace(mk())) };
            unsafe { t.write(q, p as usize) };
            c.count("mutable pointers");
        }
        6 => {
            let mut v = mk();
            let p = NonNull::from(&mut v);
            let q: NonNull<U> = p.unsize(co());
            unsafe { t.write(q.as_ptr(), p.as_ptr() as usize) };
            unsafe { drop(p.as_ptr().replace(mk())) };
            unsafe { t.write(q.as_ptr(), p.as_ptr() as usize) };
            c.count("non-null pointers");
        }
        7 => {
            // Pointers to nothing stay as they are.
            let q: NonNull<U> = NonNull::<T>::dangling().unsize(co());
            ck_eq!(Target::<T, U>::addr(q.as_ptr()), align_of::<T>(), "dangling pointer after unsizing");
            let q: *const U = std::ptr::null::<T>().unsize(co());
            ck!(q.is_null(), "null pointer after unsizing");
            let q: *mut U = std::ptr::null_mut::<T>().unsize(co());
            ck!(q.is_null(), "null pointer after unsizing");
            let any = c.rng.u64() as usize | 1;
            let q: *mut U = (any as *mut T).unsize(co());
            ck_eq!(Target::<T, U>::addr(q), any, "any address after unsizing");
            c.count("pointers to nothing");
        }
        8 | 9 => {
            let b = Box::new(mk());
            let at = &*b as *const T as usize;
            let n = live();
            let mut b: Box<U> = b.unsize(co());
            ck_eq!(live(), n, "values alive after unsizing a box");
            unsafe { t.write(&mut *b, at) };
            if kind == 9 {
                let p = Box::into_raw(b);
                unsafe { t.write(p, at) };
                b = unsafe { Box::from_raw(p) };
            }
            ck_eq!(live(), n, "values alive");
            drop(b);
            c.count("boxes");
        }
        10 | 11 => {
            let r = Rc::new(mk());
            let at = &*r as *const T as usize;
            let n = live();
            let others: Vec<Rc<T>> = (0..c.rng.below(3)).map(|_| r.clone()).collect();
            let weaks: Vec<RcWeak<T>> = (0..c.rng.below(3)).map(|_| Rc::downgrade(&r)).collect();
            let mut u: Rc<U> = r.unsize(co());
            ck_eq!((Rc::strong_count(&u), Rc::weak_count(&u)), (1 + others.len(), weaks.len()), "counts after unsizing");
            unsafe { t.read(&*u, at) };
            for w in &weaks {
                ck!(w.upgrade().is_some(), "upgrade while a strong pointer exists");
            }
            ck_eq!(Rc::get_mut(&mut u).is_some(), others.is_empty() && weaks.is_empty(), "unique access after unsizing");
            let empty = others.is_empty();
            drop((others, weaks));
            unsafe { t.write(Rc::get_mut(&mut u).unwrap(), at) };
            let w = Rc::downgrade(&u);
            let copy = u.clone();
            unsafe { t.read(&*copy, at) };
            drop(copy);
            ck_eq!(live(), n, "values alive");
            drop(u);
            ck!(w.upgrade().is_none(), "upgrade after the last strong pointer went");
            c.count(if empty { "unique rc" } else { "shared rc" });
        }
        12 | 13 => {
            let r = Arc::new(mk());
            let at = &*r as *const T as usize;
            let n = live();
            let others: Vec<Arc<T>> = (0..c.rng.below(3)).map(|_| r.clone()).collect();
            let weaks: Vec<ArcWeak<T>> = (0..c.rng.below(3)).map(|_| Arc::downgrade(&r)).collect();
            let mut u: Arc<U> = r.unsize(co());
            ck_eq!((Arc::strong_count(&u), Arc::weak_count(&u)), (1 + others.len(), weaks.len()), "counts after unsizing");
            unsafe { t.read(&*u, at) };
            for w in &weaks {
                ck!(w.upgrade().is_some(), "upgrade while a strong pointer exists");
            }
            ck_eq!(Arc::get_mut(&mut u).is_some(), others.is_empty() && weaks.is_empty(), "unique access after unsizing");
            drop((others, weaks));
            unsafe { t.write(Arc::get_mut(&mut u).unwrap(), at) };
            let w = Arc::downgrade(&u);
            ck_eq!(live(), n, "values alive");
            drop(u);
            ck!(w.upgrade().is_none(), "upgrade after the last strong pointer went");
            c.count("arc");
        }
        14 | 15 => {
            let r = Rc::new(mk());
            let at = &*r as *const T as usize;
            let w: RcWeak<U> = Rc::downgrade(&r).unsize(co());
            ck_eq!((w.strong_count(), w.weak_count()), (1, 1), "counts after unsizing a weak pointer");
            unsafe { t.read(&*w.upgrade().expect("upgrade"), at) };
            let w2: RcWeak<T> = Rc::downgrade(&r);
            ck_eq!(Rc::weak_count(&r), 2, "weak count");
            drop(r);
            ck!(w.upgrade().is_none(), "upgrade of a weak pointer to a destroyed value");
            // Unsized after its value is gone.
            let w2: RcWeak<U> = w2.unsize(co());
            ck!(w2.upgrade().is_none() && w2.strong_count() == 0, "a dangling weak pointer after unsizing");
            ck!(w2.ptr_eq(&w), "weak pointers to the same place");
            drop(w);
            drop(w2);
            let w: RcWeak<U> = RcWeak::<T>::new().unsize(co());
            ck!(w.upgrade().is_none() && (w.strong_count(), w.weak_count()) == (0, 0), "a weak pointer that never pointed anywhere");
            ck!(w.clone().ptr_eq(&w), "clone of a weak pointer that never pointed anywhere");
            c.count("rc weak");
        }
        16 | 17 => {
            let r = Arc::new(mk());
            let at = &*r as *const T as usize;
            let w: ArcWeak<U> = Arc::downgrade(&r).unsize(co());
            ck_eq!((w.strong_count(), w.weak_count()), (1, 1), "counts after unsizing a weak pointer");
            unsafe { t.read(&*w.upgrade().expect("upgrade"), at) };
            let w2: ArcWeak<T> = Arc::downgrade(&r);
            drop(r);
            ck!(w.upgrade().is_none(), "upgrade of a weak pointer to a destroyed value");
            let w2: ArcWeak<U> = w2.unsize(co());
            ck!(w2.upgrade().is_none() && w2.strong_count() == 0, "a dangling weak pointer after unsizing");
            drop((w, w2));
            let w: ArcWeak<U> = ArcWeak::<T>::new().unsize(co());
            ck!(w.upgrade().is_none() && w.strong_count() == 0, "a weak pointer that never pointed anywhere");
            ck!(w.clone().ptr_eq(&w), "clone of a weak pointer that never pointed anywhere");
            c.count("arc weak");
        }
        18 => {
            let mut v = mk();
            let at = &v as *const T as usize;
            // SAFETY: `v` is not moved while pinned, and is then overwritten in place.
            let p: Pin<&mut T> = unsafe { Pin::new_unchecked(&mut v) };
            let mut q: Pin<&mut U> = p.unsize(co());
            unsafe { t.write(q.as_mut().get_unchecked_mut(), at) };
            unsafe { t.read(&*q, at) };
            c.count("pinned references");
        }
        19 => {
            let p = Box::pin(mk());
            let at = &*p as *const T as usize;
            let n = live();
            let mut q: Pin<Box<U>> = p.unsize(co());
            unsafe { t.write(q.as_mut().get_unchecked_mut(), at) };
            ck_eq!(live(), n, "values alive");
            drop(q);
            c.count("pinned boxes");
        }
        20 => {
            let b = Mine(Box::new(mk()), 77);
            let at = &*b as *const T as usize;
            let mut q: Mine<U> = b.unsize(co());
            ck_eq!(q.1, 77, "other fields");
            unsafe { t.write(&mut *q, at) };
            let b = Mine(Box::new(mk()), 78);
            let at = &*b as *const T as usize;
            // SAFETY: boxed.
            let mut q: Pin<Mine<U>> = unsafe { Pin::new_unchecked(b) }.unsize(co());
            unsafe { t.write(q.as_mut().get_unchecked_mut(), at) };
            c.count("user-defined");
        }
        21 => {
            // A coercion is reusable.
            let x = co();
            let y = x;
            ck!(x == y, "copies of a coercion");
            let (v, b) = (mk(), Box::new(mk()));
            let at = &*b as *const T as usize;
            let b: Box<U> = b.unsize(x);
            unsafe { t.read(&*b, at) };
            unsafe { t.read((&v).unsize(y), &v as *const T as usize) };
            c.count("reused");
        }
        22 | 23 => {
            let mut mem: MaybeUninit<[MaybeUninit<T>; 2]> = MaybeUninit::uninit();
            let extra = c.rng.below(2);
            let u: Uninit<T> = match extra {
                0 => Uninit::from_memory_of(&mut mem),
                _ => Uninit::from_maybe_uninit(&mut mem).cast().ok().expect("cast to the first element"),
            };
            let (at, len) = (u.as_ptr() as usize, u.byte_capacity());
            use unsize_reg::CoerceUnsize as _;
            // SAFETY: the compiler's coercion.
            let reg = || unsafe { unsize_reg::Coercion::<T, U>::new(t.raw) };
            if kind == 22 {
                let b = WBox::new(mk(), u);
                let n = live();
                let mut b: WBox<U> = b.unsize(reg());
                ck_eq!(live(), n, "values alive after unsizing");
                unsafe { t.write(&mut *b, at) };
                if c.rng.chance(1, 2) {
                    let raw = WBox::into_raw(b);
                    ck_eq!((Target::<T, U>::addr(raw.as_ptr()), raw.byte_capacity()), (at, len), "region of an unsized box");
                    b = unsafe { WBox::from_raw(raw) };
                    unsafe { t.write(&mut *b, at) };
                }
                drop(b);
                c.count("without-alloc boxes");
            } else {
                let mut u = u;
                u.borrow_mut().init(mk());
                let view = u.borrow().unsize(reg());
                ck_eq!((Target::<T, U>::addr(view.as_ptr()), view.byte_capacity()), (at, len), "region of an unsized view");
                unsafe { t.read(view.as_ref(), at) };
                let mut d: Uninit<U> = u.unsize(reg());
                ck_eq!((Target::<T, U>::addr(d.as_ptr()), d.byte_capacity()), (at, len), "region after unsizing");
                unsafe { t.write(d.as_mut(), at) };
                unsafe { std::ptr::drop_in_place(d.as_ptr()) };
                c.count("uninit");
            }
        }
        24 => {
            // The value's destructor panics behind the new type.
            let id = track::created();
            let b: Box<U> = Box::new(mk()).unsize(co());
            if track::created() > id {
                track::panic_on(id);
                ck!(may_panic(move || drop(b)).is_err(), "the panic of a destructor was lost");
                c.count("panicking destructors");
            }
        }
        _ => {
            // Coercions made from closures, which also run exactly once.
            let ran = Cell::new(0);
            let raw = t.raw;
            let b = Box::new(mk());
            let at = &*b as *const T as usize;
            // SAFETY: the compiler's coercion.
            let b: Box<U> = b.unsize(unsafe { Coercion::new(|p| { ran.set(ran.get() + 1); raw(p) }) });
            ck_eq!(ran.get(), 1, "calls of the coercion");
            unsafe { t.read(&*b, at) };
            c.count("closures");
        }
    }
    ck_eq!(live(), base, "values alive at the end");
    track::check_sane();
}

trait FromMem<'a, T> {
    fn from_memory_of(m: &'a mut MaybeUninit<[MaybeUninit<T>; 2]>) -> Uninit<'a, T>;
}
impl<'a, T> FromMem<'a, T> for Uninit<'a, T> {
    fn from_memory_of(m: &'a mut MaybeUninit<[MaybeUninit<T>; 2]>) -> Uninit<'a, T> {
        // SAFETY: an array of uninitialised places needs no initialisation.
        Uninit::from_maybe_uninit(unsafe { &mut m.assume_init_mut()[0] })
    }
}

// ---------------------------------------------------------------- payloads and targets

#[derive(Debug)]
struct P<Y>(Y, u64);
impl<Y> Display for P<Y> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.1)
    }
}
trait Named {
    fn name(&self) -> u64;
    fn bump(&self) -> u64;
}
struct N<Y>(Y, Cell<u64>);
impl<Y> Named for N<Y> {
    fn name(&self) -> u64 {
        self.1.get() ^ 0xABCD
    }
    fn bump(&self) -> u64 {
        self.1.set(self.1.get() + 1);
        self.1.get()
    }
}
trait Sup: Named {
    fn sup(&self) -> u64;
}
impl<Y> Sup for N<Y> {
    fn sup(&self) -> u64 {
        !self.1.get()
    }
}

struct Tail<S: ?Sized> {
    head: u16,
    _t: ManuallyDrop<u8>,
    tail: S,
}

struct It<Y>(Y, u32);
impl<Y> Iterator for It<Y> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        Some(self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1 as usize, Some(self.1 as usize))
    }
}

struct Fut<Y>(Y, u32);
impl<Y> Future for Fut<Y> {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
        // SAFETY: nothing is moved.
        let me = unsafe { self.get_unchecked_mut() };
        if me.1 > 0 {
            me.1 -= 1;
            Poll::Pending
        } else {
            Poll::Ready(7)
        }
    }
}

fn run<T: 'static, U: ?Sized + 'static, M: Fn() -> T, C: Fn() -> Coercion<T, U>, S: Fn(&U, &T)>(
    c: &mut Case, name: &'static str, mk: M, co: C, raw: fn(*const T) -> *const U, see: S,
) {
    kinds::<T, U>(c, name, &Target { mk: &mk, co: &co, raw, see: &see });
}

macro_rules! go {
    ($c:expr, $name:literal, $mk:expr, $co:expr, $U:ty, $see:expr) => {{
        run::<_, $U, _, _, _>($c, $name, $mk, $co, |p| p as *const $U, $see)
    }};
}

fn dynamic<Y: 'static + Debug>(c: &mut Case, y: fn() -> Y) {
    track::reset();
    let seq = Cell::new(c.rng.u64() >> 40);
    let next = || {
        seq.set(seq.get() + 1);
        seq.get()
    };
    match c.rng.below(7) {
        0 => go!(c, "any", || P(y(), next()), Coercion::to_any, dyn Any, |u, t| {
            match u.downcast_ref::<P<Y>>() {
                Some(p) => ck!(std::ptr::eq(p, t) && p.1 == t.1, "value behind dyn Any"),
                None => fail!("type behind dyn Any"),
            }
            ck!(u.type_id() == std::any::TypeId::of::<P<Y>>() && !u.is::<Y>(), "type behind dyn Any");
        }),
        1 => go!(c, "debug", || P(y(), next()), Coercion::to_debug, dyn Debug, |u, t| {
            ck_eq!(format!("{:?} {:#?}", u, u), format!("{:?} {:#?}", t, t), "debug form")
        }),
        2 => go!(c, "display", || P(y(), next()), Coercion::to_display, dyn Display, |u, t| {
            ck_eq!(u.to_string(), t.to_string(), "display form")
        }),
        3 => go!(c, "user trait", || N(y(), Cell::new(next())), || unsafe { Coercion::new(|p: *const N<Y>| p as *const dyn Named) }, dyn Named, |u, t| {
            ck_eq!(u.name(), t.name(), "dynamic call");
            // Interior mutability through every kind of pointer.
            let n = u.bump();
            ck_eq!(t.1.get(), n, "change through a shared view");
            ck_eq!(t.bump(), u.name() ^ 0xABCD, "change of the original");
        }),
        4 => go!(c, "user trait with supertrait", || N(y(), Cell::new(next())), || unsafe { Coercion::new(|p: *const N<Y>| p as *const dyn Sup) }, dyn Sup, |u, t| {
            ck_eq!((u.sup(), u.name()), (t.sup(), t.name()), "dynamic calls");
            u.bump();
            ck_eq!(u.sup(), t.sup(), "dynamic call");
        }),
        5 => go!(c, "iterator", || It(y(), next() as u32), Coercion::to_iterator, dyn Iterator<Item = u32>, |u, t| {
            ck_eq!(u.size_hint(), t.size_hint(), "dynamic call")
        }),
        _ => go!(c, "future", || Fut(y(), next() as u32), Coercion::to_future, dyn Future<Output = u32>, |_, _| ()),
    }
}

fn slices<Y: 'static>(c: &mut Case, y: fn() -> Y) {
    track::reset();
    // One tracked value in a pair, so that every payload counts as one.
    macro_rules! n { ($n:literal) => {
        go!(c, "slice", || std::array::from_fn::<_, $n, _>(|i| if i == 0 { Some(y()) } else { None }), Coercion::to_slice, [Option<Y>], |u, t| {
            ck_eq!(u.len(), $n, "length");
            ck!(u.iter().zip(t).all(|(a, b)| std::ptr::eq(a, b)), "addresses of elements");
            ck!(u.iter().skip(1).all(|e| e.is_none()) && u[0].is_some(), "elements");
        })
    } }
    match c.rng.below(6) {
        0 => n!(1),
        1 => n!(2),
        2 => n!(5),
        3 => go!(c, "empty slice", || [(); 0].map(|_| y()), Coercion::to_slice, [Y], |u, _| ck_eq!(u.len(), 0, "length")),
        4 => go!(c, "slice tail", || Tail { head: 513, _t: ManuallyDrop::new(1), tail: [Some(y()), None, None] },
            // SAFETY: the compiler's coercion.
            || unsafe { Coercion::new(|p: *const Tail<[Option<Y>; 3]>| p as *const Tail<[Option<Y>]>) },
            Tail<[Option<Y>]>, |u, t| {
                ck_eq!((u.head, u.tail.len()), (513, 3), "parts");
                ck!(std::ptr::eq(&u.tail[2], &t.tail[2]), "address of the tail");
            }),
        _ => go!(c, "dyn tail", || Tail { head: 514, _t: ManuallyDrop::new(1), tail: N(y(), Cell::new(5)) },
            // SAFETY: the compiler's coercion.
            || unsafe { Coercion::new(|p: *const Tail<N<Y>>| p as *const Tail<dyn Named>) },
            Tail<dyn Named>, |u, t| {
                ck_eq!((u.head, u.tail.name()), (514, t.tail.name()), "parts");
                ck_eq!(&u.tail as *const dyn Named as *const u8 as usize, &t.tail as *const N<Y> as usize, "address of the tail");
            }),
    }
}

/// Functions of every arity: called through the new type they get their arguments in order.
fn functions<Y: 'static>(c: &mut Case, y: fn() -> Y) {
    track::reset();
    macro_rules! arity { ($k:literal; $($a:ident : $t:ty = $v:expr),*) => {{
        let want = { let mut h = 7u64; $(h = mix(h ^ $v as u64);)* h };
        let mk = || { let y = y(); move |$($a: $t),*| -> u64 { let _y = &y; #[allow(unused_mut)] let mut h = 7u64; $(h = mix(h ^ $a as u64);)* h } };
        match c.rng.below(5) {
            0 => go!(c, "fn", mk, Coercion::<_, dyn Fn($($t),*) -> u64>::to_fn, dyn Fn($($t),*) -> u64, |u, t| {
                ck_eq!(u($($v),*), want, "result of a call");
                ck_eq!(t($($v),*), want, "result of a call");
            }),
            1 => go!(c, "fn mut", mk, Coercion::<_, dyn FnMut($($t),*) -> u64>::to_fn_mut, dyn FnMut($($t),*) -> u64, |_, _| ()),
            2 => go!(c, "fn once", mk, Coercion::<_, dyn FnOnce($($t),*) -> u64>::to_fn_once, dyn FnOnce($($t),*) -> u64, |_, _| ()),
            3 => {
                let mut f: Box<dyn FnMut($($t),*) -> u64> = Box::new(mk()).unsize(Coercion::<_, dyn FnMut($($t),*) -> u64>::to_fn_mut());
                ck_eq!(f($($v),*), want, "result of a call");
                ck_eq!(f($($v),*), want, "result of a second call");
                c.nontrivial();
                c.step(concat!("call FnMut of ", $k));
                c.count("fn mut called");
            }
            _ => {
                let f: Box<dyn FnOnce($($t),*) -> u64> = Box::new(mk()).unsize(Coercion::<_, dyn FnOnce($($t),*) -> u64>::to_fn_once());
                ck_eq!(f($($v),*), want, "result of the only call");
                c.nontrivial();
                c.step(concat!("call FnOnce of ", $k));
                c.count("fn once called");
            }
        }
    }} }
    match c.rng.below(7) {
        0 => arity!(0; ),
        1 => arity!(1; a: u8 = 3),
        2 => arity!(2; a: u8 = 3, b: u64 = 9),
        3 => arity!(3; a: u8 = 3, b: u64 = 9, d: i16 = 5),
        4 => arity!(4; a: u8 = 3, b: u64 = 9, d: i16 = 5, e: u32 = 4),
        5 => arity!(5; a: u8 = 3, b: u64 = 9, d: i16 = 5, e: u32 = 4, f: usize = 8),
        _ => arity!(6; a: u8 = 3, b: u64 = 9, d: i16 = 5, e: u32 = 4, f: usize = 8, g: u16 = 1),
    }
    track::check_all_dropped();
}

/// Iterators and futures used through the new type; downcasts of owned values.
fn used<Y: 'static>(c: &mut Case, y: fn() -> Y) {
    track::reset();
    c.nontrivial();
    let n = c.rng.below(5) as u32;
    let way = c.rng.below(7);
    c.step(format!("use {} of {}", way, n));
    match way {
        0 => {
            let it: Box<dyn Iterator<Item = u32>> = Box::new(It(y(), n)).unsize(Coercion::to_iterator());
            ck_eq!(it.collect::<Vec<_>>(), (0..n).rev().collect::<Vec<_>>(), "items");
        }
        1 => {
            let mut i = It(y(), n);
            {
                let it: &mut dyn Iterator<Item = u32> = (&mut i).unsize(Coercion::to_iterator());
                ck_eq!(it.next(), n.checked_sub(1), "item");
            }
            ck_eq!(i.1, n.saturating_sub(1), "state of the iterator");
        }
        2 => {
            let mut f: Pin<Box<dyn Future<Output = u32>>> = Box::pin(Fut(y(), n)).unsize(Coercion::to_future());
            let mut cx = Context::from_waker(std::task::Waker::noop());
            for _ in 0..n {
                ck!(f.as_mut().poll(&mut cx).is_pending(), "early result");
            }
            ck_eq!(f.as_mut().poll(&mut cx), Poll::Ready(7), "result");
        }
        3 => {
            let b: Box<dyn Any> = Box::new(P(y(), 5)).unsize(Coercion::to_any());
            ck!(b.downcast::<P<Y>>().is_ok(), "downcast of a box");
            let r: Rc<dyn Any> = Rc::new(P(y(), 5)).unsize(Coercion::to_any());
            let Ok(r) = r.downcast::<P<Y>>() else { fail!("downcast of an rc") };
            ck!(Rc::try_unwrap(r).is_ok(), "unwrapping the only pointer");
        }
        4 => {
            // The macro, with one and with several bounds.
            let v = N(y(), Cell::new(9));
            let u: &dyn Named = (&v).unsize(Coercion!(to dyn Named));
            ck_eq!((u.name(), u.bump(), v.1.get()), (9 ^ 0xABCD, 10, 10), "calls");
            let b: Box<dyn Named> = Box::new(v).unsize(Coercion!(to dyn Named));
            ck_eq!(b.bump(), 11, "call");
            let r: Rc<dyn Debug + Send + Sync> = Rc::new(17u16).unsize(Coercion!(to dyn Debug + Send + Sync));
            ck_eq!(format!("{:?}", r), "17", "debug form");
        }
        5 => {
            // Borrowed data behind the new type.
            let text = format!("text {}", n);
            let words: Vec<&str> = text.split(' ').collect();
            let f = |i: usize| words[i].len();
            let d: Box<dyn Fn(usize) -> usize + '_> = Box::new(f).unsize(Coercion::<_, dyn Fn(usize) -> usize>::to_fn());
            let g: Box<dyn Debug + '_> = Box::new(&words).unsize(Coercion::to_debug());
            ck_eq!(format!("{:?}", g), format!("{:?}", words), "debug form");
            ck_eq!(d(0), 4, "call");
            let mut it = text.chars();
            let it: &mut (dyn Iterator<Item = char> + '_) = (&mut it).unsize(Coercion::to_iterator());
            ck_eq!(it.collect::<String>(), text, "items");
        }
        _ => {
            // An async block: self-referential once polled.
            let mut f: Pin<Box<dyn Future<Output = u32>>> = Box::pin(async move {
                let _y = y();
                let mut x = [1u32, 2, n];
                let r = &mut x[2];
                std::future::poll_fn({
                    let mut k = 0;
                    move |_| { k += 1; if k > 2 { Poll::Ready(()) } else { Poll::Pending } }
                }).await;
                *r += 1;
                x.iter().sum()
            }).unsize(Coercion::to_future());
            let mut cx = Context::from_waker(std::task::Waker::noop());
            ck!(f.as_mut().poll(&mut cx).is_pending() && f.as_mut().poll(&mut cx).is_pending(), "early result");
            ck_eq!(f.as_mut().poll(&mut cx), Poll::Ready(4 + n), "result");
        }
    }
    c.count("used");
    track::check_all_dropped();
}

/// Shared pointers unsized while other threads use their siblings.
fn threads(c: &mut Case) {
    track::reset();
    let n = c.rng.range(1, 3);
    c.step(format!("{} threads", n));
    let a: Arc<N2> = Arc::new(N2(std::sync::atomic::AtomicU64::new(0), [5; 3]));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (b, w) = (a.clone(), Arc::downgrade(&a));
            std::thread::spawn(move || {
                let d: Arc<dyn Tick> = if i % 2 == 0 { b.unsize(Coercion!(to dyn Tick)) } else { b };
                d.tick();
                let w: ArcWeak<dyn Tick> = w.unsize(Coercion!(to dyn Tick));
                if let Some(u) = w.upgrade() {
                    u.tick();
                }
                drop(d);
            })
        })
        .collect();
    let d: Arc<dyn Tick> = a.unsize(Coercion!(to dyn Tick));
    d.tick();
    for h in hs {
        h.join().expect("thread");
    }
    ck_eq!(d.ticks(), 2 * n as u64 + 1, "calls through all pointers");
    ck_eq!((Arc::strong_count(&d), Arc::weak_count(&d)), (1, 0), "counts");
    c.nontrivial();
    c.count("threads");
}
struct N2(std::sync::atomic::AtomicU64, [u8; 3]);
trait Tick: Send + Sync {
    fn tick(&self);
    fn ticks(&self) -> u64;
}
impl Tick for N2 {
    fn tick(&self) {
        assert_eq!(self.1, [5; 3]);
        self.0.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    fn ticks(&self) -> u64 {
        self.0.load(std::sync::atomic::Ordering::Relaxed)
    }
}

macro_rules! payload {
    ($c:expr, $f:ident) => {
        match $c.rng.below(5) {
            0 => $f($c, Tr::<track::A4, 0>::new),
            1 => $f($c, Tr::<A16, 3>::new),
            2 => $f($c, Tr::<A64, 70>::new),
            3 => $f($c, Z::<track::A1>::new),
            _ => $f($c, Z::<A64>::new),
        }
    };
}

fn main() {
    let mut m = Mon::start("C13");
    let _ = Alive::default();
    m.family("dynamic", 60_000, 260, |c| payload!(c, dynamic));
    m.family("slices", 30_000, 130, |c| payload!(c, slices));
    m.family("functions", 20_000, 90, |c| payload!(c, functions));
    m.family("used", 10_000, 50, |c| payload!(c, used));
    m.family("threads", 500, 16, threads);
    m.finish();
}
