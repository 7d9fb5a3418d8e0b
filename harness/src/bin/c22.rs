//! C22: safe programs over all crates.
//!
//! Nothing in this file is unsafe. Memory from every source is handed to every consumer, in turn and nested, with panics
//! and forgotten objects in between. The values own heap memory; what is wrong shows as a wrong value, a destructor run
//! twice or never, or as a report of the sanitizer or of Miri.
#![forbid(unsafe_code)]
use exit_stack::ExitStack;
use fill::Fill;
use harness::*;
use static_alloc::leaked::{Alloca, LeakBox};
use static_alloc::unsync::{self, Chain, MemBump};
use static_alloc::Bump;
use std::any::Any;
use std::fmt::{self, Debug};
use std::marker::PhantomData;
use std::mem::{forget, swap, MaybeUninit};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::rc::{Rc, Weak};
use without_alloc::uninit::UninitView;
use without_alloc::{Box as WBox, FixedVec, Uninit};

// ---------------------------------------------------------------- values

struct State {
    n: u64,
    dead: AtomicU32,
    /// It was forgotten; its destructor need not run.
    forgotten: AtomicBool,
}

struct Cx {
    rng: Rng,
    made: Vec<Arc<State>>,
    counts: std::collections::BTreeMap<&'static str, u64>,
    steps: usize,
    sig: u64,
    threads: bool,
}

struct Planned;

impl Cx {
    fn new(rng: Rng, steps: usize) -> Cx {
        Cx { rng, made: vec![], counts: Default::default(), steps, sig: 0, threads: false }
    }
    fn count(&mut self, what: &'static str) {
        *self.counts.entry(what).or_insert(0) += 1;
        self.sig = mix(self.sig ^ hash_str(what));
    }
    fn below(&mut self, n: usize) -> usize {
        self.rng.below(n)
    }
    /// One more step of the program; false at its end.
    fn go(&mut self) -> bool {
        if self.steps == 0 {
            return false;
        }
        self.steps -= 1;
        if self.rng.chance(1, 150) {
            self.count("panics");
            std::panic::panic_any(Planned);
        }
        true
    }
    fn state(&mut self) -> Arc<State> {
        let s = Arc::new(State { n: self.rng.u64(), dead: AtomicU32::new(0), forgotten: AtomicBool::new(false) });
        self.made.push(s.clone());
        s
    }
    /// Every value was destroyed once, save the forgotten ones.
    fn check_made(&self) {
        for s in &self.made {
            let (d, f) = (s.dead.load(Relaxed), s.forgotten.load(Relaxed));
            ck!(d == 1 || f && d == 0, "a value was destroyed {} times (forgotten: {})", d, f);
        }
    }
}

/// Let a planned panic end here.
fn guarded(cx: &mut Cx, f: impl FnOnce(&mut Cx)) {
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(cx))) {
        if !e.is::<Planned>() {
            resume_unwind(e);
        }
        cx.count("panics caught");
    }
}

trait P: Any + Debug + Send + Sync {
    fn make(cx: &mut Cx) -> Self
    where
        Self: Sized;
    fn check(&self);
    fn forget(&self);
    fn mutate(&mut self, cx: &mut Cx);
}

#[repr(C)]
struct Val<A: Copy + Send + Sync + 'static, const N: usize> {
    align: [A; 0],
    heap: Box<u64>,
    pad: [u8; N],
    state: Arc<State>,
    text: String,
}

impl<A: Copy + Send + Sync + 'static, const N: usize> Val<A, N> {
    fn fill(&mut self) {
        *self.heap = mix(self.state.n);
        self.pad = [self.state.n as u8; N];
        self.text = self.state.n.to_string();
    }
}

impl<A: Copy + Send + Sync + 'static, const N: usize> P for Val<A, N> {
    fn make(cx: &mut Cx) -> Self {
        let mut v = Val { align: [], heap: Box::new(0), pad: [0; N], state: cx.state(), text: String::new() };
        v.fill();
        v
    }
    fn check(&self) {
        let n = self.state.n;
        ck_eq!(*self.heap, mix(n), "contents of a value");
        ck!(self.pad == [n as u8; N] && self.text == n.to_string(), "contents of a value");
        ck_eq!(self.state.dead.load(Relaxed), 0, "destructions of a live value");
        ck_eq!(self as *const Self as usize % std::mem::align_of::<Self>(), 0, "alignment of a value");
    }
    fn forget(&self) {
        self.state.forgotten.store(true, Relaxed);
    }
    fn mutate(&mut self, cx: &mut Cx) {
        match cx.below(3) {
            0 => *self = Self::make(cx),
            1 => {
                let mut other = Self::make(cx);
                swap(self, &mut other);
                other.check();
            }
            _ => self.fill(),
        }
    }
}

impl<A: Copy + Send + Sync + 'static, const N: usize> Debug for Val<A, N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.check();
        write!(f, "{}", self.text)
    }
}

impl<A: Copy + Send + Sync + 'static, const N: usize> Drop for Val<A, N> {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            self.check();
        }
        self.state.dead.fetch_add(1, Relaxed);
    }
}

#[derive(Clone, Copy)]
#[repr(align(1))]
struct A1;
#[derive(Clone, Copy)]
#[repr(align(16))]
struct A16;
#[derive(Clone, Copy)]
#[repr(align(64))]
struct A64;

type Small = Val<A1, 0>;
type Odd = Val<A1, 13>;
type Al16 = Val<A16, 8>;
type Al64 = Val<A64, 0>;

/// A zero-sized value of which only destructions can be counted.
mod zst {
    use super::*;
    thread_local! {
        pub static ZSTS: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((0, 0)) };
    }
    pub struct Zero([A16; 0], PhantomData<Rc<'static, u8>>);
    impl Zero {
        pub fn make() -> Zero {
            ZSTS.with(|z| z.set((z.get().0 + 1, z.get().1)));
            Zero([], PhantomData)
        }
        pub fn forget(&self) {
            ZSTS.with(|z| z.set((z.get().0, z.get().1 + 1)));
        }
    }
    impl Drop for Zero {
        fn drop(&mut self) {
            ck_eq!(self as *const Self as usize % 16, 0, "alignment of a zero-sized value");
            ZSTS.with(|z| z.set((z.get().0 - 1, z.get().1)));
        }
    }
    impl Debug for Zero {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("Zero")
        }
    }
}

/// Anything that lives in memory of lifetime `'a`.
trait Obj<'a> {
    fn check(&self);
    /// It is about to be forgotten.
    fn forgotten(&self);
    /// Do something with it; what comes out lives on.
    fn act(self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>);
    fn name(&self) -> &'static str;
}
type O<'a> = Box<dyn Obj<'a> + 'a>;

fn put<'a>(out: &mut Vec<O<'a>>, o: impl Obj<'a> + 'a) {
    out.push(Box::new(o));
}

// ---------------------------------------------------------------- without-alloc objects

struct OBox<'a, T: P>(WBox<'a, T>);
impl<'a, T: P> Obj<'a> for OBox<'a, T> {
    fn name(&self) -> &'static str {
        "box"
    }
    fn check(&self) {
        self.0.check()
    }
    fn forgotten(&self) {
        self.0.forget()
    }
    fn act(mut self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        match cx.below(8) {
            0 => {
                let (v, mem) = WBox::take(self.0);
                v.check();
                cx.count("box taken");
                put(out, ORegion(mem.as_memory()));
            }
            1 => {
                // Empty and refill in place.
                let (v, mem) = WBox::take(self.0);
                drop(v);
                put(out, OBox(mem.into_box(T::make(cx))));
                cx.count("box refilled");
            }
            2 => {
                self.0.forget();
                cx.count("box leaked");
                put(out, ORef(WBox::leak(self.0)));
            }
            3 => {
                use unsize_reg::{CoerceUnsize, Coercion};
                cx.count("box unsized");
                put(out, ODyn(self.0.unsize(Coercion::to_debug())));
            }
            4 => {
                use unsize_reg::{CoerceUnsize, Coercion};
                cx.count("box made any");
                put(out, OAny(self.0.unsize(Coercion::to_any()), PhantomData::<fn() -> T>));
            }
            5 => {
                self.0.forget();
                cx.count("box made raw");
                put(out, ORegion(WBox::into_raw(self.0).as_memory()));
            }
            6 => {
                drop(self.0);
            }
            _ => {
                self.0.mutate(cx);
                out.push(self);
            }
        }
    }
}
impl<A: Copy + Send + Sync + 'static, const N: usize> PartialEq for Val<A, N> {
    fn eq(&self, o: &Self) -> bool {
        self.check();
        o.check();
        self.state.n == o.state.n
    }
}

struct ODyn<'a>(WBox<'a, dyn Debug + 'a>);
impl<'a> Obj<'a> for ODyn<'a> {
    fn name(&self) -> &'static str {
        "dyn box"
    }
    fn check(&self) {
        std::hint::black_box(format!("{:?}", &*self.0));
    }
    fn forgotten(&self) {
        unreachable!("not forgotten")
    }
    fn act(self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        if cx.rng.chance(1, 3) {
            cx.count("dyn box dropped");
        } else {
            out.push(self);
        }
    }
}

struct OAny<'a, T: P>(WBox<'a, dyn Any>, PhantomData<fn() -> T>);
impl<'a, T: P> Obj<'a> for OAny<'a, T> {
    fn name(&self) -> &'static str {
        "any box"
    }
    fn check(&self) {
        ck!(self.0.downcast_ref::<u8>().is_none(), "an Any of another type");
        match self.0.downcast_ref::<T>() {
            Some(v) => v.check(),
            None => fail!("the Any is not of its type"),
        }
    }
    fn forgotten(&self) {
        self.0.downcast_ref::<T>().unwrap().forget()
    }
    fn act(mut self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        self.0.downcast_mut::<T>().unwrap().mutate(cx);
        if cx.rng.chance(2, 3) {
            out.push(self);
        }
    }
}

struct ORef<'a, T: P>(&'a mut T);
impl<'a, T: P> Obj<'a> for ORef<'a, T> {
    fn name(&self) -> &'static str {
        "leaked"
    }
    fn check(&self) {
        self.0.check()
    }
    fn forgotten(&self) {
        self.0.forget()
    }
    fn act(self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        let r = self.0;
        r.forget();
        match cx.below(4) {
            0 => {
                use unsize_ws::{CoerceUnsize, Coercion};
                let d: &'a mut (dyn Debug + 'a) = r.unsize(Coercion::to_debug());
                std::hint::black_box(format!("{:?}", d));
                cx.count("reference unsized");
            }
            1 => {
                // Put something in its place, take it back.
                let old = std::mem::replace(r, T::make(cx));
                old.check();
                r.forget();
                put(out, ORef(r));
            }
            2 => {
                let r: &'a [T] = std::slice::from_ref(r);
                r[0].check();
            }
            _ => {
                r.mutate(cx);
                r.forget();
                put(out, ORef(r));
            }
        }
    }
}

struct OVec<'a, T: P>(FixedVec<'a, T>);
impl<'a, T: P> Obj<'a> for OVec<'a, T> {
    fn name(&self) -> &'static str {
        "vec"
    }
    fn check(&self) {
        ck!(self.0.len() <= self.0.capacity(), "a vector longer than its capacity");
        self.0.iter().for_each(T::check);
    }
    fn forgotten(&self) {
        self.0.iter().for_each(T::forget)
    }
    fn act(mut self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        let v = &mut self.0;
        for _ in 0..cx.below(4) + 1 {
            let len = v.len();
            let (lo, hi) = {
                let (a, b) = (cx.below(len + 1), cx.below(len + 1));
                (a.min(b), a.max(b))
            };
            match cx.below(15) {
                0..=2 => {
                    let full = v.len() == v.capacity();
                    match v.push(T::make(cx)) {
                        Ok(()) => ck!(!full, "push beyond the capacity"),
                        Err(x) => x.check(),
                    }
                }
                3 => {
                    if let Some(x) = v.pop() {
                        x.check();
                    }
                }
                4 => {
                    let mut d = v.drain(lo..hi);
                    cx.count("vec drained");
                    for _ in 0..cx.below(4) {
                        match cx.below(4) {
                            0 => d.next().iter().for_each(T::check),
                            1 => d.next_back().iter().for_each(T::check),
                            2 => d.as_mut_slice().iter_mut().for_each(|x| x.mutate(cx)),
                            _ => d.as_slice().iter().for_each(T::check),
                        }
                    }
                    if cx.rng.chance(1, 6) {
                        cx.count("drain forgotten");
                        d.as_slice().iter().for_each(T::forget);
                        forget(d);
                        // Which ones are left is open.
                        for s in &cx.made {
                            if s.dead.load(Relaxed) == 0 {
                                s.forgotten.store(true, Relaxed);
                            }
                        }
                    }
                }
                5 => v.truncate(lo),
                6 => {
                    let n = cx.below(5);
                    let items: Vec<T> = (0..n).map(|_| T::make(cx)).collect();
                    let rest = v.fill(items);
                    rest.for_each(|x| x.check());
                    cx.count("vec filled");
                }
                7 => {
                    let mut low = cx.below(2);
                    let mut b = v.split_borrowed(lo);
                    cx.count("vec split for a while");
                    b.iter().for_each(T::check);
                    while low > 0 {
                        let _ = b.push(T::make(cx));
                        let _ = b.pop();
                        low -= 1;
                    }
                    if cx.rng.chance(1, 4) {
                        b.iter().for_each(T::forget);
                        forget(b);
                    }
                }
                8 => {
                    let tail = v.split_and_shrink_to(lo);
                    cx.count("vec split");
                    put(out, OVec(tail));
                }
                9 => {
                    let rest = v.shrink_to_fit();
                    cx.count("vec shrunk");
                    put(out, ORegion(rest));
                }
                10 => v.iter_mut().for_each(|x| x.mutate(cx)),
                11 => {
                    if len > 1 {
                        v.swap(lo.min(len - 1), cx.below(len));
                        v.as_mut_slice().reverse();
                    }
                }
                12 => {
                    // The iterator panics.
                    let mut n = cx.below(3);
                    let mut made: Vec<T> = (0..n).map(|_| T::make(cx)).collect();
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        v.fill(std::iter::from_fn(|| {
                            if n == 0 {
                                std::panic::panic_any(Planned)
                            }
                            n -= 1;
                            made.pop()
                        }))
                        .for_each(drop)
                    }));
                    if let Err(e) = r {
                        ck!(e.is::<Planned>(), "filling panicked: {}", last_panic());
                    }
                }
                13 => {
                    let mut more: Vec<T> = v.drain(..).collect();
                    more.iter().for_each(T::check);
                    more.truncate(3);
                    Extend::extend(v, more);
                }
                _ => v.clear(),
            }
            v.iter().for_each(T::check);
        }
        if cx.rng.chance(5, 6) {
            out.push(self);
        }
    }
}

struct ORc<'a, T: P>(Rc<'a, T>);
impl<'a, T: P> Obj<'a> for ORc<'a, T> {
    fn name(&self) -> &'static str {
        "rc"
    }
    fn check(&self) {
        ck!(Rc::strong_count(&self.0) >= 1 && Rc::weak_count(&self.0) >= 1, "counts of a live Rc");
        self.0.check()
    }
    fn forgotten(&self) {
        self.0.forget()
    }
    fn act(mut self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        match cx.below(7) {
            0 | 1 => {
                put(out, ORc(Rc::clone(&self.0)));
                out.push(self);
            }
            2 => {
                put(out, OWeak(Rc::downgrade(&self.0)));
                out.push(self);
            }
            3 => match Rc::into_raw(self.0) {
                Ok(mem) => {
                    // The value went with the handle, its destructor does not run.
                    cx.count("rc made raw");
                    for s in &cx.made {
                        if s.dead.load(Relaxed) == 0 {
                            s.forgotten.store(true, Relaxed);
                        }
                    }
                    put(out, ORegion(mem.as_memory()));
                }
                Err(rc) => put(out, ORc(rc)),
            },
            4 => match Rc::try_unwrap(self.0) {
                Ok((v, weak)) => {
                    v.check();
                    cx.count("rc unwrapped");
                    put(out, OWeak(weak));
                }
                Err(rc) => put(out, ORc(rc)),
            },
            5 => {
                if let Some(v) = Rc::get_mut(&mut self.0) {
                    v.mutate(cx);
                    cx.count("rc mutated");
                }
                out.push(self);
            }
            _ => (),
        }
    }
}

struct OWeak<'a, T: P>(Weak<'a, T>);
impl<'a, T: P> Obj<'a> for OWeak<'a, T> {
    fn name(&self) -> &'static str {
        "weak"
    }
    fn check(&self) {
        if let Some(v) = self.0.upgrade() {
            v.check()
        }
    }
    fn forgotten(&self) {}
    fn act(self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        match cx.below(6) {
            0 | 1 => match self.0.try_unwrap() {
                Ok(mem) => {
                    cx.count("rc memory recovered");
                    put(out, ORegion(mem));
                }
                Err(weak) => put(out, OWeak(weak)),
            },
            2 => {
                if let Some(rc) = self.0.upgrade() {
                    put(out, ORc(rc));
                }
                out.push(self);
            }
            3 => {
                put(out, OWeak(self.0.clone()));
                out.push(self);
            }
            4 => (),
            _ => out.push(self),
        }
    }
}

/// Plain memory.
struct ORegion<'a>(Uninit<'a, ()>);
impl<'a> Obj<'a> for ORegion<'a> {
    fn name(&self) -> &'static str {
        "region"
    }
    fn check(&self) {}
    fn forgotten(&self) {}
    fn act(self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        match cx.below(5) {
            0 => of_region::<Small>(self.0, cx, out),
            1 => of_region::<Odd>(self.0, cx, out),
            2 => of_region::<Al16>(self.0, cx, out),
            3 => of_region::<Al64>(self.0, cx, out),
            _ => {
                let mem = into_slice(self.0);
                arena(cx, mem);
                put(out, ORegion(Uninit::from_maybe_uninit_slice(mem).as_memory()));
            }
        }
    }
}

/// All bytes of a region.
fn into_slice<'a>(mem: Uninit<'a, ()>) -> &'a mut [MaybeUninit<u8>] {
    match mem.cast_slice::<u8>() {
        Ok(s) => s.into_maybe_uninit_slice(),
        Err(_) => fail!("any memory is fine for bytes"),
    }
}

fn of_region<'a, T: P>(mut mem: Uninit<'a, ()>, cx: &mut Cx, out: &mut Vec<O<'a>>)
where
    T: PartialEq,
{
    let cap = mem.size();
    match cx.below(11) {
        0 => {
            if let Some(u) = mem.split_cast::<T>() {
                cx.count("region for a box");
                put(out, OBox(u.into_box(T::make(cx))));
            }
            put(out, ORegion(mem));
        }
        1 => match mem.cast::<T>() {
            Ok(mut u) => {
                let rest = u.split_to_fit();
                put(out, ORegion(rest));
                cx.count("region for a box");
                put(out, OBox(WBox::new(T::make(cx), u)));
            }
            Err(m) => put(out, ORegion(m)),
        },
        2 => {
            if let Some(mut s) = mem.split_slice::<T>() {
                let at = cx.below(s.capacity() + 2);
                if let Some(tail) = s.split_at(at) {
                    put(out, OVec(FixedVec::new(tail)));
                }
                cx.count("region for a vec");
                put(out, OVec(FixedVec::new(s)));
            }
            put(out, ORegion(mem));
        }
        3 => {
            put(out, OVec(FixedVec::<T>::from_unaligned(mem)));
            cx.count("region for an unaligned vec");
        }
        4 | 5 => {
            if let Some(m) = mem.split_layout(Rc::<T>::layout()) {
                cx.count("region for an rc");
                put(out, ORc(Rc::new(T::make(cx), m)));
            }
            put(out, ORegion(mem));
        }
        6 => {
            let at = cx.below(cap + 2);
            if let Some(tail) = mem.split_at_byte(at) {
                ck_eq!(tail.size() + mem.size(), cap, "bytes of a split region");
                put(out, ORegion(tail));
            }
            put(out, ORegion(mem));
        }
        7 => {
            // Look at it, borrow it, let the borrow be used.
            {
                let v: UninitView<'_, ()> = mem.borrow();
                if let Ok(s) = v.cast_slice::<u8>() {
                    ck_eq!(s.into_maybe_uninit_slice().len(), cap, "bytes seen through a view");
                }
                let mut b = mem.borrow_mut();
                if let Some(u) = b.split_cast::<T>() {
                    let bx = u.into_box(T::make(cx));
                    cx.count("region borrowed for a box");
                    bx.check();
                }
            }
            put(out, ORegion(mem));
        }
        8 => match mem.cast_slice::<T>() {
            Ok(mut s) => {
                if let Some(u) = s.split_first() {
                    cx.count("first of a slice");
                    let r = u.init(T::make(cx));
                    r.forget();
                    put(out, ORef(r));
                }
                if let Some(u) = s.split_last() {
                    cx.count("last of a slice");
                    put(out, OBox(u.into_box(T::make(cx))));
                }
                let rest = s.shrink_to_fit();
                put(out, ORegion(rest));
                put(out, OVec(FixedVec::new(s)));
            }
            Err(m) => put(out, ORegion(m)),
        },
        9 => match mem.cast_slice::<T>() {
            Ok(s) => {
                let s: &'a mut [MaybeUninit<T>] = s.into_maybe_uninit_slice();
                let mut boxes: Vec<LeakBox<'a, T>> = vec![];
                for m in s {
                    cx.count("leak box of a slice element");
                    boxes.push(LeakBox::write(LeakBox::from(m), T::make(cx)));
                    if boxes.len() > 4 {
                        break;
                    }
                }
                out.extend(boxes.into_iter().map(|b| Box::new(OLeak(b)) as O<'a>));
            }
            Err(m) => put(out, ORegion(m)),
        },
        _ => {
            if let Some(u) = mem.split_cast::<T>() {
                let m: &'a mut MaybeUninit<T> = u.into_maybe_uninit();
                cx.count("region initialised by hand");
                let r = m.write(T::make(cx));
                // The box does not own it in the end, unless it is taken out of it.
                r.forget();
                put(out, ORef(r));
            }
            put(out, ORegion(mem));
        }
    }
}

// ---------------------------------------------------------------- static-alloc objects

struct OLeak<'a, T: P>(LeakBox<'a, T>);
impl<'a, T: P> Obj<'a> for OLeak<'a, T> {
    fn name(&self) -> &'static str {
        "leak box"
    }
    fn check(&self) {
        self.0.check()
    }
    fn forgotten(&self) {
        self.0.forget()
    }
    fn act(mut self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        match cx.below(6) {
            0 => {
                let v = LeakBox::take(self.0);
                v.check();
                cx.count("leak box taken");
            }
            1 => {
                self.0.forget();
                cx.count("leak box leaked");
                put(out, ORef(LeakBox::leak(self.0)));
            }
            2 => {
                std::hint::black_box(format!("{:?} {:p}", self.0, self.0));
                self.0.as_mut().mutate(cx);
                out.push(self);
            }
            3 => (),
            4 => {
                // Destroy the value where it is, before the box goes: nothing safe can, only replace it.
                let v = T::make(cx);
                *self.0 = v;
                out.push(self);
            }
            _ => out.push(self),
        }
    }
}

/// A slice in memory, as boxes.
struct OSlice<'a, T: P>(LeakBox<'a, [MaybeUninit<T>]>);
impl<'a, T: P> Obj<'a> for OSlice<'a, T> {
    fn name(&self) -> &'static str {
        "array"
    }
    fn check(&self) {}
    fn forgotten(&self) {}
    fn act(self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        let s: &'a mut [MaybeUninit<T>] = LeakBox::leak(self.0);
        match cx.below(3) {
            0 => put(out, OVec(FixedVec::new(Uninit::from_maybe_uninit_slice(s)))),
            1 => put(out, ORegion(Uninit::from(s).as_memory())),
            _ => {
                let mut it = s.iter_mut();
                if let Some(m) = it.next() {
                    cx.count("leak box of an array element");
                    put(out, OLeak(LeakBox::write(LeakBox::from(m), T::make(cx))));
                }
                put(out, OVec(FixedVec::new(Uninit::from(it.into_slice()))));
            }
        }
    }
}

/// A value pinned for as long as the stack.
struct OPin<'a, T: P>(Pin<&'a mut T>, usize);
impl<'a, T: P> Obj<'a> for OPin<'a, T> {
    fn name(&self) -> &'static str {
        "pinned"
    }
    fn check(&self) {
        ck_eq!(&*self.0 as *const T as usize, self.1, "address of a pinned value");
        self.0.check()
    }
    fn forgotten(&self) {}
    fn act(mut self: Box<Self>, cx: &mut Cx, out: &mut Vec<O<'a>>) {
        let v = T::make(cx);
        self.0.set(v);
        if cx.rng.chance(3, 4) {
            out.push(self);
        }
    }
}

// ---------------------------------------------------------------- programs

/// Use objects from a source until the program is at its end.
fn drive<'a>(cx: &mut Cx, mut objs: Vec<O<'a>>, src: &dyn Fn(&mut Cx, &mut Vec<O<'a>>)) {
    let n = cx.below(if MIRI { 14 } else { 40 }) + 2;
    for _ in 0..n {
        if !cx.go() {
            break;
        }
        if objs.is_empty() || cx.rng.chance(1, 4) {
            src(cx, &mut objs);
        }
        if objs.is_empty() {
            continue;
        }
        let i = cx.below(objs.len());
        let o = objs.swap_remove(i);
        cx.count(o.name());
        match cx.below(24) {
            0 => drop(o),
            1 => {
                // What is forgotten may stay, or be destroyed by an object that shares it.
                if o.name() != "dyn box" {
                    cx.count("forgotten");
                    o.forgotten();
                    forget(o);
                }
            }
            _ => o.act(cx, &mut objs),
        }
        if objs.len() > 24 {
            let at = cx.below(24);
            objs.truncate(at);
        }
        objs.iter().for_each(|o| o.check());
        cx.sig = mix(cx.sig ^ objs.len() as u64);
    }
    // In any order.
    while !objs.is_empty() {
        let i = cx.below(objs.len());
        objs.swap_remove(i);
    }
}

/// Borrowed memory is used for something.
fn arena(cx: &mut Cx, mem: &mut [MaybeUninit<u8>]) {
    if !cx.go() {
        return;
    }
    guarded(cx, |cx| match cx.below(4) {
        0 | 1 => {
            cx.count("arena: region");
            drive(cx, vec![Box::new(ORegion(Uninit::from_maybe_uninit_slice(mem).as_memory()))], &|_, _| ());
        }
        2 => {
            let Ok(mut bump) = MemBump::from_mem(mem) else { return cx.count("arena: too small for a bump") };
            cx.count("arena: bump");
            mem_bump(cx, &mut bump);
            if cx.rng.chance(1, 2) {
                // What is left of it, or with the bump in another box.
                let rest: &mut [MaybeUninit<u8>] = MemBump::into_mem(bump);
                cx.count("arena: used part of a bump");
                arena(cx, rest);
            }
        }
        _ => {
            let at = cx.below(mem.len() + 1);
            let (a, b) = mem.split_at_mut(at);
            cx.count("arena: split");
            arena(cx, a);
            arena(cx, b);
        }
    });
}

fn boxed_of<'b, T: P + PartialEq>(bump: &'b MemBump, cx: &mut Cx, out: &mut Vec<O<'b>>) {
    match cx.below(5) {
        0 | 1 | 2 => {
            if let Ok(b) = bump.bump_box::<T>() {
                cx.count("bump box");
                put(out, OLeak(LeakBox::write(b, T::make(cx))));
            }
        }
        3 => {
            let n = cx.below(6);
            if let Ok(b) = bump.bump_array::<T>(n) {
                ck_eq!(b.len(), n, "length of an array");
                put(out, OSlice(b));
            }
        }
        _ => {
            let n = cx.below(300);
            if let Ok(b) = bump.bump_array::<u8>(n) {
                put(out, ORegion(Uninit::from(LeakBox::leak(b)).as_memory()));
            }
        }
    }
}

fn mem_bump(cx: &mut Cx, bump: &mut MemBump) {
    for _ in 0..cx.below(3) + 1 {
        {
            let bump = &*bump;
            guarded(cx, |cx| {
                drive(cx, vec![], &|cx, out| match cx.below(4) {
                    0 => boxed_of::<Small>(bump, cx, out),
                    1 => boxed_of::<Odd>(bump, cx, out),
                    2 => boxed_of::<Al16>(bump, cx, out),
                    _ => boxed_of::<Al64>(bump, cx, out),
                })
            });
        }
        bump.reset();
        cx.count("bump reset");
    }
}

fn alloc_of<'b, T: P + PartialEq, M>(bump: &'b Bump<M>, cx: &mut Cx, out: &mut Vec<O<'b>>) {
    match cx.below(9) {
        0 => {
            if let Some(b) = bump.leak_box(T::make(cx)) {
                cx.count("leak box of a Bump");
                put(out, OLeak(b));
            }
        }
        1 => match bump.leak(T::make(cx)) {
            Ok(r) => {
                r.forget();
                put(out, ORef(r));
            }
            Err(e) => e.into_inner().check(),
        },
        2 => {
            if let Some(b) = bump.boxed(T::make(cx)) {
                cx.count("box of a Bump");
                put(out, OBox(b));
            }
        }
        3 => {
            let n = cx.below(7);
            if let Some(v) = bump.fixed_vec::<T>(n) {
                cx.count("vec of a Bump");
                put(out, OVec(v));
            }
        }
        4 => {
            if let Some(rc) = bump.rc(T::make(cx)) {
                cx.count("rc of a Bump");
                put(out, ORc(rc));
            }
        }
        5 => {
            let text: String = (0..cx.below(9)).map(|i| ['a', 'ß', '∀', '🦀'][i % 4]).collect();
            if let Some(s) = bump.copy_str(&text) {
                ck_eq!(s, text, "copy of a text");
            }
            let nums: Vec<u32> = (0..cx.below(9) as u32).collect();
            if let Some(s) = bump.copy_slice(&nums) {
                ck_eq!(s, &nums[..], "copy of a slice");
                s.reverse();
            }
        }
        6 => {
            if let Some(a) = bump.alloc_t::<T>() {
                cx.count("typed region of a Bump");
                put(out, ORegion(a.uninit.as_memory()));
            }
        }
        7 => {
            let l = std::alloc::Layout::from_size_align(cx.below(400) + 1, 1 << cx.below(6)).unwrap();
            if let Some(a) = bump.alloc_layout(l.try_into().unwrap()) {
                cx.count("region of a Bump");
                put(out, ORegion(a.uninit));
            }
        }
        _ => {
            let lvl = bump.level();
            if let Ok(b) = bump.leak_box_at(T::make(cx), lvl) {
                put(out, OLeak(b));
            }
        }
    }
}

fn of_bump<'b, M>(bump: &'b Bump<M>, cx: &mut Cx, out: &mut Vec<O<'b>>) {
    match cx.below(4) {
        0 => alloc_of::<Small, M>(bump, cx, out),
        1 => alloc_of::<Odd, M>(bump, cx, out),
        2 => alloc_of::<Al16, M>(bump, cx, out),
        _ => alloc_of::<Al64, M>(bump, cx, out),
    }
}

fn sync_bump<M>(cx: &mut Cx, bump: &mut Bump<M>) {
    for _ in 0..cx.below(3) + 1 {
        {
            let bump = &*bump;
            guarded(cx, |cx| drive(cx, vec![], &|cx, out| of_bump(bump, cx, out)));
        }
        bump.reset();
        cx.count("bump reset");
    }
}

fn chained(cx: &mut Cx) {
    let n = cx.below(300) + 1;
    let Ok(chain) = Chain::new(n) else { fail!("no memory for a chain") };
    cx.count("chain");
    let chain = &chain;
    fn one<'b, T: P + PartialEq>(chain: &'b Chain, cx: &mut Cx, out: &mut Vec<O<'b>>) {
        match chain.bump_box::<T>() {
            Ok(b) => {
                cx.count("box of a chain");
                put(out, OLeak(LeakBox::write(b, T::make(cx))));
            }
            Err(_) => {
                let other = Chain::new(cx.below(900)).unwrap_or_else(|_| fail!("no memory for a chain"));
                if cx.rng.chance(1, 3) {
                    // All but its newest block are given back at once.
                    other.chain(Chain::new(cx.below(90)).unwrap_or_else(|_| fail!("no memory for a chain")));
                }
                cx.count("chained");
                chain.chain(other);
            }
        }
    }
    drive(cx, vec![], &|cx, out| match cx.below(4) {
        0 => one::<Small>(chain, cx, out),
        1 => one::<Odd>(chain, cx, out),
        2 => one::<Al16>(chain, cx, out),
        _ => one::<Al64>(chain, cx, out),
    });
}

fn exits<M: 'static>(cx: &mut Cx, mut stack: Pin<&mut ExitStack<M>>, mem: impl Fn() -> M) {
    for _ in 0..cx.below(4) + 1 {
        {
            let stack = stack.as_ref();
            fn one<'s, T: P, M: 'static>(stack: Pin<&'s ExitStack<M>>, cx: &mut Cx, out: &mut Vec<O<'s>>) {
                if let Some(slot) = stack.slot::<T>() {
                    if cx.rng.chance(1, 8) {
                        return cx.count("slot given up");
                    }
                    let p = slot.pin(T::make(cx));
                    cx.count("pinned");
                    let at = &*p as *const T as usize;
                    put(out, OPin(p, at));
                }
            }
            guarded(cx, |cx| {
                drive(cx, vec![], &|cx, out| match cx.below(4) {
                    0 => one::<Small, M>(stack, cx, out),
                    1 => one::<Odd, M>(stack, cx, out),
                    2 => one::<Al16, M>(stack, cx, out),
                    _ => {
                        // Memory pinned down, to be used for something.
                        if let Some(slot) = stack.slot::<[MaybeUninit<u8>; 160]>() {
                            let p = slot.pin([MaybeUninit::uninit(); 160]).get_mut();
                            cx.count("pinned memory");
                            put(out, ORegion(Uninit::from_maybe_uninit_slice(&mut p[..]).as_memory()));
                        }
                    }
                })
            });
        }
        match cx.below(3) {
            0 => {
                stack.as_mut().pop_all();
                cx.count("pop_all");
            }
            1 => {
                stack.as_mut().set(mem());
                cx.count("set");
            }
            _ => (),
        }
    }
}

/// Filling containers outside of any region.
fn fills(cx: &mut Cx) {
    let n = cx.below(6);
    let items: Vec<Odd> = (0..n).map(|_| Odd::make(cx)).collect();
    cx.count("fills");
    match cx.below(5) {
        0 => {
            let mut o: Option<Odd> = None;
            let mut rest = o.fill_and_keep_tail(items);
            ck_eq!(o.is_some(), n > 0, "an Option was filled");
            o.iter().for_each(|x| x.check());
            ck_eq!(rest.next().is_some(), n > 1, "the rest");
        }
        1 => {
            let mut v: Vec<Odd> = Vec::with_capacity(cx.below(5));
            let cap = v.capacity();
            Fill::fill(&mut v, items);
            ck_eq!(v.len(), n.min(cap), "a vector was filled up to its capacity");
            v.iter().for_each(|x| x.check());
        }
        2 => {
            let mut store: Vec<Odd> = (0..3).map(|_| Odd::make(cx)).collect();
            let c = store.iter_mut().fill_count(items);
            ck_eq!(c, n.min(3), "elements filled");
            store.iter().for_each(|x| x.check());
        }
        3 => {
            let mut r: Result<Option<Odd>, u8> = Ok(None);
            let mut input: Vec<Result<Odd, u8>> = items.into_iter().map(Ok).collect();
            if cx.rng.chance(1, 2) {
                input.insert(cx.below(n + 1), Err(3));
            }
            Fill::fill(&mut r, input);
            if let Ok(Some(x)) = &r {
                x.check();
            }
        }
        _ => {
            let mut d: std::collections::VecDeque<Odd> = std::collections::VecDeque::with_capacity(3);
            Fill::fill(&mut d, items);
            d.iter().for_each(|x| x.check());
        }
    }
}

/// The zero-sized values in every container.
fn zeros(cx: &mut Cx) {
    use zst::Zero;
    cx.count("zero-sized");
    let bump: Bump<[u64; 3]> = Bump::uninit();
    let local: unsync::Bump<[u64; 3]> = unsync::Bump::uninit();
    let stack = Box::pin(ExitStack::<[u64; 12]>::new());
    for _ in 0..cx.below(12) + 1 {
        match cx.below(9) {
            0 => drop(bump.leak_box(Zero::make())),
            1 => drop(bump.boxed(Zero::make()).map(|b| WBox::take(b).0)),
            2 => {
                let mut v = FixedVec::new(Uninit::<[Zero]>::empty());
                for _ in 0..cx.below(5) {
                    ck!(v.push(Zero::make()).is_ok(), "no end of zero-sized values");
                }
                drop(v.drain(..v.len() / 2));
            }
            3 => {
                if let Ok(b) = local.bump_box::<Zero>() {
                    drop(LeakBox::write(b, Zero::make()));
                }
            }
            4 => {
                if let Some(s) = stack.as_ref().slot() {
                    s.pin(Zero::make());
                }
            }
            5 => {
                if let Some(rc) = bump.rc(Zero::make()) {
                    let w = Rc::downgrade(&rc);
                    drop(rc.clone());
                    drop(rc);
                    ck!(w.upgrade().is_none(), "a dead value");
                }
            }
            6 => drop(Uninit::<Zero>::invent_for_zst().into_box(Zero::make())),
            7 => Alloca::<Zero>::new(cx.below(9)).unwrap().run(|s| {
                if let Some(m) = s.first_mut() {
                    drop(LeakBox::write(LeakBox::from(m), Zero::make()))
                }
            }),
            _ => {
                let z = LeakBox::leak(match bump.leak_box(Zero::make()) {
                    Some(z) => z,
                    None => fail!("nothing is needed for a zero-sized value"),
                });
                z.forget();
            }
        }
    }
}

#[repr(align(64))]
struct Page([MaybeUninit<u8>; 3000]);

/// One program; memory comes from a random place.
fn program(cx: &mut Cx) {
    while cx.go() {
        cx.count("programs");
        match cx.below(12) {
            0 => {
                let mut page = Page([MaybeUninit::uninit(); 3000]);
                let (lo, len) = (cx.below(70), cx.below(2900));
                arena(cx, &mut page.0[lo..lo + len]);
            }
            1 => {
                let mut page = vec![MaybeUninit::<u8>::uninit(); cx.below(3000)];
                arena(cx, &mut page);
            }
            2 => {
                let n = cx.below(3000);
                cx.count("alloca");
                Alloca::<u8>::new(n).unwrap().run(|s| arena(cx, s));
            }
            3 => {
                let n = cx.below(20);
                cx.count("alloca");
                Alloca::<Al64>::new(n).unwrap().run(|s| {
                    let first = vec![Box::new(ORegion(Uninit::from(s).as_memory())) as O<'_>];
                    drive(cx, first, &|_, _| ())
                });
            }
            4 => {
                let n = cx.below(2000) + 1;
                let mut bump = MemBump::new(n);
                cx.count("heap bump");
                mem_bump(cx, &mut bump);
            }
            5 => {
                let mut bump: unsync::Bump<[u64; 200]> = unsync::Bump::uninit();
                cx.count("local bump");
                mem_bump(cx, &mut bump);
            }
            6 => {
                let mut bump: Bump<[u64; 200]> = Bump::uninit();
                cx.count("atomic bump");
                sync_bump(cx, &mut bump);
            }
            7 => {
                let mut bump: Bump<Page> = Bump::new(Page([MaybeUninit::uninit(); 3000]));
                cx.count("atomic bump");
                sync_bump(cx, &mut bump);
            }
            8 => chained(cx),
            9 => {
                cx.count("exit stack");
                if cx.rng.chance(1, 2) {
                    let mut s = Box::pin(ExitStack::<[u64; 150]>::new());
                    exits(cx, s.as_mut(), || [7; 150]);
                } else {
                    let mut s = std::pin::pin!(ExitStack::<[u64; 150]>::new());
                    exits(cx, s.as_mut(), || [7; 150]);
                }
            }
            10 => fills(cx),
            _ => zeros(cx),
        }
    }
}

fn close(c: &mut Case, mut cx: Cx) {
    cx.check_made();
    let (live, forgotten) = zst::ZSTS.with(|z| z.replace((0, 0)));
    ck!(live >= 0 && live <= forgotten, "{} zero-sized values are alive, {} were forgotten", live, forgotten);
    c.obs(cx.sig);
    c.add("values", cx.made.len() as u64);
    for (k, n) in std::mem::take(&mut cx.counts) {
        c.add(k, n);
    }
    if cx.made.len() > 1 {
        c.nontrivial();
    }
}

fn soak(c: &mut Case) {
    zst::ZSTS.with(|z| z.set((0, 0)));
    let steps = c.rng.range(3, if MIRI { 60 } else { 300 });
    let mut cx = Cx::new(c.rng.fork(), steps);
    while cx.steps > 0 {
        guarded(&mut cx, program);
    }
    c.step(format!("{:?}", cx.counts));
    close(c, cx);
}

// ---------------------------------------------------------------- threads

static SHARED: Bump<[u64; 4000]> = Bump::uninit();

/// Threads on one Bump, with what each has for itself beside it; leaked references move between them.
fn threads(c: &mut Case) {
    zst::ZSTS.with(|z| z.set((0, 0)));
    let mut bump: Bump<[u64; 1200]> = Bump::uninit();
    let n = c.rng.range(2, if MIRI { 3 } else { 6 });
    for round in 0..c.rng.range(1, 2) {
        let pool: Mutex<Vec<Moved<'_>>> = Mutex::new(vec![]);
        let bump_ref = &bump;
        let pool_ref = &pool;
        let total = if MIRI { 30 } else { 150 };
        let jobs: Vec<Cx> = (0..n).map(|_| Cx::new(c.rng.fork(), total)).collect();
        let done: Vec<Cx> = std::thread::scope(|s| {
            let hs: Vec<_> = jobs
                .into_iter()
                .map(|mut cx| {
                    s.spawn(move || {
                        cx.threads = true;
                        while cx.steps > 0 {
                            guarded(&mut cx, |cx| match cx.below(8) {
                                0 => program_local(cx),
                                1..=3 => drive(cx, vec![], &|cx, out| of_bump(bump_ref, cx, out)),
                                4 => drive(cx, vec![], &|cx, out| of_bump(&SHARED, cx, out)),
                                5 => {
                                    // Give to the others.
                                    if let Ok(r) = bump_ref.leak(Odd::make(cx)) {
                                        r.forget();
                                        pool_ref.lock().unwrap().push(Moved::Odd(r));
                                    }
                                    if let Some(s) = bump_ref.copy_str("text for all") {
                                        pool_ref.lock().unwrap().push(Moved::Text(s));
                                    }
                                    if let Some(v) = bump_ref.copy_slice(&[3u64; 5]) {
                                        pool_ref.lock().unwrap().push(Moved::Nums(v));
                                    }
                                    cx.steps -= 1;
                                }
                                _ => {
                                    let got = pool_ref.lock().unwrap().pop();
                                    cx.steps -= 1;
                                    match got {
                                        Some(Moved::Odd(r)) => {
                                            cx.count("taken over from a thread");
                                            r.check();
                                            *r = Odd::make(cx);
                                            r.forget();
                                        }
                                        Some(Moved::Text(s)) => ck_eq!(s, "text for all", "text of another thread"),
                                        Some(Moved::Nums(v)) => {
                                            ck_eq!(v, &mut [3u64; 5], "numbers of another thread");
                                            v.fill(4);
                                        }
                                        None => (),
                                    }
                                }
                            });
                        }
                        let (live, forgotten) = zst::ZSTS.with(|z| z.replace((0, 0)));
                        ck!(live >= 0 && live <= forgotten, "{} zero-sized values are alive, {} were forgotten", live, forgotten);
                        cx
                    })
                })
                .collect();
            // A failure of a thread is a failure of the case.
            let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
            rs.into_iter().map(|r| r.unwrap_or_else(|e| resume_unwind(e))).collect()
        });
        for m in pool.into_inner().unwrap() {
            if let Moved::Odd(r) = m {
                r.check();
            }
        }
        for cx in done {
            close(c, cx);
        }
        bump.reset();
        c.step(format!("round {} of {} threads", round, n));
        c.count("threads rounds");
    }
}

enum Moved<'a> {
    Odd(&'a mut Odd),
    Text(&'a str),
    Nums(&'a mut [u64]),
}

fn program_local(cx: &mut Cx) {
    let keep = cx.steps;
    cx.steps = cx.steps.min(20);
    let used = cx.steps;
    guarded(cx, program);
    cx.steps = keep - used;
}

// ---------------------------------------------------------------- markers

struct Probe<T: ?Sized>(PhantomData<T>);
macro_rules! probe {
    ($tr:ident, $fun:ident, $bound:path) => {
        #[allow(dead_code)]
        trait $tr {
            fn $fun(&self) -> bool {
                false
            }
        }
        impl<T: ?Sized> $tr for Probe<T> {}
        impl<T: ?Sized + $bound> Probe<T> {
            fn $fun(&self) -> bool {
                true
            }
        }
    };
}
probe!(NotSend, is_send, Send);
probe!(NotSync, is_sync, Sync);
probe!(NotUnpin, is_unpin, Unpin);

fn markers(c: &mut Case) {
    c.step("markers");
    c.nontrivial();
    ck!(Probe::<u8>(PhantomData).is_send() && Probe::<u8>(PhantomData).is_sync() && Probe::<u8>(PhantomData).is_unpin(), "the probe does not work");
    ck!(!Probe::<*const u8>(PhantomData).is_send() && !Probe::<*const u8>(PhantomData).is_sync(), "the probe does not work");
    type Loc = std::cell::Cell<u8>;
    type Loc2 = std::rc::Rc<u8>;
    macro_rules! no {
        ($fun:ident: $($t:ty),* $(,)?) => { $(
            ck!(!Probe::<$t>(PhantomData).$fun(), "{} of {}", stringify!($fun), stringify!($t));
            c.count("markers absent");
        )* };
    }
    macro_rules! yes {
        ($fun:ident: $($t:ty),* $(,)?) => { $(
            ck!(Probe::<$t>(PhantomData).$fun(), "not {} of {}", stringify!($fun), stringify!($t));
            c.count("markers present");
        )* };
    }
    // Counted, or allocated from, without synchronisation.
    no!(is_send: Rc<'static, u8>, Weak<'static, u8>, Rc<'static, Mutex<u8>>);
    no!(is_sync: Rc<'static, u8>, Weak<'static, u8>, Chain, MemBump, unsync::Bump<[u64; 4]>, ExitStack<[u64; 4]>);
    // Owners of what must stay on its thread.
    no!(is_send: LeakBox<'static, Loc2>, WBox<'static, Loc2>, FixedVec<'static, Loc2>, &'static Loc, without_alloc::fixed_vec::Drain<'static, Loc2>,
        ExitStack<Loc2>, LeakBox<'static, MemBump>, &'static MemBump);
    no!(is_sync: LeakBox<'static, Loc>, WBox<'static, Loc>, FixedVec<'static, Loc>, without_alloc::fixed_vec::Drain<'static, Loc>);
    no!(is_unpin: ExitStack<[u64; 4]>, ExitStack<u8>);
    // Statics are shared.
    yes!(is_sync: Bump<[u64; 4]>, Bump<u8>, &'static Bump<[u64; 4]>);
    yes!(is_send: Bump<[u64; 4]>, &'static Bump<[u64; 4]>);
}

fn main() {
    let mut m = Mon::start("C22");
    m.family("markers", 1, 1, markers);
    m.family("soak", 40_000, 150, soak);
    m.family("threads", 800, 12, threads);
    m.finish();
}
