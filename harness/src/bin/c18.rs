//! C18: counts of without-alloc's Rc and Weak gate access to value and memory.
//!
//! All handles are wrapped; the wrappers keep a model of every group of handles, also when they are dropped by
//! the destructor of a value, by unwinding, or by drop glue.
use harness::track::{self, Alive, Tr, A16};
use harness::types::Tv;
use harness::*;
use std::cell::RefCell;
use std::mem::{forget, take, ManuallyDrop};
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::rc::{Rc, Weak};
use without_alloc::Uninit;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Val {
    Alive,
    /// The last strong handle is going, the destructor was not entered.
    Due,
    Destroying,
    /// Moved out, or destroyed completely.
    Gone,
    /// The handle was made raw; the value lives on in the raw memory.
    Raw,
}

#[derive(Clone, Debug)]
struct Group {
    strong: usize,
    weak: usize,
    val: Val,
    id: u32,
    at: usize,
    len: usize,
    panics: bool,
}

struct Region {
    mem: Uninit<'static, ()>,
    at: usize,
    len: usize,
}

struct World {
    groups: Vec<Group>,
    strong: Vec<S>,
    weak: Vec<W>,
    free: Vec<Region>,
    rng: Rng,
    planned: bool,
    /// How deep destructors are nested.
    depth: usize,
    counts: Vec<&'static str>,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World {
        groups: vec![], strong: vec![], weak: vec![], free: vec![], rng: Rng::new(0), planned: false, depth: 0, counts: vec![],
    });
}

fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|x| f(&mut x.borrow_mut()))
}
fn g<R>(gid: usize, f: impl FnOnce(&mut Group) -> R) -> R {
    w(|x| f(&mut x.groups[gid]))
}
fn count(what: &'static str) {
    w(|x| x.counts.push(what))
}

type Probe = Tr<A16, 8>;

/// The shared value. Its destructor uses handles, also to its own group.
struct V {
    gid: usize,
    probe: Probe,
    ws: RefCell<Vec<W>>,
    ss: RefCell<Vec<S>>,
    end: End,
}

/// Dropped last: from here on the value is completely gone.
struct End(usize);

impl Drop for End {
    fn drop(&mut self) {
        g(self.0, |g| match g.val {
            Val::Destroying => g.val = Val::Gone,
            // A value that was moved out belongs to whoever has it.
            Val::Gone => (),
            other => fail!("a value is gone without its destructor having run ({:?})", other),
        });
    }
}

impl Drop for V {
    fn drop(&mut self) {
        let gid = self.gid;
        let grp = g(gid, |g| g.clone());
        match grp.val {
            Val::Due => {
                ck_eq!(self as *const V as usize, grp.at, "address at which the value is destroyed");
                g(gid, |g| g.val = Val::Destroying);
            }
            Val::Gone => return,
            other => fail!("the value was destroyed while {:?}, {} strong handles", other, grp.strong),
        }
        self.probe.assert_live(grp.id);
        check_world();
        w(|x| x.depth += 1);
        let _up = OnDrop(|| w(|x| x.depth -= 1));
        let steps = w(|x| if x.depth > 3 { 0 } else { x.rng.below(4) });
        for _ in 0..steps {
            match w(|x| x.rng.below(8)) {
                0 | 1 => {
                    // Every weak handle of this group, inside or outside, is refused.
                    let h = take_weak_of(gid).or_else(|| self.ws.borrow_mut().pop());
                    if let Some(h) = h {
                        count("recovery tried in a destructor");
                        let own = h.gid == gid;
                        match h.try_unwrap() {
                            Some(_) => ck!(!own, "memory was handed out while its value was being destroyed"),
                            None => (),
                        }
                    }
                }
                2 => {
                    if let Some(h) = take_weak_of(gid) {
                        count("upgrade tried in a destructor");
                        h.upgrade();
                        w(|x| x.weak.push(h));
                    }
                }
                3 => {
                    if let Some(h) = take_weak_of(gid) {
                        let c = h.dup();
                        w(|x| x.weak.extend([h, c]));
                    }
                }
                4 => drop(take_weak_of(gid)),
                5 => self.ws.borrow_mut().clear(),
                6 => drop(self.ss.borrow_mut().pop()),
                _ => step(false),
            }
            check_world();
        }
        self.probe.assert_live(grp.id);
        if grp.panics {
            g(gid, |g| g.panics = false);
            if !std::thread::panicking() {
                w(|x| x.planned = true);
                count("panicking destructors");
                std::panic::panic_any("planned");
            }
        }
    }
}

fn take_weak_of(gid: usize) -> Option<W> {
    w(|x| {
        let i = x.weak.iter().position(|h| h.gid == gid)?;
        Some(x.weak.swap_remove(i))
    })
}

/// A strong handle.
struct S {
    h: ManuallyDrop<Rc<'static, V>>,
    gid: usize,
}
/// A weak handle.
struct W {
    h: ManuallyDrop<Weak<'static, V>>,
    gid: usize,
}

impl S {
    fn wrap(h: Rc<'static, V>, gid: usize) -> S {
        S { h: ManuallyDrop::new(h), gid }
    }
    fn open(self) -> (Rc<'static, V>, usize) {
        let mut me = ManuallyDrop::new(self);
        // SAFETY: the wrapper is not used again.
        (unsafe { ManuallyDrop::take(&mut me.h) }, me.gid)
    }
    fn check(&self, x: &World) {
        let g = &x.groups[self.gid];
        ck_eq!(Rc::strong_count(&self.h), g.strong, "strong count");
        ck_eq!(Rc::weak_count(&self.h), g.weak + 1, "weak count seen by a strong handle");
        ck_eq!(&**self.h as *const V as usize, g.at, "address of the value");
        self.h.probe.assert_live(g.id);
    }
}
impl W {
    fn wrap(h: Weak<'static, V>, gid: usize) -> W {
        W { h: ManuallyDrop::new(h), gid }
    }
    fn open(self) -> (Weak<'static, V>, usize) {
        let mut me = ManuallyDrop::new(self);
        // SAFETY: the wrapper is not used again.
        (unsafe { ManuallyDrop::take(&mut me.h) }, me.gid)
    }
    fn check(&self, x: &World) {
        let g = &x.groups[self.gid];
        ck_eq!(self.h.strong_count(), g.strong, "strong count seen by a weak handle");
        let n = self.h.weak_count();
        let held = g.weak + (g.strong > 0) as usize;
        // While the destructor runs the memory is still held for it.
        ck!(n == held || n == g.weak + 1 && matches!(g.val, Val::Due | Val::Destroying),
            "weak count: observed {}, expected {} ({:?})", n, held, g.val);
    }
    fn dup(&self) -> W {
        g(self.gid, |g| g.weak += 1);
        W::wrap(Weak::clone(&self.h), self.gid)
    }
    fn upgrade(&self) -> Option<S> {
        let alive = g(self.gid, |g| g.strong > 0);
        let r = self.h.upgrade();
        ck_eq!(r.is_some(), alive, "upgrade succeeds");
        let r = r?;
        g(self.gid, |g| g.strong += 1);
        Some(S::wrap(r, self.gid))
    }
    /// Try to get the memory back; on success it goes to the free regions.
    fn try_unwrap(self) -> Option<()> {
        let grp = g(self.gid, |g| g.clone());
        let expect = grp.strong == 0 && grp.weak == 1 && grp.val == Val::Gone;
        let (h, gid) = self.open();
        match h.try_unwrap() {
            Ok(mem) => {
                ck!(expect, "memory was handed out with {} strong and {} weak handles, value {:?}", grp.strong, grp.weak, grp.val);
                ck_eq!((mem.as_ptr() as usize, mem.byte_capacity()), (grp.at, grp.len), "the recovered region");
                g(gid, |g| g.weak = 0);
                recycle(mem);
                count("memory recovered");
                Some(())
            }
            Err(h) => {
                ck!(!expect, "memory was refused to the only remaining handle");
                w(|x| x.weak.push(W::wrap(h, gid)));
                count("memory refused");
                None
            }
        }
    }
}

fn recycle(mem: Uninit<'static, ()>) {
    let (at, len) = (mem.as_ptr() as usize, mem.byte_capacity());
    // SAFETY: all of it is ours now.
    unsafe { (mem.as_ptr() as *mut u8).write_bytes(0xEE, len) };
    w(|x| x.free.push(Region { mem, at, len }));
}

impl Drop for S {
    fn drop(&mut self) {
        let gid = self.gid;
        let last = g(gid, |g| {
            g.strong -= 1;
            if g.strong == 0 {
                ck_eq!(g.val, Val::Alive, "state of the value at its last strong handle");
                g.val = Val::Due;
            }
            g.strong == 0
        });
        // SAFETY: dropped once.
        let r = may_panic(|| unsafe { ManuallyDrop::drop(&mut self.h) });
        let val = g(gid, |g| g.val);
        if last {
            ck_eq!(val, Val::Gone, "state of the value after the last strong handle went");
            count("destroyed");
        } else {
            ck_eq!(val, Val::Alive, "state of the value while strong handles exist");
        }
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
}

impl Drop for W {
    fn drop(&mut self) {
        g(self.gid, |g| g.weak -= 1);
        // SAFETY: dropped once.
        unsafe { ManuallyDrop::drop(&mut self.h) };
    }
}

fn check_world() {
    w(|x| {
        let x = &*x;
        x.strong.iter().for_each(|s| s.check(x));
        x.weak.iter().for_each(|s| s.check(x));
    })
}

fn new_group() {
    let Some(mut r) = w(|x| x.free.pop()) else { return };
    let layout = Rc::<V>::layout();
    ck!(layout.size() >= std::mem::size_of::<V>() && layout.align() >= std::mem::align_of::<V>(), "layout of the memory");
    let fits = r.len >= layout.size() && r.at % layout.align() == 0;
    assert!(fits);
    let probe = Probe::new();
    let gid = w(|x| {
        x.groups.push(Group { strong: 1, weak: 0, val: Val::Alive, id: probe.id, at: r.at, len: r.len, panics: false });
        x.groups.len() - 1
    });
    let v = V { gid, probe, ws: RefCell::default(), ss: RefCell::default(), end: End(gid) };
    // Leave the rest of the region out sometimes.
    if w(|x| x.rng.chance(1, 4)) && r.len > layout.size() {
        let k = layout.size() + w(|x| x.rng.below(r.len - layout.size()));
        let _lost = r.mem.split_at_byte(k);
        g(gid, |g| g.len = k);
    }
    let h = Rc::new(v, r.mem);
    w(|x| x.strong.push(S::wrap(h, gid)));
    count("groups");
}

fn pick_strong() -> Option<S> {
    w(|x| {
        let n = x.strong.len();
        if n == 0 {
            return None;
        }
        let i = x.rng.below(n);
        Some(x.strong.swap_remove(i))
    })
}
fn pick_weak() -> Option<W> {
    w(|x| {
        let n = x.weak.len();
        if n == 0 {
            return None;
        }
        let i = x.rng.below(n);
        Some(x.weak.swap_remove(i))
    })
}
fn keep(s: S) {
    w(|x| x.strong.push(s))
}
fn keepw(s: W) {
    w(|x| x.weak.push(s))
}

/// One random operation. `outer`: not called from a destructor.
fn step(outer: bool) {
    let op = w(|x| x.rng.below(25));
    match op {
        0 | 1 => new_group(),
        2..=4 => {
            let Some(s) = pick_strong() else { return };
            g(s.gid, |g| g.strong += 1);
            let c = S::wrap(Rc::clone(&s.h), s.gid);
            w(|x| x.strong.extend([s, c]));
        }
        5..=7 => {
            let Some(s) = pick_strong() else { return };
            g(s.gid, |g| g.weak += 1);
            let c = W::wrap(Rc::downgrade(&s.h), s.gid);
            keep(s);
            keepw(c);
        }
        8 => {
            let Some(h) = pick_weak() else { return };
            let c = h.dup();
            w(|x| x.weak.extend([h, c]));
        }
        9 | 10 => {
            let Some(h) = pick_weak() else { return };
            match h.upgrade() {
                Some(s) => {
                    count("upgraded");
                    keep(s)
                }
                None => count("upgrade refused"),
            }
            keepw(h);
        }
        11 | 12 => drop(pick_strong()),
        13 => drop(pick_weak()),
        14 | 15 => {
            let Some(s) = pick_strong() else { return };
            let grp = g(s.gid, |g| g.clone());
            let (h, gid) = s.open();
            match Rc::try_unwrap(h) {
                Ok((v, weak)) => {
                    ck_eq!(grp.strong, 1, "strong handles of an unwrapped value");
                    g(gid, |g| {
                        g.strong = 0;
                        g.weak += 1;
                        g.val = Val::Gone;
                    });
                    v.probe.assert_live(grp.id);
                    keepw(W::wrap(weak, gid));
                    check_world();
                    count("unwrapped");
                    // Its handles and the probe go with it, once.
                    drop(v);
                    track::check_sane();
                }
                Err(h) => {
                    ck!(grp.strong != 1, "unwrap was refused to the only strong handle");
                    keep(S::wrap(h, gid));
                    count("unwrap refused");
                }
            }
        }
        16 | 17 => {
            let Some(s) = pick_strong() else { return };
            let grp = g(s.gid, |g| g.clone());
            let (h, gid) = s.open();
            match Rc::into_raw(h) {
                Ok(raw) => {
                    ck!(grp.strong == 1 && grp.weak == 0, "raw form given with {} strong and {} weak handles", grp.strong, grp.weak);
                    ck_eq!((raw.as_ptr() as usize, raw.byte_capacity()), (grp.at, grp.len), "the raw region");
                    // SAFETY: initialised.
                    unsafe { raw.as_ref().probe.assert_live(grp.id) };
                    count("raw");
                    if w(|x| x.rng.chance(2, 3)) {
                        // SAFETY: just taken.
                        keep(S::wrap(unsafe { Rc::from_raw(raw) }, gid));
                        count("resumed");
                    } else {
                        g(gid, |g| {
                            g.strong = 0;
                            g.val = Val::Raw;
                        });
                        // SAFETY: initialised, used as moved from now on.
                        let v = unsafe { raw.read() };
                        g(gid, |g| g.val = Val::Gone);
                        recycle(raw.as_memory());
                        v.probe.assert_live(grp.id);
                        drop(v);
                    }
                }
                Err(h) => {
                    ck!(grp.strong != 1 || grp.weak != 0, "raw form refused to the only handle");
                    keep(S::wrap(h, gid));
                    count("raw refused");
                }
            }
        }
        18 => {
            let Some(mut s) = pick_strong() else { return };
            let grp = g(s.gid, |g| g.clone());
            match Rc::get_mut(&mut s.h) {
                Some(v) => {
                    ck!(grp.strong == 1 && grp.weak == 0, "mutable access with {} strong and {} weak handles", grp.strong, grp.weak);
                    ck_eq!(v as *mut V as usize, grp.at, "address");
                    v.probe = Probe::new();
                    let id = v.probe.id;
                    g(s.gid, |g| g.id = id);
                    ck_eq!(track::drops_of(grp.id), 1, "destructions of the overwritten part");
                    count("mutable access");
                }
                None => {
                    ck!(grp.strong != 1 || grp.weak != 0, "mutable access refused to the only handle");
                    count("mutable access refused");
                }
            }
            keep(s);
        }
        19 | 20 => {
            let Some(h) = pick_weak() else { return };
            h.try_unwrap();
        }
        21 => {
            // A weak handle moves into a value, often the one it refers to.
            let (Some(s), Some(h)) = (pick_strong(), pick_weak()) else { return };
            s.h.ws.borrow_mut().push(h);
            keep(s);
            count("weak handle inside a value");
        }
        22 => {
            let (Some(s), Some(o)) = (pick_strong(), pick_strong()) else { return };
            // Only into later groups' values: no cycles.
            if o.gid > s.gid {
                s.h.ss.borrow_mut().push(o);
                count("strong handle inside a value");
            } else {
                keep(o);
            }
            keep(s);
        }
        23 => {
            let (Some(a), Some(b)) = (pick_strong(), pick_strong()) else { return };
            ck_eq!(Rc::ptr_eq(&a.h, &b.h), a.gid == b.gid, "ptr_eq");
            keep(a);
            keep(b);
        }
        _ if outer => {
            let Some(s) = pick_strong() else { return };
            g(s.gid, |g| g.panics = true);
            keep(s);
        }
        _ => (),
    }
}

fn groups(c: &mut Case) {
    track::reset();
    let layout = Rc::<V>::layout();
    let n = 4;
    let stride = (layout.size() + 64).next_multiple_of(layout.align());
    let mut arena = Arena::new(stride * n, 128, 0, 0xA5);
    w(|x| {
        // Whatever a failed case left behind is unusable.
        forget(take(&mut x.strong));
        forget(take(&mut x.weak));
        forget(take(&mut x.free));
        x.groups.clear();
        x.counts.clear();
        x.rng = c.rng.fork();
        x.planned = false;
        x.depth = 0;
    });
    for i in 0..n {
        let len = stride - c.rng.below(64);
        // SAFETY: distinct parts of the arena, which is freed at the end when no handle is left.
        let mem = unsafe { Uninit::from_memory(std::ptr::NonNull::new(arena.ptr().add(i * stride)).unwrap(), len) };
        let at = mem.as_ptr() as usize;
        w(|x| x.free.push(Region { mem, at, len }));
    }
    let _ = arena.mem();
    let steps = if c.miri { 30 } else { c.rng.range(10, 90) };
    for i in 0..steps {
        let r = if i < 2 { may_panic(new_group) } else { may_panic(|| step(true)) };
        if let Err(e) = r {
            if !w(|x| take(&mut x.planned)) {
                std::panic::resume_unwind(e);
            }
        }
        w(|x| x.planned = false);
        check_world();
        track::check_sane();
        let s = w(|x| x.groups.iter().fold(0u64, |h, g| mix(h ^ (g.strong * 64 + g.weak) as u64 ^ (g.val as u64) << 32)));
        c.obs(s);
    }
    c.step(w(|x| format!("{:?}", x.groups.iter().map(|g| (g.strong, g.weak, g.val)).collect::<Vec<_>>())));
    loop {
        let Some(s) = pick_strong() else { break };
        if let Err(e) = may_panic(move || drop(s)) {
            if !w(|x| take(&mut x.planned)) {
                std::panic::resume_unwind(e);
            }
        }
        check_world();
    }
    loop {
        let Some(h) = pick_weak() else { break };
        h.try_unwrap();
        if let Some(h) = pick_weak() {
            drop(h);
        }
    }
    track::check_all_dropped();
    let (n, counts) = w(|x| {
        x.free.clear();
        (x.groups.len(), take(&mut x.counts))
    });
    arena.check_guards();
    for k in counts {
        c.count(k);
    }
    if n >= 2 {
        c.nontrivial();
    }
}

/// Every kind of value type, including zero-sized and over-aligned ones; every kind of memory.
fn types<T: Tv>(c: &mut Case) {
    track::reset();
    let layout = Rc::<T>::layout();
    ck!(layout.size() > 0 && layout.size() >= std::mem::size_of::<T>(), "layout is too small");
    ck!(layout.align() % std::mem::align_of::<T>() == 0, "layout is not aligned for the value");
    let len = match c.rng.below(4) {
        0 => c.rng.below(layout.size() + 1),
        1 => layout.size(),
        _ => layout.size() + c.rng.below(50),
    };
    let mis = if c.rng.chance(1, 3) { c.rng.below(128) } else { 0 };
    let mut arena = Arena::new(len, layout.align().max(128), mis, 0xA5);
    let at = arena.addr();
    let fits = len >= layout.size() && at % layout.align() == 0;
    c.step(format!("size {} align {} len {} mis {}", std::mem::size_of::<T>(), std::mem::align_of::<T>(), len, mis));
    let mem = Uninit::from_maybe_uninit_slice(arena.mem()).as_memory();
    types_in::<T>(c, mem, at, len, fits);
    arena.check_guards();
}

fn types_in<T: Tv>(c: &mut Case, mem: Uninit<'_, ()>, at: usize, len: usize, fits: bool) {
    let mut alive = Alive::default();
    let v = T::mk();
    let id = v.ident();
    alive.born(id);
    let made = may_panic(move || Rc::new(v, mem));
    let mut rc = match made {
        Ok(rc) => {
            ck!(fits, "memory that does not fit was accepted");
            rc
        }
        Err(_) => {
            ck!(!fits, "memory that fits was refused");
            alive.dead(id);
            alive.check("after a refusal");
            c.count("memory does not fit");
            return;
        }
    };
    c.nontrivial();
    ck_eq!(&*rc as *const T as usize, at, "address of the value");
    ck!(rc.intact_as(id), "value");
    ck_eq!((Rc::strong_count(&rc), Rc::weak_count(&rc)), (1, 1), "counts of a fresh Rc");
    ck!(Rc::get_mut(&mut rc).is_some(), "mutable access to a fresh Rc");
    let n = c.rng.below(4);
    let strong: Vec<_> = (0..n).map(|_| rc.clone()).collect();
    let k = c.rng.below(4);
    let mut weak: Vec<_> = (0..k).map(|_| Rc::downgrade(&rc)).collect();
    ck_eq!((Rc::strong_count(&rc), Rc::weak_count(&rc)), (1 + n, 1 + k), "counts");
    ck_eq!(Rc::get_mut(&mut rc).is_some(), n + k == 0, "mutable access");
    drop(strong);
    alive.check("clones dropped");
    let way = c.rng.below(4);
    c.step(format!("{} weak, way {}", k, way));
    let mut rest: Option<Weak<T>> = None;
    match way {
        0 => {
            drop(rc);
            alive.dead(id);
        }
        1 => {
            let Ok((v, wk)) = Rc::try_unwrap(rc) else { fail!("unwrap refused to the only strong handle") };
            ck!(v.intact_as(id), "unwrapped value");
            alive.check("unwrapped");
            rest = Some(wk);
            drop(v);
            alive.dead(id);
        }
        2 => match Rc::into_raw(rc) {
            Ok(raw) => {
                ck_eq!(k, 0, "weak handles at into_raw");
                ck_eq!((raw.as_ptr() as usize, raw.byte_capacity()), (at, len), "raw region");
                // SAFETY: from into_raw.
                let rc = unsafe { Rc::from_raw(raw) };
                ck!(rc.intact_as(id), "value after a raw round trip");
                ck_eq!((Rc::strong_count(&rc), Rc::weak_count(&rc)), (1, 1), "counts after a raw round trip");
                alive.check("raw round trip");
                drop(rc);
                alive.dead(id);
                c.count("round trips");
            }
            Err(rc) => {
                ck!(k > 0, "into_raw refused to the only handle");
                ck_eq!((Rc::strong_count(&rc), Rc::weak_count(&rc)), (1, 1 + k), "counts after a refusal");
                drop(rc);
                alive.dead(id);
            }
        },
        _ if id.is_some() => {
            track::panic_on(id.unwrap());
            ck!(may_panic(move || drop(rc)).is_err(), "the panic of a destructor was swallowed");
            alive.dead(id);
        }
        _ => {
            drop(rc);
            alive.dead(id);
        }
    }
    alive.check("the value is gone");
    weak.extend(rest);
    while let Some(wk) = weak.pop() {
        ck_eq!((wk.strong_count(), wk.weak_count()), (0, weak.len() + 1), "counts after the value is gone");
        ck!(wk.upgrade().is_none(), "upgrade to a destroyed value");
        match wk.try_unwrap() {
            Ok(mem) => {
                ck!(weak.is_empty(), "memory given while weak handles exist");
                ck_eq!((mem.as_ptr() as usize, mem.byte_capacity()), (at, len), "recovered region");
                // SAFETY: ours.
                unsafe { (mem.as_ptr() as *mut u8).write_bytes(0x11, len) };
            }
            Err(wk) => {
                ck!(!weak.is_empty(), "memory refused to the only handle");
                drop(wk);
            }
        }
    }
    alive.check("end");
}

/// Counts that do not fit into a few bits.
fn many(c: &mut Case) {
    track::reset();
    let mut arena = Arena::new(Rc::<Tr<A16, 3>>::layout().size(), 16, 0, 0xA5);
    let (at, len) = (arena.addr(), arena.len());
    let mut rc = Rc::new(Tr::<A16, 3>::new(), Uninit::from_maybe_uninit_slice(arena.mem()).as_memory());
    let pick = |c: &mut Case| match c.rng.below(8) {
        _ if c.miri => 250 + c.rng.below(10),
        0 => (1 << 16) - 3 + c.rng.below(6),
        1 => (1 << 15) - 3 + c.rng.below(6),
        2 => c.rng.below(5),
        3 => 120 + c.rng.below(12),
        4 => 1 + c.rng.below(1200),
        _ => 250 + c.rng.below(10),
    };
    let (n, k) = (pick(c), pick(c));
    c.step(format!("{} clones, {} weak", n, k));
    let mut strong = vec![];
    let mut weak = vec![];
    for i in 0..n {
        let r = if i % 2 == 1 && c.rng.chance(1, 2) { Rc::clone(&strong[i - 1]) } else { rc.clone() };
        strong.push(r);
        ck_eq!(Rc::strong_count(&rc), i + 2, "strong count");
    }
    for i in 0..k {
        weak.push(Rc::downgrade(&rc));
        ck_eq!((Rc::strong_count(&rc), Rc::weak_count(&rc)), (n + 1, i + 2), "counts");
    }
    ck_eq!(Rc::get_mut(&mut rc).is_some(), n + k == 0, "mutable access");
    drop(rc);
    ck_eq!(track::drops_of(0), (n == 0) as u32, "destructions with {} strong handles", n);
    while let Some(r) = strong.pop() {
        r.assert_live(0);
        if k > 0 && c.rng.chance(1, 16) {
            let u = weak[k / 2].upgrade();
            ck!(u.is_some(), "upgrade refused with {} strong handles", strong.len() + 1);
            ck_eq!(weak[0].strong_count(), strong.len() + 2, "strong count");
        }
        ck_eq!((Rc::strong_count(&r), Rc::weak_count(&r)), (strong.len() + 1, k + 1), "counts");
        drop(r);
        ck_eq!(track::drops_of(0), strong.is_empty() as u32, "destructions with {} strong handles", strong.len());
    }
    while let Some(wk) = weak.pop() {
        ck_eq!((wk.strong_count(), wk.weak_count()), (0, weak.len() + 1), "counts after the value is gone");
        ck!(wk.upgrade().is_none(), "upgrade to a destroyed value");
        match wk.try_unwrap() {
            Ok(mem) => {
                ck!(weak.is_empty(), "memory given while {} other weak handles exist", weak.len());
                ck_eq!((mem.as_ptr() as usize, mem.byte_capacity()), (at, len), "recovered region");
            }
            Err(wk) => {
                ck!(!weak.is_empty(), "memory refused to the only handle");
                drop(wk);
            }
        }
    }
    track::check_all_dropped();
    drop((strong, weak));
    arena.check_guards();
    c.count("many handles");
    c.nontrivial();
}

/// Counts that do not fit into 32 bits.
#[cfg(target_pointer_width = "64")]
fn very_many(c: &mut Case) {
    track::reset();
    let mut arena = Arena::new(Rc::<Tr<A16, 3>>::layout().size(), 16, 0, 0xA5);
    let rc = Rc::new(Tr::<A16, 3>::new(), Uninit::from_maybe_uninit_slice(arena.mem()).as_memory());
    let n = 1usize << 32;
    let weak = c.idx % 2 == 0;
    c.step(format!("2^32 more {} handles", if weak { "weak" } else { "strong" }));
    for _ in 0..n / 4096 {
        for _ in 0..4096 {
            if weak { forget(Rc::downgrade(&rc)) } else { forget(rc.clone()) }
        }
        c.progress();
    }
    let want = if weak { (1, n + 1) } else { (n + 1, 1) };
    ck_eq!((Rc::strong_count(&rc), Rc::weak_count(&rc)), want, "counts");
    let rc = match Rc::into_raw(rc) {
        Ok(_) => fail!("into_raw with more than 2^32 handles"),
        Err(rc) => rc,
    };
    let wk = Rc::downgrade(&rc);
    drop(rc);
    ck_eq!(track::drops_of(0), weak as u32, "destructions");
    ck!(wk.upgrade().is_none() == weak, "upgrade");
    ck!(wk.try_unwrap().is_err(), "memory given while there are 2^32 handles");
    arena.check_guards();
    c.count("2^32 handles");
    c.nontrivial();
}

/// Memory of more bytes than 32 bits can count.
#[cfg(target_pointer_width = "64")]
fn huge(c: &mut Case) {
    track::reset();
    let len = *c.rng.pick(&[1usize << 31, 1 << 32, (1 << 32) + (1 << 31), 5 << 30]) + c.rng.below(400) - 100;
    c.step(format!("{} bytes", len));
    let Some(m) = harness::huge::Lazy::new(len) else { return c.count("no huge memory") };
    // SAFETY: exclusively ours.
    let mut mem = unsafe { Uninit::from_memory(std::ptr::NonNull::new(m.ptr()).unwrap(), len) };
    for k in 0..c.rng.range(1, 5) as u32 {
        let rc = Rc::new(Tr::<A16, 3>::new(), mem);
        rc.assert_live(k);
        let other = rc.clone();
        let wk = Rc::downgrade(&other);
        drop(rc);
        let wk = if c.rng.chance(1, 2) {
            drop(other);
            ck!(wk.upgrade().is_none(), "upgrade without a strong handle");
            wk
        } else {
            drop(wk);
            match Rc::try_unwrap(other) {
                Ok((v, wk)) => {
                    v.assert_live(k);
                    wk
                }
                Err(_) => fail!("the only strong handle was not unwrapped"),
            }
        };
        track::check_all_dropped();
        match wk.try_unwrap() {
            Ok(u) => {
                ck_eq!((u.as_ptr() as usize, u.byte_capacity()), (m.ptr() as usize, len), "the memory given back");
                mem = u;
            }
            Err(_) => fail!("the memory was not given to the only weak handle"),
        }
    }
    c.nontrivial();
    c.count("beyond 32 bits");
}

/// Through an allocator.
fn from_bump(c: &mut Case) {
    track::reset();
    let bump: Box<static_alloc::Bump<[u64; 32]>> = Box::new(static_alloc::Bump::uninit());
    let mut v = vec![];
    loop {
        match bump.rc(Tr::<A16, 3>::new()) {
            Some(r) => v.push((Rc::downgrade(&r), r)),
            None => break,
        }
    }
    for (i, (wk, r)) in v.iter().enumerate() {
        r.assert_live(i as u32);
        ck!(Rc::ptr_eq(&wk.upgrade().unwrap(), r), "upgrade leads elsewhere");
    }
    let mut left = v.len();
    while left > 0 {
        let i = c.rng.below(left);
        let (wk, r) = v.swap_remove(i);
        drop(r);
        ck!(wk.try_unwrap().is_ok(), "memory refused");
        left -= 1;
    }
    track::check_all_dropped();
    c.count("from an allocator");
}

/// Handles that are overwritten in each way there is: assignment, `clone_from` of one or of many, swaps.
fn assigned(c: &mut Case) {
    struct D<'a>(&'a std::cell::Cell<u32>, usize);
    impl Drop for D<'_> {
        fn drop(&mut self) {
            self.0.set(self.0.get() + 1);
        }
    }
    let dropped: [std::cell::Cell<u32>; 4] = Default::default();
    let bump: static_alloc::Bump<[u64; 32]> = static_alloc::Bump::uninit();
    let n = 1 + c.rng.below(4);
    c.step(format!("{} values", n));
    let mut strong: Vec<(Rc<'_, D<'_>>, usize)> = vec![];
    let mut weak: Vec<(Weak<'_, D<'_>>, usize)> = vec![];
    for i in 0..n {
        let rc = bump.rc(D(&dropped[i], i)).expect("there is room");
        for _ in 0..c.rng.below(3) {
            weak.push((Rc::downgrade(&rc), i));
        }
        for _ in 0..c.rng.below(3) {
            strong.push((rc.clone(), i));
        }
        strong.push((rc, i));
    }
    for _ in 0..c.rng.below(12) {
        let op = c.rng.below(10);
        let (ns, nw) = (strong.len(), weak.len());
        if op < 6 && ns == 0 || op >= 6 && nw == 0 {
            continue;
        }
        let (a, b) = if op < 6 { (c.rng.below(ns), c.rng.below(ns)) } else { (c.rng.below(nw), c.rng.below(nw)) };
        c.step(format!("operation {} on {} and {} of {} and {}", op, a, b, ns, nw));
        match op {
            0 | 1 => {
                // The original may be the only handle, and the one to be overwritten.
                let (from, g) = (strong[b].0.clone(), strong[b].1);
                let one = c.rng.chance(1, 2);
                if one {
                    strong[b].0 = from;
                    continue;
                }
                strong[a].0.clone_from(&from);
                strong[a].1 = g;
            }
            2 if a != b => {
                let g = strong[b].1;
                let (lo, hi) = strong.split_at_mut(a.max(b));
                let (x, y) = if a < b { (&mut lo[a].0, &hi[0].0) } else { (&mut hi[0].0, &lo[b].0) };
                x.clone_from(y);
                strong[a].1 = g;
            }
            3 => {
                // The source is a vector with fewer, as many, or more handles.
                let k = c.rng.below(ns + 1);
                let from: Vec<_> = strong[..k].iter().map(|(h, _)| h.clone()).collect();
                let to = &mut strong.drain(a..).collect::<Vec<_>>();
                let mut handles: Vec<_> = to.drain(..).map(|(h, _)| h).collect();
                handles.clone_from(&from);
                drop(from);
                strong.extend(handles.into_iter().map(|h| { let g = h.1; (h, g) }));
            }
            4 => {
                let x = strong[a].0.clone();
                let old = std::mem::replace(&mut strong[b], (x, 0));
                strong[b].1 = strong[b].0.1;
                drop(old);
            }
            5 => drop(strong.swap_remove(a)),
            6 if a != b => {
                let g = weak[b].1;
                let (lo, hi) = weak.split_at_mut(a.max(b));
                let (x, y) = if a < b { (&mut lo[a].0, &hi[0].0) } else { (&mut hi[0].0, &lo[b].0) };
                x.clone_from(y);
                weak[a].1 = g;
            }
            7 => {
                let x = weak[b].0.clone();
                weak[a] = (x, weak[b].1);
            }
            8 => {
                let k = c.rng.below(nw + 1);
                let from: Vec<_> = weak[..k].to_vec();
                let mut to: Vec<_> = weak.drain(a..).collect();
                to.clone_from(&from);
                weak.extend(to);
            }
            9 => drop(weak.swap_remove(a)),
            _ => (),
        }
        c.nontrivial();
        for i in 0..n {
            let s = strong.iter().filter(|h| h.1 == i).count();
            let w = weak.iter().filter(|h| h.1 == i).count() + (s > 0) as usize;
            ck_eq!(dropped[i].get(), (s == 0) as u32, "destructions of a value with {} strong handles", s);
            for (h, _) in strong.iter().filter(|h| h.1 == i) {
                ck_eq!((h.1, Rc::strong_count(h), Rc::weak_count(h)), (i, s, w), "value and counts at a strong handle");
            }
            for (h, _) in weak.iter().filter(|h| h.1 == i) {
                ck_eq!((h.strong_count(), h.weak_count()), (s, w), "counts at a weak handle");
                let up = h.upgrade();
                ck_eq!(up.map(|h| h.1), (s > 0).then_some(i), "value of an upgraded handle");
            }
        }
        c.count("handles overwritten");
    }
    drop(strong);
    for i in 0..n {
        ck_eq!(dropped[i].get(), 1, "destructions of a value without strong handles");
    }
    ck!(weak.iter().all(|h| h.0.upgrade().is_none()), "a weak handle was upgraded without a value");
}

fn main() {
    let mut m = Mon::start("C18");
    m.family("groups", 60_000, 230, groups);
    m.family("assigned", 20_000, 60, assigned);
    m.family("types", 30_000, 120, |c| {
        let i = c.rng.below(harness::types::TYPES);
        with_tv!(i, T => types::<T>(c))
    });
    m.family("from_bump", 200, 4, from_bump);
    m.family("many", 600, 4, many);
    m.family("big", 400, 0, |c| {
        let i = c.rng.below(harness::types::BIG);
        with_big!(i, T => types::<T>(c))
    });
    #[cfg(target_pointer_width = "64")]
    if m.variant == "dbg" || m.variant == "rel" {
        m.family("huge", 60, 0, huge);
    }
    #[cfg(target_pointer_width = "64")]
    if m.variant == "rel" {
        m.family("very_many", 2, 0, very_many);
    }
    m.finish();
}
