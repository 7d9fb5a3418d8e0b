//! Driver of an exit stack against a model of pinned values, used for C10 and C11.
use crate::track::{self, Ev};
use crate::types::*;
use crate::*;
use exit_stack::{ExitStack, Slot};
use std::pin::Pin;

#[derive(Clone)]
struct Pinned {
    id: Option<u32>,
    at: usize,
    size: usize,
    ok: std::rc::Rc<dyn Fn() -> bool>,
}

pub struct Model {
    pinned: Vec<Pinned>,
    lo: usize,
    hi: usize,
}

type Filler<'a> = Box<dyn FnOnce() -> Pinned + 'a>;

/// Pins by `pin`, or by `pin_local` with a value that would be allowed to live shorter.
fn filler<'a, V: Tv>(slot: Slot<'a, V>, local: bool) -> Filler<'a> {
    Box::new(move || {
        let v = V::mk();
        let id = v.ident();
        let pin: Pin<&'a mut V> = match local {
            false => slot.pin(v),
            // SAFETY: the value is valid for ever.
            true => unsafe { slot.pin_local(v) },
        };
        // SAFETY: only read through, and only while the value is pinned.
        let p: *mut V = unsafe { pin.get_unchecked_mut() };
        ck!(p as usize % std::mem::align_of::<V>() == 0, "a value was pinned misaligned");
        Pinned { id, at: p as usize, size: std::mem::size_of::<V>(), ok: std::rc::Rc::new(move || unsafe { (*p).intact_as(id) }) }
    })
}

/// What is done with the panics of destructors.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    NoPanics,
    OnePanic,
}

impl Model {
    fn check(&self) {
        for p in &self.pinned {
            ck!((p.ok)(), "a pinned value changed");
            if let Some(id) = p.id {
                ck_eq!(track::drops_of(id), 0, "destructions of a value that is still pinned");
            }
        }
        track::check_sane();
    }

    fn add(&mut self, p: Pinned) {
        if p.size > 0 {
            ck!(p.at >= self.lo && p.at + p.size <= self.hi, "a value was pinned outside the stack's memory");
            for q in &self.pinned {
                ck!(q.size == 0 || q.at + q.size <= p.at || p.at + p.size <= q.at, "two pinned values overlap");
            }
        }
        self.pinned.push(p);
    }

    /// The events since `from` must be the destruction of everything pinned, last pinned first.
    /// `extra` zero-sized values more are destroyed before or after those.
    fn emptied(&mut self, what: &str, zst_before: u64, extra: u64) {
        track::check_sane();
        let mut got: Vec<Ev> = track::with(|l| l.events.clone());
        let mut want: Vec<Ev> = self.pinned.iter().rev().map(|p| p.id.map_or(Ev::Zero(p.at), |i| Ev::Drop(i, p.at))).collect();
        let ids = |v: &[Ev]| v.iter().map(|e| e.id().map_or(-1, |i| i as i64)).collect::<Vec<_>>();
        if extra > 0 && got.len() == want.len() + 1 {
            let behind = ids(&got[..want.len()]) == ids(&want);
            let e = if behind { got.pop() } else { Some(got.remove(0)) };
            ck!(e.map_or(false, |e| e.id().is_none()), "{}: the zero-sized value given was not destroyed first or last", what);
        } else {
            ck_eq!(extra, 0, "{}: zero-sized values destroyed", what);
        }
        if ids(&got) != ids(&want) {
            fail!("{}: values destroyed {:?}, expected {:?} (last pinned first, -1 zero-sized)", what, ids(&got), ids(&want));
        }
        ck!(got == want, "{}: a value was not destroyed at its pinned address", what);
        let zst = self.pinned.iter().filter(|p| p.id.is_none()).count() as u64 + extra;
        ck_eq!(track::with(|l| l.zst_drops) - zst_before, zst, "{}: destructions of zero-sized values", what);
        self.pinned.clear();
        track::clear_events();
    }
}

/// Mark one pinned value as panicking in its destructor; whether there is one.
fn arm(c: &mut Case, m: &Model) -> bool {
    let ids: Vec<u32> = m.pinned.iter().filter_map(|p| p.id).collect();
    if ids.is_empty() {
        return false;
    }
    let k = match c.rng.below(4) { 0 => 0, 1 => ids.len() - 1, _ => c.rng.below(ids.len()) };
    c.step(format!("panic in {} of {}", k, ids.len()));
    track::panic_on(ids[k]);
    true
}

pub fn run<Mem: Tv>(c: &mut Case, mode: Mode, place: usize) {
    track::reset();
    c.step(format!("ExitStack<{}/{}>", std::mem::size_of::<Mem>(), std::mem::align_of::<Mem>()));
    // The stack lives on the heap or in this frame.
    let mut frame = std::mem::MaybeUninit::<ExitStack<Mem>>::uninit();
    let raw: *mut ExitStack<Mem> = match place {
        0 => Box::into_raw(Box::new(ExitStack::new())),
        _ => frame.write(ExitStack::new()),
    };
    // SAFETY: not moved until it is dropped in place.
    let mut stack: Pin<&mut ExitStack<Mem>> = unsafe { Pin::new_unchecked(&mut *raw) };
    let lo = &*stack as *const _ as usize;
    let mut m = Model { pinned: vec![], lo, hi: lo + std::mem::size_of::<ExitStack<Mem>>() };
    let mut used = false;
    let rounds = c.rng.range(1, if MIRI { 4 } else { 6 });
    for round in 0..rounds {
        // One epoch of shared use.
        {
            let s: Pin<&ExitStack<Mem>> = stack.as_ref();
            let mut open: Vec<Filler<'_>> = vec![];
            let mut gave_up = false;
            let steps = c.rng.below(if MIRI { 6 } else { 12 });
            for _ in 0..steps {
                match c.rng.below(8) {
                    0..=3 => {
                        let local = c.rng.chance(1, 3);
                        if local {
                            c.count("values to pin locally");
                        }
                        if c.rng.chance(1, 4) {
                            c.step(format!("slot<Mem>{}", if local { " local" } else { "" }));
                            match s.slot::<Mem>() {
                                Some(slot) => open.push(filler(slot, local)),
                                // Slots given up earlier still count until the memory is reset.
                                None => ck!(used, "an empty stack has no slot for its memory type"),
                            }
                        } else {
                            let t = c.rng.below(crate::types::TYPES);
                            with_tv!(t, V => {
                                c.step(format!("slot<{}/{}>{}", std::mem::size_of::<V>(), std::mem::align_of::<V>(), if local { " local" } else { "" }));
                                match s.slot::<V>() {
                                    Some(slot) => { c.count("slots"); open.push(filler(slot, local)) }
                                    None => c.count("slots refused"),
                                }
                            });
                        }
                    }
                    4..=6 if !open.is_empty() => {
                        let i = c.rng.below(open.len());
                        c.step(format!("pin {}", i));
                        let f = open.swap_remove(i);
                        let p = f();
                        m.add(p);
                        c.count("values pinned");
                    }
                    7 if !open.is_empty() => {
                        let i = c.rng.below(open.len());
                        c.step(format!("give up {}", i));
                        gave_up = true;
                        drop(open.swap_remove(i));
                        c.count("slots given up");
                    }
                    _ => {}
                }
                m.check();
                used |= !open.is_empty() || !m.pinned.is_empty() || gave_up;
            }
            if c.rng.chance(1, 2) {
                for f in open {
                    let p = f();
                    m.add(p);
                    c.count("values pinned");
                }
            }
        }
        m.check();
        if m.pinned.len() > 1 {
            c.nontrivial();
        }
        ck_eq!(track::with(|l| l.events.len()), 0, "values destroyed while pinned");
        // Then empty it in some way.
        let armed = mode == Mode::OnePanic && c.rng.chance(3, 4) && arm(c, &m);
        if armed {
            c.nontrivial();
            c.count("panicking destructors");
        }
        let z = track::with(|l| l.zst_drops);
        let last = round + 1 == rounds;
        match c.rng.below(4) {
            0 if !last => {
                c.step("keep");
                if armed {
                    // Keep it unarmed for the next round.
                    track::with(|l| l.panic_on.clear());
                }
            }
            1 if !last => {
                c.step("set");
                used = true;
                let v = Mem::mk();
                let id = v.ident();
                let r = {
                    let stack = stack.as_mut();
                    may_panic(move || {
                        let p = stack.set(v);
                        // SAFETY: read only while pinned.
                        unsafe { p.get_unchecked_mut() as *mut Mem }
                    })
                };
                match r {
                    Ok(p) => {
                        ck!(!armed, "the panic of a destructor was swallowed by set");
                        m.emptied("set", z, 0);
                        ck!(p as usize % std::mem::align_of::<Mem>() == 0, "a value was set misaligned");
                        m.add(Pinned { id, at: p as usize, size: std::mem::size_of::<Mem>(), ok: std::rc::Rc::new(move || unsafe { (*p).intact_as(id) }) });
                        c.count("set");
                    }
                    Err(_) => {
                        ck!(armed, "set failed: {}", last_panic());
                        // The new value goes last or first, the others in order.
                        if let Some(id) = id {
                            ck_eq!(track::drops_of(id), 1, "destructions of the value given to a panicking set");
                            track::with(|l| l.events.retain(|e| e.id() != Some(id)));
                        }
                        m.emptied("panicking set", z, id.is_none() as u64);
                        c.count("panicking set");
                    }
                }
            }
            _ if !last => {
                c.step("pop_all");
                let r = { let stack = stack.as_mut(); may_panic(move || stack.pop_all()) };
                ck_eq!(r.is_err(), armed, "pop_all panicked");
                m.emptied("pop_all", z, 0);
                c.count("pop_all");
                used = r.is_err();
                if c.rng.chance(1, 3) {
                    c.step("pop_all again");
                    stack.as_mut().pop_all();
                    ck_eq!(track::order().len(), 0, "destructions by emptying an empty stack");
                    // An emptied stack has room for its memory type.
                    used = true;
                    ck!(stack.as_ref().slot::<Mem>().is_some(), "an emptied stack has no slot for its memory type");
                }
            }
            _ => {
                c.step("drop");
                // Dropped below.
                // SAFETY: dropped once, not used afterwards.
                let r = match place {
                    0 => may_panic(|| drop(unsafe { Box::from_raw(raw) })),
                    _ => may_panic(|| unsafe { std::ptr::drop_in_place(raw) }),
                };
                ck_eq!(r.is_err(), armed, "dropping the stack panicked");
                m.emptied("drop", z, 0);
                c.count("drop");
                return;
            }
        }
        track::check_sane();
    }
}
