//! C23: calls on a shared Bump that are stopped or interrupted at any instruction keep nobody else from completing, and the
//! history is as exact as ever.
use harness::conc::*;
use harness::regions::*;
use harness::step::*;
use harness::*;
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(15);

/// What a call does without disturbance: its instructions.
fn dry<S: 'static>(place: &mut Placed<S>, known: &Known, fill: usize, op: Op) -> u64 {
    place.get_mut().reset();
    let b = place.get();
    let mut u = User::new(0, known);
    if fill > 0 {
        u.run(b, Op::Alloc { size: fill, align: 1, via: 0 }, &|| 0);
    }
    let mut nothing = || ();
    let st = Steps::new(u64::MAX, true, &mut nothing);
    let first = Cell::new(true);
    u.run(b, op, &|| {
        if first.replace(false) { st.begin() } else { st.end() }
        0
    });
    ck!(!st.over(), "{:?} alone does not end within {} instructions", op, st.count());
    st.count()
}

/// The points to interrupt at.
fn points(c: &mut Case, n: u64, most: usize) -> Vec<u64> {
    if n as usize <= most {
        (1..=n).collect()
    } else {
        let from = c.rng.below(n as usize);
        (0..most).map(|i| 1 + ((from + i * n as usize / most) % n as usize) as u64).collect()
    }
}

fn judge<S: 'static>(c: &mut Case, place: &Placed<S>, known: &Known, users: &[&User<'_>], text: &dyn Fn() -> String) {
    let b = place.get();
    let base = b as *const _ as usize + known.offset;
    let recs: Vec<Rec> = users.iter().flat_map(|u| u.recs.iter().cloned()).collect();
    let got: Vec<Got> = users.iter().flat_map(|u| u.got.iter().cloned()).collect();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        disjoint(&got, base, known.cap);
        users.iter().for_each(|u| u.check_contents());
        linearize(&recs, base, known, b.level())
    }));
    match r {
        Ok(s) => {
            c.add("histories", 1);
            c.add("successes", s.taken);
            c.add("refusals", s.refused + s.exhausted + s.mismatches);
        }
        Err(e) => fail!("{}; {}; history {}", payload_text(&*e), text(), print(&recs, base, known)),
    }
    c.obs(recs.iter().fold(0, |h, r| mix(h ^ (r.th as u64 + 7 * r.size as u64 + 1000 * matches!(r.res, Res::Ok(..)) as u64))));
}

fn ops(c: &mut Case, cap: usize, n: usize) -> Vec<Op> {
    (0..n).map(|_| random_op(&mut c.rng, cap, true)).collect()
}

fn prefill(c: &mut Case, cap: usize) -> usize {
    if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, cap) }
}

fn caught(f: impl FnOnce()) -> Option<String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).err().map(|e| {
        let text = payload_text(&*e);
        if e.is::<OracleFail>() { text } else { format!("unexpected panic: {} ({})", text, last_panic()) }
    })
}

/// A handler on top of the interrupted call uses the same Bump, and may itself be interrupted by another.
fn handler<S: 'static>(c: &mut Case) {
    let known = learn::<S>();
    let mut place = Placed::<S>::new(Bump::uninit(), &mut c.rng);
    let fill = prefill(c, known.cap);
    let outer = random_op(&mut c.rng, known.cap, true);
    let n = c.rng.range(1, 3);
    let inner = ops(c, known.cap, n);
    let deep = if c.rng.chance(1, 3) { Some((c.rng.below(inner.len()), random_op(&mut c.rng, known.cap, true))) } else { None };
    c.step(format!("{:?} with {} of {} bytes taken, interrupted by {:?}, that by {:?}", outer, fill, known.cap, inner, deep));
    let total = dry(&mut place, &known, fill, outer);
    c.add("instructions", total);
    let mut changed = false;
    for at in points(c, total, if c.thorough { 2000 } else { 160 }) {
        let deep_at = 1 + c.rng.below(150) as u64;
        let follow = c.rng.chance(1, 4);
        place.get_mut().reset();
        let b = place.get();
        let clock = AtomicU64::new(1);
        let stamp = || clock.fetch_add(1, SeqCst);
        let mut u = User::new(0, &known);
        if fill > 0 {
            u.run(b, Op::Alloc { size: fill, align: 1, via: 0 }, &stamp);
        }
        let (mut v, mut w) = (User::new(1, &known), User::new(2, &known));
        (v.seen, v.seen_index) = (u.seen, u.seen_index);
        let (mut wrong, mut twice) = (None, 0u64);
        let over;
        let fired;
        {
            let mut run = || {
                wrong = caught(|| {
                    for (i, &op) in inner.iter().enumerate() {
                        match deep {
                            Some((k, third)) if k == i => {
                                (w.seen, w.seen_index) = (v.seen, v.seen_index);
                                let mut third = || {
                                    w.run(b, third, &stamp);
                                    twice += 1;
                                };
                                let st = Steps::new(deep_at, false, &mut third);
                                let first = Cell::new(true);
                                v.run(b, op, &|| {
                                    let t = stamp();
                                    if first.replace(false) { st.begin() } else { st.end() }
                                    t
                                });
                                if st.over() {
                                    fail!("a call does not end");
                                }
                            }
                            _ => v.run(b, op, &stamp),
                        }
                    }
                });
            };
            let st = Steps::new(at, follow, &mut run);
            let first = Cell::new(true);
            let r = caught(|| {
                u.run(b, outer, &|| {
                    if first.replace(false) {
                        let t = stamp();
                        st.begin();
                        t
                    } else {
                        st.end();
                        stamp()
                    }
                })
            });
            st.end();
            over = st.over();
            fired = st.fired();
            if let Some(r) = r {
                fail!("{:?} interrupted after {} of {} instructions: {}", outer, at, total, r);
            }
        }
        let text = || format!("interrupted after {} of {} instructions", at, total);
        if let Some(w) = wrong {
            fail!("within an interrupt: {}; {}", w, text());
        }
        ck!(!over, "the interrupted call does not end; {}", text());
        ck!(fired, "no interrupt, {}", text());
        judge(c, &place, &known, &[&u, &v, &w], &text);
        c.count("interruptions");
        c.add("calls within interrupts", v.recs.len() as u64);
        c.add("interrupted interrupts", twice);
        if matches!(u.recs.last().unwrap().res, Res::Mismatch(_)) || v.recs.iter().any(|r| matches!(r.res, Res::Ok(..))) {
            changed = true;
        }
    }
    place.check_guards();
    if changed {
        c.nontrivial();
    }
}

/// Another thread's turn.
struct Turn(AtomicUsize);

impl Turn {
    fn give(&self, to: usize) {
        self.0.store(to, SeqCst)
    }
    /// Wait for one's turn; `false` if it does not come.
    fn wait(&self, me: usize) -> bool {
        let (mut n, mut t0) = (0u32, None);
        while self.0.load(SeqCst) != me {
            n += 1;
            if n % 64 == 0 {
                std::thread::yield_now();
                let t0 = *t0.get_or_insert_with(Instant::now);
                if t0.elapsed() > PATIENCE {
                    return false;
                }
            }
        }
        true
    }
}

const A: usize = 1;
const B: usize = 2;
const QUIT: usize = 3;

/// One thread is stopped within a call while another does some of its own, completely or up to some instruction.
fn stopped<S: 'static>(c: &mut Case) {
    let known = learn::<S>();
    let mut place = Placed::<S>::new(Bump::uninit(), &mut c.rng);
    let fill = prefill(c, known.cap);
    let first_op = random_op(&mut c.rng, known.cap, true);
    let n = c.rng.range(1, 3);
    let other = ops(c, known.cap, n);
    // Stop the other thread, too, within that one of its calls.
    let both = c.rng.chance(1, 2).then(|| c.rng.below(other.len()));
    let total = dry(&mut place, &known, fill, first_op);
    c.step(format!("{:?} with {} of {} bytes taken, stopped within {} instructions, meanwhile {:?}, stopped within {:?}", first_op, fill, known.cap, total, other, both));
    let at = points(c, total, if c.thorough { 1500 } else { 120 });
    let plan: Vec<(u64, u64)> = at.into_iter().map(|k| (k, 1 + c.rng.below(100) as u64)).collect();
    for (k, j) in plan {
        place.get_mut().reset();
        let b = place.get();
        let clock = AtomicU64::new(1);
        let mut u = User::new(0, &known);
        if fill > 0 {
            u.run(b, Op::Alloc { size: fill, align: 1, via: 0 }, &|| clock.fetch_add(1, SeqCst));
        }
        let turn = Turn(AtomicUsize::new(A));
        let (late, late_b) = (Cell::new(false), AtomicU64::new(0));
        let stops = AtomicU64::new(0);
        let mut v = User::new(1, &known);
        (v.seen, v.seen_index) = (u.seen, u.seen_index);
        let (turn, clock, late_b, stops, other) = (&turn, &clock, &late_b, &stops, &other);
        let (a_wrong, b_wrong, v) = pair(
            || {
                let r = caught(|| {
                    let mut meanwhile = || {
                        turn.give(B);
                        if !turn.wait(A) {
                            late.set(true);
                        }
                    };
                    let st = Steps::new(k, false, &mut meanwhile);
                    let first = Cell::new(true);
                    u.run(b, first_op, &|| {
                        if first.replace(false) {
                            let t = clock.fetch_add(1, SeqCst);
                            st.begin();
                            t
                        } else {
                            st.end();
                            clock.fetch_add(1, SeqCst)
                        }
                    });
                    if !st.fired() {
                        fail!("the call was not stopped");
                    }
                });
                turn.give(B);
                r
            },
            move || {
                let r = caught(|| {
                    let _ = turn.wait(B);
                    for (i, &op) in other.iter().enumerate() {
                        if both == Some(i) {
                            let mut meanwhile = || {
                                stops.fetch_add(1, SeqCst);
                                turn.give(A);
                                if !turn.wait(B) {
                                    late_b.store(1, SeqCst);
                                }
                            };
                            let st = Steps::new(j, false, &mut meanwhile);
                            let first = Cell::new(true);
                            v.run(b, op, &|| {
                                if first.replace(false) {
                                    let t = clock.fetch_add(1, SeqCst);
                                    st.begin();
                                    t
                                } else {
                                    st.end();
                                    clock.fetch_add(1, SeqCst)
                                }
                            });
                        } else {
                            v.run(b, op, &|| clock.fetch_add(1, SeqCst));
                        }
                    }
                });
                turn.give(A);
                (r, v)
            },
        );
        let text = || format!("stopped after {} of {} instructions, the other after {} in call {:?}", k, total, j, both);
        ck!(!late.get(), "another thread's calls do not end while a thread is stopped within {:?}; {}", first_op, text());
        ck!(late_b.load(SeqCst) == 0, "{:?} does not end while another thread is stopped within a call; {}", first_op, text());
        for w in [a_wrong, b_wrong].into_iter().flatten() {
            fail!("{}; {}", w, text());
        }
        judge(c, &place, &known, &[&u, &v], &text);
        c.count("calls stopped");
        c.add("calls of others meanwhile", v.recs.len() as u64);
        c.add("both stopped", stops.load(SeqCst));
    }
    place.check_guards();
    c.nontrivial();
}

/// Run the first on this thread and the second on the partner.
fn pair<R>(a: impl FnOnce() -> Option<String>, b: impl FnOnce() -> (Option<String>, R) + Send) -> (Option<String>, Option<String>, R)
where
    R: Send,
{
    thread_local! {
        static PARTNER: RefCell<Option<std::sync::mpsc::Sender<Box<dyn FnOnce() + Send>>>> = const { RefCell::new(None) };
    }
    let tx = PARTNER.with(|p| {
        p.borrow_mut()
            .get_or_insert_with(|| {
                let (tx, rx) = std::sync::mpsc::channel::<Box<dyn FnOnce() + Send>>();
                std::thread::spawn(move || rx.into_iter().for_each(|f| f()));
                tx
            })
            .clone()
    });
    let (otx, orx) = std::sync::mpsc::channel();
    let f: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
        let r = b();
        let _ = otx.send(r);
    });
    // SAFETY: the result is waited for below.
    let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
    tx.send(f).unwrap();
    let ra = a();
    let (rb, v) = orx.recv().expect("the partner");
    (ra, rb, v)
}

/// Interrupted reallocations keep the contents.
fn realloc<S: 'static>(c: &mut Case) {
    let mut place = Placed::<S>::new(Bump::uninit(), &mut c.rng);
    let cap = std::mem::size_of::<S>();
    let old = Layout::from_size_align(c.rng.range(1, (cap / 3).max(1)), 1 << c.rng.below(4)).unwrap();
    let new = c.rng.range(1, (cap / 2).max(1));
    let between = c.rng.below(3);
    let inner: Vec<(usize, usize, bool)> = (0..c.rng.range(1, 3)).map(|_| (c.rng.range(1, (cap / 6).max(1)), 1 << c.rng.below(4), c.rng.chance(1, 3))).collect();
    let zeroed = c.rng.chance(1, 4);
    c.step(format!("{:?} to {}, interrupted by {:?}{}", old, new, inner, if zeroed { ", zeroed" } else { "" }));
    let mut total = None;
    let mut at = 0;
    let most = if c.thorough { 1000 } else { 90 };
    let mut todo: Vec<u64> = vec![];
    loop {
        place.get_mut().reset();
        let b = place.get();
        let (lo, hi) = (b as *const _ as usize, b as *const _ as usize + std::mem::size_of::<Bump<S>>());
        let mut got: Vec<(usize, usize, u64)> = vec![];
        // SAFETY: layouts are not empty; memory is used while the Bump lives.
        unsafe {
            let fill = |p: *mut u8, n: usize, tag: u64| std::ptr::copy_nonoverlapping(pattern(tag, n).as_ptr(), p, n);
            let p = GlobalAlloc::alloc(b, old);
            if p.is_null() {
                return;
            }
            fill(p, old.size(), 1);
            if between == 1 {
                let q = GlobalAlloc::alloc(b, Layout::new::<u8>());
                if !q.is_null() {
                    fill(q, 1, 2);
                    got.push((q as usize, 1, 2));
                }
            }
            let mut more: Vec<(usize, usize, usize, u64, bool)> = vec![];
            let mut run = || {
                for (i, &(size, align, z)) in inner.iter().enumerate() {
                    let l = Layout::from_size_align(size, align).unwrap();
                    let q = if z { GlobalAlloc::alloc_zeroed(b, l) } else { GlobalAlloc::alloc(b, l) };
                    if !q.is_null() {
                        let clean = !z || (0..size).all(|k| q.add(k).read() == 0);
                        fill(q, size, 100 + i as u64);
                        more.push((q as usize, size, align, 100 + i as u64, clean));
                    }
                }
            };
            let r;
            {
                let st = Steps::new(if total.is_some() { at } else { u64::MAX }, total.is_none(), &mut run);
                st.begin();
                r = if zeroed { GlobalAlloc::alloc_zeroed(b, Layout::from_size_align_unchecked(new, old.align())) } else { GlobalAlloc::realloc(b, p, old, new) };
                st.end();
                if total.is_none() {
                    ck!(!st.over(), "a reallocation does not end");
                    total = Some(st.count());
                    todo = points(c, st.count(), most);
                    c.add("instructions", st.count());
                } else if !st.fired() {
                    fail!("no interrupt");
                }
            }
            let text = format!("after {} of {:?} instructions", at, total);
            for &(q, n, align, tag, clean) in &more {
                ck!(q % align == 0 && clean, "region of an interrupt; {}", text);
                got.push((q, n, tag));
            }
            if zeroed {
                got.push((p as usize, old.size(), 1));
                if !r.is_null() {
                    ck!((0..new).all(|k| r.add(k).read() == 0), "zeroed memory has other bytes; {}", text);
                    fill(r, new, 3);
                    got.push((r as usize, new, 3));
                }
            } else if !r.is_null() {
                ck!(r as usize % old.align() == 0, "misaligned; {}", text);
                let keep = old.size().min(new);
                ck!(differs(r, &pattern(1, old.size())[..keep]).is_none(), "contents of a reallocation; {}", text);
                fill(r, new, 3);
                got.push((r as usize, new, 3));
                c.count("reallocations interrupted");
            } else {
                got.push((p as usize, old.size(), 1));
                c.count("reallocations refused");
            }
            got.sort();
            for w in got.windows(2) {
                ck!(w[0].0 + w[0].1 <= w[1].0, "regions overlap: {:?}; {}", w, text);
            }
            for &(q, n, tag) in &got {
                ck!(q >= lo && q + n <= hi, "outside; {}", text);
                ck!(differs(q as *const u8, &pattern(tag, n)).is_none(), "contents of a region changed; {}", text);
            }
        }
        match todo.pop() {
            Some(k) => at = k,
            None => break,
        }
    }
    c.nontrivial();
}

macro_rules! any {
    ($c:expr, $f:ident) => {
        match $c.rng.below(6) {
            0 => $f::<[u8; 24]>($c),
            1 => $f::<[u64; 2]>($c),
            2 => $f::<[u64; 8]>($c),
            3 => $f::<[u16; 31]>($c),
            4 => $f::<[u8; 7]>($c),
            _ => $f::<[u64; 40]>($c),
        }
    };
}

fn main() {
    let mut m = Mon::start("C23");
    install();
    m.family("handler", 400, 0, |c| any!(c, handler));
    m.family("stopped", 160, 0, |c| any!(c, stopped));
    m.family("realloc", 200, 0, |c| match c.rng.below(3) {
        0 => realloc::<[u64; 8]>(c),
        1 => realloc::<[u8; 99]>(c),
        _ => realloc::<[u64; 40]>(c),
    });
    m.finish();
}
