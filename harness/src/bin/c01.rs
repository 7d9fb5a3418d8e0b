//! C01: regions a shared Bump hands out are apart, in bounds, aligned, and free of data races.
use harness::conc::*;
use harness::*;
use alloc_traits::{LocalAlloc, NonZeroLayout};
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// What a thread reports: its regions and what went wrong.
type Report = (Vec<Got>, Option<String>);

/// Run `f`; panics of the code under test are not what this is about, findings of an oracle are.
fn tried(wrong: &mut Option<String>, f: impl FnOnce()) {
    if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
        if e.is::<OracleFail>() && wrong.is_none() {
            *wrong = Some(payload_text(&*e));
        }
    }
}

fn judge(c: &mut Case, reports: Vec<Report>, base: usize, cap: usize) {
    let mut all = vec![];
    for (got, wrong) in reports {
        if let Some(w) = wrong {
            fail!("{}", w);
        }
        all.extend(got);
    }
    disjoint(&all, base, cap);
    for g in &all {
        // SAFETY: all threads are done.
        unsafe { g.check() }
    }
    c.add("regions", all.len() as u64);
    if all.len() > 1 {
        c.nontrivial();
    }
    c.obs(all.iter().fold(0, |h, g| mix(h ^ g.ptr.at().wrapping_sub(base) as u64 ^ g.tag)));
}

/// `rounds` fresh Bumps, on each of which all threads allocate at the same time.
fn duel<S: 'static>(c: &mut Case, rounds: usize, threads: usize, max_ops: usize) {
    let known = learn::<S>();
    let cap = known.cap;
    let bumps: Vec<Placed<S>> = (0..rounds).map(|_| Placed::new(Bump::uninit(), &mut c.rng)).collect();
    let jitter = *c.rng.pick(&[0, 0, 4, 40, 400]);
    let gate = Gate::new(threads);
    let seeds: Vec<Rng> = (0..threads).map(|_| c.rng.fork()).collect();
    let done: Vec<Vec<Report>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .into_iter()
            .enumerate()
            .map(|(th, mut rng)| {
                let (bumps, known, gate) = (&bumps, &known, &gate);
                s.spawn(move || {
                    let mut all = vec![];
                    for b in bumps {
                        let ops: Vec<Op> = (0..rng.range(1, max_ops)).map(|_| random_op(&mut rng, cap, true)).collect();
                        let mut u = User::new(th, known);
                        u.strict = false;
                        let mut wrong = None;
                        gate.pass();
                        tried(&mut wrong, || {
                            for op in ops {
                                delay(&mut rng, jitter);
                                u.run(b.get(), op, &|| 0);
                            }
                            u.check_contents();
                        });
                        all.push((u.got, wrong));
                    }
                    all
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| fail!("{}", payload_text(&*e)))).collect()
    });
    let mut per: Vec<Vec<Report>> = (0..rounds).map(|_| vec![]).collect();
    for d in done {
        d.into_iter().enumerate().for_each(|(i, r)| per[i].push(r));
    }
    for (i, reports) in per.into_iter().enumerate() {
        judge(c, reports, bumps[i].get() as *const _ as usize + known.offset, cap);
        bumps[i].check_guards();
        c.count("rounds");
    }
    c.step(format!("{} rounds of {} threads, up to {} operations, {} bytes, jitter {}", rounds, threads, max_ops, cap, jitter));
}

/// One Bump for many operations of many threads: regions change hands, grow, and are read all the time; then it is reset.
fn mix_up<S: 'static>(c: &mut Case, place: &mut Placed<S>, threads: usize, steps: usize) {
    let known = learn::<S>();
    let cap = known.cap;
    for round in 0..c.rng.range(1, 3) {
        if round > 0 {
            place.get_mut().reset();
            c.count("reused after reset");
        }
        let b = place.get();
        let base = b as *const _ as usize + known.offset;
        let jitter = *c.rng.pick(&[0, 4, 40]);
        let large = c.rng.chance(1, 4);
        let pool: Mutex<Vec<Got>> = Mutex::new(vec![]);
        let gate = Gate::new(threads);
        let seeds: Vec<Rng> = (0..threads).map(|_| c.rng.fork()).collect();
        let reports: Vec<(Report, u64, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .into_iter()
                .enumerate()
                .map(|(th, mut rng)| {
                    let (known, gate, pool) = (&known, &gate, &pool);
                    s.spawn(move || {
                        let mut u = User::new(th, known);
                        u.strict = false;
                        let (mut wrong, mut moved, mut taken) = (None, 0, 0);
                        // The places grown out of are not handed out again either.
                        let mut old: Vec<Got> = vec![];
                        gate.pass();
                        for _ in 0..steps {
                            delay(&mut rng, jitter);
                            tried(&mut wrong, || match rng.below(10) {
                                0..=5 => {
                                    let op = random_op(&mut rng, if large { cap } else { cap.min(200) }, true);
                                    u.run(b, op, &|| 0);
                                }
                                6 => {
                                    if u.got.is_empty() {
                                        return;
                                    }
                                    let i = rng.below(u.got.len());
                                    if u.got[i].freed {
                                        return;
                                    }
                                    let mut g = u.got.swap_remove(i);
                                    let size = rng.range(1, 2 * g.size);
                                    let layout = Layout::from_size_align(g.size, g.align).unwrap();
                                    let to = Layout::from_size_align(size, g.align).unwrap();
                                    // SAFETY: the layout it was asked for, or given since.
                                    let p = unsafe {
                                        if rng.chance(1, 2) {
                                            GlobalAlloc::realloc(b, g.ptr.0, layout, size)
                                        } else {
                                            let nz = |l: Layout| NonZeroLayout::from_layout(l.into()).unwrap();
                                            let a = alloc_traits::Allocation {
                                                ptr: std::ptr::NonNull::new(g.ptr.0).unwrap(),
                                                layout: nz(layout),
                                                lifetime: Default::default(),
                                            };
                                            LocalAlloc::realloc(b, a, nz(to)).map_or(std::ptr::null_mut(), |a| a.ptr.as_ptr())
                                        }
                                    };
                                    if p.is_null() {
                                        u.got.push(g);
                                        return;
                                    }
                                    ck!(p as usize % g.align == 0, "reallocated to +{} for alignment {}", p as usize - base, g.align);
                                    moved += 1;
                                    let keep = g.size.min(size);
                                    // SAFETY: that much was preserved.
                                    if let Some(k) = unsafe { regions::differs(p, &regions::pattern(g.tag, g.size)[..keep]) } {
                                        fail!("byte {} of {} differs after a reallocation", k, keep);
                                    }
                                    let before = g.clone();
                                    g.ptr = P(p);
                                    g.size = size;
                                    u.next_tag += 1;
                                    // SAFETY: ours.
                                    unsafe { g.rewrite(u.next_tag) };
                                    if p != before.ptr.0 {
                                        let inside = |x: usize| x >= p as usize && x < p as usize + size;
                                        ck!(!inside(before.ptr.at()) && !inside(before.ptr.at() + before.size - 1), "reallocated to a place that overlaps the old one");
                                        old.push(before);
                                    }
                                    u.got.push(g);
                                }
                                7 => {
                                    if let Some(g) = u.got.pop() {
                                        pool.lock().unwrap().push(g);
                                    }
                                }
                                8 => {
                                    if let Some(mut g) = pool.lock().unwrap().pop() {
                                        taken += 1;
                                        // SAFETY: given by another thread.
                                        unsafe {
                                            g.check();
                                            u.next_tag += 1;
                                            if !g.freed {
                                                g.rewrite(u.next_tag);
                                            }
                                        }
                                        u.got.push(g);
                                    }
                                }
                                _ => u.check_contents(),
                            });
                        }
                        tried(&mut wrong, || u.check_contents());
                        u.got.extend(old);
                        ((u.got, wrong), moved, taken)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| fail!("{}", payload_text(&*e)))).collect()
        });
        let mut rs = vec![(pool.into_inner().unwrap(), None)];
        for (r, moved, taken) in reports {
            c.add("reallocated", moved);
            c.add("taken over from another thread", taken);
            rs.push(r);
        }
        c.step(format!("{} threads with {} steps on {} bytes, jitter {}", threads, steps, cap, jitter));
        judge(c, rs, base, cap);
        place.check_guards();
    }
}

static FIXED: Bump<[u64; 4096]> = Bump::uninit();
static SMALL: Bump<[u8; 301]> = Bump::uninit();

/// Never reset: its regions of all cases are kept apart.
fn statics(c: &mut Case) {
    fn on<S>(c: &mut Case, b: &'static Bump<S>, kept: &Mutex<Vec<Got>>) {
        let known = learn::<S>();
        let base = b as *const _ as usize + known.offset;
        let threads = c.rng.range(2, 3);
        let gate = Gate::new(threads);
        let seeds: Vec<Rng> = (0..threads).map(|_| c.rng.fork()).collect();
        let rs: Vec<Report> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .into_iter()
                .enumerate()
                .map(|(th, mut rng)| {
                    let (known, gate) = (&known, &gate);
                    s.spawn(move || {
                        let mut u = User::new(th, known);
                        u.strict = false;
                        u.next_tag = rng.u64() >> 20;
                        let mut wrong = None;
                        gate.pass();
                        tried(&mut wrong, || {
                            for _ in 0..4 {
                                let op = random_op(&mut rng, 60, true);
                                u.run(b, op, &|| 0);
                            }
                        });
                        (u.got, wrong)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| fail!("{}", payload_text(&*e)))).collect()
        });
        let mut k = kept.lock().unwrap_or_else(|e| e.into_inner());
        for (got, wrong) in rs {
            if let Some(w) = wrong {
                fail!("{}", w);
            }
            k.extend(got);
        }
        disjoint(&k, base, known.cap);
        for g in k.iter() {
            // SAFETY: all threads are done.
            unsafe { g.check() }
        }
        c.count("statics");
        c.nontrivial();
        c.step(format!("{} threads on a static, {} regions so far", threads, k.len()));
    }
    static KEPT: [Mutex<Vec<Got>>; 2] = [Mutex::new(vec![]), Mutex::new(vec![])];
    if c.rng.chance(2, 3) {
        on(c, &FIXED, &KEPT[0])
    } else {
        on(c, &SMALL, &KEPT[1])
    }
}

fn any_duel(c: &mut Case, rounds: usize, threads: usize, ops: usize) {
    match c.rng.below(7) {
        0 => duel::<[u8; 24]>(c, rounds, threads, ops),
        1 => duel::<[u64; 2]>(c, rounds, threads, ops),
        2 => duel::<[u64; 8]>(c, rounds, threads, ops),
        3 => duel::<[u16; 31]>(c, rounds, threads, ops),
        4 => duel::<W32>(c, rounds, threads, ops),
        5 => duel::<[u8; 7]>(c, rounds, threads, ops),
        _ => duel::<[u64; 40]>(c, rounds, threads, ops),
    }
}

fn main() {
    let mut m = Mon::start("C01");
    m.family("duel", 250, 12, |c| {
        let n = c.rng.range(2, 3);
        any_duel(c, if MIRI { 4 } else { 200 }, n, 3)
    });
    m.family("crowd", 100, 4, |c| {
        let (rounds, n) = if MIRI { (2, 4) } else { (40, c.rng.range(4, 8)) };
        any_duel(c, rounds, n, if MIRI { 4 } else { 10 })
    });
    m.family("mix", 250, 8, |c| {
        let (n, steps) = if MIRI { (c.rng.range(2, 3), 25) } else { (c.rng.range(2, 6), 200) };
        match c.rng.below(4) {
            0 => {
                let mut p = Placed::<[u64; 300]>::new(Bump::uninit(), &mut c.rng);
                mix_up(c, &mut p, n, steps)
            }
            1 => {
                let mut p = Placed::<[u8; 2001]>::new(Bump::uninit(), &mut c.rng);
                mix_up(c, &mut p, n, steps)
            }
            2 => {
                let mut p = Placed::<[W32; 80]>::new(Bump::uninit(), &mut c.rng);
                mix_up(c, &mut p, n, steps)
            }
            _ => {
                let mut p = Placed::<[u64; 1500]>::new(Bump::zeroed(), &mut c.rng);
                mix_up(c, &mut p, n, steps)
            }
        }
    });
    m.family("statics", 100, 4, statics);
    m.finish();
}
