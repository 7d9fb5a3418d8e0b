//! C02: histories of threads running freely on one Bump are linearizable with exact accounting.
use harness::conc::*;
use harness::*;
use static_alloc::Bump;
use std::sync::atomic::{AtomicU64, Ordering::*};

/// `rounds` fresh Bumps, on each of which all threads run a program of their own at the same time.
fn duel<S: 'static>(c: &mut Case, rounds: usize, threads: usize, max_ops: usize) {
    let known = learn::<S>();
    let cap = known.cap;
    let bumps: Vec<Placed<S>> = (0..rounds).map(|_| Placed::new(Bump::uninit(), &mut c.rng)).collect();
    let jitter = *c.rng.pick(&[0, 0, 4, 40, 400]);
    let at_calls = c.rng.chance(3, 4);
    let prefill: Vec<usize> = (0..rounds).map(|_| if c.rng.chance(1, 2) { 0 } else { c.rng.range(0, cap) }).collect();
    let clock = AtomicU64::new(1);
    let gate = Gate::new(threads);
    let seeds: Vec<Rng> = (0..threads).map(|_| c.rng.fork()).collect();
    let done: Vec<Result<Vec<Vec<Rec>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .into_iter()
            .enumerate()
            .map(|(th, mut rng)| {
                let (bumps, known, clock, gate, prefill) = (&bumps, &known, &clock, &gate, &prefill);
                s.spawn(move || {
                    let stamp = || clock.fetch_add(1, SeqCst);
                    let (mut all, mut wrong) = (vec![], None);
                    for (r, b) in bumps.iter().enumerate() {
                        let ops: Vec<Op> = (0..rng.range(1, max_ops)).map(|_| random_op(&mut rng, cap, at_calls)).collect();
                        let mut u = User::new(th, known);
                        // An oracle that fails here must not keep the others waiting.
                        let mut guard = |f: &mut dyn FnMut()| {
                            if wrong.is_none() {
                                if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                                    let text = payload_text(&*e);
                                    wrong = Some(if e.is::<OracleFail>() { text } else { format!("unexpected panic: {} ({})", text, last_panic()) });
                                }
                            }
                        };
                        guard(&mut || {
                            if th == 0 && prefill[r] > 0 {
                                u.run(b.get(), Op::Alloc { size: prefill[r], align: 1, via: 0 }, &stamp);
                            }
                        });
                        gate.pass();
                        guard(&mut || {
                            for op in &ops {
                                delay(&mut rng, jitter);
                                u.run(b.get(), *op, &stamp);
                            }
                        });
                        gate.pass();
                        guard(&mut || u.check_contents());
                        all.push(u.recs);
                    }
                    if let Some(w) = wrong {
                        return Err(w);
                    }
                    Ok(all)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| Err(payload_text(&*e)))).collect()
    });
    let mut per: Vec<Vec<Rec>> = vec![vec![]; rounds];
    for d in done {
        match d {
            Ok(rs) => rs.into_iter().enumerate().for_each(|(i, r)| per[i].extend(r)),
            Err(e) => fail!("{}", e),
        }
    }
    for (i, recs) in per.iter().enumerate() {
        let b = bumps[i].get();
        bumps[i].check_guards();
        let base = b as *const _ as usize + known.offset;
        let before = c.log().len();
        if before < 1500 {
            c.step(print(recs, base, &known));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| linearize(recs, base, &known, b.level())));
        match r {
            Ok(s) => {
                c.add("histories", 1);
                c.add("successes", s.taken);
                c.add("refused", s.refused);
                c.add("exhausted", s.exhausted);
                c.add("mismatches", s.mismatches);
                c.add("level reads", s.reads);
                c.add("overlapping calls", s.overlapping);
                c.obs(recs.iter().fold(0, |h, r| mix(h ^ (r.th as u64 + 7 * r.size as u64 + 1000 * matches!(r.res, Res::Ok(..)) as u64))));
                if s.overlapping > 0 {
                    c.nontrivial();
                }
            }
            Err(e) => fail!("{}; history of {} bytes: {}", payload_text(&*e), cap, print(recs, base, &known)),
        }
    }
    c.step(format!("{} rounds of {} threads, up to {} operations, {} bytes, jitter {}", rounds, threads, max_ops, cap, jitter));
}

fn any(c: &mut Case, rounds: usize, threads: usize, ops: usize) {
    match c.rng.below(7) {
        0 => duel::<[u8; 24]>(c, rounds, threads, ops),
        1 => duel::<[u64; 2]>(c, rounds, threads, ops),
        2 => duel::<[u64; 8]>(c, rounds, threads, ops),
        3 => duel::<[u16; 31]>(c, rounds, threads, ops),
        4 => duel::<W32>(c, rounds, threads, ops),
        5 => duel::<[u8; 7]>(c, rounds, threads, ops),
        _ => duel::<[u64; 40]>(c, rounds, threads, ops),
    }
}

fn main() {
    let mut m = Mon::start("C02");
    m.family("duel", 220, 14, |c| {
        let rounds = if MIRI { 4 } else { 200 };
        let n = c.rng.range(2, 3);
        any(c, rounds, n, 3)
    });
    m.family("crowd", 80, 5, |c| {
        let (rounds, n) = if MIRI { (2, 4) } else { (40, c.rng.range(4, 8)) };
        any(c, rounds, n, if MIRI { 4 } else { 10 })
    });
    m.family("long", 60, 3, |c| {
        let (n, ops) = (c.rng.range(2, if MIRI { 3 } else { 6 }), if MIRI { 12 } else { 250 });
        match c.rng.below(2) {
            0 => duel::<[u64; 120]>(c, 2, n, ops),
            _ => duel::<[u8; 2001]>(c, 2, n, ops),
        }
    });
    m.finish();
}
