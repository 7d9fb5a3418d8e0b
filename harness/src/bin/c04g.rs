//! C04: this whole process, the monitor included, lives in a Bump.
use harness::work::work;
use harness::*;
use static_alloc::Bump;
use std::sync::Mutex;

const SIZE: usize = if MIRI { 1 << 22 } else { 1 << 29 };

#[global_allocator]
static A: Bump<[u8; SIZE]> = Bump::uninit();

static SEEN: Mutex<Vec<(u64, (u64, u64))>> = Mutex::new(Vec::new());

fn program(c: &mut Case) {
    // Repeated programs give the same results, in spite of the used memory growing.
    let seed = mix(c.idx / 2);
    let r = work(&mut Rng::new(seed), if c.miri { 3 } else { 8 }, true);
    c.step(format!("digest {:x}", r.0));
    let mut seen = SEEN.lock().unwrap();
    if let Some((_, old)) = seen.iter().find(|s| s.0 == seed) {
        ck_eq!(r, *old, "outcome of a repeated program");
        c.count("repeated");
    }
    seen.push((seed, r));
    let b: Box<[u64; 9]> = Box::new([c.idx; 9]);
    let at = &*b as *const _ as usize;
    let lo = &A as *const _ as usize;
    ck!(at > lo && at < lo + SIZE + 64, "the process does not live in the Bump");
    c.count("programs");
    c.nontrivial();
}

fn main() {
    let mut m = Mon::start("C04");
    m.family("program", 200, 6, program);
    m.finish()
}
