//! A deterministic program over the standard collections, whose outcome does not depend on where its memory comes from.
use crate::{mix, Rng};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BinaryHeap, HashMap, LinkedList, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

pub struct Digest(pub u64, pub u64);
impl Digest {
    fn put(&mut self, v: impl Hash) {
        let mut h = DefaultHasher::new();
        v.hash(&mut h);
        self.0 = mix(self.0 ^ h.finish());
        self.1 += 1;
    }
}

#[repr(align(64))]
#[derive(Clone)]
struct Wide([u8; 64]);

trait Shape {
    fn area(&self) -> u64;
}
impl Shape for u64 {
    fn area(&self) -> u64 {
        *self
    }
}
impl Shape for Wide {
    fn area(&self) -> u64 {
        assert!(self as *const _ as usize % 64 == 0, "misaligned");
        self.0.iter().map(|&b| b as u64).sum()
    }
}
impl Shape for String {
    fn area(&self) -> u64 {
        self.len() as u64
    }
}

/// Some rounds of one kind of work.
pub fn work(rng: &mut Rng, rounds: usize, threads: bool) -> (u64, u64) {
    let mut d = Digest(1, 0);
    let mut kept: Vec<Vec<u64>> = vec![];
    for _ in 0..rounds {
        let n = rng.range(1, if crate::MIRI { 12 } else { 120 });
        match rng.below(if threads { 13 } else { 12 }) {
            0 => {
                // Grow, shrink, grow again; several vectors side by side.
                let mut v: Vec<Vec<u64>> = (0..3).map(|_| Vec::new()).collect();
                for i in 0..n as u64 {
                    v[(i % 3) as usize].push(i * 3);
                    if rng.chance(1, 20) {
                        let w = &mut v[rng.below(3)];
                        w.truncate(w.len() / 2);
                        w.shrink_to_fit();
                    }
                    if rng.chance(1, 20) {
                        v[rng.below(3)].reserve_exact(rng.below(40));
                    }
                }
                for w in &v {
                    d.put(w);
                    d.put(w.capacity());
                }
                kept.push(v.swap_remove(1));
            }
            1 => {
                let mut s = String::new();
                for i in 0..n {
                    s.push_str(&format!("{}-", i * 7));
                    if rng.chance(1, 30) {
                        s.shrink_to_fit();
                    }
                }
                d.put(&s);
                d.put(s.into_boxed_str().len());
            }
            2 => {
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = rng.below(50);
                    if rng.chance(1, 3) {
                        d.put(m.remove(&k));
                    } else {
                        d.put(m.insert(k, vec![k as u16; k % 9]));
                    }
                }
                for kv in &m {
                    d.put(kv);
                }
            }
            3 => {
                let mut m: HashMap<String, u64, BuildHasherDefault<DefaultHasher>> = HashMap::default();
                for i in 0..n as u64 {
                    *m.entry(rng.below(40).to_string()).or_insert(0) += i;
                    if rng.chance(1, 25) {
                        m.shrink_to_fit();
                    }
                }
                let mut all: Vec<_> = m.into_iter().collect();
                all.sort();
                d.put(all);
            }
            4 => {
                // Zeroed, after other memory was dirtied and released.
                drop(vec![0xFFu8; n * 3]);
                let z = vec![0u8; n * 3];
                d.put(z.iter().map(|&b| b as u64).sum::<u64>());
                let z = vec![0u128; n];
                d.put(z.iter().sum::<u128>());
                let z: Vec<Option<Box<u8>>> = vec![None; n];
                d.put(z.iter().all(|x| x.is_none()));
            }
            5 => {
                let mut q = VecDeque::new();
                for i in 0..n as u32 {
                    q.push_back(i);
                    if i % 3 == 0 {
                        q.push_front(i + 1000);
                    }
                    if rng.chance(1, 4) {
                        d.put(q.pop_front());
                    }
                    if rng.chance(1, 30) {
                        q.make_contiguous();
                        q.shrink_to_fit();
                    }
                }
                d.put(&q);
            }
            6 => {
                let shapes: Vec<Box<dyn Shape>> = (0..n)
                    .map(|i| match i % 3 {
                        0 => Box::new(i as u64) as Box<dyn Shape>,
                        1 => Box::new(Wide([i as u8; 64])),
                        _ => Box::new("x".repeat(i)),
                    })
                    .collect();
                d.put(shapes.iter().map(|s| s.area()).collect::<Vec<_>>());
            }
            7 => {
                let a: Rc<[u64]> = (0..n as u64).collect();
                let b: Arc<str> = "abc".repeat(n % 20).into();
                let w = Rc::downgrade(&a);
                d.put((&a, &b, w.upgrade().is_some()));
                drop(a);
                d.put(w.upgrade().is_none());
            }
            8 => {
                let mut v: Vec<String> = (0..n).map(|i| (mix(i as u64) % 1000).to_string()).collect();
                v.sort();
                d.put(&v);
                v.dedup_by_key(|s| s.len());
                d.put(&v);
                let mut h: BinaryHeap<_> = v.into_iter().collect();
                d.put(h.pop());
            }
            9 => {
                let mut l = LinkedList::new();
                for i in 0..n {
                    l.push_back(Wide([i as u8; 64]));
                }
                d.put(l.iter().map(|w| w.area()).sum::<u64>());
                d.put(l.split_off(n / 2).len());
            }
            10 => {
                // Vectors of over-aligned elements move as they grow.
                let mut v = vec![];
                for i in 0..n {
                    v.push(Wide([i as u8; 64]));
                    assert!(v.as_ptr() as usize % 64 == 0, "misaligned");
                }
                d.put(v.iter().map(|w| w.area()).collect::<Vec<_>>());
                v.truncate(3);
                v.shrink_to_fit();
                d.put(v.iter().map(|w| w.area()).collect::<Vec<_>>());
            }
            11 => {
                if let Some(mut v) = kept.pop() {
                    v.extend(0..n as u64);
                    v.splice(0..v.len() / 2, [7, 8, 9]);
                    d.put(&v);
                    kept.push(v);
                }
            }
            _ => {
                let seed = rng.u64();
                let hs: Vec<_> = (0..3)
                    .map(|i| std::thread::spawn(move || work(&mut Rng::new(seed ^ i), 2, false)))
                    .collect();
                for h in hs {
                    d.put(h.join().unwrap());
                }
            }
        }
    }
    // What was kept across all of it.
    d.put(&kept);
    (d.0, d.1)
}
