//! C21: comparisons, hashes, formatting and borrowing see through the pointers.
use harness::*;
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::boxed::Box as WBox;
use without_alloc::rc::Rc as WRc;
use without_alloc::FixedVec;

/// Every operator answers for itself, depending on both operands and their order.
#[derive(Clone, Copy)]
struct Weird(u32, u32);

impl Weird {
    fn ask(&self, op: u64, o: &Weird) -> u64 {
        mix(op.wrapping_mul(0x1234_5678_9abc_def1) ^ ((self.0 as u64) << 32 | o.0 as u64) ^ (self.1 as u64) << 17) >> 7
    }
    fn order(n: u64) -> Ordering {
        [Ordering::Less, Ordering::Equal, Ordering::Greater][(n % 3) as usize]
    }
}
impl PartialEq for Weird {
    fn eq(&self, o: &Weird) -> bool {
        self.ask(1, o) % 2 == 0
    }
    fn ne(&self, o: &Weird) -> bool {
        self.ask(2, o) % 2 == 0
    }
}
impl Eq for Weird {}
impl PartialOrd for Weird {
    fn partial_cmp(&self, o: &Weird) -> Option<Ordering> {
        match self.ask(3, o) % 4 {
            3 => None,
            n => Some(Weird::order(n)),
        }
    }
    fn lt(&self, o: &Weird) -> bool {
        self.ask(4, o) % 2 == 0
    }
    fn le(&self, o: &Weird) -> bool {
        self.ask(5, o) % 2 == 0
    }
    fn gt(&self, o: &Weird) -> bool {
        self.ask(6, o) % 2 == 0
    }
    fn ge(&self, o: &Weird) -> bool {
        self.ask(7, o) % 2 == 0
    }
}
impl Ord for Weird {
    fn cmp(&self, o: &Weird) -> Ordering {
        Weird::order(self.ask(8, o))
    }
}
impl Hash for Weird {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self.0 % 4 {
            0 => h.write(&self.0.to_ne_bytes()[..(self.1 % 5) as usize]),
            1 => h.write_u128(self.0 as u128),
            2 => {
                h.write_u8(self.0 as u8);
                h.write_isize(self.1 as isize)
            }
            _ => (),
        }
    }
}

fn show(kind: &str, id: u32, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "{} {} w{:?} p{:?} a{} s{}{} z{} {:?} <{:?}>", kind, id, f.width(), f.precision(), f.alternate(), f.sign_plus(), f.sign_minus(),
        f.sign_aware_zero_pad(), f.align().map(|a| match a {
            fmt::Alignment::Left => 'l',
            fmt::Alignment::Right => 'r',
            fmt::Alignment::Center => 'c',
        }), f.fill())?;
    if id % 7 == 3 {
        return Err(fmt::Error);
    }
    // Whether hexadecimal debugging was asked for shows in what integers do.
    fmt::Debug::fmt(&(id + 200), f)
}
impl fmt::Debug for Weird {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        show("debug", self.0, f)
    }
}
impl fmt::Display for Weird {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        show("display", self.0, f)
    }
}

/// Orders by a part only; a reference count inside (`Rc`-like drop behaviour is the ledger's affair).
#[derive(Clone, Debug)]
struct Keyed {
    key: u16,
    other: u64,
}
impl PartialEq for Keyed {
    fn eq(&self, o: &Keyed) -> bool {
        self.key == o.key
    }
}
impl Eq for Keyed {}
impl PartialOrd for Keyed {
    fn partial_cmp(&self, o: &Keyed) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Keyed {
    fn cmp(&self, o: &Keyed) -> Ordering {
        // Reversed.
        o.key.cmp(&self.key)
    }
}
impl Hash for Keyed {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.key.hash(h)
    }
}
impl fmt::Display for Keyed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(&self.key.to_string())?;
        fmt::LowerHex::fmt(&self.other, f)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Unit;
impl fmt::Display for Unit {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("unit")
    }
}

/// Remembers what was fed to it.
#[derive(Default)]
struct Tape(Vec<(&'static str, Vec<u8>)>);
macro_rules! tape {
    ($($f:ident $t:ty),*) => { $(fn $f(&mut self, v: $t) { self.0.push((stringify!($f), v.to_ne_bytes().to_vec())); })* };
}
impl Hasher for Tape {
    fn write(&mut self, b: &[u8]) {
        self.0.push(("write", b.to_vec()))
    }
    tape!(write_u8 u8, write_u16 u16, write_u32 u32, write_u64 u64, write_u128 u128, write_usize usize,
          write_i8 i8, write_i16 i16, write_i32 i32, write_i64 i64, write_i128 i128, write_isize isize);
    fn finish(&self) -> u64 {
        0
    }
}

fn hashed<T: Hash + ?Sized>(t: &T) -> (u64, Vec<(&'static str, Vec<u8>)>) {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    let mut tape = Tape::default();
    t.hash(&mut tape);
    (d.finish(), tape.0)
}

/// All the formats; `None` where formatting reports an error.
fn debugs<T: fmt::Debug + ?Sized>(t: &T) -> Vec<Option<String>> {
    use fmt::Write;
    let mut v = vec![];
    macro_rules! f { ($($s:literal)*) => { $({ let mut o = String::new(); let r = write!(o, $s, t); v.push(r.ok().map(|_| o.clone())); v.push(Some(o)); if MIRI && v.len() >= 7 { return v; } })* } }
    for room in [0, 2, 7] {
        v.push(Some(cut(room, format_args!("{:?}", t))));
    }
    f!("{:?}" "{:#?}" "{:12?}" "{:<12?}" "{:*^20?}" "{:+?}" "{:08.3?}" "{:x?}" "{:#X?}" "{:.1?}" "{:-?}");
    v
}
fn displays<T: fmt::Display + ?Sized>(t: &T) -> Vec<Option<String>> {
    use fmt::Write;
    let mut v = vec![];
    macro_rules! f { ($($s:literal)*) => { $({ let mut o = String::new(); let r = write!(o, $s, t); v.push(r.ok().map(|_| o.clone())); v.push(Some(o)); if MIRI && v.len() >= 7 { return v; } })* } }
    for room in [0, 2, 7] {
        v.push(Some(cut(room, format_args!("{}", t))));
    }
    f!("{}" "{:#}" "{:12}" "{:<12}" "{:*^20}" "{:+}" "{:08.3}" "{:.1}" "{:-}");
    assert_eq!(t.to_string_or_err(), v[3]);
    v
}
trait ToStr {
    fn to_string_or_err(&self) -> Option<String>;
}
impl<T: fmt::Display + ?Sized> ToStr for T {
    fn to_string_or_err(&self) -> Option<String> {
        use fmt::Write;
        let mut o = String::new();
        write!(o, "{}", self).ok().map(|_| o)
    }
}
fn pointers<T: fmt::Pointer>(t: &T) -> Vec<String> {
    let mut v = vec![format!("{:p}", *t), format!("{:#p}", *t), format!("{:30p}", *t), format!("{:<30p}", *t), format!("{:030p}", *t)];
    for room in [0, 1, 6] {
        v.push(cut(room, format_args!("{:p}", *t)));
        v.push(cut(room, format_args!("{:24p}", *t)));
    }
    v
}

/// What arrives in a place with that much room, and whether the lack of it was reported.
fn cut(room: usize, args: fmt::Arguments<'_>) -> String {
    struct Cut(usize, String);
    impl fmt::Write for Cut {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            for c in s.chars() {
                self.0 = self.0.checked_sub(1).ok_or(fmt::Error)?;
                self.1.push(c);
            }
            Ok(())
        }
    }
    let mut to = Cut(room, String::new());
    let r = fmt::write(&mut to, args);
    format!("{} {:?}", to.1, r)
}

/// (eq, ne, partial_cmp, lt, le, gt, ge) through operators and methods.
type Rel = (bool, bool, Option<Ordering>, bool, bool, bool, bool);
fn rel<A: PartialOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> Rel {
    (a == b, a != b, a.partial_cmp(b), a < b, a <= b, a > b, a >= b)
}

macro_rules! same {
    ($c:expr, $what:literal, $a:expr, $b:expr) => {
        match (&$a, &$b) {
            (a, b) => ck!(a == b, "{}: through the pointer {:?}, on the values {:?}", $what, a, b),
        }
    };
}

/// The part that needs only a partial order.
fn partial<T: Clone + PartialOrd + fmt::Debug + fmt::Display + 'static>(c: &mut Case, mk: &dyn Fn(&mut Rng) -> T) {
    let mem: Bump<[u64; 600]> = Bump::uninit();
    let mem2: Bump<[u64; 600]> = Bump::uninit();
    for _ in 0..if c.miri { 1 } else { 6 } {
        let (x, y) = (mk(&mut c.rng), mk(&mut c.rng));
        let y = if c.rng.chance(1, 4) { x.clone() } else { y };
        c.step(format!("({:?})", std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{:?} {:?}", x, y))).unwrap_or_default()));
        let want = rel(&x, &y);
        c.count(match want.2 {
            None => "incomparable",
            Some(Ordering::Equal) => "equal",
            _ => "ordered",
        });
        let (a, b) = (mem.boxed(x.clone()).unwrap(), mem2.boxed(y.clone()).unwrap());
        same!(c, "Box comparisons", rel(&a, &b), want);
        same!(c, "Box compared the other way", rel(&b, &a), rel(&y, &x));
        #[allow(clippy::eq_op)]
        {
            same!(c, "Box compared to itself", rel(&a, &a), rel(&x, &x));
        }
        let (a, b) = (mem.rc(x.clone()).unwrap(), mem2.rc(y.clone()).unwrap());
        same!(c, "Rc comparisons", rel(&a, &b), want);
        same!(c, "Rc compared the other way", rel(&b, &a), rel(&y, &x));
        same!(c, "Rc compared to its clone", rel(&a, &WRc::clone(&a)), rel(&x, &x));
        same!(c, "Rc compared to itself", rel(&a, &a), rel(&x, &x));
        same!(c, "Rc debug", debugs(&a), debugs(&x));
        same!(c, "Rc display", displays(&a), displays(&x));
        let p: *const T = &*a;
        same!(c, "Rc pointer", pointers(&a), pointers(&p));
        ck!(std::ptr::eq(<WRc<T> as AsRef<T>>::as_ref(&a), p) && std::ptr::eq(<WRc<T> as Borrow<T>>::borrow(&a), p), "Rc borrows something else");
        let mut a: WBox<T> = mem.boxed(x.clone()).unwrap();
        same!(c, "Box debug", debugs(&a), debugs(&x));
        let p: *const T = &*a;
        same!(c, "Box pointer", pointers(&a), pointers(&p));
        ck!(std::ptr::eq(AsRef::<T>::as_ref(&a), p) && std::ptr::eq(Borrow::<T>::borrow(&a), p), "Box borrows something else");
        ck!(std::ptr::eq(AsMut::<T>::as_mut(&mut a), p) && std::ptr::eq(BorrowMut::<T>::borrow_mut(&mut a), p) && std::ptr::eq(&mut *a, p),
            "Box mutably borrows something else");
        *AsMut::<T>::as_mut(&mut a) = y.clone();
        same!(c, "Box written through", debugs(&*a), debugs(&y));
        let mut a: LeakBox<T> = mem.leak_box(x.clone()).unwrap();
        same!(c, "LeakBox debug", debugs(&a), debugs(&x));
        same!(c, "LeakBox display", displays(&a), displays(&x));
        let p: *const T = &*a;
        same!(c, "LeakBox pointer", pointers(&a), pointers(&p));
        ck!(std::ptr::eq(AsRef::<T>::as_ref(&a), p) && std::ptr::eq(AsMut::<T>::as_mut(&mut a), p) && std::ptr::eq(&mut *a, p), "LeakBox borrows something else");
        *AsMut::<T>::as_mut(&mut a) = y.clone();
        same!(c, "LeakBox written through", debugs(&*a), debugs(&y));
        c.count("pairs");
    }
    // Slices behind vectors: related lengths and common prefixes.
    for _ in 0..if c.miri { 1 } else { 6 } {
        let n = c.rng.below(6);
        let xs: Vec<T> = (0..n).map(|_| mk(&mut c.rng)).collect();
        let mut ys = xs.clone();
        match c.rng.below(6) {
            0 => (),
            1 => ys.truncate(c.rng.below(n + 1)),
            2 => ys.push(mk(&mut c.rng)),
            3 if n > 0 => {
                let i = c.rng.below(n);
                ys[i] = mk(&mut c.rng)
            }
            _ => ys = (0..c.rng.below(6)).map(|_| mk(&mut c.rng)).collect(),
        }
        let arena: Bump<[u64; 200]> = Bump::uninit();
        let vec = |v: &Vec<T>, extra: usize| -> FixedVec<T> {
            let mut f = arena.fixed_vec::<T>(v.len() + extra).unwrap();
            ck!(f.fill(v.iter().cloned()).len() == 0, "not filled");
            f
        };
        let (ex, ey) = (c.rng.below(3), c.rng.below(3));
        c.step(format!("{}/{} {}/{}", xs.len(), ex, ys.len(), ey));
        let (mut a, b) = (vec(&xs, ex), vec(&ys, ey));
        let want = rel(&xs[..], &ys[..]);
        if want.2.is_none() {
            c.count("incomparable slices");
        }
        same!(c, "FixedVec comparisons", rel(&a, &b), want);
        same!(c, "FixedVec compared the other way", rel(&b, &a), rel(&ys[..], &xs[..]));
        same!(c, "FixedVec compared to itself", rel(&a, &a), rel(&xs[..], &xs[..]));
        let p: *const [T] = &*a;
        same!(c, "FixedVec contents", debugs(&*a), debugs(&xs[..]));
        ck!(p as *const T == a.as_ptr() && a.len() == xs.len(), "FixedVec dereferences to something else");
        ck!(std::ptr::eq(AsRef::<[T]>::as_ref(&a), p) && std::ptr::eq(Borrow::<[T]>::borrow(&a), p) && std::ptr::eq(a.as_slice(), p),
            "FixedVec borrows something else");
        ck!(std::ptr::eq(AsMut::<[T]>::as_mut(&mut a), p) && std::ptr::eq(BorrowMut::<[T]>::borrow_mut(&mut a), p)
            && std::ptr::eq(a.as_mut_slice(), p) && std::ptr::eq(&mut *a, p), "FixedVec mutably borrows something else");
        if n > 0 {
            let (i, y) = (c.rng.below(n), mk(&mut c.rng));
            a[i] = y.clone();
            let mut zs = xs.clone();
            zs[i] = y;
            same!(c, "FixedVec written through", debugs(&*a), debugs(&zs[..]));
            let j = c.rng.range(i, n);
            same!(c, "FixedVec indexed", debugs(&a[i..j]), debugs(&zs[i..j]));
            same!(c, "FixedVec indexed from", debugs(&a[i..]), debugs(&zs[i..]));
            same!(c, "FixedVec indexed to", debugs(&a[..=i]), debugs(&zs[..=i]));
            let at = a.as_ptr().wrapping_add(i);
            ck!(std::ptr::eq(&a[i], at) && std::ptr::eq(&mut a[i], at), "FixedVec indexes something else");
        }
        c.count("slices");
    }
    c.nontrivial();
}

/// The part that needs a total order and hashes.
fn total<T: Clone + Ord + Hash + fmt::Debug + 'static>(c: &mut Case, mk: &dyn Fn(&mut Rng) -> T, lawful: bool) {
    let mem: Bump<[u64; 900]> = Bump::uninit();
    for _ in 0..if c.miri { 1 } else { 6 } {
        let (x, y) = (mk(&mut c.rng), mk(&mut c.rng));
        let (a, b) = (mem.boxed(x.clone()).unwrap(), mem.boxed(y.clone()).unwrap());
        same!(c, "Box order", a.cmp(&b), x.cmp(&y));
        same!(c, "Box hash", hashed(&a), hashed(&x));
        let (a, b) = (mem.rc(x.clone()).unwrap(), mem.rc(y.clone()).unwrap());
        same!(c, "Rc order", a.cmp(&b), x.cmp(&y));
        same!(c, "Rc order with its clone", a.cmp(&WRc::clone(&a)), x.cmp(&x));
        same!(c, "Rc hash", hashed(&a), hashed(&x));
        let a = mem.leak_box(x.clone()).unwrap();
        same!(c, "LeakBox hash", hashed(&a), hashed(&x));
        let n = c.rng.below(4);
        let xs: Vec<T> = (0..n).map(|_| mk(&mut c.rng)).collect();
        let mut ys = xs.clone();
        if c.rng.chance(2, 3) {
            ys.truncate(c.rng.below(n + 1));
            ys.push(mk(&mut c.rng));
        }
        let arena: Bump<[u64; 100]> = Bump::uninit();
        let vec = |v: &Vec<T>, extra: usize| -> FixedVec<T> {
            let mut f = arena.fixed_vec::<T>(v.len() + extra).unwrap();
            ck!(f.fill(v.iter().cloned()).len() == 0, "not filled");
            f
        };
        let (a, b) = (vec(&xs, 1), vec(&ys, 0));
        same!(c, "FixedVec order", a.cmp(&b), xs[..].cmp(&ys[..]));
        same!(c, "FixedVec hash", hashed(&a), hashed(&xs[..]));
        same!(c, "FixedVec hash", hashed(&b), hashed(&ys[..]));
        c.step(format!("{}", hashed(&xs[..]).0 ^ hashed(&x).0 ^ hashed(&y).0.rotate_left(9)));
        c.count("hashed");
    }
    if !lawful {
        return;
    }
    // As keys.
    let keys: Vec<T> = (0..c.rng.range(1, if c.miri { 3 } else { 10 })).map(|_| mk(&mut c.rng)).collect();
    let mut want: BTreeMap<T, usize> = BTreeMap::new();
    let (mut bt, mut hb) = (BTreeMap::<WBox<T>, usize>::new(), HashMap::<WBox<T>, usize>::new());
    let (mut rt, mut hr) = (BTreeMap::<WRc<T>, usize>::new(), HashMap::<WRc<T>, usize>::new());
    for (i, k) in keys.iter().enumerate() {
        let old = want.insert(k.clone(), i);
        same!(c, "BTreeMap of Box", bt.insert(mem.boxed(k.clone()).unwrap(), i), old);
        same!(c, "HashMap of Box", hb.insert(mem.boxed(k.clone()).unwrap(), i), old);
        let rc = mem.rc(k.clone()).unwrap();
        same!(c, "BTreeMap of Rc", rt.insert(rc.clone(), i), old);
        same!(c, "HashMap of Rc", hr.insert(rc, i), old);
    }
    let order: Vec<usize> = want.values().copied().collect();
    same!(c, "order of the keys of a BTreeMap of Box", bt.values().copied().collect::<Vec<_>>(), order);
    same!(c, "order of the keys of a BTreeMap of Rc", rt.values().copied().collect::<Vec<_>>(), order);
    for _ in 0..if c.miri { 2 } else { 8 } {
        let k = if c.rng.chance(1, 2) { c.rng.pick(&keys).clone() } else { mk(&mut c.rng) };
        let w = want.get(&k);
        same!(c, "lookup in a BTreeMap of Box", bt.get::<T>(&k), w);
        same!(c, "lookup in a HashMap of Box", hb.get::<T>(&k), w);
        same!(c, "lookup in a BTreeMap of Rc", rt.get::<T>(&k), w);
        same!(c, "lookup in a HashMap of Rc", hr.get::<T>(&k), w);
        let b = mem.boxed(k.clone()).unwrap();
        same!(c, "lookup by a Box", bt.get(&b), w);
        same!(c, "lookup by a Box", hb.get(&b), w);
        same!(c, "range in a BTreeMap of Rc", rt.range::<T, _>(&k..).map(|x| *x.1).collect::<Vec<_>>(), want.range(&k..).map(|x| *x.1).collect::<Vec<_>>());
        c.count("lookups");
    }
    let rows: Vec<Vec<T>> = (0..if MIRI { 2 } else { 6 }).map(|_| (0..c.rng.below(3)).map(|_| mk(&mut c.rng)).collect()).collect();
    let big: Bump<[u64; 300]> = Bump::uninit();
    let (mut bs, mut hs, mut ws) = (BTreeSet::<FixedVec<T>>::new(), HashSet::<FixedVec<T>>::new(), BTreeSet::<Vec<T>>::new());
    for r in &rows {
        let mk = |extra| {
            let mut f = big.fixed_vec::<T>(r.len() + extra).unwrap();
            let _ = f.fill(r.iter().cloned());
            f
        };
        let w = ws.insert(r.clone());
        same!(c, "BTreeSet of FixedVec", bs.insert(mk(0)), w);
        same!(c, "HashSet of FixedVec", hs.insert(mk(2)), w);
    }
    ck!(bs.iter().map(|f| f.as_slice()).eq(ws.iter().map(|v| v.as_slice())), "order of a BTreeSet of FixedVec");
    for r in rows.iter().cloned().chain((0..4).map(|_| (0..c.rng.below(3)).map(|_| mk(&mut c.rng)).collect())).collect::<Vec<Vec<T>>>() {
        let w = ws.contains(&r);
        same!(c, "lookup in a BTreeSet of FixedVec", bs.contains::<[T]>(&r[..]), w);
        same!(c, "lookup in a HashSet of FixedVec", hs.contains::<[T]>(&r[..]), w);
        c.count("slice lookups");
    }
    // Sorting and extremes.
    let mut sorted = keys.clone();
    sorted.sort();
    let mut boxes: Vec<WRc<T>> = keys.iter().map(|k| mem.rc(k.clone()).unwrap()).collect();
    boxes.sort();
    ck!(boxes.iter().map(|b| &**b).eq(sorted.iter()), "sorting Rcs");
    let (lo, hi) = (sorted[0].clone(), sorted[sorted.len() - 1].clone());
    let k = mk(&mut c.rng);
    let w = |t: &T| mem.boxed(t.clone()).unwrap();
    ck!(*w(&k).max(w(&lo)) == k.clone().max(lo.clone()) && *w(&k).min(w(&hi)) == k.clone().min(hi.clone()), "max and min of boxes");
    ck!(*w(&k).clamp(w(&lo), w(&hi)) == k.clone().clamp(lo, hi), "clamp of boxes");
    c.count("keys");
}

/// Slices of thousands of elements, equal up to some place.
fn long<T: Clone + PartialOrd + fmt::Debug + 'static>(c: &mut Case, mk: &dyn Fn(&mut Rng) -> T, more: &dyn Fn(&FixedVec<T>, &FixedVec<T>, &[T], &[T])) {
    let n = 1 << c.rng.range(3, 12);
    let n = c.rng.range(1, n);
    let xs: Vec<T> = (0..n).map(|_| mk(&mut c.rng)).collect();
    for _ in 0..3 {
        let mut ys = xs.clone();
        let i = if c.rng.chance(1, 3) { n - 1 } else { c.rng.below(n) };
        let k = c.rng.below(5);
        match k {
            0 => (),
            1 => ys.truncate(i),
            2 => ys.push(mk(&mut c.rng)),
            3 => ys[i] = mk(&mut c.rng),
            _ => {
                ys.extend(xs[..i].iter().cloned());
                let j = c.rng.below(n);
                ys[j] = mk(&mut c.rng);
            }
        }
        c.step(format!("{} {} {}", n, ["same", "truncated", "pushed", "changed", "extended"][k], i));
        let mut mem: [Vec<std::mem::MaybeUninit<T>>; 2] = [0, 1].map(|_| (0..2 * n + 2).map(|_| std::mem::MaybeUninit::uninit()).collect());
        let [m, o] = &mut mem;
        let fill = |m, v: &Vec<T>| {
            let mut f = FixedVec::new(without_alloc::Uninit::from_maybe_uninit_slice(m));
            ck!(f.fill(v.iter().cloned()).len() == 0, "not filled");
            f
        };
        let extra = c.rng.below(3).min(2 * n + 2 - ys.len());
        let len = ys.len() + extra;
        let (a, b) = (fill(&mut m[..], &xs), fill(&mut o[..len], &ys));
        same!(c, "comparisons of long FixedVecs", rel(&a, &b), rel(&xs[..], &ys[..]));
        same!(c, "long FixedVecs compared the other way", rel(&b, &a), rel(&ys[..], &xs[..]));
        same!(c, "long FixedVec compared to itself", rel(&a, &a), rel(&xs[..], &xs[..]));
        ck!(a.len() == n && a.as_slice().as_ptr() == (&a[0]) as *const T && AsRef::<[T]>::as_ref(&a).len() == n && Borrow::<[T]>::borrow(&b).len() == ys.len(), "lengths of long FixedVecs");
        more(&a, &b, &xs, &ys);
        c.count("long slices");
    }
    c.nontrivial();
}

fn ordered<T: Ord + Hash>(a: &FixedVec<T>, b: &FixedVec<T>, xs: &[T], ys: &[T]) {
    same!(c, "order of long FixedVecs", a.cmp(b), xs.cmp(ys));
    same!(c, "hash of a long FixedVec", hashed(a), hashed(xs));
    same!(c, "hash of a long FixedVec", hashed(b), hashed(ys));
    same!(c, "max of long FixedVecs", a.max(b).len(), xs.max(ys).len());
}

/// Values of many bytes behind the pointers.
fn large<const N: usize>(c: &mut Case) {
    let mem: Bump<[u64; 8000]> = Bump::uninit();
    let fill = c.rng.u64() as u8;
    let mut x = [fill; N];
    let i = c.rng.below(N);
    x[i] ^= 1 + c.rng.below(255) as u8;
    let mut y = x;
    let j = if c.rng.chance(1, 3) { N - 1 } else { c.rng.below(N) };
    y[j] ^= c.rng.below(3) as u8;
    c.step(format!("{} bytes, differing at {}", N, j));
    let (a, b) = (mem.boxed(x).unwrap(), mem.boxed(y).unwrap());
    same!(c, "Boxes of large values", (rel(&a, &b), a.cmp(&b)), (rel(&x, &y), x.cmp(&y)));
    same!(c, "hash of a Box of a large value", hashed(&a), hashed(&x));
    let (a, b) = (mem.rc(x).unwrap(), mem.rc(y).unwrap());
    same!(c, "Rcs of large values", (rel(&a, &b), a.cmp(&b)), (rel(&x, &y), x.cmp(&y)));
    same!(c, "hash of an Rc of a large value", hashed(&b), hashed(&y));
    let b = mem.leak_box(y).unwrap();
    same!(c, "hash of a LeakBox of a large value", hashed(&b), hashed(&y));
    ck!(*b == y && format!("{:?}", b) == format!("{:?}", y), "contents of a LeakBox of a large value");
    // Long texts.
    let n = c.rng.below(9000);
    let mut t: String = (0..n).map(|k| char::from(b' ' + ((k as u64 ^ fill as u64) % 90) as u8)).collect();
    let w = t.clone();
    // SAFETY: exclusively borrowed, and dropping does nothing.
    let l: LeakBox<str> = unsafe { LeakBox::from_mut_unchecked(&mut t[..]) };
    ck!(format!("{}", l) == w && format!("{:?}", l) == format!("{:?}", w) && format!("{:12000}", l) == format!("{:12000}", w), "a long text");
    same!(c, "hash of a long text", hashed(&l), hashed(&w[..]));
    c.count("large values");
    c.nontrivial();
}

/// What the box of static-alloc shows of unsized contents.
fn unsized_boxes(c: &mut Case) {
    let n = c.rng.below(6);
    let mut xs: Vec<Weird> = (0..n).map(|_| Weird(c.rng.below(50) as u32, c.rng.below(50) as u32)).collect();
    c.step(format!("slice of {}", n));
    let want = xs.clone();
    let p = xs.as_mut_ptr();
    // SAFETY: initialised, exclusively borrowed, and dropping does nothing.
    let mut l: LeakBox<[Weird]> = unsafe { LeakBox::from_mut_unchecked(&mut xs[..]) };
    same!(c, "LeakBox of a slice: debug", debugs(&l), debugs(&want[..]));
    same!(c, "LeakBox of a slice: hash", hashed(&l), hashed(&want[..]));
    ck!(std::ptr::eq(l.as_ptr_of(), p) && l.len() == n && std::ptr::eq(AsRef::<[Weird]>::as_ref(&l), &*l) && std::ptr::eq(AsMut::<[Weird]>::as_mut(&mut l).as_ptr(), p),
        "LeakBox of a slice refers to something else");
    ck!(format!("{:p}", l).contains(&format!("{:x}", p as usize)), "LeakBox of a slice: pointer {:p} of {:?}", l, p);
    let mut text = format!("text {}", c.rng.below(1000));
    let want = text.clone();
    let p = text.as_ptr();
    // SAFETY: as before.
    let l: LeakBox<str> = unsafe { LeakBox::from_mut_unchecked(&mut text[..]) };
    same!(c, "LeakBox of a string: debug", debugs(&l), debugs(&want[..]));
    same!(c, "LeakBox of a string: display", displays(&l), displays(&want[..]));
    same!(c, "LeakBox of a string: hash", hashed(&l), hashed(&want[..]));
    ck!(format!("{:p}", l).contains(&format!("{:x}", p as usize)), "LeakBox of a string: pointer {:p} of {:?}", l, p);
    let mut k = Keyed { key: c.rng.below(1000) as u16, other: c.rng.u64() };
    let w = k.clone();
    let p = &mut k as *mut Keyed;
    // SAFETY: as before.
    let l: LeakBox<dyn fmt::Display> = unsafe { LeakBox::from_mut_unchecked(&mut k as &mut dyn fmt::Display) };
    same!(c, "LeakBox of a trait object: display", displays(&l), displays(&w));
    ck!(format!("{:p}", l).contains(&format!("{:x}", p as usize)), "LeakBox of a trait object: pointer {:p} of {:?}", l, p);
    c.count("unsized");
    c.nontrivial();
}
trait AsPtrOf {
    fn as_ptr_of(&self) -> *const Weird;
}
impl AsPtrOf for LeakBox<'_, [Weird]> {
    fn as_ptr_of(&self) -> *const Weird {
        (**self).as_ptr()
    }
}

fn main() {
    let mut m = Mon::start("C21");
    m.family("f64", 2000, 2, |c| {
        partial::<f64>(c, &|r| *r.pick(&[0.0, -0.0, 1.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.5, f64::MIN_POSITIVE]))
    });
    m.family("weird", 6000, 8, |c| {
        let mk = |r: &mut Rng| Weird(r.below(40) as u32, r.below(6) as u32);
        partial::<Weird>(c, &mk);
        total::<Weird>(c, &mk, false);
    });
    m.family("keyed", 3000, 6, |c| {
        let mk = |r: &mut Rng| Keyed { key: r.below(9) as u16, other: r.u64() };
        partial::<Keyed>(c, &mk);
        total::<Keyed>(c, &mk, true);
    });
    m.family("u8", 1500, 2, |c| {
        let mk = |r: &mut Rng| r.below(12) as u8 * 23;
        partial::<u8>(c, &mk);
        total::<u8>(c, &mk, true);
    });
    m.family("i64", 1500, 2, |c| {
        let mk = |r: &mut Rng| (r.below(14) as i64 - 7).wrapping_mul(0x1111_2222_3333_4444);
        partial::<i64>(c, &mk);
        total::<i64>(c, &mk, true);
    });
    m.family("string", 1000, 3, |c| {
        let mk = |r: &mut Rng| (0..r.below(4)).map(|_| *r.pick(&['a', 'b', 'é', '"'])).collect::<String>();
        partial::<String>(c, &mk);
        total::<String>(c, &mk, true);
    });
    m.family("unit", 300, 4, |c| {
        let mk = |_: &mut Rng| Unit;
        partial::<Unit>(c, &mk);
        total::<Unit>(c, &mk, true);
    });
    m.family("unsized", 1000, 5, unsized_boxes);
    m.family("large", 400, 3, |c| match c.idx % 4 {
        0 => large::<1>(c),
        1 => large::<300>(c),
        2 => large::<4096>(c),
        _ => large::<5001>(c),
    });
    if m.variant != "miri" {
        m.family("long", 600, 0, |c| match c.idx % 6 {
            0 => long::<u8>(c, &|r| r.below(3) as u8, &ordered),
            1 => long::<u64>(c, &|r| r.below(2) as u64 * u64::MAX, &ordered),
            2 => long::<Keyed>(c, &|r| Keyed { key: r.below(2) as u16, other: r.u64() }, &ordered),
            3 => long::<String>(c, &|r| (0..r.below(3)).map(|_| 'a').collect(), &ordered),
            // Partial orders, mostly equal elements.
            4 => long::<f64>(c, &|r| if r.chance(1, 2000) { f64::NAN } else { *r.pick(&[0.0, -0.0]) }, &|_, _, _, _| ()),
            _ => long::<Unit>(c, &|_| Unit, &ordered),
        });
    }
    m.finish()
}
