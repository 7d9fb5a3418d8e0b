//! Monitors shared by all property binaries: seeded case generation, oracle failures, a ledger of
//! value destruction, an interval oracle for handed out memory, and the report.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub mod books;
pub mod conc;
pub mod exit;
pub mod fv;
pub mod hostile;
#[cfg(target_pointer_width = "64")]
pub mod huge;
pub mod regions;
#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
pub mod step;
pub mod track;
pub mod types;
pub mod work;

// ---------------------------------------------------------------- random numbers

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Alignments of all sizes, mostly small ones.
pub fn some_align(rng: &mut Rng, small: usize) -> usize {
    match rng.below(12) {
        0 => 1 << rng.below(18),
        1 => 1 << rng.below(BITS - 2),
        _ => 1 << rng.below(small),
    }
}

/// Bits of a size, and a size of half of them: the monitors also run with 32 bits.
pub const BITS: usize = usize::BITS as usize;
pub const HALF: usize = 1 << (BITS / 2);

/// Element counts at which the size in bytes is barely representable, or wraps around to something small.
pub fn hostile_count(rng: &mut Rng, elem: usize) -> usize {
    let elem = elem.max(1);
    let near = rng.below(7).wrapping_sub(3);
    match rng.below(7) {
        0 => usize::MAX - rng.below(3),
        1 => (isize::MAX as usize / elem).wrapping_add(near),
        2 => (usize::MAX / elem).wrapping_add(near),
        // Wraps to a few elements' size.
        3 => (((rng.range(1, 7) as u128) << BITS) / elem as u128) as usize + rng.below(5),
        4 => (1usize << rng.range(BITS / 2, BITS - 1)).wrapping_add(near),
        5 => (usize::MAX / 2).wrapping_add(near),
        _ => HALF + rng.below(5),
    }
}

impl Rng {
    /// Sizes close to (few) multiples of powers of two, up to about `1 << top`.
    pub fn round(&mut self, top: usize) -> usize {
        let k = self.range(3, top);
        let times = [1, 1, 2, 3, 5, 7][self.below(6)];
        let near = [0, 0, 0, 1, 7, 8, 9, 15, 16, 24][self.below(10)];
        let n = (times << k) >> if times > 1 { 3 } else { 0 };
        if self.chance(1, 2) { n + near } else { n.saturating_sub(near) }
    }
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), mix(seed ^ 0xD1B5_4A32_D192_ED03) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1);
        mix(self.0)
    }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        &of[self.below(of.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

// ---------------------------------------------------------------- oracle failures

/// The payload of a panic raised by an oracle. Everything else that unwinds out of a case is an
/// unexpected panic of the code under test.
pub struct OracleFail(pub String);

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { ::std::panic::panic_any($crate::OracleFail(format!($($t)*))) };
}

/// Check a condition of the oracle.
#[macro_export]
macro_rules! ck {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*) } };
}

#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            $crate::fail!("{}: observed {:?}, expected {:?}", format!($($t)*), a, b)
        }
    }};
}

/// Run code of which a panic is an allowed outcome. Oracle failures pass through.
pub fn may_panic<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) if e.is::<OracleFail>() => resume_unwind(e),
        Err(e) => Err(e),
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    let verbose = std::env::var_os("MON_VERBOSE").is_some();
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if verbose {
            default(info);
        }
        let msg = payload_text(info.payload());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} at {}", msg, at);
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<OracleFail>() {
        s.0.clone()
    } else {
        "<non-string panic>".into()
    }
}

// ---------------------------------------------------------------- the monitor of one run

pub struct Mon {
    pub prop: String,
    pub variant: String,
    pub seed: u64,
    pub thorough: bool,
    scale: f64,
    shard: u64,
    shards: u64,
    only: Option<(String, u64)>,
    just: Option<String>,
    cur: Option<std::fs::File>,
    deadline: Instant,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    counts: BTreeMap<String, u64>,
    fam: BTreeMap<String, (u64, u64)>,
    violations: Vec<Violation>,
    truncated: bool,
}

struct Violation {
    family: String,
    case: u64,
    key: String,
    what: String,
    log: String,
}

/// One generated case.
pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub miri: bool,
    log: String,
    sig: u64,
    nontrivial: bool,
    key: String,
    counts: BTreeMap<&'static str, u64>,
}

impl Case {
    /// A case of its own for a helper thread.
    pub fn scratch(rng: Rng) -> Case {
        Case { rng, idx: 0, thorough: false, miri: MIRI, log: String::new(), sig: 0, nontrivial: false, key: String::new(), counts: BTreeMap::new() }
    }
    /// A long case is still getting somewhere.
    pub fn progress(&self) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
    }
    /// Note one step (goes into the case's signature and its printed form).
    pub fn step(&mut self, text: impl AsRef<str>) {
        let t = text.as_ref();
        self.sig = mix(self.sig ^ hash_str(t));
        if self.log.len() < 6000 {
            if !self.log.is_empty() {
                self.log.push_str("; ");
            }
            self.log.push_str(t);
        }
    }
    /// Add an observation to the signature only.
    pub fn obs(&mut self, v: u64) {
        self.sig = mix(self.sig ^ v.rotate_left(17));
    }
    /// The case exercised what the family is about.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn count(&mut self, what: &'static str) {
        *self.counts.entry(what).or_insert(0) += 1;
    }
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    /// Name the input class and call site for a violation found from here on.
    pub fn key(&mut self, key: impl Into<String>) {
        self.key = key.into();
    }
    pub fn log(&self) -> &str {
        &self.log
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub const MIRI: bool = cfg!(miri);

impl Mon {
    pub fn start(prop: &str) -> Mon {
        install_hook();
        let mut m = Mon {
            prop: prop.into(),
            variant: "native".into(),
            seed: 1,
            thorough: false,
            scale: 1.0,
            shard: 0,
            shards: 1,
            only: None,
            just: None,
            cur: None,
            deadline: Instant::now() + Duration::from_secs(100_000),
            evaluations: 0,
            nontrivial: HashSet::new(),
            samples: vec![],
            counts: BTreeMap::new(),
            fam: BTreeMap::new(),
            violations: vec![],
            truncated: false,
        };
        let mut args = std::env::args().skip(1);
        while let Some(a) = args.next() {
            let mut v = || args.next().expect("argument value");
            match a.as_str() {
                "--seed" => m.seed = v().parse().unwrap(),
                "--variant" => m.variant = v(),
                "--scale" => m.scale = v().parse().unwrap(),
                "--tier" => m.thorough = v() == "thorough",
                "--shard" => {
                    let s = v();
                    let (a, b) = s.split_once('/').unwrap();
                    m.shard = a.parse().unwrap();
                    m.shards = b.parse().unwrap();
                }
                "--budget" => m.deadline = Instant::now() + Duration::from_secs(v().parse().unwrap()),
                "--only" => {
                    let s = v();
                    let (a, b) = s.rsplit_once(':').unwrap();
                    m.only = Some((a.into(), b.parse().unwrap()));
                }
                "--cur" => m.cur = Some(std::fs::File::create(v()).unwrap()),
                "--family" => m.just = Some(v()),
                "--noop" => std::process::exit(0),
                other => panic!("unknown argument {other}"),
            }
        }
        if !MIRI {
            // A single case takes microseconds to a second; no progress for this long is a hang.
            std::thread::spawn(|| {
                let mut last = (PROGRESS.load(Ordering::Relaxed), Instant::now());
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    let now = PROGRESS.load(Ordering::Relaxed);
                    if now != last.0 {
                        last = (now, Instant::now());
                    } else if last.1.elapsed() > Duration::from_secs(60) && now != 0 {
                        println!("HANG no progress within a case for 60 s");
                        std::process::exit(97);
                    }
                }
            });
        }
        m
    }

    /// Cases of one family. `native` and `miri` are the numbers of cases in a quick run.
    pub fn family(&mut self, name: &str, native: u64, miri: u64, f: impl Fn(&mut Case)) {
        let base = if MIRI { miri } else { native };
        if base == 0 && self.only.is_none() {
            return;
        }
        if self.just.as_ref().map_or(false, |j| j != name) {
            return;
        }
        let n = ((base as f64) * self.scale).ceil() as u64;
        let range: Box<dyn Iterator<Item = u64>> = match &self.only {
            Some((fam, idx)) if fam == name => Box::new(std::iter::once(*idx)),
            Some(_) => return,
            None => Box::new((0..n).skip(self.shard as usize).step_by(self.shards as usize)),
        };
        let mut failed = 0;
        for idx in range {
            if Instant::now() > self.deadline {
                self.truncated = true;
                break;
            }
            if let Some(cur) = &mut self.cur {
                use std::io::{Seek, SeekFrom};
                let _ = cur.seek(SeekFrom::Start(0));
                let _ = cur.write_all(format!("{}:{:<20}\n", name, idx).as_bytes());
            }
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            let mut case = Case {
                rng: Rng::new(mix(self.seed) ^ hash_str(name) ^ mix(idx)),
                idx,
                thorough: self.thorough,
                miri: MIRI,
                log: String::new(),
                sig: hash_str(name),
                nontrivial: false,
                key: String::new(),
                counts: BTreeMap::new(),
            };
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
            self.evaluations += 1;
            let e = self.fam.entry(name.to_string()).or_insert((0, 0));
            e.0 += 1;
            if case.nontrivial && self.nontrivial.insert(case.sig) {
                e.1 += 1;
            }
            for (k, v) in &case.counts {
                *self.counts.entry(k.to_string()).or_insert(0) += v;
            }
            if case.nontrivial && (e.0 <= 2 || (self.samples.len() < 40 && e.0.is_power_of_two() && e.0 > 512)) {
                let mut s = format!("{}:{} ", name, idx);
                s.extend(case.log.chars().take(400));
                self.samples.push(s);
            }
            if let Err(p) = r {
                let what = match p.downcast_ref::<OracleFail>() {
                    Some(o) => o.0.clone(),
                    None => format!("unexpected panic: {}", last_panic()),
                };
                let key = if case.key.is_empty() { name.to_string() } else { format!("{}/{}", name, case.key) };
                self.violations.push(Violation { family: name.into(), case: idx, key, what, log: case.log });
                failed += 1;
                if failed >= 5 {
                    break;
                }
            }
        }
    }

    pub fn count(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.into()).or_insert(0) += n;
    }

    pub fn finish(self) -> ! {
        let mut o = String::new();
        let _ = write!(o, "STATS {{\"variant\":{},\"evaluations\":{},\"distinct\":{},\"truncated\":{},\"families\":{{",
            js(&self.variant), self.evaluations, self.nontrivial.len(), self.truncated);
        for (i, (k, (n, d))) in self.fam.iter().enumerate() {
            let _ = write!(o, "{}{}:[{},{}]", if i > 0 { "," } else { "" }, js(k), n, d);
        }
        o.push_str("},\"counts\":{");
        for (i, (k, n)) in self.counts.iter().enumerate() {
            let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), n);
        }
        o.push_str("},\"samples\":[");
        for (i, s) in self.samples.iter().take(40).enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(s));
        }
        o.push_str("],\"sigs\":[");
        for (i, s) in self.nontrivial.iter().take(200_000).enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, s);
        }
        o.push_str("]}\n");
        for v in &self.violations {
            let _ = write!(o, "VIOL {{\"family\":{},\"case\":{},\"key\":{},\"what\":{},\"log\":{}}}\n",
                js(&v.family), v.case, js(&v.key), js(&v.what), js(&v.log));
        }
        print!("{}", o);
        let _ = std::io::stdout().flush();
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 })
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Make a scope guard run code on drop.
pub struct OnDrop<F: FnMut()>(pub F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}

/// A memory block with a chosen misalignment and canaries around, for regions under test.
pub struct Arena {
    raw: *mut u8,
    layout: std::alloc::Layout,
    off: usize,
    len: usize,
}

const GUARD: usize = 64;

impl Arena {
    /// `len` bytes whose start address is `mis` modulo `align` (a power of two up to 4096).
    pub fn new(len: usize, align: usize, mis: usize, fill: u8) -> Arena {
        let total = len + 2 * GUARD + align + mis % align;
        let layout = std::alloc::Layout::from_size_align(total, align).unwrap();
        // SAFETY: not empty; all offsets are inside the block.
        unsafe {
            let raw = std::alloc::alloc(layout);
            assert!(!raw.is_null());
            raw.write_bytes(0xC7, total);
            let off = (GUARD + align - 1) / align * align + mis % align;
            assert!(off + len + GUARD.min(total - off - len) <= total);
            raw.add(off).write_bytes(fill, len);
            Arena { raw, layout, off, len }
        }
    }
    pub fn mem(&mut self) -> &mut [std::mem::MaybeUninit<u8>] {
        // SAFETY: inside the block, exclusively borrowed.
        unsafe { std::slice::from_raw_parts_mut(self.raw.add(self.off) as *mut _, self.len) }
    }
    /// A pointer to the start, usable for the whole region.
    pub fn ptr(&self) -> *mut u8 {
        // SAFETY: inside the block.
        unsafe { self.raw.add(self.off) }
    }
    pub fn addr(&self) -> usize {
        self.raw as usize + self.off
    }
    pub fn len(&self) -> usize {
        self.len
    }
    /// All bytes outside the region still hold the canary.
    pub fn check_guards(&self) {
        let ok = |at: usize, n: usize| {
            // SAFETY: outside the region everything was initialised.
            unsafe { std::slice::from_raw_parts(self.raw.add(at), n) == &vec![0xC7u8; n][..] }
        };
        ck!(ok(0, self.off), "bytes before the region were overwritten");
        ck!(ok(self.off + self.len, self.layout.size() - self.off - self.len), "bytes behind the region were overwritten");
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        // SAFETY: from `alloc` with this layout.
        unsafe { std::alloc::dealloc(self.raw, self.layout) }
    }
}
