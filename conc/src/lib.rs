//! A scheduler that lets one thread run at a time and decides before each atomic access (and each call) who goes on.
use atomic_polyfill::hook::{Access, HOOK};
use harness::{mix, Rng};
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

pub enum Plan {
    /// Anyone at each point.
    Random(Rng),
    /// By priorities, changed at random points.
    Priorities { rng: Rng, of: Vec<u64>, change: usize },
    /// One thread sleeps from its `at`-th point on until the others are done or `until` points have passed.
    Sleeper { rng: Rng, who: usize, at: usize, until: usize, seen: usize },
    /// The given choices, then whoever ran before.
    Path(Vec<usize>),
}

struct Inner {
    plan: Plan,
    /// Spurious failures of weak exchanges.
    weak: Rng,
    weak_left: usize,
    cur: usize,
    alive: Vec<bool>,
    steps: usize,
    /// (number of choices, index taken)
    choices: Vec<(usize, usize)>,
    trace: u64,
    switches: usize,
    stuck: bool,
    accesses: u64,
    spurious: u64,
}

pub struct Sched {
    m: Mutex<Inner>,
    cv: Vec<Condvar>,
}

pub struct Outcome {
    pub choices: Vec<(usize, usize)>,
    pub trace: u64,
    pub switches: usize,
    pub steps: usize,
    pub stuck: bool,
    pub accesses: u64,
    pub spurious: u64,
}

/// A run of this many steps does not end.
const LIMIT: usize = 20_000;

thread_local! {
    static ME: Cell<Option<(*const Sched, usize)>> = const { Cell::new(None) };
}

struct Stuck;

fn hook(a: Access) -> bool {
    let Some((s, me)) = ME.with(|m| m.get()) else { return false };
    // SAFETY: the scheduler outlives the registration of its threads.
    unsafe { &*s }.point(me, Some(a))
}

/// A point at which threads may switch, outside of any access.
pub fn point() {
    if let Some((s, me)) = ME.with(|m| m.get()) {
        unsafe { &*s }.point(me, None);
    }
}

/// The time within the run.
pub fn now() -> u64 {
    ME.with(|m| m.get()).map_or(0, |(s, _)| {
        let mut g = unsafe { &*s }.m.lock().unwrap();
        g.steps += 1;
        g.steps as u64
    })
}

impl Inner {
    fn choose(&mut self, me: usize) -> usize {
        // The running thread first, so that the first choice is no switch.
        let mut open: Vec<usize> = vec![];
        if self.alive[me] {
            open.push(me);
        }
        open.extend((0..self.alive.len()).filter(|&t| t != me && self.alive[t]));
        if open.is_empty() {
            return usize::MAX;
        }
        let n = self.choices.len();
        let i = match &mut self.plan {
            Plan::Random(r) => r.below(open.len()),
            Plan::Priorities { rng, of, change } => {
                if rng.below(*change) == 0 {
                    of[me] = rng.u64() >> 8;
                }
                (0..open.len()).max_by_key(|&i| of[open[i]]).unwrap()
            }
            Plan::Sleeper { rng, who, at, until, seen } => {
                if me == *who {
                    *seen += 1;
                }
                let asleep = *seen >= *at && *until > 0 && open.iter().any(|t| t != who);
                if asleep {
                    *until -= 1;
                    let others: Vec<usize> = (0..open.len()).filter(|&i| open[i] != *who).collect();
                    *rng.pick(&others)
                } else {
                    rng.below(open.len())
                }
            }
            Plan::Path(p) => p.get(n).copied().unwrap_or(0).min(open.len() - 1),
        };
        self.choices.push((open.len(), i));
        open[i]
    }
}

impl Sched {
    fn point(&self, me: usize, a: Option<Access>) -> bool {
        let mut g = self.m.lock().unwrap();
        if g.stuck {
            drop(g);
            std::panic::panic_any(harness::OracleFail("stopped".into()));
        }
        debug_assert_eq!(g.cur, me);
        g.steps += 1;
        if a.is_some() {
            g.accesses += 1;
        }
        if g.choices.len() > LIMIT {
            g.stuck = true;
            for c in &self.cv {
                c.notify_all();
            }
            drop(g);
            let _ = Stuck;
            std::panic::panic_any(harness::OracleFail("stopped".into()));
        }
        let next = g.choose(me);
        if next != me {
            g.switches += 1;
            g.cur = next;
            self.cv[next].notify_one();
            while g.cur != me && !g.stuck {
                g = self.cv[me].wait(g).unwrap();
            }
        }
        g.trace = mix(g.trace ^ (me as u64 * 31 + a.map_or(0, |a| a as u64 + 1)));
        if a == Some(Access::CompareExchangeWeak) && g.weak_left > 0 && g.weak.chance(1, 4) {
            g.weak_left -= 1;
            g.spurious += 1;
            return true;
        }
        false
    }

    fn leave(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.alive[me] = false;
        let next = g.choose(me);
        if next != usize::MAX {
            g.cur = next;
            self.cv[next].notify_one();
        }
    }
}

/// Run the closures as threads under the plan. A panic is the result of its thread.
pub fn run<'a, R: Send + 'a>(plan: Plan, weak: Rng, jobs: Vec<Box<dyn FnOnce() -> R + Send + 'a>>) -> (Vec<std::thread::Result<R>>, Outcome) {
    let _ = HOOK.set(hook);
    let n = jobs.len();
    let s = Sched {
        m: Mutex::new(Inner {
            weak_left: if matches!(plan, Plan::Path(_)) { 0 } else { 3 }, plan, weak, cur: usize::MAX, alive: vec![true; n], steps: 0, choices: vec![], trace: 0, switches: 0, stuck: false,
            accesses: 0, spurious: 0,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    };
    let rs: Vec<std::thread::Result<R>> = pool().scope(
        jobs.into_iter()
            .enumerate()
            .map(|(me, job)| {
                let s = &s;
                Box::new(move || {
                    ME.with(|m| m.set(Some((s as *const Sched, me))));
                    {
                        let mut g = s.m.lock().unwrap();
                        while g.cur != me && !g.stuck {
                            g = s.cv[me].wait(g).unwrap();
                        }
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                    ME.with(|m| m.set(None));
                    s.leave(me);
                    r
                }) as Box<dyn FnOnce() -> std::thread::Result<R> + Send + '_>
            })
            .collect(),
        &mut || {
            let mut g = s.m.lock().unwrap();
            let first = g.choose(0);
            g.cur = first;
            s.cv[first].notify_one();
        },
    );
    let g = s.m.into_inner().unwrap();
    let o = Outcome { choices: g.choices, trace: g.trace, switches: g.switches, steps: g.steps, stuck: g.stuck, accesses: g.accesses, spurious: g.spurious };
    (rs, o)
}

/// Worker threads that stay, a new thread for every run would take most of the time.
struct Pool {
    workers: Vec<std::sync::mpsc::Sender<Box<dyn FnOnce() + Send>>>,
}

fn pool() -> &'static Pool {
    static POOL: OnceLock<Pool> = OnceLock::new();
    POOL.get_or_init(|| Pool {
        workers: (0..6)
            .map(|_| {
                let (tx, rx) = std::sync::mpsc::channel::<Box<dyn FnOnce() + Send>>();
                std::thread::spawn(move || {
                    for job in rx {
                        job();
                    }
                });
                tx
            })
            .collect(),
    })
}

impl Pool {
    fn scope<'a, R: Send + 'a>(&self, jobs: Vec<Box<dyn FnOnce() -> R + Send + 'a>>, start: &mut dyn FnMut()) -> Vec<R> {
        let n = jobs.len();
        assert!(n <= self.workers.len());
        let out: Arc<(Mutex<(Vec<Option<R>>, usize)>, Condvar)> = Arc::new((Mutex::new(((0..n).map(|_| None).collect(), 0)), Condvar::new()));
        for (i, job) in jobs.into_iter().enumerate() {
            let done = out.clone();
            let f: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
                let r = job();
                let mut g = done.0.lock().unwrap();
                g.0[i] = Some(r);
                g.1 += 1;
                if g.1 == n {
                    done.1.notify_all();
                }
                drop(g);
                drop(done);
            });
            // SAFETY: waited for below, before anything borrowed goes; results are caught panics.
            let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
            self.workers[i].send(f).unwrap();
        }
        start();
        let mut g = out.0.lock().unwrap();
        while g.1 < n {
            g = out.1.wait(g).unwrap();
        }
        g.0.iter_mut().map(|r| r.take().unwrap()).collect()
    }
}

// ---------------------------------------------------------------- exploration

use harness::conc::*;
use harness::{ck, fail, payload_text, Case, OracleFail};
use static_alloc::Bump;

/// One run of a program under a plan.
pub struct Run {
    pub recs: Vec<Rec>,
    pub got: Vec<Got>,
    pub outcome: Outcome,
    pub wrong: Option<String>,
    pub panicked: Option<String>,
    pub last: static_alloc::bump::Level,
    pub base: usize,
}

pub fn execute<'k, S: 'static>(place: &'k mut Placed<S>, known: &'k Known, prefill: usize, progs: &'k [Vec<Op>], plan: Plan, weak: Rng, strict: bool) -> Run {
    place.get_mut().reset();
    let b = place.get();
    let base = b as *const _ as usize + known.offset;
    let mut first = User::new(9, known);
    first.strict = strict;
    if prefill > 0 {
        first.run(b, Op::Alloc { size: prefill, align: 1, via: 0 }, &|| 0);
    }
    let jobs: Vec<Box<dyn FnOnce() -> (User<'k>, Option<String>, Option<String>) + Send + 'k>> = progs
        .iter()
        .enumerate()
        .map(|(th, ops)| {
            let f: Box<dyn FnOnce() -> _ + Send + 'k> = Box::new(move || {
                let mut u = User::new(th, known);
                u.strict = strict;
                let (mut wrong, mut panicked) = (None, None);
                for &op in ops {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        point();
                        u.run(b, op, &now);
                        u.check_contents();
                    }));
                    if let Err(e) = r {
                        let text = payload_text(&*e);
                        if e.is::<OracleFail>() {
                            wrong = Some(text);
                        } else {
                            panicked = Some(format!("{:?} panicked: {} ({})", op, text, harness::last_panic()));
                        }
                        break;
                    }
                }
                (u, wrong, panicked)
            });
            f
        })
        .collect();
    let (rs, outcome) = run(plan, weak, jobs);
    let mut r = Run { recs: first.recs, got: first.got, outcome, wrong: None, panicked: None, last: b.level(), base };
    for t in rs {
        match t {
            Ok((u, w, p)) => {
                r.recs.extend(u.recs);
                r.got.extend(u.got);
                r.wrong = r.wrong.take().or(w.filter(|w| w != "stopped"));
                r.panicked = r.panicked.take().or(p);
            }
            Err(e) => fail!("{}", payload_text(&*e)),
        }
    }
    r
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// C01: geometry and contents.
    Regions,
    /// C02: the history.
    History,
}

fn judge(c: &mut Case, r: &Run, known: &Known, how: Judge, fair: bool, progs: &[Vec<Op>]) {
    let text = || format!("programs {:?}; choices {:?}; history {}", progs, r.outcome.choices.iter().map(|x| x.1).collect::<Vec<_>>(), print(&r.recs, r.base, known));
    if let Some(w) = &r.wrong {
        fail!("{}; {}", w, text());
    }
    c.add("accesses scheduled", r.outcome.accesses);
    c.add("thread switches", r.outcome.switches as u64);
    c.add("spurious failures injected", r.outcome.spurious);
    if r.outcome.stuck {
        if fair && how == Judge::History {
            fail!("calls do not end, {} steps; {}", r.outcome.steps, text());
        }
        return c.count("runs given up");
    }
    match how {
        Judge::Regions => {
            if r.panicked.is_some() {
                c.count("panics");
            }
            let res = std::panic::catch_unwind(|| {
                disjoint(&r.got, r.base, known.cap);
                for g in &r.got {
                    // SAFETY: all are done.
                    unsafe { g.check() }
                }
            });
            if let Err(e) = res {
                fail!("{}; {}", payload_text(&*e), text());
            }
            c.add("regions", r.got.len() as u64);
            if r.got.len() > 1 {
                c.nontrivial();
            }
        }
        Judge::History => {
            if let Some(p) = &r.panicked {
                fail!("{}; {}", p, text());
            }
            match std::panic::catch_unwind(|| linearize(&r.recs, r.base, known, r.last)) {
                Err(e) => fail!("{}; {}", payload_text(&*e), text()),
                Ok(s) => {
                    c.add("histories", 1);
                    c.add("successes", s.taken);
                    c.add("refused", s.refused);
                    c.add("exhausted", s.exhausted);
                    c.add("mismatches", s.mismatches);
                    c.add("level reads", s.reads);
                    c.add("overlapping calls", s.overlapping);
                    if s.overlapping > 0 {
                        c.nontrivial();
                    }
                }
            }
        }
    }
    c.obs(r.outcome.trace);
}

fn programs(c: &mut Case, cap: usize, threads: usize, max_ops: usize) -> Vec<Vec<Op>> {
    let at_calls = c.rng.chance(4, 5);
    (0..threads).map(|_| (0..c.rng.range(1, max_ops)).map(|_| random_op(&mut c.rng, cap, at_calls)).collect()).collect()
}

fn prefill(c: &mut Case, cap: usize) -> usize {
    if c.rng.chance(1, 2) {
        0
    } else {
        c.rng.range(0, cap)
    }
}

/// Many random schedules of one program.
pub fn sampled<S: 'static>(c: &mut Case, how: Judge, threads: usize, max_ops: usize, runs: usize) {
    let known = learn::<S>();
    let progs = programs(c, known.cap, threads, max_ops);
    let fill = prefill(c, known.cap);
    let mut place = Placed::<S>::new(Bump::uninit(), &mut c.rng);
    c.step(format!("{:?} with {} of {} bytes taken", progs, fill, known.cap));
    let mut traces = std::collections::HashSet::new();
    for _ in 0..runs {
        let rng = c.rng.fork();
        let plan = match c.rng.below(4) {
            0 | 1 => Plan::Random(rng),
            2 => Plan::Priorities { of: (0..threads).map(|_| c.rng.u64() >> 8).collect(), change: *c.rng.pick(&[3, 8, 20]), rng },
            _ => Plan::Sleeper { rng, who: c.rng.below(threads), at: c.rng.range(1, 6), until: c.rng.range(3, 200), seen: 0 },
        };
        let weak = c.rng.fork();
        let r = execute(&mut place, &known, fill, &progs, plan, weak, how == Judge::History);
        judge(c, &r, &known, how, true, &progs);
        c.count("schedules");
        if traces.insert(r.outcome.trace) {
            c.count("distinct interleavings");
        }
    }
    place.check_guards();
}

/// All schedules of one small program.
pub fn all<S: 'static>(c: &mut Case, how: Judge, threads: usize, max_ops: usize, most: usize) {
    let known = learn::<S>();
    let progs = programs(c, known.cap, threads, max_ops);
    let fill = prefill(c, known.cap);
    let mut place = Placed::<S>::new(Bump::uninit(), &mut c.rng);
    c.step(format!("{:?} with {} of {} bytes taken", progs, fill, known.cap));
    let mut path: Vec<usize> = vec![];
    let mut runs = 0;
    loop {
        let mut r = execute(&mut place, &known, fill, &progs, Plan::Path(path.clone()), Rng::new(1), how == Judge::History);
        judge(c, &r, &known, how, false, &progs);
        runs += 1;
        c.count("schedules");
        c.count("distinct interleavings");
        let ch = &mut r.outcome.choices;
        while ch.last().map_or(false, |&(n, i)| i + 1 == n) {
            ch.pop();
        }
        match ch.last() {
            None => {
                c.count("programs explored completely");
                break;
            }
            Some(_) if runs >= most => {
                c.count("programs cut off");
                break;
            }
            Some(_) => path = ch.iter().enumerate().map(|(k, &(_, i))| if k + 1 == ch.len() { i + 1 } else { i }).collect(),
        }
    }
    place.check_guards();
}

pub fn main(prop: &str, how: Judge) -> ! {
    let mut m = harness::Mon::start(prop);
    m.family("sampled", 1500, 0, |c| {
        let n = c.rng.range(2, 4);
        match c.rng.below(6) {
            0 => sampled::<[u8; 24]>(c, how, n, 3, 20),
            1 => sampled::<[u64; 2]>(c, how, n, 3, 20),
            2 => sampled::<[u64; 8]>(c, how, n, 4, 20),
            3 => sampled::<[u16; 31]>(c, how, n, 4, 20),
            4 => sampled::<[u8; 7]>(c, how, n, 2, 20),
            _ => sampled::<[u64; 40]>(c, how, n, 4, 20),
        }
    });
    m.family("complete", 120, 0, |c| {
        let (n, ops) = *c.rng.pick(&[(2, 1), (2, 2), (2, 2), (3, 1)]);
        let most = if c.thorough { 20_000 } else { 1_500 };
        match c.rng.below(5) {
            0 => all::<[u8; 24]>(c, how, n, ops, most),
            1 => all::<[u64; 2]>(c, how, n, ops, most),
            2 => all::<[u64; 4]>(c, how, n, ops, most),
            3 => all::<[u16; 13]>(c, how, n, ops, most),
            _ => all::<[u8; 7]>(c, how, n, ops, most),
        }
    });
    m.family("hooked", 1, 0, |c| {
        // The scheduler sees the accesses of the allocator; if not, nothing was explored.
        let known = learn::<[u64; 4]>();
        let mut place = Placed::<[u64; 4]>::new(Bump::uninit(), &mut c.rng);
        let op = Op::Alloc { size: 3, align: 1, via: 0 };
        let r = execute(&mut place, &known, 0, &[vec![op], vec![op]], Plan::Random(c.rng.fork()), c.rng.fork(), false);
        c.add("hooked", r.outcome.accesses);
        ck!(true, "");
    });
    m.finish()
}
