//! C11: an exit stack survives panicking destructors, and `set` always finds room.
use harness::exit::{run, Mode};
use harness::track::{self, *};
use harness::types::Tv;
use harness::*;
use exit_stack::ExitStack;
use std::pin::Pin;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn any_mem(c: &mut Case, mode: Mode) {
    let place = c.rng.below(2);
    match c.rng.below(7) {
        0 => run::<Tr<A8, 40>>(c, mode, place),
        1 => run::<Tr<A8, 1000>>(c, mode, place),
        2 => run::<Tr<A4, 300>>(c, mode, place),
        3 => run::<Z<A1>>(c, mode, place),
        4 => run::<Tr<A4, 0>>(c, mode, place),
        _ => run::<Tr<A8, 3000>>(c, mode, place),
    }
}

/// `set` in any state of the stack: fresh, filled to the brim, slots lost, emptied by panic.
fn set_always<Mem: Tv>(c: &mut Case) {
    track::reset();
    c.step(format!("set on ExitStack<{}/{}>", std::mem::size_of::<Mem>(), std::mem::align_of::<Mem>()));
    c.key(format!("align{}", std::mem::align_of::<Mem>()));
    let mut stack: Pin<Box<ExitStack<Mem>>> = Box::pin(ExitStack::new());
    for round in 0..c.rng.range(1, 4) {
        let fill = c.rng.below(5);
        c.step(format!("round {} fill {}", round, fill));
        let mut live = vec![];
        match fill {
            0 => {}
            1 => {
                // Pin until nothing fits.
                while live.len() < 200 {
                    match stack.as_ref().slot::<Tr<A4, 0>>() {
                        Some(s) => live.push(s.pin(Tr::new()).id),
                        None => break,
                    }
                }
            }
            2 => {
                // Lose slots until nothing fits.
                for _ in 0..200 {
                    if stack.as_ref().slot::<u8>().is_none() {
                        break;
                    }
                }
            }
            3 => {
                let id = stack.as_ref().slot::<Tr<A1, 0>>().map(|s| s.pin(Tr::new()).id);
                if let Some(id) = id {
                    panic_on(id);
                    let r = may_panic(|| stack.as_mut().pop_all());
                    ck!(r.is_err(), "the panic of a destructor was swallowed");
                    ck_eq!(drops_of(id), 1, "destructions of a panicking value");
                }
            }
            _ => {
                stack.as_mut().set(Mem::mk());
                if let Some(s) = stack.as_ref().slot::<Mem>() {
                    s.pin(Mem::mk());
                }
            }
        }
        let z = track::with(|l| (l.zst_live, l.zst_drops));
        let v = Mem::mk();
        let id = v.ident();
        let p = stack.as_mut().set(v);
        ck!(p.intact_as(id), "the value set differs");
        for i in live {
            ck_eq!(drops_of(i), 1, "destructions of a value removed by set");
        }
        track::with(|l| {
            for (i, &n) in l.drops.iter().enumerate() {
                ck_eq!(n, (Some(i as u32) != id) as u32, "destructions of value {} after set", i);
            }
        });
        if id.is_none() {
            ck_eq!(track::with(|l| l.zst_live), 1, "live zero-sized values after set");
        }
        let _ = z;
        c.count("set");
        c.nontrivial();
    }
    drop(stack);
    check_all_dropped();
}

// ------------------------------------------------------------- two panics abort

/// The child: two of `n` destructors panic during one emptying. Prints each destruction.
fn child(spec: &str) -> ! {
    let p: Vec<usize> = spec.split(',').map(|x| x.parse().unwrap()).collect();
    let (n, a, b, how, local) = (p[0], p[1], p[2], p[3], p[4]);
    struct Loud(usize, bool);
    impl Drop for Loud {
        fn drop(&mut self) {
            println!("drop {}", self.0);
            if self.1 {
                panic!("loud {}", self.0)
            }
        }
    }
    let mut stack: Pin<Box<ExitStack<[usize; 256]>>> = Box::pin(ExitStack::new());
    for i in 0..n {
        let s = stack.as_ref().slot::<Loud>().unwrap();
        let v = Loud(i, i == a || i == b);
        match local {
            0 => drop(s.pin(v)),
            1 => drop(unsafe { s.pin_local(v) }),
            _ if i % 2 == 0 => drop(s.pin(v)),
            _ => drop(unsafe { s.pin_local(v) }),
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || match how {
        0 => stack.as_mut().pop_all(),
        1 => {
            stack.as_mut().set([0; 256]);
        }
        _ => drop(stack),
    }));
    println!("survived {}", r.is_err());
    std::process::exit(0)
}

fn aborts(c: &mut Case) {
    let n = c.rng.range(2, 6);
    let (mut a, mut b) = (c.rng.below(n), c.rng.below(n));
    if a == b {
        b = (a + 1) % n;
    }
    if a < b {
        std::mem::swap(&mut a, &mut b);
    }
    let (how, local) = (c.rng.below(3), c.rng.below(3));
    c.step(format!("{} values pinned by {}, destructors {} and {} panic, {}", n, ["pin", "pin_local", "both"][local], a, b, ["pop_all", "set", "drop"][how]));
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["--child", &format!("{n},{a},{b},{how},{local}")])
        .stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start a child");
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(50) {
            let _ = ch.kill();
            let _ = ch.wait();
            fail!("the process neither aborts nor goes on after a second panicking destructor");
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    let mut out = String::new();
    use std::io::Read;
    ch.stdout.take().unwrap().read_to_string(&mut out).unwrap();
    use std::os::unix::process::ExitStatusExt;
    let drops: Vec<usize> = out.lines().filter_map(|l| l.strip_prefix("drop ")?.parse().ok()).collect();
    ck!(!out.contains("survived"), "the process survived a second panicking destructor; destroyed {:?}", drops);
    ck!(status.signal().is_some(), "the process ended with {:?} instead of aborting", status);
    // Everything from the last pinned down to the second panicking one was destroyed.
    let want: Vec<usize> = (b..n).rev().collect();
    ck_eq!(drops, want, "destructions before the abort");
    c.count("aborts");
    c.nontrivial();
}

fn main() {
    let mut args = std::env::args().skip(1);
    if args.next().as_deref() == Some("--child") {
        child(&args.next().unwrap())
    }
    let mut m = Mon::start("C11");
    m.family("panics", 60_000, 300, |c| any_mem(c, Mode::OnePanic));
    m.family("set", 18_000, 90, |c| match c.rng.below(12) {
        0 => set_always::<Tr<A8, 0>>(c),
        1 => set_always::<Tr<A8, 400>>(c),
        2 => set_always::<Tr<A4, 3>>(c),
        3 => set_always::<Z<A1>>(c),
        4 => set_always::<Z<A8>>(c),
        5 => set_always::<Tr<A1, 1>>(c),
        6 => set_always::<Tr<A16, 0>>(c),
        7 => set_always::<Tr<A64, 10>>(c),
        8 => set_always::<Z<A32>>(c),
        9 => set_always::<Tr<A128, 0>>(c),
        10 => set_always::<Z<A128>>(c),
        _ => set_always::<Tr<A4, 2000>>(c),
    });
    if std::env::var_os("ASAN_OPTIONS").is_none() {
        m.family("abort", 60, 0, aborts);
    }
    m.finish();
}
