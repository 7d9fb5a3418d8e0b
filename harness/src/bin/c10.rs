//! C10: values pinned to an exit stack stay in place and are destroyed once, last pinned first.
use harness::exit::{run, Mode};
use harness::track::*;
use harness::*;
use std::marker::PhantomData;
use std::pin::Pin;

struct Probe<T>(PhantomData<T>);
trait NotUnpin {
    fn unpin(&self) -> bool {
        false
    }
}
impl<T> NotUnpin for Probe<T> {}
impl<T: Unpin> Probe<T> {
    fn unpin(&self) -> bool {
        true
    }
}

fn any_mem(c: &mut Case, mode: Mode) {
    let place = c.rng.below(2);
    match c.rng.below(9) {
        0 => run::<Tr<A4, 0>>(c, mode, place),
        1 => run::<Tr<A8, 40>>(c, mode, place),
        2 => run::<Tr<A8, 1000>>(c, mode, place),
        3 => run::<Tr<A4, 300>>(c, mode, place),
        4 => run::<Z<A1>>(c, mode, place),
        5 => run::<Z<A8>>(c, mode, place),
        6 => run::<Tr<A4, 77>>(c, mode, place),
        _ => run::<Tr<A8, 3000>>(c, mode, place),
    }
}

/// More values than 16 bits count.
fn many(c: &mut Case) {
    use exit_stack::ExitStack;
    use std::cell::Cell;
    thread_local! {
        static NEXT: Cell<u32> = const { Cell::new(0) };
    }
    struct N(u32);
    impl Drop for N {
        fn drop(&mut self) {
            let n = NEXT.get();
            ck!(n > 0 && self.0 == n - 1, "value {} is destroyed when {} are left", self.0, n);
            NEXT.set(n - 1);
        }
    }
    /// A value of another size.
    struct Padded(#[allow(dead_code)] N, #[allow(dead_code)] u64);
    type Stack = ExitStack<[u64; 215_000]>;
    let layout = std::alloc::Layout::new::<Stack>();
    // SAFETY: freed below. Made where there is a stack for it.
    let raw = unsafe { std::alloc::alloc(layout) as usize };
    let _free = OnDrop(move || unsafe { std::alloc::dealloc(raw as *mut u8, layout) });
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || unsafe { (raw as *mut Stack).write(Stack::new()) }).unwrap().join().unwrap();
    // SAFETY: never moved, and dropped in place.
    let mut stack = unsafe { Pin::new_unchecked(&mut *(raw as *mut Stack)) };
    for round in 0..2 {
        let mut n = 0;
        let mut pins: Vec<(*const u32, u32)> = vec![];
        loop {
            let at = if c.rng.chance(1, 20) {
                let Some(slot) = stack.as_ref().slot::<Padded>() else { break };
                &slot.pin(Padded(N(n), 7)).0.0 as *const u32
            } else {
                let Some(slot) = stack.as_ref().slot::<N>() else { break };
                &slot.pin(N(n)).0 as *const u32
            };
            if c.rng.chance(1, 100) {
                pins.push((at, n));
            }
            n += 1;
            NEXT.set(n);
        }
        c.step(format!("{} values", n));
        for (at, n) in pins {
            // SAFETY: pinned.
            ck_eq!(unsafe { *at }, n, "a pinned value");
        }
        if n > 1 << 16 {
            c.nontrivial();
            c.count("more than 65536 values");
        }
        if round == 0 {
            stack.as_mut().pop_all();
        } else {
            // SAFETY: not used again.
            unsafe { std::ptr::drop_in_place(raw as *mut Stack) };
        }
        ck_eq!(NEXT.get(), 0, "values left");
    }
}

fn main() {
    let mut m = Mon::start("C10");
    m.family("history", 60_000, 420, |c| any_mem(c, Mode::NoPanics));
    m.family("many", 40, 0, many);
    m.family("markers", 1, 1, |c| {
        use exit_stack::ExitStack;
        c.step("Unpin probes");
        ck!(Probe::<u8>(PhantomData).unpin(), "the probe does not work");
        ck!(!Probe::<ExitStack<u8>>(PhantomData).unpin(), "an ExitStack is Unpin: safe code can move it while values are pinned in it");
        ck!(!Probe::<ExitStack<[usize; 4]>>(PhantomData).unpin(), "an ExitStack is Unpin: safe code can move it while values are pinned in it");
        ck!(!Probe::<ExitStack<Tr>>(PhantomData).unpin(), "an ExitStack is Unpin: safe code can move it while values are pinned in it");
        c.nontrivial();
    });
    m.finish();
}
