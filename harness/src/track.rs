//! Values with identity: the ledger records creation and destruction of each.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// Value `id` destroyed at an address.
    Drop(u32, usize),
    /// A zero-sized value destroyed at an address.
    Zero(usize),
}

impl Ev {
    pub fn id(&self) -> Option<u32> {
        match self {
            Ev::Drop(i, _) => Some(*i),
            Ev::Zero(_) => None,
        }
    }
}

#[derive(Default)]
pub struct Ledger {
    next: u32,
    pub drops: Vec<u32>,
    pub events: Vec<Ev>,
    pub panic_on: HashSet<u32>,
    pub corrupt: Vec<String>,
    pub zst_live: i64,
    pub zst_drops: u64,
    pub zst_panic_at: Option<u64>,
}

thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}

/// Start a fresh ledger.
pub fn reset() {
    with(|l| *l = Ledger::default());
}

pub fn drops_of(id: u32) -> u32 {
    with(|l| l.drops[id as usize])
}

pub fn order() -> Vec<u32> {
    with(|l| l.events.iter().filter_map(Ev::id).collect())
}

pub fn clear_events() {
    with(|l| l.events.clear())
}

/// Let the destructor of `id` panic (after it was recorded).
pub fn panic_on(id: u32) {
    with(|l| {
        l.panic_on.insert(id);
    })
}

/// Fails if any recorded destruction saw a destroyed or corrupted value.
pub fn check_sane() {
    with(|l| {
        let c = std::mem::take(&mut l.corrupt);
        if let Some(c) = c.first() {
            crate::fail!("{}", c);
        }
        for (i, &n) in l.drops.iter().enumerate() {
            if n > 1 {
                crate::fail!("value {} was destroyed {} times", i, n);
            }
        }
        if l.zst_live < 0 {
            crate::fail!("more zero-sized values were destroyed than created");
        }
    })
}

pub fn created() -> u32 {
    with(|l| l.next)
}

/// Every created value was destroyed exactly once.
pub fn check_all_dropped() {
    check_sane();
    with(|l| {
        for (i, &n) in l.drops.iter().enumerate() {
            if n != 1 {
                crate::fail!("value {} was destroyed {} times, expected once", i, n);
            }
        }
        if l.zst_live != 0 {
            crate::fail!("{} zero-sized values were never destroyed", l.zst_live);
        }
    })
}

pub fn new_id() -> u32 {
    with(|l| {
        let id = l.next;
        l.next += 1;
        l.drops.push(0);
        id
    })
}

macro_rules! aligns { ($($n:ident $a:literal),*) => { $(
    #[repr(align($a))] #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)] pub struct $n;
)* } }
aligns!(A1 1, A2 2, A4 4, A8 8, A16 16, A32 32, A64 64, A128 128, A4096 4096);

/// A tracked value with chosen alignment and padding bytes.
#[repr(C)]
#[derive(Debug)]
pub struct Tr<A: Copy + 'static = A4, const N: usize = 0> {
    _align: [A; 0],
    pub id: u32,
    check: u32,
    pad: [u8; N],
}

fn check_of(id: u32) -> u32 {
    crate::mix(id as u64 ^ 0x5EED) as u32
}

impl<A: Copy + 'static, const N: usize> Tr<A, N> {
    pub fn new() -> Self {
        let id = new_id();
        Tr { _align: [], id, check: check_of(id), pad: [id as u8; N] }
    }
    pub fn intact(&self) -> bool {
        self.check == check_of(self.id)
            && self.pad == [self.id as u8; N]
            && (self as *const Self as usize) % std::mem::align_of::<Self>() == 0
    }
    #[track_caller]
    pub fn assert_live(&self, id: u32) {
        crate::ck!(self.intact(), "value {} has wrong contents or address", id);
        crate::ck_eq!(self.id, id, "identity of a value");
        crate::ck_eq!(drops_of(id), 0, "destructions of a live value {}", id);
    }
}

impl<A: Copy + 'static, const N: usize> Drop for Tr<A, N> {
    fn drop(&mut self) {
        let (id, ok, at) = (self.id, self.intact(), self as *const Self as usize);
        let panics = with(|l| {
            if !ok || id as usize >= l.drops.len() {
                l.corrupt.push(format!("a destructor ran on memory that is not a live value (id field {id}, address {at:#x})"));
                return false;
            }
            l.drops[id as usize] += 1;
            if l.drops[id as usize] > 1 {
                l.corrupt.push(format!("value {id} destroyed {} times", l.drops[id as usize]));
            }
            l.events.push(Ev::Drop(id, at));
            l.panic_on.contains(&id)
        });
        if panics {
            std::panic::panic_any("tracked destructor");
        }
    }
}

/// A zero-sized tracked value.
#[derive(Debug)]
pub struct Z<A: Copy + 'static = A1>(pub [A; 0]);

impl<A: Copy + 'static> Z<A> {
    pub fn new() -> Self {
        with(|l| l.zst_live += 1);
        Z([])
    }
}

impl<A: Copy + 'static> Drop for Z<A> {
    fn drop(&mut self) {
        let aligned = self as *const Self as usize % std::mem::align_of::<Self>() == 0;
        let panics = with(|l| {
            l.zst_live -= 1;
            l.zst_drops += 1;
            l.events.push(Ev::Zero(self as *const Self as usize));
            if !aligned {
                l.corrupt.push("zero-sized value at a misaligned address".into());
            }
            l.zst_panic_at == Some(l.zst_drops)
        });
        if panics {
            std::panic::panic_any("tracked destructor");
        }
    }
}

/// The values expected to be alive; everything else created was destroyed exactly once.
#[derive(Default, Debug)]
pub struct Alive {
    pub ids: std::collections::BTreeSet<u32>,
    pub zsts: i64,
}

impl Alive {
    pub fn born(&mut self, id: Option<u32>) {
        match id {
            Some(i) => assert!(self.ids.insert(i)),
            None => self.zsts += 1,
        }
    }
    pub fn dead(&mut self, id: Option<u32>) {
        match id {
            Some(i) => assert!(self.ids.remove(&i)),
            None => self.zsts -= 1,
        }
    }
    #[track_caller]
    pub fn check(&self, when: &str) {
        check_sane();
        with(|l| {
            for (i, &n) in l.drops.iter().enumerate() {
                let want = !self.ids.contains(&(i as u32)) as u32;
                if n != want {
                    crate::fail!("{}: value {} was destroyed {} times, expected {}", when, i, n, want);
                }
            }
            if l.zst_live != self.zsts {
                crate::fail!("{}: {} zero-sized values alive, expected {}", when, l.zst_live, self.zsts);
            }
        })
    }
}
