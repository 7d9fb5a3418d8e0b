//! Interrupts at chosen machine instructions: the trap flag of the processor raises SIGTRAP after every instruction of a call, and the
//! handler runs something else on top of the call that was stopped there.
use std::cell::Cell;
use std::ptr;

pub struct Ctl {
    /// Instructions so far.
    pub count: u64,
    /// Interrupt after this many.
    pub target: u64,
    /// Give up stepping after this many.
    pub limit: u64,
    /// Keep on counting after the interrupt.
    pub follow: bool,
    pub fired: bool,
    pub over: bool,
    cb: *mut dyn FnMut(),
}

thread_local! {
    static CUR: Cell<*mut Ctl> = const { Cell::new(ptr::null_mut()) };
}

extern "C" {
    fn sigaction(sig: i32, act: *const LibcAction, old: *mut LibcAction) -> i32;
}

#[repr(C)]
struct LibcAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;
const SA_NODEFER: i32 = 0x4000_0000;
/// The flags register within `ucontext_t`.
const EFL: usize = 40 + 17 * 8;

unsafe extern "C" fn on_trap(_: i32, _: *mut u8, ctx: *mut u8) {
    let efl = ctx.add(EFL) as *mut u64;
    let ctl = CUR.with(|c| c.get());
    if ctl.is_null() {
        *efl &= !0x100;
        return;
    }
    (*ctl).count += 1;
    if (*ctl).count == (*ctl).target && !(*ctl).fired {
        (*ctl).fired = true;
        CUR.with(|c| c.set(ptr::null_mut()));
        (*(*ctl).cb)();
        CUR.with(|c| c.set(ctl));
        if !(*ctl).follow {
            *efl &= !0x100;
        }
    }
    if (*ctl).count > (*ctl).limit {
        (*ctl).over = true;
        *efl &= !0x100;
    }
}

/// Install the handler. The program must not use SIGTRAP otherwise.
pub fn install() {
    let a = LibcAction { handler: on_trap as usize, mask: [0; 16], flags: SA_SIGINFO | SA_NODEFER, restorer: 0 };
    // SAFETY: a handler that only touches what the stepping thread prepared.
    let r = unsafe { sigaction(SIGTRAP, &a, ptr::null_mut()) };
    assert_eq!(r, 0, "sigaction");
}

/// Prepared steps of one call: `begin` right before it, `end` right after it, on the same thread.
pub struct Steps<'a> {
    pub ctl: Box<Ctl>,
    before: Cell<*mut Ctl>,
    _cb: std::marker::PhantomData<&'a mut ()>,
}

impl<'a> Steps<'a> {
    pub fn new(target: u64, follow: bool, cb: &'a mut dyn FnMut()) -> Steps<'a> {
        // SAFETY: used only while `self`, which borrows it, is alive.
        let cb: *mut (dyn FnMut() + 'static) = unsafe { std::mem::transmute(cb) };
        Steps {
            ctl: Box::new(Ctl { count: 0, target, limit: 300_000, follow, fired: false, over: false, cb }),
            before: Cell::new(ptr::null_mut()),
            _cb: std::marker::PhantomData,
        }
    }
    #[inline(never)]
    pub fn begin(&self) {
        let p: *const Ctl = &*self.ctl;
        self.before.set(CUR.with(|c| c.replace(p as *mut Ctl)));
        // SAFETY: sets the trap flag; the handler is installed.
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    #[inline(never)]
    pub fn end(&self) {
        // SAFETY: clears the trap flag.
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
        CUR.with(|c| c.set(self.before.get()));
    }
    pub fn count(&self) -> u64 {
        // SAFETY: the handler only writes between `begin` and `end`.
        unsafe { ptr::read_volatile(&self.ctl.count) }
    }
    pub fn fired(&self) -> bool {
        unsafe { ptr::read_volatile(&self.ctl.fired) }
    }
    pub fn over(&self) -> bool {
        unsafe { ptr::read_volatile(&self.ctl.over) }
    }
}
