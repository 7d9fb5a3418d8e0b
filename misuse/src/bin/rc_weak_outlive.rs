//! A weak reference that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::rc;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a = bump.rc(5u32).unwrap();
    let w = rc::Rc::downgrade(&a);
    drop(a);
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(w.strong_count());
}
