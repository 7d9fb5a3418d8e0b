//! A region given back by a counted reference that outlives its memory.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::rc;
fn main() {
    let bump: Box<Bump<[u64; 8]>> = Box::new(Bump::uninit());
    let a = rc::Rc::into_raw(bump.rc(5u32).unwrap()).ok().unwrap();
    #[cfg(feature = "misuse")]
    { drop(bump); }
    look(a.init(4));
}
