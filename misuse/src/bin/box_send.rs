//! A box of something bound to its thread, sent to another.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use std::rc::Rc;
use without_alloc::alloc::LocalAllocLeakExt;
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let rc = Rc::new(1);
    let a = bump.boxed(rc.clone()).unwrap();
    let f = move || drop(a);
    #[cfg(feature = "misuse")]
    std::thread::scope(|s| {
        fn send<F: FnOnce() + Send>(f: F) -> F { f }
        s.spawn(send(f));
        drop(rc.clone());
    });
    #[cfg(not(feature = "misuse"))]
    { f(); drop(rc) }
}
