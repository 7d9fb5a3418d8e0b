//! Handles on two threads.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::Bump;
use without_alloc::{alloc::LocalAllocLeakExt, rc::Rc};
fn main() {
    let bump: Bump<[u64; 8]> = Bump::uninit();
    let rc = bump.rc(5u32).unwrap();
    let other = rc.clone();
    let f = move || drop(other.clone());
    #[cfg(feature = "misuse")]
    std::thread::scope(|s| {
        fn send<F: FnOnce() + Send>(f: F) -> F { f }
        s.spawn(send(f));
        drop(rc.clone());
    });
    #[cfg(not(feature = "misuse"))]
    { f(); drop(rc) }
}
