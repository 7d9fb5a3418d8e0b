//! A pointer replaced without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use unsize::CoerciblePtr;
fn main() {
    let mut a = Box::new(5u64);
    let p = std::ptr::slice_from_raw_parts_mut(&mut *a as *mut u64, 100);
    #[cfg(feature = "misuse")]
    { let b: Box<[u64]> = CoerciblePtr::replace_ptr(a, p); look(b); }
    look(1);
}
