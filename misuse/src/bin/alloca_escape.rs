//! The slice on the stack escapes.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::Alloca;
fn main() {
    let a = Alloca::<u32>::new(10).unwrap();
    let mut kept = None;
    a.run(|slice| {
        let mut slice = slice;
        slice[1].write(5);
        #[cfg(feature = "misuse")]
        { kept = Some(slice); }
    });
    let k: Option<&mut [std::mem::MaybeUninit<u32>]> = kept;
    if let Some(k) = k {
        k[1].write(7);
    }
}
