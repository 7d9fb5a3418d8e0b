//! A bump over memory that holds none without a promise.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::unsync::MemBump;
use std::mem::MaybeUninit;
fn main() {
    let mut memory = vec![MaybeUninit::<u8>::uninit(); 128];
    let at = memory.as_ptr().align_offset(16);
    #[cfg(feature = "misuse")]
    { let a = MemBump::from_mem_unchecked(&mut memory[at..at + 64]); look(a.get::<u64>().is_some()); }
    look(1);
}
