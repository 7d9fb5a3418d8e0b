//! A region typed for longer-lived values holding shorter-lived ones.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use std::mem::MaybeUninit;
use without_alloc::Uninit;
fn main() {
    let mut place = MaybeUninit::<&'static str>::uninit();
    {
        let s = String::from("text");
        let u: Uninit<&'static str> = Uninit::from(&mut place);
        #[cfg(feature = "misuse")]
        {
            let u: Uninit<&str> = u;
            let m: &mut MaybeUninit<&'static str> = shorter(u, &s);
        }
    }
}
#[cfg(feature = "misuse")]
fn shorter<'a, 'b>(u: Uninit<'a, &'b str>, s: &'b str) -> &'a mut MaybeUninit<&'static str> {
    u.into_maybe_uninit()
}
