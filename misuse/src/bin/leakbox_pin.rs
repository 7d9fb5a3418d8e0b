//! A pinned value moved out.
#![forbid(unsafe_code)]
#![allow(unused)]
use misuse::*;
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use std::marker::PhantomPinned;
use std::pin::Pin;
struct Fixed(Box<u32>, PhantomPinned);
static BUMP: Bump<[u64; 8]> = Bump::uninit();
fn main() {
    let a: LeakBox<'static, Fixed> = BUMP.leak_box(Fixed(Box::new(1), PhantomPinned)).unwrap();
    let mut a = LeakBox::into_pin(a);
    look(&*a.0);
    #[cfg(feature = "misuse")]
    {
        let before = &*a as *const Fixed as usize;
        let b = std::mem::replace(Pin::get_mut(a.as_mut()), Fixed(Box::new(2), PhantomPinned));
        // It is somewhere else now.
        assert_eq!(before, &b as *const _ as usize);
    }
}
