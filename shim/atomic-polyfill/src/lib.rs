//! The interface of `atomic-polyfill` over the real atomics; before each access a hook may switch threads.
pub use core::sync::atomic::{compiler_fence, AtomicPtr, Ordering};
use core::sync::atomic as real;

pub mod hook {
    use std::sync::OnceLock;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Access {
        Load,
        Store,
        Swap,
        CompareExchange,
        /// May fail for no reason if the hook says so.
        CompareExchangeWeak,
        Fetch,
        Fence,
    }

    pub static HOOK: OnceLock<fn(Access) -> bool> = OnceLock::new();

    #[inline]
    pub(crate) fn at(a: Access) -> bool {
        HOOK.get().map_or(false, |h| h(a))
    }
}
use hook::{at, Access};

pub fn fence(o: Ordering) {
    at(Access::Fence);
    real::fence(o)
}

macro_rules! int {
    ($name:ident, $t:ty, $real:ty) => {
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $name($real);
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self(<$real>::new(v))
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn load(&self, o: Ordering) -> $t {
                at(Access::Load);
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                at(Access::Store);
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                at(Access::Swap);
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                at(Access::CompareExchange);
                self.0.compare_exchange(c, n, s, f)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                if at(Access::CompareExchangeWeak) {
                    return Err(self.0.load(f));
                }
                self.0.compare_exchange(c, n, s, f)
            }
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                match self.compare_exchange(c, n, o, Ordering::SeqCst) {
                    Ok(v) | Err(v) => v,
                }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut with: F) -> Result<$t, $t> {
                let mut v = self.load(f);
                while let Some(n) = with(v) {
                    match self.compare_exchange_weak(v, n, s, f) {
                        Ok(v) => return Ok(v),
                        Err(now) => v = now,
                    }
                }
                Err(v)
            }
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}
macro_rules! arith {
    ($name:ident, $t:ty, $($op:ident),*) => {
        impl $name {
            $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                at(Access::Fetch);
                self.0.$op(v, o)
            })*
        }
    };
}
int!(AtomicUsize, usize, real::AtomicUsize);
int!(AtomicIsize, isize, real::AtomicIsize);
int!(AtomicU64, u64, real::AtomicU64);
int!(AtomicU32, u32, real::AtomicU32);
int!(AtomicU16, u16, real::AtomicU16);
int!(AtomicU8, u8, real::AtomicU8);
int!(AtomicI64, i64, real::AtomicI64);
int!(AtomicI32, i32, real::AtomicI32);
int!(AtomicI16, i16, real::AtomicI16);
int!(AtomicI8, i8, real::AtomicI8);
int!(AtomicBool, bool, real::AtomicBool);
arith!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
macro_rules! ariths { ($($n:ident $t:ty),*) => { $(
    arith!($n, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
)* } }
ariths!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicU32 u32, AtomicU16 u16, AtomicU8 u8, AtomicI64 i64, AtomicI32 i32, AtomicI16 i16, AtomicI8 i8);
