#![forbid(unsafe_code)]
//! Each program in `src/bin` is fine as it stands. With the feature `misuse` it tries something that would be
//! undefined behaviour; the compiler has to refuse it, or the step has to be harmless after all.

/// Run on another thread (when misused; here otherwise).
#[cfg(feature = "misuse")]
pub fn elsewhere<F: FnOnce() + Send>(f: F) {
    std::thread::scope(|s| {
        s.spawn(f);
    })
}
#[cfg(not(feature = "misuse"))]
pub fn elsewhere<F: FnOnce()>(f: F) {
    f()
}

/// Run the same thing on two threads side by side (when misused; in turn otherwise).
#[cfg(feature = "misuse")]
pub fn both<F: Fn() + Sync>(f: F) {
    std::thread::scope(|s| {
        s.spawn(|| f());
        s.spawn(|| f());
    })
}
#[cfg(not(feature = "misuse"))]
pub fn both<F: Fn()>(f: F) {
    f();
    f()
}

/// Let the memory of a dropped value be reused, and use a value.
pub fn look<T: std::fmt::Debug>(t: T) {
    let _ = std::hint::black_box(format!("{:?}", t));
}
