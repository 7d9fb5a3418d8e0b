//! Interval oracle: regions handed out by an allocator over a known range.
use crate::mix;

#[derive(Clone, Debug)]
pub struct Region {
    pub at: usize,
    pub size: usize,
    pub align: usize,
    pub tag: u64,
    pub ptr: *mut u8,
    /// Filled with its pattern, contents are checked.
    pub filled: bool,
}

/// Bookkeeping of all regions currently handed out.
pub struct Regions {
    pub lo: usize,
    pub hi: usize,
    pub live: Vec<Region>,
    pub checks: u64,
}

/// The `n` bytes written into the region with this tag.
pub fn pattern_word(tag: u64, i: u64) -> u64 {
    mix(tag.wrapping_mul(1031) ^ i)
}

pub fn pattern(tag: u64, n: usize) -> Vec<u8> {
    let words: Vec<u64> = (0..n.div_ceil(8) as u64).map(|i| pattern_word(tag, i)).collect();
    let mut v = vec![0u8; n];
    // SAFETY: `words` has at least `n` bytes.
    unsafe { std::ptr::copy_nonoverlapping(words.as_ptr() as *const u8, v.as_mut_ptr(), n) };
    v
}

/// Compare memory known to be initialised; the first differing offset.
///
/// # Safety
/// `ptr` is valid and initialised for reads of `want.len()` bytes.
pub unsafe fn differs(ptr: *const u8, want: &[u8]) -> Option<usize> {
    if std::slice::from_raw_parts(ptr, want.len()) == want {
        return None;
    }
    (0..want.len()).find(|&i| ptr.add(i).read() != want[i])
}

impl Regions {
    pub fn new(lo: usize, hi: usize) -> Self {
        Regions { lo, hi, live: vec![], checks: 0 }
    }

    /// Check geometry of a new region and remember it.
    pub fn add(&mut self, ptr: *mut u8, size: usize, align: usize, tag: u64) -> usize {
        let at = ptr as usize;
        crate::ck!(!ptr.is_null(), "null region");
        crate::ck!(at % align == 0, "region at +{} is not aligned to {}", at.wrapping_sub(self.lo) as isize, align);
        if size > 0 {
            crate::ck!(at >= self.lo && at + size <= self.hi,
                "region +{}..+{} is outside the storage of {} bytes", at.wrapping_sub(self.lo) as isize,
                at.wrapping_sub(self.lo) as isize + size as isize, self.hi - self.lo);
            for r in &self.live {
                crate::ck!(r.size == 0 || at + size <= r.at || r.at + r.size <= at,
                    "region +{}..+{} overlaps live region +{}..+{}", at - self.lo, at - self.lo + size,
                    r.at - self.lo, r.at - self.lo + r.size);
            }
        }
        self.checks += 1;
        self.live.push(Region { at, size, align, tag, ptr, filled: false });
        self.live.len() - 1
    }

    /// Write the region's pattern through its own pointer.
    pub fn fill(&mut self, i: usize) {
        let r = &mut self.live[i];
        if r.size > 0 {
            // SAFETY: the region was handed out for exactly this many bytes.
            unsafe { std::ptr::copy_nonoverlapping(pattern(r.tag, r.size).as_ptr(), r.ptr, r.size) }
        }
        r.filled = true;
    }

    /// Every filled region still holds its pattern.
    pub fn check_contents(&self) {
        for r in &self.live {
            if !r.filled || r.size == 0 {
                continue;
            }
            // SAFETY: written before, still handed out.
            if let Some(k) = unsafe { differs(r.ptr, &pattern(r.tag, r.size)) } {
                crate::fail!("contents of region +{}..+{} changed at byte {}", r.at - self.lo, r.at - self.lo + r.size, k);
            }
        }
    }

    pub fn clear(&mut self) {
        self.live.clear();
    }
}

pub fn align_up(at: usize, align: usize) -> usize {
    (at + align - 1) & !(align - 1)
}
