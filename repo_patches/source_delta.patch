From 7305376ab146d5589859aa8ae1499cddfea01165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 01/18] fix: initialize the level of a heap allocated MemBump

---
 static-alloc/src/unsync/bump.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0bd0def..bc0f8cf 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -128,6 +128,8 @@ impl MemBump {
         let layout = Self::layout_from_size(capacity).expect("Bad layout");
         let ptr = NonNull::new(unsafe { alloc::alloc::alloc(layout) })
             .unwrap_or_else(|| alloc::alloc::handle_alloc_error(layout));
+        // Safety: the layout starts with the header. The data after it may stay uninitialized.
+        unsafe { ptr.cast::<Cell<usize>>().as_ptr().write(Cell::new(0)) };
         let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity);
         unsafe { alloc::boxed::Box::from_raw(ptr as *mut MemBump) }
     }
-- 
2.43.0


From 6a1c26d64dcf89ee1b4b15498b28f5bd2536998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 02/18] fix: support zero-sized values in unsync bumps and
 chains

---
 static-alloc/src/unsync/bump.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index bc0f8cf..b9df5de 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -320,6 +320,10 @@ impl MemBump {
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
     pub fn get<V>(&self) -> Option<Allocation<V>> {
+        if mem::size_of::<V>() == 0 {
+            return Some(Allocation::for_zst(self.level()));
+        }
+
         let alloc = self.try_alloc(Layout::new::<V>())?;
         Some(Allocation {
             lifetime: alloc.lifetime,
@@ -335,6 +339,14 @@ impl MemBump {
     ///
     /// [`get`]: #method.get
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
+        if mem::size_of::<V>() == 0 {
+            let observed = self.level();
+            if observed != level {
+                return Err(Failure::Mismatch { observed });
+            }
+            return Ok(Allocation::for_zst(level));
+        }
+
         let alloc = self.try_alloc_at(Layout::new::<V>(), level.0)?;
         Ok(Allocation {
             lifetime: alloc.lifetime,
-- 
2.43.0


From 4e6f6e86388f32497f1456b20e88bc48012e7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 03/18] fix: allow arrays without any bytes in unsync bumps and
 Alloca

---
 static-alloc/src/unsync/bump.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index b9df5de..7b72513 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -470,8 +470,13 @@ impl MemBump {
         n: usize,
     ) -> Result<LeakBox<'bump, [MaybeUninit<T>]>, Failure> {
         let layout = Layout::array::<T>(n).map_err(|_| Failure::Exhausted)?;
-        let raw = self.alloc(layout).ok_or(Failure::Exhausted)?;
-        let slice = ptr::slice_from_raw_parts_mut(raw.cast().as_ptr(), n);
+        let raw: NonNull<MaybeUninit<T>> = if layout.size() == 0 {
+            // An empty region requires no memory, and can not be requested from `alloc`.
+            NonNull::dangling()
+        } else {
+            self.alloc(layout).ok_or(Failure::Exhausted)?.cast()
+        };
+        let slice = ptr::slice_from_raw_parts_mut(raw.as_ptr(), n);
         let uninit = unsafe { &mut *slice };
         Ok(uninit.into())
     }
-- 
2.43.0


From 1935699dff69b1b5e3203c17827865def315f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 04/18] fix: align the pointer of a reacquired allocation

---
 static-alloc/src/unsync/bump.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 7b72513..fe614d4 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -405,9 +405,11 @@ impl MemBump {
     /// ```
     pub unsafe fn get_unchecked<V>(&self, level: Level) -> Allocation<V> {
         debug_assert!(level.0 < self.capacity());
-        let ptr = self.data_ptr().as_ptr();
+        let ptr = self.data_ptr().as_ptr().wrapping_add(level.0);
+        // The allocation was aligned up from the level it had observed.
+        let offset = ptr.align_offset(mem::align_of::<V>());
         // Safety: guaranteed by the caller.
-        let alloc = ptr.offset(level.0 as isize) as *mut V;
+        let alloc = ptr.wrapping_add(offset) as *mut V;
 
         Allocation {
             level,
-- 
2.43.0


From 4a90e10a59e3bf162c383d41605c09df1a50d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 05/18] fix: report an Alloca length of usize::MAX as not
 representable

---
 static-alloc/src/leaked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index 91ded7a..d492c36 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -30,7 +30,7 @@ impl<T> Alloca<T> {
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
-        let _padded_layout = Layout::array::<T>(len + 1).ok()?;
+        let _padded_layout = Layout::array::<T>(len.checked_add(1)?).ok()?;
         Some(Alloca {
             marker: PhantomData,
             len,
-- 
2.43.0


From 71ddcbedaf39609b924beaab4a9292d22fb45451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 06/18] fix: an ExitStack holds pinned values and must not be
 Unpin

---
 exit-stack/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 63de5c3..9f3fcec 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -46,6 +46,7 @@
 //! ```
 #![no_std]
 use core::cell::Cell;
+use core::marker::PhantomPinned;
 use core::mem::MaybeUninit;
 use core::pin::Pin;
 use core::ptr::NonNull;
@@ -64,6 +65,8 @@ pub struct ExitStack<Mem> {
     memory: Bump<PinSlot<Mem>>,
     /// The exit handler to the last filled slot of the exit stack.
     top: Cell<Option<ExitHandle>>,
+    /// Values in `memory` are pinned and pointed to from `top`, so we must never be moved.
+    _pinned: PhantomPinned,
 }
 
 type ExitHandle = NonNull<PinSlot<dyn Drop>>;
@@ -99,6 +102,7 @@ impl<Mem> ExitStack<Mem> {
         ExitStack {
             memory: Bump::uninit(),
             top: Cell::new(None),
+            _pinned: PhantomPinned,
         }
     }
 
-- 
2.43.0


From a1928ebabfd6af337a37b5ef3bc7d06b6e3bcea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 07/18] fix: drop the remaining values of an ExitStack if one
 of them panics

---
 exit-stack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 9f3fcec..9b71272 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -209,9 +209,10 @@ impl<Mem> ExitStack<Mem> {
         while let Some(exit_handle) = flag.chain.take() {
             // SAFETY: we only store pointers to the same stack here, which is still valid.
             let slot = unsafe { &mut *exit_handle.as_ptr() };
+            // If this panics then the rest of the chain must still be dropped by the flag.
+            flag.chain = slot.link;
             // This is also uniquely dropped as it was owned by `flag.chain` before.
             unsafe { core::ptr::drop_in_place(&mut slot.value) };
-            flag.chain = slot.link;
         }
 
         // No more values are present, feel free to move anything.
-- 
2.43.0


From ca71753d8089170da528129670388dedd7fb243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 08/18] fix: a fallible fill must not discard items once its
 container is full

---
 fill/src/fill.rs | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/fill/src/fill.rs b/fill/src/fill.rs
index fe69adb..f72509a 100644
--- a/fill/src/fill.rs
+++ b/fill/src/fill.rs
@@ -172,24 +172,45 @@ impl<C, E, T> Fill<Result<T, E>> for Result<C, E>
     fn fill<I>(&mut self, iter: I)
         where I: IntoIterator<Item=Result<T, E>>
     {
-        let mut iter = iter.into_iter();
-
         let container = match self {
             Ok(container) => container,
             Err(_) => return,
         };
 
-        let err = loop {
-            match iter.next() {
-                None => return,
-                Some(Err(err)) => break err,
-                Some(Ok(ok)) => {
-                    container.fill(core::iter::once(ok));
-                },
-            };
-        };
+        // Stops the inner container at the first error, keeping that error.
+        struct UntilErr<'err, I, E> {
+            inner: I,
+            err: &'err mut Option<E>,
+        }
+
+        impl<T, E, I> Iterator for UntilErr<'_, I, E>
+            where I: Iterator<Item=Result<T, E>>,
+        {
+            type Item = T;
+            fn next(&mut self) -> Option<T> {
+                if self.err.is_some() {
+                    return None;
+                }
 
-        *self = Err(err);
+                match self.inner.next()? {
+                    Ok(item) => Some(item),
+                    Err(err) => {
+                        *self.err = Some(err);
+                        None
+                    }
+                }
+            }
+        }
+
+        let mut err = None;
+        container.fill(UntilErr {
+            inner: iter.into_iter(),
+            err: &mut err,
+        });
+
+        if let Some(err) = err {
+            *self = Err(err);
+        }
     }
 }
 
-- 
2.43.0


From 45b2c7cabeaa513e894baedab44775d5ac59825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 09/18] fix: split an uninit region at a byte offset, not at an
 element offset

---
 without-alloc/src/uninit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 1b01549..560059b 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -626,7 +626,7 @@ impl<'a, T> UninitView<'a, T> {
             return None;
         }
 
-        let base = self.ptr.as_ptr();
+        let base = self.ptr.as_ptr() as *mut u8;
         // SAFETY: by `from_memory`, all offsets `< len` are within the allocation.
         // In particular, no pointer within or one-past-the-end is null.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(at)) };
@@ -634,7 +634,7 @@ impl<'a, T> UninitView<'a, T> {
         self.len = at;
 
         // SAFETY: within one allocation, namely the one we are in.
-        let other = unsafe { UninitView::from_memory(next_base.cast(), next_len) };
+        let other = unsafe { UninitView::from_memory(next_base, next_len) };
         Some(other)
     }
 
-- 
2.43.0


From 5fd635d97ca41e3908078eecbc8d6c97629edde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 10/18] fix: skip bytes to align the start of a split off
 layout

---
 without-alloc/src/uninit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 560059b..d59acb5 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -560,6 +560,7 @@ impl UninitView<'_, ()> {
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
         let align = self.ptr.as_ptr()
+            .cast::<u8>()
             .align_offset(layout.align());
         let aligned_len = self.len
             .checked_sub(align)
-- 
2.43.0


From 603df5572dba16c7916c0cdfa59220b7f0005e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 11/18] fix: adjust the slice pointer of an uninit region that
 was split

---
 without-alloc/src/uninit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index d59acb5..05e338f 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -834,6 +834,11 @@ impl<'a, T> UninitView<'a, [T]> {
         // SAFETY: was previously in bounds.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(bytes)) };
 
+        // The remaining slice has fewer elements now.
+        let slice = ptr::slice_from_raw_parts_mut(base as *mut T, self.capacity());
+        // SAFETY: the same address as before.
+        self.ptr = unsafe { ptr::NonNull::new_unchecked(slice) };
+
         // SAFETY: total allocation length at least `self.len + next_len`.
         let other = unsafe { UninitView::from_memory(next_base, next_len) };
         Some(other.cast_slice().unwrap())
-- 
2.43.0


From 4a3f7f1a57750032d946e9f006cdd46ae249aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 12/18] fix: refuse to drain ranges with bounds that overflow

---
 without-alloc/src/fixed_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 13349c4..187a9c0 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -372,11 +372,11 @@ impl<T> FixedVec<'_, T> {
         let len = self.len();
         let start = match range.start_bound() {
             ops::Bound::Included(&n) => n,
-            ops::Bound::Excluded(&n) => n + 1,
+            ops::Bound::Excluded(&n) => n.checked_add(1).expect("Start of range out of bounds"),
             ops::Bound::Unbounded    => 0,
         };
         let end = match range.end_bound() {
-            ops::Bound::Included(&n) => n + 1,
+            ops::Bound::Included(&n) => n.checked_add(1).expect("End of range out of bounds"),
             ops::Bound::Excluded(&n) => n,
             ops::Bound::Unbounded    => len,
         };
-- 
2.43.0


From 96de60d633cad9cbaa35b0befe2bd59b064f8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 13/18] fix: keep the memory of an Rc until its value is
 completely dropped

---
 without-alloc/src/rc.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index a64887a..3228590 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -340,11 +340,6 @@ impl<T> Rc<'_, T> {
         let val = Self::weak_count(self) + 1;
         self.inner().weak.set(val);
     }
-
-    fn dec_weak(&self) {
-        let val = Self::weak_count(self) - 1;
-        self.inner().weak.set(val);
-    }
 }
 
 impl<'a, T> Weak<'a, T> {
@@ -521,7 +516,9 @@ impl<T> Drop for Rc<'_, T> {
         self.dec_strong();
         // weak count doesn't actually do anything.
         if Rc::strong_count(self) == 0 {
-            self.dec_weak();
+            // The destructor of the value may use other `Weak`s, and it may panic. Only give up our
+            // share of the memory when the value is completely gone.
+            let _weak = Weak { inner: self.inner };
 
             unsafe {
                 ptr::drop_in_place(self.as_mut_ptr())
-- 
2.43.0


From cbb937ec075ee714de7c4708e7c743cb4a47a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 14/18] fix: copy_slice must return a slice of the same length
 for any memory and type

---
 without-alloc/src/alloc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8187a86..8974442 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -155,8 +155,9 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
         }
 
         Some(unsafe {
-            // SAFETY: this is a copy of `slice` which is initialized.
-            uninit.into_mut()
+            // SAFETY: this is a copy of `slice` which is initialized. Note that the memory itself may
+            // be larger than requested, or have a length of zero for zero-sized types.
+            core::slice::from_raw_parts_mut(uninit.as_begin_ptr(), slice.len())
         })
     }
 
-- 
2.43.0


From af8fcb76a17d2f8e9d05dd3d8bc457e0ee4a49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 15/18] fix: align the dangling copy of a zero-sized
 dynamically typed value

---
 without-alloc/src/alloc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8974442..9af93d1 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -225,7 +225,11 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
     unsafe fn copy_dst<T: ?Sized>(&'alloc self, val: &core::mem::ManuallyDrop<T>) -> Option<&'alloc mut T> {
         let layout = alloc::Layout::for_value(val);
         let uninit = match NonZeroLayout::from_layout(layout.into()) {
-            None => Uninit::invent_for_zst(),
+            None => unsafe {
+                // SAFETY: no bytes are accessed but the pointer must be aligned for the actual value.
+                let dangling = core::ptr::null_mut::<u8>().wrapping_add(layout.align());
+                Uninit::<()>::from_memory(core::ptr::NonNull::new_unchecked(dangling), 0)
+            },
             Some(layout) => self.alloc_layout(layout)?.uninit,
         };
 
-- 
2.43.0


From a41e4a3809cc8c1f2a35641fa66804e7dbf082e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 16/18] fix: make LeakBox invariant, from_mut lets the place be
 used again afterwards

---
 static-alloc/src/leaked.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index d492c36..704c5a9 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -154,8 +154,10 @@ impl<T> Alloca<T> {
 pub struct LeakBox<'ctx, T: ?Sized> {
     #[allow(unused)]
     lifetime: AllocTime<'ctx>,
-    // Covariance should be OK.
     pointer: NonNull<T>,
+    // The box may refer to a place that others use again later, see `from_mut`. Such a place must
+    // not be made to hold values of any other (shorter lived) type, hence invariance.
+    invariant: PhantomData<*mut T>,
 }
 
 impl<'ctx, T> LeakBox<'ctx, T> {
@@ -175,7 +177,7 @@ impl<'ctx, T> LeakBox<'ctx, T> {
         // * It is valid for write as it is the only pointer to it.
         // * The allocation lives for at least `'ctx`.
         core::ptr::write(pointer.as_ptr(), val);
-        Self { pointer, lifetime, }
+        Self { pointer, lifetime, invariant: PhantomData }
     }
 }
 
@@ -240,6 +242,7 @@ impl<'ctx, T: ?Sized> LeakBox<'ctx, T> {
         LeakBox {
             lifetime: AllocTime::default(),
             pointer: NonNull::new_unchecked(pointer),
+            invariant: PhantomData,
         }
     }
 
@@ -492,6 +495,7 @@ impl<'ctx, T> LeakBox<'ctx, MaybeUninit<T>> {
         LeakBox {
             pointer: this.pointer.cast(),
             lifetime: this.lifetime,
+            invariant: PhantomData,
         }
     }
 }
-- 
2.43.0


From c29ec27a580411651b6d6db7717a588d7ea9835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 17/18] fix: make Coercion invariant in the types it converts

---
 unsize/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unsize/src/lib.rs b/unsize/src/lib.rs
index 9e3615d..592cba2 100644
--- a/unsize/src/lib.rs
+++ b/unsize/src/lib.rs
@@ -123,7 +123,9 @@ mod impls {
 #[repr(C)]
 pub struct Coercion<T, U : ?Sized, F : FnOnce(*const T) -> *const U = fn(*const T) -> *const U> {
     pub(crate) coerce: F,
-    pub(crate) _phantom: PhantomData<fn(*const T) -> *const U>,
+    // Invariant. The coercion also applies to mutable pointers, for which `T` and `U` must not be
+    // exchanged for types that live longer or shorter.
+    pub(crate) _phantom: PhantomData<fn(*mut T) -> *mut U>,
 }
 
 /// Common trait impls for `Coercion`.
-- 
2.43.0


From 49862c1c98da18703fc8abae7a62afe4ed079bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 18/18] fix: give unsync::Bump room for values aligned beyond
 its header

For a storage type aligned to more than a word the data field starts behind
padding, but the view as a MemBump starts right after the header. Its length
was that of the data alone: not even one value of the storage type fit, and the
debug assertion on the layouts failed. Include the padding in the length, and in
the cell so that it may be written to.
---
 static-alloc/src/unsync/bump.rs | 45 ++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index fe614d4..eef6749 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -62,12 +62,18 @@ use crate::leaked::LeakBox;
 ///     handle_request(&local_page, request);
 /// }
 /// ```
-#[repr(C)]
+#[repr(transparent)]
 pub struct Bump<T> {
+    /// The whole storage, including padding in front of the data that `MemBump` may allocate from.
+    _storage: UnsafeCell<Storage<T>>,
+}
+
+#[repr(C)]
+struct Storage<T> {
     /// The index used in allocation.
     _index: Cell<usize>,
     /// The backing storage for raw allocated data.
-    _data: UnsafeCell<MaybeUninit<T>>,
+    _data: MaybeUninit<T>,
     // Warning: when changing the data layout, you must change `MemBump` as well.
 }
 
@@ -105,8 +111,10 @@ impl<T> Bump<T> {
     /// All allocations coming from the allocator will need to be initialized manually.
     pub fn uninit() -> Self {
         Bump {
-            _index: Cell::new(0),
-            _data: UnsafeCell::new(MaybeUninit::uninit()),
+            _storage: UnsafeCell::new(Storage {
+                _index: Cell::new(0),
+                _data: MaybeUninit::uninit(),
+            }),
         }
     }
 
@@ -115,8 +123,10 @@ impl<T> Bump<T> {
     /// The caller can rely on all allocations to be zeroed.
     pub fn zeroed() -> Self {
         Bump {
-            _index: Cell::new(0),
-            _data: UnsafeCell::new(MaybeUninit::zeroed()),
+            _storage: UnsafeCell::new(Storage {
+                _index: Cell::new(0),
+                _data: MaybeUninit::zeroed(),
+            }),
         }
     }
 }
@@ -582,18 +592,30 @@ impl MemBump {
     }
 }
 
+impl<T> Bump<T> {
+    /// The length of the data slice of this bump when it is viewed as a `MemBump`.
+    ///
+    /// The slice directly follows the header. It includes the padding in front of the data if the
+    /// alignment of `T` is larger than that of the header.
+    fn data_len() -> usize {
+        let header = MemBump::header_layout();
+        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let (_, offset) = header.extend(data_layout).expect("layout of this type");
+        offset - header.size() + data_layout.size()
+    }
+}
+
 impl<T> ops::Deref for Bump<T> {
     type Target = MemBump;
     fn deref(&self) -> &MemBump {
         let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *const Self as *const MaybeUninit<u8>;
-        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
+        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, Self::data_len());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_layout.size(), mem::size_of_val(bump));
         bump
     }
 }
@@ -601,14 +623,13 @@ impl<T> ops::Deref for Bump<T> {
 impl<T> ops::DerefMut for Bump<T> {
     fn deref_mut(&mut self) -> &mut MemBump {
         let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *mut Self as *mut MaybeUninit<u8>;
-        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
+        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, Self::data_len());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_layout.size(), mem::size_of_val(bump));
         bump
     }
 }
-- 
2.43.0

