From 99a21dc28cdd5f0c276d49b1eea29d03b3af1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 1/8] fix: forget remembered availability in reset_index of
 worker and consumer

---
 src/iterators/sync_iterators/cons_iter.rs | 1 +
 src/iterators/sync_iterators/work_iter.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index 350cb27..ab67085 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -76,6 +76,7 @@ impl<'buf, B: MutRB<Item = T>, T, const W: bool> ConsIter<'buf, B, W> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index b1a04d4..097d660 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -78,6 +78,7 @@ impl<'buf, B: MutRB<Item = T>, T> WorkIter<'buf, B> {
     pub fn reset_index(&mut self) {
         let new_idx = self.succ_index();
         self.index = new_idx;
+        self.cached_avail = 0;
         self.set_atomic_index(new_idx);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 9408c93ab64d7a9f31533535db423a62624f827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 2/8] fix: wrap-around of Detached::go_back from a non-zero
 index

---
 src/iterators/async_iterators/detached.rs | 2 +-
 src/iterators/sync_iterators/detached.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index 5109dca..fae68f8 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -56,7 +56,7 @@ impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
         
         self.inner.inner_mut().set_local_index(
             match idx < count {
-                true => buf_len.unchecked_sub(count).unchecked_sub(idx),
+                true => buf_len.unchecked_sub(count.unchecked_sub(idx)),
                 false => idx.unchecked_sub(count)
             }
         );
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index dcecf0b..f645cf2 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -98,7 +98,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
         
         self.inner.set_local_index(
             match idx < count {
-                true => self.inner.buf_len().unchecked_sub(count).unchecked_sub(idx),
+                true => self.inner.buf_len().unchecked_sub(count.unchecked_sub(idx)),
                 false => idx.unchecked_sub(count)
             }
         );
-- 
2.43.0


From 1633a5b9ba2c570f29f9b18a484925e79b6eaa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 3/8] fix: forget remembered availability when a detached
 iterator jumps

---
 src/iterators/sync_iterators/detached.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index f645cf2..b2967cb 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -69,6 +69,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     #[inline]
     pub unsafe fn set_index(&mut self, index: usize) {
         self.inner.set_local_index(index);
+        self.inner.set_cached_avail(0);
     }
 
     /// Resets the *local* index of the iterator. I.e., moves the iterator to the location occupied by its successor.
@@ -77,6 +78,7 @@ impl<T, I: MRBIterator<Item = T>> Detached<I> {
     pub fn reset_index(&mut self) {
         let new_idx = self.inner.succ_index();
         self.inner.set_local_index(new_idx);
+        self.inner.set_cached_avail(0);
     }
 
     /// Advances the iterator as in [`MRBIterator::advance()`], but does not modify the atomic counter,
-- 
2.43.0


From 5f4e7f033056d43e87f634be85600a1d32ad59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 4/8] fix: iterators are Send only over sendable items,
 detached ones only over Send iterators

---
 src/iterators/async_iterators/cons_iter.rs | 2 +-
 src/iterators/async_iterators/detached.rs  | 2 +-
 src/iterators/async_iterators/prod_iter.rs | 2 +-
 src/iterators/async_iterators/work_iter.rs | 2 +-
 src/iterators/sync_iterators/cons_iter.rs  | 2 +-
 src/iterators/sync_iterators/detached.rs   | 2 +-
 src/iterators/sync_iterators/prod_iter.rs  | 2 +-
 src/iterators/sync_iterators/work_iter.rs  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/iterators/async_iterators/cons_iter.rs b/src/iterators/async_iterators/cons_iter.rs
index 6b86a43..9d74780 100644
--- a/src/iterators/async_iterators/cons_iter.rs
+++ b/src/iterators/async_iterators/cons_iter.rs
@@ -15,7 +15,7 @@ pub struct AsyncConsIter<'buf, B: MutRB, const W: bool> {
     inner: ConsIter<'buf, B, W>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for AsyncConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for AsyncConsIter<'_, B, W> {}
 
 impl<'buf, B: MutRB<Item = T>, T, const W: bool> AsyncIterator for AsyncConsIter<'buf, B, W> {
     type I = ConsIter<'buf, B, W>;
diff --git a/src/iterators/async_iterators/detached.rs b/src/iterators/async_iterators/detached.rs
index fae68f8..20cf168 100644
--- a/src/iterators/async_iterators/detached.rs
+++ b/src/iterators/async_iterators/detached.rs
@@ -15,7 +15,7 @@ pub struct AsyncDetached<I: AsyncIterator, B: MutRB> {
     phantom_data: PhantomData<B>
 }
 
-unsafe impl<I: AsyncIterator, B: MutRB> Send for AsyncDetached<I, B> {}
+unsafe impl<I: AsyncIterator + Send, B: MutRB> Send for AsyncDetached<I, B> {}
 
 impl<B: MutRB<Item = T>, T, I: AsyncIterator> AsyncDetached<I, B> {
        
diff --git a/src/iterators/async_iterators/prod_iter.rs b/src/iterators/async_iterators/prod_iter.rs
index c213a5d..0e82641 100644
--- a/src/iterators/async_iterators/prod_iter.rs
+++ b/src/iterators/async_iterators/prod_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncProdIter<'buf, B: MutRB> {
     inner: ProdIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncProdIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncProdIter<'buf, B> {
     type I = ProdIter<'buf, B>;
diff --git a/src/iterators/async_iterators/work_iter.rs b/src/iterators/async_iterators/work_iter.rs
index 719df6a..0b19bbb 100644
--- a/src/iterators/async_iterators/work_iter.rs
+++ b/src/iterators/async_iterators/work_iter.rs
@@ -14,7 +14,7 @@ pub struct AsyncWorkIter<'buf, B: MutRB> {
     pub(crate) inner: WorkIter<'buf, B>,
     waker: Option<Waker>
 }
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for AsyncWorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for AsyncWorkIter<'_, B> {}
 
 impl<'buf, B: MutRB<Item = T>, T> AsyncIterator for AsyncWorkIter<'buf, B> {
     type I = WorkIter<'buf, B>;
diff --git a/src/iterators/sync_iterators/cons_iter.rs b/src/iterators/sync_iterators/cons_iter.rs
index ab67085..a4c2813 100644
--- a/src/iterators/sync_iterators/cons_iter.rs
+++ b/src/iterators/sync_iterators/cons_iter.rs
@@ -17,7 +17,7 @@ pub struct ConsIter<'buf, B: MutRB, const W: bool> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T, const W: bool> Send for ConsIter<'_, B, W> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send, const W: bool> Send for ConsIter<'_, B, W> {}
 
 impl<B: MutRB + IterManager, const W: bool> Drop for ConsIter<'_, B, W> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/detached.rs b/src/iterators/sync_iterators/detached.rs
index b2967cb..f8ec6ce 100644
--- a/src/iterators/sync_iterators/detached.rs
+++ b/src/iterators/sync_iterators/detached.rs
@@ -30,7 +30,7 @@ pub struct Detached<I: MRBIterator> {
     inner: I,
 }
 
-unsafe impl<I: MRBIterator> Send for Detached<I> {}
+unsafe impl<I: MRBIterator + Send> Send for Detached<I> {}
 
 
 impl<T, I: MRBIterator<Item = T>> Detached<I> {
diff --git a/src/iterators/sync_iterators/prod_iter.rs b/src/iterators/sync_iterators/prod_iter.rs
index b3eeb7e..4454c5e 100644
--- a/src/iterators/sync_iterators/prod_iter.rs
+++ b/src/iterators/sync_iterators/prod_iter.rs
@@ -60,7 +60,7 @@ pub struct ProdIter<'buf, B: MutRB> {
     buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for ProdIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for ProdIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for ProdIter<'_, B> {
     fn drop(&mut self) {
diff --git a/src/iterators/sync_iterators/work_iter.rs b/src/iterators/sync_iterators/work_iter.rs
index 097d660..8b68ffe 100644
--- a/src/iterators/sync_iterators/work_iter.rs
+++ b/src/iterators/sync_iterators/work_iter.rs
@@ -24,7 +24,7 @@ pub struct WorkIter<'buf, B: MutRB> {
     pub(crate) buffer: BufRef<'buf, B>,
 }
 
-unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T> Send for WorkIter<'_, B> {}
+unsafe impl<B: ConcurrentRB + MutRB<Item = T>, T: Send> Send for WorkIter<'_, B> {}
 
 impl<B: MutRB + IterManager> Drop for WorkIter<'_, B> {
     fn drop(&mut self) {
-- 
2.43.0


From 67141233193a154c7efe84aaee2f73e28f6ba4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 5/8] fix: wake the task of a pending future so that it is
 polled again

---
 src/iterators/async_iterators/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iterators/async_iterators/mod.rs b/src/iterators/async_iterators/mod.rs
index cb6ce4d..d203f3b 100644
--- a/src/iterators/async_iterators/mod.rs
+++ b/src/iterators/async_iterators/mod.rs
@@ -85,6 +85,8 @@ impl<I: AsyncIterator, P, O, const R: bool> Future for MRBFuture<'_, I, P, O, R>
             }
 
             if waker_registered {
+                // No other stage wakes this task: ask for another poll.
+                cx.waker().wake_by_ref();
                 break Poll::Pending;
             }
             self.iter.register_waker(cx.waker());
-- 
2.43.0


From 1ff0ff317377c4f069c2a5d90691add5f80be32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 6/8] fix: splitting a stack buffer again starts from
 consistent indices

---
 src/ring_buffer/storage/mod.rs                | 2 ++
 src/ring_buffer/variants/concurrent_rb.rs     | 2 ++
 src/ring_buffer/variants/ring_buffer_trait.rs | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/src/ring_buffer/storage/mod.rs b/src/ring_buffer/storage/mod.rs
index cd9d717..79e6d8b 100644
--- a/src/ring_buffer/storage/mod.rs
+++ b/src/ring_buffer/storage/mod.rs
@@ -52,6 +52,7 @@ pub(crate) mod impl_splits {
         #[cfg(not(feature = "vmem"))]
         impl<T, const N: usize> StackSplit<$Struct<StackStorage<T, N>>> for $Struct<StackStorage<T, N>> {
             fn split(&mut self) -> (ProdIter<$Struct<StackStorage<T, N>>>, ConsIter<$Struct<StackStorage<T, N>>, false>) {
+                self.reset_indices();
                 self.set_prod_alive(true);
                 self.set_cons_alive(true);
 
@@ -63,6 +64,7 @@ pub(crate) mod impl_splits {
             }
 
             fn split_mut(&mut self) -> (ProdIter<$Struct<StackStorage<T, N>>>, WorkIter<$Struct<StackStorage<T, N>>>, ConsIter<$Struct<StackStorage<T, N>>, true>) {
+                self.reset_indices();
                 self.set_prod_alive(true);
                 self.set_work_alive(true);
                 self.set_cons_alive(true);
diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 12d48a5..3c6fe5f 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -75,6 +75,7 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
     /// - [`AsyncConsIter`].
     #[cfg(all(not(feature = "alloc"), any(feature = "async", doc)))]
     pub fn split_async(&mut self) -> (AsyncProdIter<ConcurrentMutRingBuf<S>>, AsyncConsIter<ConcurrentMutRingBuf<S>, false>) {
+        self.reset_indices();
         self.set_prod_alive(true);
         self.set_cons_alive(true);
 
@@ -91,6 +92,7 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
     /// - [`AsyncConsIter`].
     #[cfg(all(not(feature = "alloc"), any(feature = "async", doc)))]
     pub fn split_mut_async(&mut self) -> (AsyncProdIter<ConcurrentMutRingBuf<S>>, AsyncWorkIter<ConcurrentMutRingBuf<S>>, AsyncConsIter<ConcurrentMutRingBuf<S>, true>) {
+        self.reset_indices();
         self.set_prod_alive(true);
         self.set_work_alive(true);
         self.set_cons_alive(true);
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index 2ef5e49..0f7a897 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -18,6 +18,14 @@ pub trait IterManager {
     fn set_work_index(&self, index: usize);
     fn set_cons_index(&self, index: usize);
 
+    /// Brings all the published indices back to where new iterators start from.
+    /// Needed when a borrowed buffer is split again.
+    fn reset_indices(&self) {
+        self.set_prod_index(0);
+        self.set_work_index(0);
+        self.set_cons_index(0);
+    }
+
     fn prod_alive(&self) -> bool;
     fn work_alive(&self) -> bool;
     fn cons_alive(&self) -> bool;
-- 
2.43.0


From 0fd1f0646f053284214b0b88ab8c3b76373cded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 7/8] fix: count the handles of a heap buffer so that exactly
 one of racing drops frees it

---
 src/ring_buffer/variants/concurrent_rb.rs     | 17 +++++++++++++++--
 src/ring_buffer/variants/local_rb.rs          | 17 ++++++++++++++++-
 src/ring_buffer/variants/ring_buffer_trait.rs | 11 +++++++++++
 src/ring_buffer/wrappers/buf_ref.rs           | 15 ++++++++++-----
 4 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/ring_buffer/variants/concurrent_rb.rs b/src/ring_buffer/variants/concurrent_rb.rs
index 3c6fe5f..66095c9 100644
--- a/src/ring_buffer/variants/concurrent_rb.rs
+++ b/src/ring_buffer/variants/concurrent_rb.rs
@@ -1,6 +1,7 @@
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
-use core::sync::atomic::Ordering::{Acquire, Release};
+use core::ptr::NonNull;
+use core::sync::atomic::Ordering::{AcqRel, Acquire, Relaxed, Release};
 use core::sync::atomic::{AtomicBool, AtomicUsize};
 
 #[cfg(any(feature = "async", doc))]
@@ -41,6 +42,8 @@ pub struct ConcurrentMutRingBuf<S: Storage> {
     prod_alive: AtomicBool,
     work_alive: AtomicBool,
     cons_alive: AtomicBool,
+
+    handles: AtomicUsize,
 }
 
 impl<S: Storage<Item = T>, T> MutRB for ConcurrentMutRingBuf<S> {
@@ -133,7 +136,9 @@ impl<S: Storage<Item = T>, T> ConcurrentMutRingBuf<S> {
 
             prod_alive: AtomicBool::default(),
             work_alive: AtomicBool::default(),
-            cons_alive: AtomicBool::default()
+            cons_alive: AtomicBool::default(),
+
+            handles: AtomicUsize::default()
         }
     }
 }
@@ -192,6 +197,14 @@ impl<S: Storage> IterManager for ConcurrentMutRingBuf<S> {
     fn set_cons_alive(&self, alive: bool) {
         self.cons_alive.store(alive, Release);
     }
+
+    fn add_handle(&self) {
+        self.handles.fetch_add(1, Relaxed);
+    }
+
+    unsafe fn remove_handle(this: NonNull<Self>) -> bool {
+        (*this.as_ptr()).handles.fetch_sub(1, AcqRel) == 1
+    }
 }
 
 impl<S: Storage<Item = T>, T> StorageManager for ConcurrentMutRingBuf<S> {
diff --git a/src/ring_buffer/variants/local_rb.rs b/src/ring_buffer/variants/local_rb.rs
index d94d5bb..c523125 100644
--- a/src/ring_buffer/variants/local_rb.rs
+++ b/src/ring_buffer/variants/local_rb.rs
@@ -1,5 +1,6 @@
 use core::cell::UnsafeCell;
 use core::num::NonZeroUsize;
+use core::ptr::NonNull;
 
 use crate::iterators::{ConsIter, ProdIter, WorkIter};
 use crate::ring_buffer::storage::Storage;
@@ -33,6 +34,8 @@ pub struct LocalMutRingBuf<S: Storage> {
     prod_alive: UnsafeCell<bool>,
     work_alive: UnsafeCell<bool>,
     cons_alive: UnsafeCell<bool>,
+
+    handles: UnsafeCell<usize>,
 }
 
 impl<S: Storage<Item = T>, T> MutRB for LocalMutRingBuf<S> {
@@ -55,7 +58,9 @@ impl<S: Storage<Item = T>, T> LocalMutRingBuf<S> {
 
             prod_alive: false.into(),
             work_alive: false.into(),
-            cons_alive: false.into()
+            cons_alive: false.into(),
+
+            handles: 0.into()
         }
     }
 }
@@ -114,6 +119,16 @@ impl<S: Storage> IterManager for LocalMutRingBuf<S> {
     fn set_cons_alive(&self, alive: bool) {
         unsafe { *self.cons_alive.get() = alive; }
     }
+
+    fn add_handle(&self) {
+        unsafe { *self.handles.get() += 1; }
+    }
+
+    unsafe fn remove_handle(this: NonNull<Self>) -> bool {
+        let handles = (*this.as_ptr()).handles.get();
+        *handles -= 1;
+        *handles == 0
+    }
 }
 
 impl<S: Storage<Item = T>, T> StorageManager for LocalMutRingBuf<S> {
diff --git a/src/ring_buffer/variants/ring_buffer_trait.rs b/src/ring_buffer/variants/ring_buffer_trait.rs
index 0f7a897..991d00d 100644
--- a/src/ring_buffer/variants/ring_buffer_trait.rs
+++ b/src/ring_buffer/variants/ring_buffer_trait.rs
@@ -1,3 +1,5 @@
+use core::ptr::NonNull;
+
 use crate::ring_buffer::storage::Storage;
 
 /// Trait implemented by concurrent ring buffer.
@@ -32,6 +34,15 @@ pub trait IterManager {
     fn set_prod_alive(&self, alive: bool);
     fn set_work_alive(&self, alive: bool);
     fn set_cons_alive(&self, alive: bool);
+
+    /// Counts one more handle on an owned (heap-allocated) buffer.
+    fn add_handle(&self);
+    /// Counts one handle less, returning `true` if it was the last one.
+    ///
+    /// # Safety
+    /// `this` must be valid and the caller must own one of the counted handles. If `false` is returned,
+    /// `this` must not be used any more.
+    unsafe fn remove_handle(this: NonNull<Self>) -> bool where Self: Sized;
 }
 
 /// Trait used to manage storage.
diff --git a/src/ring_buffer/wrappers/buf_ref.rs b/src/ring_buffer/wrappers/buf_ref.rs
index bd08651..83cdb22 100644
--- a/src/ring_buffer/wrappers/buf_ref.rs
+++ b/src/ring_buffer/wrappers/buf_ref.rs
@@ -13,10 +13,11 @@ pub struct BufRef<'buf, B> {
     _phantom: PhantomData<&'buf ()>
 }
 
-impl<'buf, B> BufRef<'buf, B> {
+impl<'buf, B: IterManager> BufRef<'buf, B> {
     #[cfg(feature = "alloc")]
     pub(crate) fn new(buf: B) -> Self {
         let x = Box::new(buf);
+        x.add_handle();
 
         Self {
             inner: NonNull::new(Box::into_raw(x)).unwrap(),
@@ -45,8 +46,12 @@ impl<'buf, B> BufRef<'buf, B> {
     pub(crate) fn drop(&self) {}
 }
 
-impl<B> Clone for BufRef<'_, B> {
+impl<B: IterManager> Clone for BufRef<'_, B> {
     fn clone(&self) -> Self {
+        if self.needs_drop {
+            self.add_handle();
+        }
+
         Self {
             inner: self.inner,
             needs_drop: self.needs_drop,
@@ -70,7 +75,7 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_prod_alive(alive);
 
-            let cond = !self.inner.as_ref().work_alive() && !self.inner.as_ref().cons_alive();
+            let cond = self.needs_drop && B::remove_handle(self.inner);
             fence(SeqCst);
 
             if cond {
@@ -84,7 +89,7 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_work_alive(alive);
 
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().cons_alive();
+            let cond = self.needs_drop && B::remove_handle(self.inner);
             fence(SeqCst);
 
             if cond {
@@ -98,7 +103,7 @@ impl<B: IterManager> BufRef<'_, B> {
             fence(SeqCst);
             self.inner.as_ref().set_cons_alive(alive);
 
-            let cond = !self.inner.as_ref().prod_alive() && !self.inner.as_ref().work_alive();
+            let cond = self.needs_drop && B::remove_handle(self.inner);
             fence(SeqCst);
 
             if cond {
-- 
2.43.0


From 648ba77eb4dc3833039e4984da1e9d69d2c9e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 8/8] fix: vmem: really mirror the two views, keep contents,
 drop items once

The second view was private anonymous memory instead of a mirror of the first one, the initial
contents were copied in the wrong direction, the source items were dropped after being moved
and the items in the buffer never were.
---
 src/ring_buffer/storage/heap/mod.rs         | 12 ++++-
 src/ring_buffer/storage/heap/vmem_helper.rs | 56 +++++++++++++++++----
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/ring_buffer/storage/heap/mod.rs b/src/ring_buffer/storage/heap/mod.rs
index 4281335..ae9ebbb 100644
--- a/src/ring_buffer/storage/heap/mod.rs
+++ b/src/ring_buffer/storage/heap/mod.rs
@@ -20,7 +20,10 @@ impl <T> Drop for HeapStorage<T> {
     fn drop(&mut self) {
         unsafe {
             #[cfg(feature = "vmem")]
-            libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            {
+                core::ptr::drop_in_place(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
+                libc::munmap(self.inner as _, 2 * self.len * size_of::<T>());
+            }
 
             #[cfg(not(feature = "vmem"))]
             let _ = Box::from_raw(core::ptr::slice_from_raw_parts_mut(self.inner, self.len));
@@ -32,10 +35,15 @@ impl<T> HeapStorage<T> {
     #[cfg(feature = "vmem")]
     fn new(value: Box<[UnsafeSyncCell<T>]>) -> Self {
         let r = vmem_helper::new(&value);
+        let len = value.len();
+
+        // Items have been moved: just release the allocation.
+        let v = Box::into_raw(value);
+        drop(unsafe { Box::from_raw(v as *mut [core::mem::MaybeUninit<UnsafeSyncCell<T>>]) });
 
         Self {
             inner: r,
-            len: value.len(),
+            len,
         }
     }
 
diff --git a/src/ring_buffer/storage/heap/vmem_helper.rs b/src/ring_buffer/storage/heap/vmem_helper.rs
index dcc287e..daeb7b9 100644
--- a/src/ring_buffer/storage/heap/vmem_helper.rs
+++ b/src/ring_buffer/storage/heap/vmem_helper.rs
@@ -21,12 +21,44 @@ pub fn get_page_size_mul(min_size: usize) -> usize {
     min_size.div_ceil(page_size) * page_size
 }
 
+/// Returns the file descriptor of an anonymous shared memory object.
+#[cfg(any(target_os = "linux", target_os = "android", target_os = "freebsd"))]
+unsafe fn shared_memory() -> core::ffi::c_int {
+    libc::memfd_create(c"mutringbuf".as_ptr(), libc::MFD_CLOEXEC)
+}
+
+/// Returns the file descriptor of an anonymous shared memory object.
+#[cfg(all(unix, not(any(target_os = "linux", target_os = "android", target_os = "freebsd"))))]
+unsafe fn shared_memory() -> core::ffi::c_int {
+    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    let name = alloc::format!("/mrb-{}-{}\0", libc::getpid(), COUNTER.fetch_add(1, Relaxed));
+    let fd = libc::shm_open(
+        name.as_ptr() as _,
+        libc::O_RDWR | libc::O_CREAT | libc::O_EXCL,
+        (libc::S_IRUSR | libc::S_IWUSR) as libc::c_uint
+    );
+    libc::shm_unlink(name.as_ptr() as _);
+    fd
+}
+
+/// Maps the same memory twice, the second view right after the first one, and moves the items into it.
+/// The items must not be dropped by the owner of `value`.
 pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
     let page_size = page_size();
     assert_eq!(value.len() % page_size, 0, "must be a multiple of page size, which is: {}.", page_size);
     
     unsafe {
         let size = size_of_val(value);
+        if size == 0 {
+            // Nothing to map, items are zero-sized.
+            return ptr::NonNull::dangling().as_ptr();
+        }
+
+        let fd = shared_memory();
+        assert!(fd >= 0, "cannot create a shared memory object.");
+        assert_eq!(libc::ftruncate(fd, size as libc::off_t), 0, "cannot resize a shared memory object.");
         
         let buffer = libc::mmap(
             ptr::null_mut(),
@@ -35,18 +67,24 @@ pub(crate) fn new<T>(value: &[UnsafeSyncCell<T>]) -> *mut UnsafeSyncCell<T> {
             libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
             -1, 0
         );
+        assert_ne!(buffer, libc::MAP_FAILED, "cannot reserve the address space.");
         
-        libc::mmap(
-            buffer.byte_add(size),
-            size as libc::size_t,
-            libc::PROT_READ | libc::PROT_WRITE,
-            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED,
-            -1, 0
-        );
+        for view in [buffer, buffer.byte_add(size)] {
+            let r = libc::mmap(
+                view,
+                size as libc::size_t,
+                libc::PROT_READ | libc::PROT_WRITE,
+                libc::MAP_SHARED | libc::MAP_FIXED,
+                fd, 0
+            );
+            assert_eq!(r, view, "cannot map a view of the buffer.");
+        }
+
+        libc::close(fd);
 
         let r = buffer as *mut UnsafeSyncCell<T>;
-        libc::memcpy(value.as_ptr() as _, r as _, size_of_val(value));
+        libc::memcpy(r as _, value.as_ptr() as _, size_of_val(value));
         
         r
     }
-}
\ No newline at end of file
+}
-- 
2.43.0

