From 34cfcc895c30582fc085c09be0398903cb3aca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 01/13] fix: saturate the position counter rather than wrapping
 around

Pulling past the end with large chunk sizes, or pulling after
skip_to_end, wrapped the counter and delivered elements again.
---
 src/iter/atomic_counter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index fa0b710..8566cac 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -13,15 +13,22 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter, and adds `len` to it.
+    ///
+    /// The addition saturates at `usize::MAX` rather than wrapping around;
+    /// otherwise, pulling beyond the end of an iterator could bring the counter back to its beginning.
     #[inline(always)]
     pub fn fetch_and_add(&self, len: usize) -> usize {
-        self.current.fetch_add(len, Ordering::AcqRel)
+        self.current
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
+                Some(current.saturating_add(len))
+            })
+            .unwrap_or_else(|current| current)
     }
 
     /// Fetches and returns the current value of the counter, and adds `1` to it.
     #[inline(always)]
     pub fn fetch_and_increment(&self) -> usize {
-        self.current.fetch_add(1, Ordering::AcqRel)
+        self.fetch_and_add(1)
     }
 
     /// Fetches and returns the current value of the counter.
-- 
2.43.0


From 799c440c149c9a150d2dde294a6e8052d0c7e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 02/13] fix: no overflow in ranges and chunks close to the
 largest index

start + index and begin + chunk_size overflowed: a panic in debug
builds, and wrapped-around values in optimized builds.
---
 src/iter/buffered/range.rs     |  4 +++-
 src/iter/implementors/range.rs | 11 +++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 8d6fee0..2bca5a5 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -41,7 +41,9 @@ where
         let begin_value = begin_idx + range.start.into();
         match begin_value.cmp(&range.end.into()) {
             Ordering::Less => {
-                let end_value = (begin_value + self.chunk_size).min(range.end.into());
+                let end_value = begin_value
+                    .saturating_add(self.chunk_size)
+                    .min(range.end.into());
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(values)
             }
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 6839d66..d764ef4 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -105,9 +105,8 @@ where
     }
 
     fn get(&self, item_idx: usize) -> Option<Idx> {
-        let value = self.range.start + item_idx.into();
-        match value.cmp(&self.range.end) {
-            Ordering::Less => Some(value),
+        match item_idx.cmp(&self.initial_len()) {
+            Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
         }
     }
@@ -119,7 +118,7 @@ where
             .unwrap_or(self.initial_len());
         let begin_value = begin_idx + self.range.start.into();
         let end_value = match begin_value.cmp(&self.range.end.into()) {
-            Ordering::Less => (begin_value + n).min(self.range.end.into()),
+            Ordering::Less => begin_value.saturating_add(n).min(self.range.end.into()),
             _ => begin_value,
         };
         let end_idx: usize = end_value - self.range.start.into();
@@ -134,7 +133,7 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.range.end.into())
+        self.counter().store(self.initial_len())
     }
 }
 
@@ -243,7 +242,7 @@ where
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
+        let current = self.counter().current().min(self.initial_len());
         (self.range.start + current.into())..self.range.end
     }
 
-- 
2.43.0


From 76278ab77b054ac429d749803d9b24f22f1ebca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 03/13] fix: no overflow for chunk sizes close to the largest
 value

begin + chunk_size overflowed for slices, vectors and arrays: a panic in
debug builds, and a lost or out of bounds chunk in optimized builds.
---
 src/iter/buffered/slice.rs     | 3 ++-
 src/iter/implementors/array.rs | 4 ++--
 src/iter/implementors/slice.rs | 5 ++++-
 src/iter/implementors/vec.rs   | 7 +++++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 8bed6e8..859989b 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -32,7 +32,8 @@ where
         let slice = iter.as_slice();
         match begin_idx.cmp(&slice.len()) {
             Ordering::Less => {
-                let end_idx = (begin_idx + self.chunk_size)
+                let end_idx = begin_idx
+                    .saturating_add(self.chunk_size)
                     .min(slice.len())
                     .max(begin_idx);
                 let values = slice[begin_idx..end_idx].iter();
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 21a7a6d..f9b4b72 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -56,7 +56,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let array = &mut *self.array.get();
-        let end_idx = (begin_idx + len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
@@ -113,7 +113,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(N).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(N).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 523007c..039b02c 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -74,7 +74,10 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 333774b..f2c0bb1 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -56,7 +56,7 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let vec = &mut *self.vec.get();
-        let end_idx = (begin_idx + len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
@@ -109,7 +109,10 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
-- 
2.43.0


From b26ac5075b27a13e8ba512abc344817410e8cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 04/13] fix: chunks of consumed vectors and arrays are not
 vectors with length > capacity

Vec::from_raw_parts(ptr, len, 0) violates the length <= capacity
precondition, newer toolchains abort on it in debug builds. Further,
exclusive references to the entire storage must not be created by
threads which pull concurrently.
---
 src/iter/implementors/array.rs | 14 ++++-----
 src/iter/implementors/vec.rs   | 14 ++++-----
 src/iter/mod.rs                |  1 +
 src/iter/taken_slice.rs        | 52 ++++++++++++++++++++++++++++++++++
 4 files changed, 66 insertions(+), 15 deletions(-)
 create mode 100644 src/iter/taken_slice.rs

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index f9b4b72..3e5a1ed 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -4,6 +4,7 @@ use crate::{
         buffered::{
             array::BufferedArray, buffered_chunk::BufferedChunk, buffered_iter::BufferedIter,
         },
+        taken_slice::TakenSlice,
     },
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
@@ -40,8 +41,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
     }
 
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let array = &mut *self.array.get();
-        let src_ptr = array.as_mut_ptr().add(item_idx);
+        let src_ptr = (self.array.get() as *const T).add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
@@ -54,14 +54,12 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let array = &mut *self.array.get();
-        let end_idx = begin_idx.saturating_add(len).min(array.len());
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
+        let end_idx = begin_idx.saturating_add(len).min(N);
         let len = end_idx - begin_idx;
 
-        let ptr = array.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        let ptr = (self.array.get() as *mut T).add(begin_idx);
+        TakenSlice::new(ptr, len)
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index f2c0bb1..219da1a 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -2,6 +2,7 @@ use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
         buffered::{buffered_chunk::BufferedChunk, buffered_iter::BufferedIter, vec::BufferedVec},
+        taken_slice::TakenSlice,
     },
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
@@ -40,8 +41,8 @@ impl<T: Send + Sync> ConIterOfVec<T> {
     }
 
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let vec = &mut *self.vec.get();
-        let src_ptr = vec.as_mut_ptr().add(item_idx);
+        let vec = &*self.vec.get();
+        let src_ptr = vec.as_ptr().add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
@@ -54,14 +55,13 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let vec = &mut *self.vec.get();
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
+        let vec = &*self.vec.get();
         let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
-        let ptr = vec.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        let ptr = vec.as_ptr().add(begin_idx) as *mut T;
+        TakenSlice::new(ptr, len)
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
diff --git a/src/iter/mod.rs b/src/iter/mod.rs
index 65a28ac..fc1608a 100644
--- a/src/iter/mod.rs
+++ b/src/iter/mod.rs
@@ -8,4 +8,5 @@ pub(crate) mod constructors;
 pub(crate) mod copied;
 mod default_fns;
 pub(crate) mod implementors;
+mod taken_slice;
 pub(crate) mod wrappers;
diff --git a/src/iter/taken_slice.rs b/src/iter/taken_slice.rs
new file mode 100644
index 0000000..8054858
--- /dev/null
+++ b/src/iter/taken_slice.rs
@@ -0,0 +1,52 @@
+use std::{iter::FusedIterator, mem::ManuallyDrop, slice::IterMut};
+
+/// Iterator over consecutive elements which are moved out of the storage of a consumed collection.
+///
+/// Elements which are not iterated over are dropped together with this iterator.
+pub(crate) struct TakenSlice<'a, T> {
+    elements: IterMut<'a, ManuallyDrop<T>>,
+}
+
+impl<'a, T> TakenSlice<'a, T> {
+    /// Takes the ownership of the `len` elements starting at `ptr`.
+    ///
+    /// # Safety
+    ///
+    /// These must be valid elements which are not owned, and will not be accessed, by anyone else during `'a`;
+    /// and they must be treated as moved out of the storage afterwards.
+    pub(crate) unsafe fn new(ptr: *mut T, len: usize) -> Self {
+        let elements = std::slice::from_raw_parts_mut(ptr as *mut ManuallyDrop<T>, len);
+        Self {
+            elements: elements.iter_mut(),
+        }
+    }
+}
+
+impl<'a, T> Iterator for TakenSlice<'a, T> {
+    type Item = T;
+
+    #[inline(always)]
+    fn next(&mut self) -> Option<Self::Item> {
+        // SAFETY: each element is visited once, either here or in drop
+        self.elements
+            .next()
+            .map(|x| unsafe { ManuallyDrop::take(x) })
+    }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.elements.size_hint()
+    }
+}
+
+impl<'a, T> ExactSizeIterator for TakenSlice<'a, T> {}
+
+impl<'a, T> FusedIterator for TakenSlice<'a, T> {}
+
+impl<'a, T> Drop for TakenSlice<'a, T> {
+    fn drop(&mut self) {
+        let remaining = std::mem::take(&mut self.elements).into_slice();
+        // SAFETY: remaining elements are not yet moved out
+        unsafe { std::ptr::drop_in_place(remaining as *mut [ManuallyDrop<T>] as *mut [T]) };
+    }
+}
-- 
2.43.0


From 2f02568fc5733f66b429f6a34640a42b62bfeae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 05/13] fix: release the allocation of a consumed vector

Neither drop nor into_seq_iter released the heap buffer of the vector.
---
 src/iter/implementors/vec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 219da1a..930cdde 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -24,9 +24,8 @@ pub struct ConIterOfVec<T: Send + Sync> {
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
         let current = self.counter().current();
-        if current <= self.vec_len {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let _remaining_vec_to_be_dropped =
+            unsafe { self.split_off_right(current.min(self.vec_len)) };
     }
 }
 
@@ -68,9 +67,10 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         debug_assert!(left_len <= self.vec_len);
 
         let man_vec = &mut *self.vec.get();
-        let mut left_vec: Vec<T> = ManuallyDrop::take(man_vec);
-        let right_vec = left_vec.split_off(left_len);
-        *man_vec = ManuallyDrop::new(left_vec);
+        let mut left_vec: Vec<T> = std::mem::take(&mut **man_vec);
+        let right_vec = left_vec.split_off(left_len.min(left_vec.len()));
+        // elements of left_vec are already moved out, only its allocation is to be released
+        left_vec.set_len(0);
         right_vec
     }
 }
-- 
2.43.0


From e6e508b11d450edd136df58f75481f7f85f1d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 06/13] fix: drop the elements skipped by skip_to_end of
 vectors and arrays

They were neither delivered nor dropped.
---
 src/iter/implementors/array.rs | 3 ++-
 src/iter/implementors/vec.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 3e5a1ed..c4c90c5 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -123,7 +123,8 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(N)
+        // skipped elements are reserved and dropped
+        _ = self.fetch_n(N);
     }
 }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 930cdde..77f6d19 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -124,7 +124,8 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.vec_len)
+        // skipped elements are reserved and dropped
+        _ = self.fetch_n(self.vec_len);
     }
 }
 
-- 
2.43.0


From 2eed2b8c1f3dce63bac5b753c7313265ae9e7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 07/13] fix: into_seq_iter of arrays neither drops elements
 twice nor reads a dead stack frame

The remaining elements were returned in a vector pointing into the stack
frame of the callee, and dropped again together with the iterator.
---
 src/iter/implementors/array.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index c4c90c5..d65c1d3 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -65,13 +65,15 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
         debug_assert!(left_len <= N);
 
-        let man_array = &mut *self.array.get();
-        let mut array = ManuallyDrop::take(man_array);
+        let right_len = N - left_len;
+        let mut right_vec = Vec::with_capacity(right_len);
 
-        let mut vec = Vec::from_raw_parts(array.as_mut_ptr(), N, 0);
-        let right_vec = vec.split_off(left_len);
+        let src_ptr = (self.array.get() as *const T).add(left_len);
+        std::ptr::copy_nonoverlapping(src_ptr, right_vec.as_mut_ptr(), right_len);
+        right_vec.set_len(right_len);
 
-        *man_array = ManuallyDrop::new(array);
+        // all elements are now moved out of the array
+        self.counter().store(N);
         right_vec
     }
 }
-- 
2.43.0


From 7ace8937bb1d8a6824d98ad9b93c6b028e6ae83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 08/13] fix: synchronize the uses of a wrapped iterator by
 different threads

The thread waiting for its turn observed the yielded counter by a relaxed
load, which does not synchronize with the release increment of the thread
which used the wrapped iterator before: a data race on weak memory.
---
 src/iter/atomic_counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 8566cac..dbee6e7 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -34,7 +34,7 @@ impl AtomicCounter {
     /// Fetches and returns the current value of the counter.
     #[inline(always)]
     pub fn current(&self) -> usize {
-        self.current.load(Ordering::Relaxed)
+        self.current.load(Ordering::Acquire)
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
-- 
2.43.0


From ebc078998453b24848c193d00c5886a0e8ffc73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 09/13] fix: pulling an empty chunk does not complete a wrapped
 iterator

Further, it neither accesses the wrapped iterator concurrently to the
thread which is in charge nor panics when it fails to be in turn.
---
 src/iter/implementors/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2ccf8cb..32160a9 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -134,6 +134,11 @@ where
     }
 
     fn fetch_n(&self, n: usize) -> Option<NextChunk<T, impl ExactSizeIterator<Item = T>>> {
+        // an empty reservation is not a ticket to access the iterator
+        if n == 0 {
+            return None;
+        }
+
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-- 
2.43.0


From a8ab86ee97730667d5e471f05c2c6ef6c3a9e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 10/13] fix: a wrapped iterator is not used after it reports
 the end or is skipped

A chunk which is cut short by the end left the iterator open, and
iterators which are not fused delivered further elements. A pull which
started after skip_to_end could still deliver an element. Pulling a chunk
of a size close to the largest value overflowed and lost elements.
---
 src/iter/buffered/iter.rs     |  4 ++++
 src/iter/implementors/iter.rs | 26 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c7830f5..7de0b6d 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -50,6 +50,10 @@ where
             }
         }
 
+        if i < self.chunk_size() {
+            iter.complete();
+        }
+
         let older_count = iter.progress_yielded_counter(self.chunk_size());
         assert_eq!(older_count, begin_idx);
 
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 32160a9..6c41181 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -62,6 +62,16 @@ where
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
     }
+
+    #[inline(always)]
+    pub(crate) fn complete(&self) {
+        self.completed.store(true, atomic::Ordering::SeqCst);
+    }
+
+    #[inline(always)]
+    fn is_completed(&self) -> bool {
+        self.completed.load(atomic::Ordering::Relaxed)
+    }
 }
 
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
@@ -90,7 +100,8 @@ where
             let yielded_count = self.yielded_counter.current();
             match begin_idx.cmp(&yielded_count) {
                 // begin_idx==yielded_count => it is our job to provide the items
-                Ordering::Equal => return Some(begin_idx),
+                // unless the iterator already reported the end to an earlier chunk or it is skipped to the end
+                Ordering::Equal => return (!self.is_completed()).then_some(begin_idx),
 
                 Ordering::Less => return None,
 
@@ -109,7 +120,12 @@ where
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
                 // item_idx==yielded_count => it is our job to provide the item
+                // unless the iterator already reported the end to an earlier chunk or it is skipped to the end
                 Ordering::Equal => {
+                    if self.is_completed() {
+                        return None;
+                    }
+
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
                     match next.is_some() {
@@ -142,16 +158,18 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-            let end_idx = begin_idx + n;
-            let buffer = (begin_idx..end_idx)
+            let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
 
+            if buffer.len() < n {
+                self.complete();
+            }
+
             match buffer.len() {
                 0 => {
-                    self.completed.store(true, atomic::Ordering::SeqCst);
                     let older_count = self.progress_yielded_counter(n);
                     assert_eq!(older_count, begin_idx);
                     None
-- 
2.43.0


From 4cd66f76b212aa2870d4922da0bfe16533f0219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 11/13] fix: release the waiting threads when the wrapped
 iterator panics

The thread in charge unwound without progressing the yielded counter and
without completing the iterator; all other threads waited forever.
---
 src/iter/buffered/iter.rs     |  3 +++
 src/iter/implementors/iter.rs | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 7de0b6d..d1e8a3c 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -36,6 +36,7 @@ where
         begin_idx: usize,
     ) -> Option<impl ExactSizeIterator<Item = T>> {
         let core_iter = unsafe { iter.mut_iter() };
+        let guard = iter.complete_on_panic();
 
         let mut i = 0;
         loop {
@@ -50,6 +51,8 @@ where
             }
         }
 
+        std::mem::forget(guard);
+
         if i < self.chunk_size() {
             iter.complete();
         }
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 6c41181..d75ecc8 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -68,12 +68,29 @@ where
         self.completed.store(true, atomic::Ordering::SeqCst);
     }
 
+    #[inline(always)]
+    pub(crate) fn complete_on_panic(&self) -> CompleteOnPanic {
+        CompleteOnPanic(&self.completed)
+    }
+
     #[inline(always)]
     fn is_completed(&self) -> bool {
         self.completed.load(atomic::Ordering::Relaxed)
     }
 }
 
+/// Completes the concurrent iterator when dropped, unless it is forgotten.
+///
+/// It is held while the wrapped iterator is being used: if this panics, the yielded counter
+/// will not be progressed and the waiting threads must be released.
+pub(crate) struct CompleteOnPanic<'a>(&'a AtomicBool);
+
+impl<'a> Drop for CompleteOnPanic<'a> {
+    fn drop(&mut self) {
+        self.0.store(true, atomic::Ordering::SeqCst);
+    }
+}
+
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
 where
     Iter: Iterator<Item = T>,
@@ -127,7 +144,9 @@ where
                     }
 
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
+                    let guard = self.complete_on_panic();
                     let next = unsafe { self.mut_iter() }.next();
+                    std::mem::forget(guard);
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
@@ -158,11 +177,13 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
+            let guard = self.complete_on_panic();
             let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
+            std::mem::forget(guard);
 
             if buffer.len() < n {
                 self.complete();
-- 
2.43.0


From 3017818beecc7c14734d3a997fb953bc1fa32fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 12/13] fix: no capacity overflow in buffered iterators over
 wrapped iterators with large chunk sizes

---
 src/iter/buffered/iter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index d1e8a3c..e06d54c 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -9,6 +9,7 @@ where
     Iter: Iterator<Item = T>,
 {
     values: Vec<Option<T>>,
+    chunk_size: usize,
     phantom: PhantomData<Iter>,
 }
 
@@ -21,13 +22,15 @@ where
 
     fn new(chunk_size: usize) -> Self {
         Self {
-            values: (0..chunk_size).map(|_| None).collect(),
+            // grows on demand: the number of remaining elements might be much less than the chunk size
+            values: Vec::new(),
+            chunk_size,
             phantom: PhantomData,
         }
     }
 
     fn chunk_size(&self) -> usize {
-        self.values.len()
+        self.chunk_size
     }
 
     fn pull(
@@ -41,7 +44,10 @@ where
         let mut i = 0;
         loop {
             match core_iter.next() {
-                Some(x) => self.values[i] = Some(x),
+                Some(x) => match self.values.get_mut(i) {
+                    Some(value) => *value = Some(x),
+                    None => self.values.push(Some(x)),
+                },
                 None => break,
             }
 
-- 
2.43.0


From f61d4a9fcf8acb1a5db2a243dff84b4f19eae01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 13/13] fix: size_hint of buffered chunks of wrapped iterators
 is exact as required by ExactSizeIterator

---
 src/iter/buffered/iter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index e06d54c..97bcfd4 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -104,6 +104,12 @@ impl<'a, T> Iterator for BufferedIter<'a, T> {
             None
         }
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.initial_len - self.current_idx;
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> ExactSizeIterator for BufferedIter<'a, T> {
-- 
2.43.0

