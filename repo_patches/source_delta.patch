From 86d1caae4ce332e005402dd7f55ce96a699409d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 01/16] fix: Vector::append and Vector::assign must not drop
 uninitialized memory or leak elements

---
 src/vector/mod.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4153e90..99c89b8 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -278,16 +278,17 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The buffer or elements.
     pub fn append(&mut self, buf: &[T]) {
-        let old_len = self.len();
-        let new_len = old_len + buf.len();
+        let new_len = self.len() + buf.len();
         if new_len > self.capacity() {
             self.reserve(new_len - self.capacity());
         }
 
-        // copy in place
-        unsafe {
-            self.end_ptr = self.end_ptr.add(buf.len());
-            self.as_slice_mut()[old_len..old_len + buf.len()].clone_from_slice(buf);
+        // clone in place. the memory past the end is uninitialized, so nothing must be dropped
+        for elem in buf {
+            unsafe {
+                self.end_ptr.write(elem.clone());
+                self.increment_size();
+            }
         }
     }
 
@@ -297,14 +298,14 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The slice
     pub fn assign(&mut self, buf: &[T]) {
-        if buf.len() > self.capacity() {
-            self.reserve(buf.len() - self.capacity());
-        }
-
+        // drop the old elements, but keep the capacity
         unsafe {
-            self.end_ptr = self.begin_ptr.add(buf.len());
-            self.as_slice_mut().clone_from_slice(buf);
+            let old: *mut [T] = self.as_slice_mut();
+            self.end_ptr = self.begin_ptr;
+            ptr::drop_in_place(old);
         }
+
+        self.append(buf);
     }
 }
 
-- 
2.43.0


From 5ca654f08ca14ddb1198a7b8b59b1221e60d907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 02/16] fix: HashSet::insert returns true when the key was not
 present

---
 src/hash_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash_set/mod.rs b/src/hash_set/mod.rs
index c6acb6b..635326b 100644
--- a/src/hash_set/mod.rs
+++ b/src/hash_set/mod.rs
@@ -69,7 +69,7 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
     ///
     /// `value`: The associated value
     pub fn insert(&mut self, key: K) -> bool {
-        self.hash_table.insert(key, ()).is_some()
+        self.hash_table.insert(key, ()).is_none()
     }
 
     /// Creates a hash set backed by an allocator
-- 
2.43.0


From eaa81a0350787c588d99c3fa6b53baf215b3b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:10 +0000
Subject: [PATCH 03/16] fix: String::assign replaces the contents instead of
 appending to them

---
 src/string/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index e1987a2..c12f2b3 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -76,7 +76,7 @@ impl<A: Allocator> String<A> {
         self.reserve(buf.as_ref().len());
 
         // copy over and null terminate
-        self.vec.append(buf.as_ref().as_bytes());
+        self.vec.assign(buf.as_ref().as_bytes());
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
-- 
2.43.0


From d0a1fe72a1ad209e511634ac62f2ad13d4503e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 04/16] fix: String stays null-terminated after with_capacity,
 reserve and remove

---
 src/string/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index c12f2b3..90bae67 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -36,10 +36,14 @@ impl<A: Allocator + Default> String<A> {
     ///
     /// `capacity`: The initial capacity of the string
     pub fn with_capacity(capacity: usize) -> Self {
-        Self {
+        let mut ret = Self {
             // make space for the null terminator
             vec: Vector::with_capacity(capacity),
-        }
+        };
+        // the new memory is uninitialized
+        unsafe { ret.null_terminate() };
+
+        ret
     }
 }
 
@@ -156,7 +160,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            self.vec.remove(index).map(|elem| elem as char)
+            let elem = self.vec.remove(index).map(|elem| elem as char);
+
+            // null terminate
+            unsafe { self.null_terminate() }
+
+            elem
         }
     }
 
@@ -167,7 +176,10 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1)
+        self.vec.reserve(capacity + 1);
+
+        // the new memory is uninitialized
+        unsafe { self.null_terminate() }
     }
 
     /// Null terminate the string.
-- 
2.43.0


From 63d2d810e5df2a30e7cb42f7bfdcde6084d549d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 05/16] fix: String::push, insert, pop and remove must not
 truncate or split multi-byte chars

---
 src/string/mod.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 90bae67..f26fc7c 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -127,12 +127,15 @@ impl<A: Allocator> String<A> {
 
     /// Pops an element off of the back of the array
     pub fn pop(&mut self) -> Option<char> {
-        let elem = self.vec.pop().map(|elem| elem as char);
+        let elem = self.as_str().chars().next_back()?;
+        for _ in 0..elem.len_utf8() {
+            self.vec.pop();
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
 
-        elem
+        Some(elem)
     }
 
     /// Inserts a char into the string at an index.
@@ -144,7 +147,11 @@ impl<A: Allocator> String<A> {
     ///
     /// `elem`: The char to add to the string
     pub fn insert(&mut self, index: usize, elem: char) {
-        self.vec.insert(index, elem as u8);
+        assert!(self.is_char_boundary(index), "index out of bounds");
+        let mut buf = [0; 4];
+        for (i, byte) in elem.encode_utf8(&mut buf).bytes().enumerate() {
+            self.vec.insert(index + i, byte);
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
@@ -156,17 +163,16 @@ impl<A: Allocator> String<A> {
     ///
     /// `index`: The index of the element to remove
     pub fn remove(&mut self, index: usize) -> Option<char> {
-        // account for null terminator
-        if index >= self.len() {
-            None
-        } else {
-            let elem = self.vec.remove(index).map(|elem| elem as char);
+        // there is no char at the end, nor in the middle of a char
+        let elem = self.as_str().get(index..)?.chars().next()?;
+        for _ in 0..elem.len_utf8() {
+            self.vec.remove(index);
+        }
 
-            // null terminate
-            unsafe { self.null_terminate() }
+        // null terminate
+        unsafe { self.null_terminate() }
 
-            elem
-        }
+        Some(elem)
     }
 
     /// Reserves space for chars within the string
-- 
2.43.0


From 14c8736a16ab0043ccc1d8aef1dd1739e048ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:18 +0000
Subject: [PATCH 06/16] fix: Deque frees its last subarray when dropped

---
 src/deque/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index f0dbd10..a8dc94c 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -440,12 +440,12 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             unsafe { std::ptr::drop_in_place(elem as *mut T) }
         }
 
-        // free the sub-arrays
+        // free the sub-arrays, including the one `end_it` is in
         if let Some(current_array) = unsafe { self.begin_it.current_array.as_mut() } {
             for subarray in unsafe {
                 std::slice::from_raw_parts_mut(
                     current_array,
-                    self.end_it.current_array.offset_from(current_array) as usize,
+                    self.end_it.current_array.offset_from(current_array) as usize + 1,
                 )
             } {
                 self.free_subarray(*subarray);
-- 
2.43.0


From 8d8747a2f7e100b0a29d09aca0f1efef36d965ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 07/16] fix: HashTable frees its bucket arrays when it rehashes
 and when it is dropped

---
 src/internal/hash_table/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index f18c54a..3c4d1f9 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -331,6 +331,17 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         }
     }
 
+    /// Frees the bucket array, unless it is the static empty one
+    fn free_bucket_array(&mut self) {
+        if self.bucket_count > 1 {
+            // account for the sentinel
+            unsafe {
+                self.allocator
+                    .deallocate(self.bucket_array, (self.bucket_count + 1) as usize)
+            }
+        }
+    }
+
     /// Frees all buckets
     fn free_buckets(&mut self) {
         if self.bucket_count > 1 {
@@ -413,6 +424,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             });
         // free the old buckets before setting new ones
         self.free_buckets();
+        self.free_bucket_array();
         self.bucket_array = new_buckets.as_mut_ptr();
         self.bucket_count = bucket_count;
     }
@@ -431,6 +443,7 @@ where
 impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for HashTable<K, V, A, H, E> {
     fn drop(&mut self) {
         self.free_buckets();
+        self.free_bucket_array();
     }
 }
 
-- 
2.43.0


From d26ee528591e5e898952149528784dcf23bdab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 08/16] fix: HashTable frees a bucket iteratively so long
 chains do not overflow the stack

---
 src/internal/hash_table/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 3c4d1f9..2bfe740 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -320,14 +320,16 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// `bucket_node`: The node in the bucket
     fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        // free the next node
-        if let Some(next_node) = bucket_node.next_mut() {
-            self.free_bucket(next_node);
-        }
-        // drop and free our node
-        unsafe {
-            std::ptr::drop_in_place(bucket_node as *mut Node<K, V>);
-            self.allocator.deallocate(bucket_node, 1)
+        // don't recurse, as a chain can be as long as the table
+        let mut bucket_node: *mut Node<K, V> = bucket_node;
+        while !bucket_node.is_null() {
+            // drop and free our node
+            unsafe {
+                let next_node = (*bucket_node).next;
+                std::ptr::drop_in_place(bucket_node);
+                self.allocator.deallocate(bucket_node, 1);
+                bucket_node = next_node;
+            }
         }
     }
 
-- 
2.43.0


From 3fef27ed5d4388f7e9eabe4205e0a0c51b4f0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 09/16] fix: List deallocates nodes with the layout they were
 allocated with

---
 src/list/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3bae954..b6db149 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -3,7 +3,6 @@ use crate::list::iter::{Iter, IterMut};
 use crate::list::node::{ListNode, ListNodeBase};
 use moveit::{new, New};
 use std::marker::PhantomData;
-use std::mem::size_of;
 use std::{fmt, ptr};
 
 pub(crate) mod iter;
@@ -81,7 +80,7 @@ impl<T, A: Allocator> List<T, A> {
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop, size_of::<ListNode<T>>());
+                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
             }
         }
         self.init_sentinel_node();
@@ -207,7 +206,7 @@ impl<T, A: Allocator> List<T, A> {
         (*node).remove();
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
-        self.allocator.deallocate(node, size_of::<ListNode<T>>());
+        self.allocator.deallocate(node as *mut ListNode<T>, 1);
         self.size -= 1;
         value
     }
-- 
2.43.0


From 7d29528ad4f44a782c78ebf6d7b7162460b72d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:56 +0000
Subject: [PATCH 10/16] fix: DefaultHash for C strings hashes the bytes that
 are there

---
 src/hash.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hash.rs b/src/hash.rs
index 93259b3..18f6153 100644
--- a/src/hash.rs
+++ b/src/hash.rs
@@ -98,11 +98,11 @@ impl Hash<bool> for DefaultHash<bool> {
 /// # Arguments
 ///
 /// `str`: The string to hash
-fn fnv1<S: AsRef<str>>(str: S) -> usize {
+fn fnv1<S: AsRef<[u8]>>(str: S) -> usize {
     let mut res: u32 = 2166136261;
     str.as_ref()
-        .bytes()
-        .for_each(|c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
+        .iter()
+        .for_each(|&c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
     res as usize
 }
 
@@ -120,7 +120,7 @@ impl Hash<&str> for DefaultHash<&str> {
 
 impl Hash<*const c_char> for DefaultHash<*const c_char> {
     fn hash(val: &*const c_char) -> usize {
-        DefaultHash::<str>::hash(unsafe { CStr::from_ptr(*val) }.to_string_lossy().as_ref())
+        fnv1(unsafe { CStr::from_ptr(*val) }.to_bytes())
     }
 }
 
-- 
2.43.0


From 1025aa716b5039188a4c5b258dc70f13f666e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 11/16] fix: RBTree drops the pairs it frees, and is empty
 after it is cleared

---
 src/internal/rb_tree/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index b7b1936..6a29908 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -259,8 +259,11 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(right) = root.right() {
             self.free_tree(right)
         }
-        // deallocate the current node
-        unsafe { self.allocator.deallocate(root, 1) }
+        // drop and deallocate the current node
+        unsafe {
+            std::ptr::drop_in_place(root as *mut Node<K, V>);
+            self.allocator.deallocate(root, 1)
+        }
     }
 
     /// Frees all of the nodes in the tree
@@ -268,6 +271,12 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(node) = unsafe { self.parent.as_mut() } {
             self.free_tree(node)
         }
+
+        // reset our contents
+        self.begin = std::ptr::null_mut();
+        self.end = std::ptr::null_mut();
+        self.parent = std::ptr::null_mut();
+        self.size = 0;
     }
 
     /// Returns the parent node
-- 
2.43.0


From 0810594e919c17a974231840899316b619101200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:01 +0000
Subject: [PATCH 12/16] fix: FixedPoolWithOverflow must not take a block that
 starts at the pool's end for its own

---
 src/fixed_pool/with_overflow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_pool/with_overflow.rs b/src/fixed_pool/with_overflow.rs
index d5cb777..6f32ba2 100644
--- a/src/fixed_pool/with_overflow.rs
+++ b/src/fixed_pool/with_overflow.rs
@@ -85,7 +85,7 @@ unsafe impl<Node: Sized, OverflowAllocator: Allocator> Allocator
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), _n: usize, _align: usize) {
         // if it's contained within the pool allocator, use the pool allocator
-        if self.pool_begin <= p && p <= self.pool_allocator.capacity.cast() {
+        if self.pool_begin <= p && p < self.pool_allocator.capacity.cast() {
             self.pool_allocator.deallocate_raw_aligned(p, _n, _align)
         } else {
             self.overflow_allocator
-- 
2.43.0


From 5aba1fff24a96296e3c2e816857204926ca84fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 13/16] fix: allocation sizes must not wrap around in release
 builds

---
 src/allocator.rs  | 7 ++++---
 src/vector/mod.rs | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 7544ff5..81ae26c 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -13,10 +13,11 @@ pub unsafe trait Allocator {
     ///
     /// `n`: The number of array elements
     fn allocate<T>(&mut self, n: usize) -> *mut T {
+        let size = n
+            .checked_mul(std::mem::size_of::<T>())
+            .expect("capacity overflow");
         unsafe {
-            std::mem::transmute(
-                self.allocate_raw_aligned(n * std::mem::size_of::<T>(), std::mem::align_of::<T>()),
-            )
+            std::mem::transmute(self.allocate_raw_aligned(size, std::mem::align_of::<T>()))
         }
     }
 
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 99c89b8..ecd11ec 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -206,7 +206,10 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
         }
         // allocate a new bit of memory
         let size = self.len();
-        let new_capacity = self.capacity() + additional;
+        let new_capacity = self
+            .capacity()
+            .checked_add(additional)
+            .expect("capacity overflow");
         // allocate the new buffer
         let new_begin_ptr = self.allocator.allocate::<T>(new_capacity);
         // copy from the old array if we should
-- 
2.43.0


From 93f0a0494a413691cc824e4fa8e16419a7913646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 14/16] fix: DefaultAllocator must not hand out a null pointer

---
 src/allocator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 81ae26c..62ef21b 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -103,11 +103,12 @@ unsafe impl Allocator for DefaultAllocator {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         assert_ne!(n, 0, "`n` must not be zero!");
 
-        unsafe {
-            std::mem::transmute(alloc::alloc(
-                Layout::array::<u8>(n).unwrap().align_to(align).unwrap(),
-            ))
+        let layout = Layout::array::<u8>(n).unwrap().align_to(align).unwrap();
+        let p = unsafe { alloc::alloc(layout) };
+        if p.is_null() {
+            alloc::handle_alloc_error(layout);
         }
+        p.cast()
     }
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
-- 
2.43.0


From 0f6b849706dfcc0202c1b37c3de5f9eda87acd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 15/16] fix: FixedVector has not overflowed when it is cleared

---
 src/fixed_vector/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 7dc0538..f0aa060 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -98,7 +98,9 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT,
 
     /// Returns true if the allocations spilled over into the overflow allocator. Meaningful only if overflow is enabled.
     pub fn has_overflowed(&self) -> bool {
-        !ptr::eq(self.base_vec.begin_ptr, self.buffer[0].as_ptr())
+        // a cleared vector does not own any memory
+        !self.base_vec.begin_ptr.is_null()
+            && !ptr::eq(self.base_vec.begin_ptr, self.buffer[0].as_ptr())
     }
 }
 
-- 
2.43.0


From 6a432f0a1e2766824a8f0b715e85f39a59eb90b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:12 +0000
Subject: [PATCH 16/16] fix: FixedVector::move_new must not keep pointing to
 the buffer it was moved from

---
 src/fixed_vector/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index f0aa060..43a98f9 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -84,6 +84,8 @@ unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
             this.base_vec.begin_ptr = src.base_vec.begin_ptr;
             this.base_vec.end_ptr = src.base_vec.end_ptr;
             this.base_vec.capacity_ptr = src.base_vec.capacity_ptr;
+            // the pool is ours, not the one of `src`
+            this.base_vec.allocator.pool_begin = this.buffer[0].as_mut_ptr() as *mut c_void;
         }
         // zero `src` `begin_ptr` so any allocated data will not be dropped (we pretend like we never allocated it)
         src.base_vec.begin_ptr = null_mut();
-- 
2.43.0

