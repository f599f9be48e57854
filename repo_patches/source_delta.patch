From 1b1798f5850f88e1d3e50866a1a87200b15c2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 01/29] hook: bdv_small_nodes cfg shrinks queue nodes for
 solver-based checks

---
 src/queue/linked_node_data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/queue/linked_node_data.rs b/src/queue/linked_node_data.rs
index 847e9f0..b8d7d0a 100644
--- a/src/queue/linked_node_data.rs
+++ b/src/queue/linked_node_data.rs
@@ -1,10 +1,16 @@
+#![allow(unexpected_cfgs)] // `bdv_small_nodes`
+
 use core::mem::MaybeUninit;
 
 use crate::ByteData;
 
-#[cfg(feature = "alloc")]
+#[cfg(all(feature = "alloc", not(bdv_small_nodes)))]
 const NODE_SIZE: usize = 15;
 
+// Only for the solver-based checks (`--cfg bdv_small_nodes`): the same code with small nodes.
+#[cfg(all(feature = "alloc", bdv_small_nodes))]
+const NODE_SIZE: usize = 3;
+
 #[cfg(not(feature = "alloc"))]
 const NODE_SIZE: usize = 23;
 
-- 
2.43.0


From 477f1fc5688d4f3f7ee3cb450f76d090b8d28c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:20 +0000
Subject: [PATCH 02/29] fix: collecting a ByteData from an iterator with a huge
 upper size hint panicked

---
 src/bytedata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index cf853eb..e59b429 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -1225,7 +1225,8 @@ impl FromIterator<u8> for ByteData<'_> {
     fn from_iter<T: IntoIterator<Item = u8>>(iter: T) -> Self {
         let iter = iter.into_iter();
         let siz = match iter.size_hint() {
-            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8),
+            // the upper bound is only a hint, and may be arbitrarily large
+            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8).min(0x1000),
             (siz, None) => siz,
         };
         let mut dat = crate::shared_bytes_builder::SharedBytesBuilder::with_capacity(siz);
-- 
2.43.0


From ffbe60df3cef4ee03d7c1fdfb560f6ebcd002d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 03/29] fix: out-of-range slice bounds wrapped around in builds
 without overflow checks

---
 src/byte_chunk.rs       | 12 ++++++------
 src/external.rs         |  8 ++++----
 src/queue/byte_queue.rs |  2 +-
 src/shared_bytes.rs     | 20 +++++++++++---------
 src/stringdata.rs       |  4 ++--
 5 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index cabffe3..db6fc9a 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -129,11 +129,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -151,11 +151,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -171,11 +171,11 @@ impl ByteChunk {
     ) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
diff --git a/src/external.rs b/src/external.rs
index ed01151..ca8a499 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -242,11 +242,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&st) => st,
-            core::ops::Bound::Excluded(&st) => st + 1,
+            core::ops::Bound::Excluded(&st) => st.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
@@ -275,11 +275,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8fbdb8d..0877515 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -180,7 +180,7 @@ impl<'a> ByteQueue<'a> {
         };
         let start = match range.start_bound() {
             core::ops::Bound::Included(vv) => *vv,
-            core::ops::Bound::Excluded(vv) => *vv + 1,
+            core::ops::Bound::Excluded(vv) => vv.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         assert!(
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index d2b9553..0214d9c 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -255,7 +255,7 @@ impl SharedBytes {
             "SharedBytes::sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::sliced: offset + len out of bounds"
         );
         if len == 0 {
@@ -288,11 +288,11 @@ impl SharedBytes {
     pub fn sliced_range<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
@@ -314,7 +314,7 @@ impl SharedBytes {
             "SharedBytes::into_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::into_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -335,7 +335,7 @@ impl SharedBytes {
             "SharedBytes::make_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::make_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -354,14 +354,15 @@ impl SharedBytes {
     pub fn into_sliced_range<R: RangeBounds<usize>>(self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::into_sliced_range: end < start");
         self.into_sliced(start, end - start)
     }
 
@@ -375,14 +376,15 @@ impl SharedBytes {
     pub fn make_sliced_range<R: RangeBounds<usize>>(&mut self, range: R) -> &mut Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::make_sliced_range: end < start");
         self.make_sliced(start, end - start)
     }
 
diff --git a/src/stringdata.rs b/src/stringdata.rs
index d434ee9..d5e7867 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -284,11 +284,11 @@ impl<'a> StringData<'a> {
         let by = self.data.as_slice();
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 880cc434452f199bf81a923351b49a90d42c80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 04/29] fix: an empty range of external data was reported as
 not empty

---
 src/bytedata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index e59b429..dadc7c8 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -491,7 +491,7 @@ impl<'a> ByteData<'a> {
             }
             .is_empty(),
             #[cfg(feature = "alloc")]
-            Kind::External => false,
+            Kind::External => self.len() == 0,
         }
     }
 
-- 
2.43.0


From 823f822f5c597f67a95510a82c49abce1563f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 05/29] fix: const_slice_str panicked on an empty range at the
 end of the text

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce74d1c..b2fefa7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -380,7 +380,7 @@ pub const fn const_slice_str(data: &'_ str, range: core::ops::Range<usize>) -> S
     if start > end || end > data.len() {
         return StrSliceResult::OutOfBounds;
     }
-    if start != 0 && data[start] & 0b1100_0000 == 0b1000_0000 {
+    if start != 0 && start != data.len() && data[start] & 0b1100_0000 == 0b1000_0000 {
         return StrSliceResult::InvalidUtf8;
     }
     if end != data.len() && data[end] & 0b1100_0000 == 0b1000_0000 {
-- 
2.43.0


From 90aa0573c944e9433e14798879cc18f26123a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 06/29] fix: const_utf8_char_next read the wrong bytes and
 accepted invalid encodings

---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b2fefa7..24e97d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -553,18 +553,28 @@ pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
     } else {
         return (0, 0);
     };
-    if data.len() < len {
+    // `data` no longer holds the first byte
+    if data.len() + 1 < len {
         return (0, 0);
     }
     let mut i = 1;
     while i < len {
-        let byte = data[i];
+        let byte = data[i - 1];
         if byte & 0b1100_0000 != 0b1000_0000 {
             return (0, 0);
         }
         value = (value << 6_u8) | (byte & 0b0011_1111) as u32;
         i += 1;
     }
+    // Overlong encodings, surrogates and values past the last code point are not valid UTF-8.
+    let min = match len {
+        2 => 0x80,
+        3 => 0x800,
+        _ => 0x1_0000,
+    };
+    if value < min || core::char::from_u32(value).is_none() {
+        return (0, 0);
+    }
     #[allow(clippy::cast_possible_truncation)]
     (value, len as u32)
 }
-- 
2.43.0


From dbd81db6d58fb4f7a0ad2c3f7240df72fd6148c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 07/29] fix: Utf8CharIndices accepted overlong encodings

---
 src/char_indicies.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/char_indicies.rs b/src/char_indicies.rs
index 865180b..b2a71ee 100644
--- a/src/char_indicies.rs
+++ b/src/char_indicies.rs
@@ -81,6 +81,16 @@ impl<'a> Utf8CharIndices<'a> {
                 i += 1;
             }
 
+            // Overlong encodings are not valid UTF-8.
+            let min = match width {
+                2 => 0x80,
+                3 => 0x800,
+                _ => 0x1_0000,
+            };
+            if char < min {
+                return Err(width);
+            }
+
             if let Some(char) = core::char::from_u32(char) {
                 Ok((char, width))
             } else {
-- 
2.43.0


From f04fbb462049d303d499dc5bab1e3e0cd7e85567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 08/29] hook: bdv_slots cfg lets the model checker follow
 values through queue nodes

---
 src/queue/linked_iter.rs      |  5 +++
 src/queue/linked_node_data.rs |  3 ++
 src/queue/mod.rs              |  4 +++
 src/queue/slot.rs             | 58 +++++++++++++++++++++++++++++++++++
 4 files changed, 70 insertions(+)
 create mode 100644 src/queue/slot.rs

diff --git a/src/queue/linked_iter.rs b/src/queue/linked_iter.rs
index d9dad9b..fafe48b 100644
--- a/src/queue/linked_iter.rs
+++ b/src/queue/linked_iter.rs
@@ -1,3 +1,8 @@
+#![allow(unexpected_cfgs)] // `bdv_slots`
+
+#[cfg(bdv_slots)]
+use super::slot::MaybeUninit;
+#[cfg(not(bdv_slots))]
 use core::mem::MaybeUninit;
 
 /// An iterator over byte chunks.
diff --git a/src/queue/linked_node_data.rs b/src/queue/linked_node_data.rs
index b8d7d0a..fdcfdc5 100644
--- a/src/queue/linked_node_data.rs
+++ b/src/queue/linked_node_data.rs
@@ -1,5 +1,8 @@
 #![allow(unexpected_cfgs)] // `bdv_small_nodes`
 
+#[cfg(bdv_slots)]
+use super::slot::MaybeUninit;
+#[cfg(not(bdv_slots))]
 use core::mem::MaybeUninit;
 
 use crate::ByteData;
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ca26ee1..87425b9 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -4,6 +4,8 @@
 //!
 //! The queue is a list of byte slices, which allows for efficient appending and consuming of byte data.
 
+#![allow(unexpected_cfgs)] // `bdv_slots`
+
 mod byte_queue;
 mod string_queue;
 
@@ -18,6 +20,8 @@ mod linked_node_data;
 #[cfg(feature = "alloc")]
 mod linked_node_leaf;
 mod linked_root;
+#[cfg(bdv_slots)]
+mod slot;
 
 pub use byte_iter::{ByteIter, OwnedByteIter};
 pub use byte_queue::ByteQueue;
diff --git a/src/queue/slot.rs b/src/queue/slot.rs
new file mode 100644
index 0000000..72d9606
--- /dev/null
+++ b/src/queue/slot.rs
@@ -0,0 +1,58 @@
+//! Only for the solver-based checks (`--cfg bdv_slots`): `MaybeUninit` as a struct, not a union, which
+//! lets the model checker follow concrete values through a queue's nodes.
+
+use core::mem::ManuallyDrop;
+
+#[allow(dead_code)]
+#[repr(transparent)]
+pub(super) struct MaybeUninit<T> {
+    value: ManuallyDrop<T>,
+}
+
+#[allow(dead_code)]
+impl<T> MaybeUninit<T> {
+    pub(super) const fn new(value: T) -> Self {
+        Self {
+            value: ManuallyDrop::new(value),
+        }
+    }
+
+    pub(super) const fn uninit() -> Self {
+        // SAFETY: only used for `ByteData`, a union, for which every bit pattern is valid
+        unsafe { core::mem::MaybeUninit::<Self>::uninit().assume_init() }
+    }
+
+    pub(super) fn write(&mut self, value: T) -> &mut T {
+        *self = Self::new(value);
+        // SAFETY: the value was just written
+        unsafe { self.assume_init_mut() }
+    }
+
+    pub(super) const fn as_ptr(&self) -> *const T {
+        (self as *const Self).cast()
+    }
+
+    pub(super) const fn as_mut_ptr(&mut self) -> *mut T {
+        (self as *mut Self).cast()
+    }
+
+    pub(super) const unsafe fn assume_init(self) -> T {
+        ManuallyDrop::into_inner(self.value)
+    }
+
+    pub(super) const unsafe fn assume_init_read(&self) -> T {
+        self.as_ptr().read()
+    }
+
+    pub(super) unsafe fn assume_init_drop(&mut self) {
+        core::ptr::drop_in_place(self.as_mut_ptr());
+    }
+
+    pub(super) const unsafe fn assume_init_ref(&self) -> &T {
+        &*self.as_ptr()
+    }
+
+    pub(super) const unsafe fn assume_init_mut(&mut self) -> &mut T {
+        &mut *self.as_mut_ptr()
+    }
+}
-- 
2.43.0


From 82ae9f1069ea9bac113d2ab213f2fd11b3929f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 09/29] fix: appending a queue lost count of a chunk moved into
 its first node, or the chunk itself

---
 src/queue/linked_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 91962b3..892cb48 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -272,8 +272,9 @@ impl<'a> LinkedRoot<'a> {
             other.count -= 1;
             // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
             if let Some(fst) = unsafe { other.first.as_mut() } {
-                if let Err(val) = fst.data.push_front(chamber) {
-                    self.push_back(val);
+                match fst.data.push_front(chamber) {
+                    Ok(()) => other.count += 1,
+                    Err(val) => self.push_back(val),
                 }
             } else {
                 self.push_back(chamber);
-- 
2.43.0


From 8b3d2345542309f9a2fc4607b44fed803ddd18e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 10/29] fix: extending a byte queue by texts did not add to its
 length

---
 src/queue/byte_queue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 0877515..0ba0ad7 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -699,7 +699,7 @@ impl<'a> Extend<crate::StringData<'a>> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = crate::StringData<'a>>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(i.into_bytedata());
+            self.push_back(i.into_bytedata());
         }
     }
 }
@@ -708,7 +708,7 @@ impl<'a> Extend<&'a str> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = &'a str>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_borrowed(i.as_bytes()));
+            self.push_back(ByteData::from_borrowed(i.as_bytes()));
         }
     }
 }
@@ -720,7 +720,7 @@ impl Extend<alloc::string::String> for ByteQueue<'_> {
     #[inline]
     fn extend<T: IntoIterator<Item = alloc::string::String>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_owned(i.into_bytes()));
+            self.push_back(ByteData::from_owned(i.into_bytes()));
         }
     }
 }
-- 
2.43.0


From 342c69d76782a2432a5492bbf86166acf2c7cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 11/29] fix: searching a queue lost count of skipped chunks,
 missed matches after partial ones and ignored the start for an empty needle

---
 src/queue/byte_queue.rs | 91 ++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 56 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 0ba0ad7..cd9d0c9 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -299,7 +299,10 @@ impl<'a> ByteQueue<'a> {
         start_byte: usize,
     ) -> Option<(usize, usize, usize)> {
         if data.is_empty() {
-            return Some((0, 0, 0));
+            if start_byte > self.len() {
+                return None;
+            }
+            return Some((start_byte, start_chunk, start_offset));
         }
         self.find_slice_pos_nonempty(data, start_chunk, start_offset, start_byte)
     }
@@ -316,67 +319,43 @@ impl<'a> ByteQueue<'a> {
         // the first byte in the sequence to match possible sequences
         let first_byte = data[0];
 
-        'outer: loop {
-            let mut chunks = self.chunks().skip(start_chunk);
-            let mut sect = chunks.next()?;
-            let len = sect.len();
-            if start_offset >= len {
-                start_offset -= len;
-                start_chunk += 1;
-                continue;
-            }
-            let marked_byte = loop {
-                let sl = &sect.as_slice()[start_offset..];
-                let Some(av) = sl.iter().position(|x| *x == first_byte) else {
-                    sect = match chunks.next() {
-                        Some(vv) => vv,
-                        _ => return None,
-                    };
-                    start_offset = 0;
-                    start_chunk += 1;
-                    continue;
+        for sect in self.chunks().skip(start_chunk) {
+            let sl = sect.as_slice();
+            while start_offset < sl.len() {
+                let rest = &sl[start_offset..];
+                let Some(av) = rest.iter().position(|x| *x == first_byte) else {
+                    start_offset += rest.len();
+                    start_byte += rest.len();
+                    break;
                 };
                 start_offset += av;
                 start_byte += av;
-                break start_byte;
-            };
-            let marked_chunk = start_chunk;
-            let marked_offset = start_offset;
-            let mut found_in = false;
-            let mut skipped_bytes = 0;
-            let data = data.iter().skip(1);
-            let mut sl = sect.as_slice()[(start_offset + 1)..].iter();
-            for av in data {
-                let bv = loop {
-                    let nxt = sl.next();
-                    let Some(bv) = nxt else {
-                        sect = match chunks.next() {
-                            Some(vv) => vv,
-                            _ => return None,
-                        };
-                        sl = sect.as_slice().iter();
-                        continue;
-                    };
-                    break *bv;
-                };
-                if !found_in && bv == first_byte {
-                    found_in = true;
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                    start_offset -= 1;
-                }
-                if bv == *av {
-                    skipped_bytes += 1;
-                    continue;
+                if self.exists_in(start_chunk, start_offset, data) {
+                    return Some((start_byte, start_chunk, start_offset));
                 }
-                if !found_in {
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                }
-                continue 'outer;
+                start_offset += 1;
+                start_byte += 1;
+            }
+            start_offset -= sl.len();
+            start_chunk += 1;
+        }
+        None
+    }
+
+    /// Check if the queue contains a certain byte sequence at a certain offset of a chunk.
+    fn exists_in(&self, chunk: usize, mut offset: usize, mut data: &[u8]) -> bool {
+        for sect in self.chunks().skip(chunk) {
+            let sl = &sect.as_slice()[offset..];
+            if sl.len() >= data.len() {
+                return &sl[..data.len()] == data;
+            }
+            if sl != &data[..sl.len()] {
+                return false;
             }
-            return Some((marked_byte, marked_chunk, marked_offset));
+            data = &data[sl.len()..];
+            offset = 0;
         }
+        false
     }
 
     /// Split the queue on a certain byte sequence.
-- 
2.43.0


From 1bac6627f74cd1b98d5dcacb0874e1dc56f928d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 12/29] fix: splitting a queue mixed up positions, kept the
 separator and did not terminate

---
 src/queue/split.rs | 46 ++++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/queue/split.rs b/src/queue/split.rs
index 4eedbdf..5eabd56 100644
--- a/src/queue/split.rs
+++ b/src/queue/split.rs
@@ -31,37 +31,23 @@ impl<'a> Iterator for SplitOn<'a, '_> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         fn inner<'a>(this: &mut SplitOn<'a, '_>) -> super::ByteQueue<'a> {
-            let val = this.queue.find_slice_pos(
-                this.needle,
-                this.start_chunk,
-                this.start_offset,
-                this.start_byte,
-            );
-            if let Some((chunk, offset, byte)) = val {
-                let mut chunks = this.queue.chunks().skip(this.start_chunk);
-                let new_q = if this.start_chunk == chunk {
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    super::ByteQueue::with_item(chunk_next.sliced(this.start_offset..offset))
-                } else {
-                    let mut new_q = super::ByteQueue::new();
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    new_q.push_back(chunk_next.sliced(this.start_offset..));
-                    for chunkdata in chunks.take(chunk - this.start_chunk - 1) {
-                        new_q.push_back(chunkdata.clone());
-                    }
-                    if offset != 0 {
-                        chunks = this.queue.chunks().skip(chunk);
-                        #[allow(clippy::unwrap_used)]
-                        let chunk_nexter = chunks.next().unwrap();
-                        new_q.push_back(chunk_nexter.sliced(..offset));
-                    }
-                    new_q
-                };
+            let val = if this.needle.is_empty() {
+                // an empty sequence never splits
+                None
+            } else {
+                this.queue.find_slice_pos(
+                    this.needle,
+                    this.start_chunk,
+                    this.start_offset,
+                    this.start_byte,
+                )
+            };
+            if let Some((byte, chunk, offset)) = val {
+                let new_q = this.queue.slice(this.start_byte..byte);
+                // continue after the separator
                 this.start_chunk = chunk;
-                this.start_offset = offset;
-                this.start_byte = byte;
+                this.start_offset = offset + this.needle.len();
+                this.start_byte = byte + this.needle.len();
                 if this.max != 0 {
                     this.max -= 1;
                 }
-- 
2.43.0


From 56aecdc51c12a4de3ab07663f096b05c6a359a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 13/29] fix: OwnedByteIter::take kept the wrong number of bytes
 of the last chunk

---
 src/queue/byte_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 9005032..576684c 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -186,7 +186,7 @@ impl<'a> OwnedByteIter<'a> {
             if self.len() >= n {
                 continue;
             }
-            av.make_sliced(..av.len() - n);
+            av.make_sliced(..n - self.len());
             self.inner.push_back(av);
             break;
         }
-- 
2.43.0


From fdfb3f8748cff257c4bbb2e28829e4b5181fd51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 14/29] fix: skipping far past the end of a ByteIter overflowed

---
 src/queue/byte_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 576684c..9a6f7d8 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -26,7 +26,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     #[inline]
     #[must_use]
     pub const fn skip(mut self, n: usize) -> Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
@@ -38,7 +38,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     /// Skip the next `n` bytes.
     #[inline]
     pub(crate) fn skip_mut(&mut self, n: usize) -> &mut Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
-- 
2.43.0


From 3803d30fbf08213ac3edbe608154c51f2366f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 15/29] fix: splitting a byte or text value repeatedly never
 ended when the separator occurred

---
 src/bytedata.rs | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index dadc7c8..f74786f 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -852,43 +852,39 @@ impl<'a> ByteData<'a> {
     where
         'a: 'b,
     {
-        struct It<'a, 'b>(ByteData<'a>, &'b [u8], bool);
+        struct It<'a, 'b>(Option<ByteData<'a>>, &'b [u8]);
         impl<'a> Iterator for It<'a, '_> {
             type Item = ByteData<'a>;
 
             fn next(&mut self) -> Option<Self::Item> {
-                if self.0.is_empty() {
-                    return None;
+                let mut data = self.0.take()?;
+                if self.1.is_empty() {
+                    return Some(data);
                 }
                 let aa = if let Some((aa, _)) =
-                    crate::const_split_once_bytes(self.0.as_slice(), self.1)
+                    crate::const_split_once_bytes(data.as_slice(), self.1)
                 {
                     aa.len()
                 } else {
-                    return Some(core::mem::replace(&mut self.0, ByteData::empty()));
+                    return Some(data);
                 };
-                if aa == 0 && self.2 {
-                    self.2 = false;
-                    return Some(ByteData::empty());
-                }
-                self.2 = false;
-                let aa = self.0.take_bytes(aa);
-                Some(aa)
+                let ret = data.take_bytes(aa);
+                // continue after the separator
+                data.make_sliced(self.1.len()..);
+                self.0 = Some(data);
+                Some(ret)
             }
 
             fn size_hint(&self) -> (usize, Option<usize>) {
-                if self.0.is_empty() {
-                    (0, Some(0))
-                } else if self.0.len() < self.1.len() {
-                    (1, Some(1))
-                } else if self.0.len() < self.1.len() * 2 {
-                    (1, Some(2))
-                } else {
-                    (1, None)
+                match &self.0 {
+                    None => (0, Some(0)),
+                    Some(_) if self.1.is_empty() => (1, Some(1)),
+                    Some(data) => (1, Some(1 + data.len() / self.1.len())),
                 }
             }
         }
-        It(self, needle, true)
+        let data = if self.is_empty() { None } else { Some(self) };
+        It(data, needle)
     }
 }
 
-- 
2.43.0


From c6a8d49e6cc7d2ed50874bb73d8b645c826c4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 16/29] fix: honour the alignment requested with a builder's
 capacity

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index f6f01bb..724e258 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -107,12 +107,12 @@ impl SharedBytesBuilder {
             return Self::with_alignment(alignment);
         }
         assert!(alignment <= 512, "SharedBytesBuilder::with_aligned_capacity: alignment must be less than or equal to 512");
-        let align = Self::cap_check(cap, core::mem::align_of::<SharedBytesMeta>());
         let align2 = alignment.next_power_of_two();
         assert!(
             align2 == alignment,
             "SharedBytesBuilder::with_aligned_capacity: alignment must be a power of two"
         );
+        let align = Self::cap_check(cap, alignment);
         #[allow(clippy::cast_possible_truncation)]
         let cap = cap as u32;
         Self::with_capacity_u32(cap, align)
-- 
2.43.0


From d6111a18e012ea9d61657a401bdd8d4ea6e2c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 17/29] fix: truncating a builder to a length of more than 32
 bits keeps its bytes

---
 src/shared_bytes_builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 724e258..4053674 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -285,11 +285,12 @@ impl SharedBytesBuilder {
         if self.len == 0 {
             return;
         }
-        #[allow(clippy::cast_possible_truncation)]
-        let data_off = SharedBytesMeta::compute_start_offset(self.align).saturating_add(len as u32);
-        if self.off > data_off {
-            self.off = data_off;
+        if len >= self.len() {
+            return;
         }
+        #[allow(clippy::cast_possible_truncation)]
+        let len = len as u32;
+        self.off = SharedBytesMeta::compute_start_offset(self.align) + len;
     }
 
     /// Freezes the builder and returns a [`SharedBytes`] representing the data.
-- 
2.43.0


From 142619b9bed6e74ed4c866d76691c696eee852f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 18/29] fix: refuse a builder reservation that cannot be
 satisfied

---
 src/shared_bytes_builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 4053674..eac747d 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -154,13 +154,21 @@ impl SharedBytesBuilder {
     }
 
     /// Reserves capacity for at least `additional` more bytes to be written to the buffer.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the required capacity is too large.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
         let off = self.off as usize;
-        if off == 0xFFFF_FFFF || additional == 0 {
+        if additional == 0 {
             return;
         }
         let new_off = off.saturating_add(additional);
+        assert!(
+            new_off <= 0xFFFF_FFFF,
+            "SharedBytesBuilder::reserve: capacity too large"
+        );
         let new_len = if new_off >= 0x0000_8000 {
             (new_off & 0xFFFF_8000)
                 .saturating_add(0x0000_8000)
-- 
2.43.0


From 880032c423ab7c77f5adacb084c315b4d5bda018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 19/29] fix: turn a block of any alignment that has other
 handles into a builder

---
 src/shared_bytes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 0214d9c..db44f96 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -569,7 +569,12 @@ impl From<SharedBytes> for SharedBytesBuilder {
                 dat: dataptr,
             }
         } else {
-            let mut ret = Self::with_alignment(align);
+            let mut ret = Self {
+                len: 0,
+                off: SharedBytesMeta::compute_start_offset(align),
+                dat: core::ptr::null_mut(),
+                align,
+            };
             ret.extend_from_slice(dat.as_slice());
             ret
         }
-- 
2.43.0


From 3465ba5f27018f850440dfa829348f071b3d5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 20/29] fix: order every access to shared storage before its
 release and reuse

---
 src/bytes_1/shared_bytes.rs | 6 ++++--
 src/external.rs             | 6 ++++--
 src/shared_bytes.rs         | 8 +++++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 2b186a7..f937a3a 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -48,14 +48,16 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     is_unique: |data| unsafe {
         let p = data.load(Ordering::Relaxed);
         let meta = &*(p as *const crate::SharedBytesMeta);
-        meta.refcnt.load(Ordering::Relaxed) == 1
+        meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe {
         let p = data.load(Ordering::Relaxed) as *mut u8;
         let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+        if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
             return;
         }
+        // every access through another handle happens before the release
+        core::sync::atomic::fence(Ordering::Acquire);
         let layout =
             alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
         alloc::alloc::dealloc(p, layout);
diff --git a/src/external.rs b/src/external.rs
index ca8a499..e37cc41 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -361,7 +361,7 @@ impl ExtBytes {
         // SAFETY: `ExtBytesRef.data` is a valid pointer to `ExtBytesWrapper`.
         let ee = unsafe { &*dd.data };
         if ee.kind != core::any::TypeId::of::<T>()
-            || ee.ref_count.load(core::sync::atomic::Ordering::Relaxed) != 1
+            || ee.ref_count.load(core::sync::atomic::Ordering::Acquire) != 1
         {
             return Err(self);
         }
@@ -400,8 +400,10 @@ impl Drop for ExtBytes {
         let header = unsafe { &*ext_ref.data };
         let ref_count = header
             .ref_count
-            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            .fetch_sub(1, core::sync::atomic::Ordering::Release);
         if ref_count == 1 {
+            // every access through another handle happens before the release
+            core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
                 let align_mod = offset % header.align as usize;
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index db44f96..ee8c986 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -195,7 +195,7 @@ impl SharedBytes {
         let meta = dat.cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
         let meta = unsafe { &*meta };
-        meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1
+        meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1
     }
 
     /// Returns the bytes as a slice.
@@ -437,7 +437,9 @@ impl Drop for SharedBytes {
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
             let refcnt = &meta.refcnt;
-            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Relaxed) == 1 {
+            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Release) == 1 {
+                // every access through another handle happens before the release
+                core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
                 #[allow(clippy::unwrap_used)]
                 let layout =
                     core::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -543,7 +545,7 @@ impl From<SharedBytes> for SharedBytesBuilder {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = unsafe { &*dat_dat.cast::<SharedBytesMeta>() };
         let align = meta.align();
-        if meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1 {
+        if meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1 {
             let len = meta.len;
             let dat_len = dat.len;
             let dataptr = dat_dat.cast_mut();
-- 
2.43.0


From 0bba5499966fb474a1505fa098c8552fa35ef467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 21/29] fix: release the block of a Bytes made from shared
 bytes when it becomes a Vec or BytesMut

---
 src/bytes_1/shared_bytes.rs | 43 ++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index f937a3a..02d6312 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -8,6 +8,24 @@ use ::bytes_1 as bytes;
 
 use crate::SharedBytes;
 
+#[cfg(not(feature = "bytes_1_safe"))]
+/// Release the handle to the block `data` points to.
+///
+/// # Safety
+///
+/// `data` must point to a live block, to which the caller gives up one handle.
+unsafe fn release(data: &AtomicPtr<()>) {
+    let p = data.load(Ordering::Relaxed) as *mut u8;
+    let meta = &*(p as *const crate::SharedBytesMeta);
+    if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
+        return;
+    }
+    // every access through another handle happens before the release
+    core::sync::atomic::fence(Ordering::Acquire);
+    let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
+    alloc::alloc::dealloc(p, layout);
+}
+
 #[cfg(not(feature = "bytes_1_safe"))]
 /// A vtable compatible with bytes::Vtable.
 static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
@@ -23,25 +41,21 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         .into_bytes()
     },
-    to_vec: |_data, ptr, len| {
-        if len == 0 {
-            return Vec::new();
-        }
+    to_vec: |data, ptr, len| {
         let mut vec = Vec::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            release(data);
         }
         vec
     },
-    to_mut: |_data, ptr, len| {
-        if len == 0 {
-            return bytes::BytesMut::new();
-        }
+    to_mut: |data, ptr, len| {
         let mut vec = bytes::BytesMut::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            release(data);
         }
         vec
     },
@@ -50,18 +64,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         let meta = &*(p as *const crate::SharedBytesMeta);
         meta.refcnt.load(Ordering::Acquire) == 1
     },
-    drop: |data, _ptr, _len| unsafe {
-        let p = data.load(Ordering::Relaxed) as *mut u8;
-        let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
-            return;
-        }
-        // every access through another handle happens before the release
-        core::sync::atomic::fence(Ordering::Acquire);
-        let layout =
-            alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
-        alloc::alloc::dealloc(p, layout);
-    },
+    drop: |data, _ptr, _len| unsafe { release(data) },
 };
 
 #[cfg(feature = "bytes_1_safe")]
-- 
2.43.0


From f29c8e75d89472624ec2855321e560b4697f1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 22/29] fix: a line taken from a text value includes its
 newline

---
 src/stringdata.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringdata.rs b/src/stringdata.rs
index d5e7867..131177b 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -367,6 +367,7 @@ impl<'a> StringData<'a> {
         let Some(position) = self.as_str().find('\n') else {
             return core::mem::replace(self, Self::empty());
         };
+        let position = position + 1;
         let av = self.sliced(0..position);
         self.make_sliced(position..);
         av
-- 
2.43.0


From 26808c747ae5c299e8465a0d88631ad670ed5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 23/29] fix: a vectored read read past the end of the value

---
 src/std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.rs b/src/std.rs
index 2731f71..c16266e 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -28,7 +28,7 @@ fn read_vectored_inner(mut slic: *const u8, len: usize, bufs: &mut [IoSliceMut<'
             continue;
         }
 
-        let blen = buf.len().min(len);
+        let blen = buf.len().min(left);
         // SAFETY: we know that the buffer is large enough as we checked it before
         unsafe { core::ptr::copy_nonoverlapping(slic, buf.as_mut_ptr(), blen) };
         // SAFETY: the pointer gets moved by `blen` which is guaranteed to be in bounds
-- 
2.43.0


From 41d5edc45ea857479214b0089ada5615a26cbdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 24/29] fix: reading a value into a longer buffer panicked

---
 src/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index c16266e..e6fe767 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -44,7 +44,7 @@ impl Read for ByteData<'_> {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len..);
         Ok(len)
     }
@@ -111,7 +111,7 @@ impl Read for SharedBytes {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len, self.len() - len);
         Ok(len)
     }
-- 
2.43.0


From 925ec2b10f1b9e3736dd0738d7f8ab9202f60226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 25/29] fix: the hash of a queue depended on its division into
 chunks

---
 src/queue/byte_queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index cd9d0c9..25127c5 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -874,8 +874,12 @@ impl Eq for ByteQueue<'_> {}
 impl core::hash::Hash for ByteQueue<'_> {
     #[inline]
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        // one byte at a time, so that the division into chunks does not matter to any hasher
+        state.write_usize(self.len());
         for chunk in self.chunks() {
-            chunk.as_slice().hash(state);
+            for byte in chunk.as_slice() {
+                byte.hash(state);
+            }
         }
     }
 }
-- 
2.43.0


From 7d852eb463116603776fe84910b12dff20a3e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 26/29] fix: a parser that needs at least one item fails
 recoverably, and fails on an empty complete input

---
 src/nom_7/bytedata.rs    | 7 +++++--
 src/nom_7/bytequeue.rs   | 5 +++--
 src/nom_7/stringdata.rs  | 7 +++++--
 src/nom_7/stringqueue.rs | 5 +++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 93b5719..44b00c1 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -214,7 +214,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -253,11 +253,14 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index e9d8469..ab90cae 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -277,7 +277,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
@@ -309,8 +309,9 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
         P: Fn(Self::Item) -> bool,
     {
         match self.find_byte(predicate) {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index fe9114e..6f4ef33 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -254,7 +254,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -291,11 +291,14 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 3be4e80..920b065 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -261,7 +261,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
@@ -301,8 +301,9 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .find(|&(_, ch)| predicate(ch))
             .map(|(i, _)| i);
         match a {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
-- 
2.43.0


From ed9d56422205d1508038df6024c4672ab41d17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 27/29] fix: text inputs of a parser counted positions in
 characters instead of bytes and lengths in bytes instead of characters

---
 src/nom_7/mod.rs         | 11 +++++++++++
 src/nom_7/stringdata.rs  |  4 ++--
 src/nom_7/stringqueue.rs | 22 +++++++++++++++-------
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/nom_7/mod.rs b/src/nom_7/mod.rs
index 99a944b..55b6164 100644
--- a/src/nom_7/mod.rs
+++ b/src/nom_7/mod.rs
@@ -6,5 +6,16 @@ mod bytequeue;
 #[cfg(feature = "queue")]
 mod stringqueue;
 
+/// A step of an iterator over the characters of a text and their byte offsets.
+#[allow(clippy::unnecessary_wraps)]
+fn char_index(offset: &mut usize, ch: char) -> Option<(usize, char)> {
+    let start = *offset;
+    *offset += ch.len_utf8();
+    Some((start, ch))
+}
+
+/// The type of [`char_index`].
+type CharIndex = fn(&mut usize, char) -> Option<(usize, char)>;
+
 #[cfg(test)]
 mod tests;
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index 6f4ef33..a4fdcfa 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -176,12 +176,12 @@ impl nom::HexDisplay for crate::StringData<'_> {
 
 impl nom::InputIter for crate::StringData<'_> {
     type Item = char;
-    type Iter = core::iter::Enumerate<Self>;
+    type Iter = core::iter::Scan<Self, usize, super::CharIndex>;
     type IterElem = Self;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone())
+        Iterator::scan(self.clone(), 0, super::char_index)
     }
 
     #[inline]
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 920b065..f8111a9 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -172,12 +172,12 @@ impl nom::HexDisplay for crate::StringQueue<'_> {
 
 impl<'a> nom::InputIter for crate::StringQueue<'a> {
     type Item = char;
-    type Iter = core::iter::Enumerate<crate::queue::OwnedCharIter<'a>>;
+    type Iter = core::iter::Scan<crate::queue::OwnedCharIter<'a>, usize, super::CharIndex>;
     type IterElem = crate::queue::OwnedCharIter<'a>;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone().into_chars())
+        Iterator::scan(self.clone().into_chars(), 0, super::char_index)
     }
 
     #[inline]
@@ -190,16 +190,24 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.chars().position(predicate)
+        self.chars_indecies()
+            .find(|&(_, ch)| predicate(ch))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Result<usize, nom::Needed> {
-        if self.len() >= count {
-            Ok(count)
-        } else {
-            Err(nom::Needed::new(count - self.len()))
+        let mut left = count;
+        for (i, _) in self.chars_indecies() {
+            if left == 0 {
+                return Ok(i);
+            }
+            left -= 1;
+        }
+        if left == 0 {
+            return Ok(self.len());
         }
+        Err(nom::Needed::Unknown)
     }
 }
 
-- 
2.43.0


From 69eb2734fd3d0b138237d3f62565d98e97d4eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:24 +0000
Subject: [PATCH 28/29] fix: appending no bytes to a builder without a buffer
 computed an offset from a null pointer

---
 src/bytes_1/shared_bytes_builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bytes_1/shared_bytes_builder.rs b/src/bytes_1/shared_bytes_builder.rs
index d6a0fca..108bf19 100644
--- a/src/bytes_1/shared_bytes_builder.rs
+++ b/src/bytes_1/shared_bytes_builder.rs
@@ -67,6 +67,10 @@ unsafe impl bytes::BufMut for SharedBytesBuilder {
             cnt <= self.remaining_mut(),
             "SharedBytesBuilder::put_bytes: index out of bounds"
         );
+        if cnt == 0 {
+            // there may be no buffer yet
+            return;
+        }
         self.reserve(cnt);
         // SAFETY: `off` is within bounds.
         let ptr = unsafe { self.dat.add(self.off as usize) };
-- 
2.43.0


From 5a55cdd39e411459905725a8f0ee393f1a499aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 29/29] fix: taking the rest of a stream as a shared text never
 ended, as characters are generated from an empty stream too

---
 src/arbitrary_1/stringdata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arbitrary_1/stringdata.rs b/src/arbitrary_1/stringdata.rs
index 8e93ad4..bee1e00 100644
--- a/src/arbitrary_1/stringdata.rs
+++ b/src/arbitrary_1/stringdata.rs
@@ -107,7 +107,8 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             #[cfg(feature = "alloc")]
             &Choice::Shared => {
                 let mut buffer = crate::SharedBytesBuilder::new();
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     buffer.reserve(4);
                     buffer.apply_unfilled(|buf| {
                         // SAFETY: The bytes may be uninitialized, but we are about to fill them.
-- 
2.43.0

