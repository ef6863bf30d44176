From 36c3c9dd6221dc920e2114007d7cb1f451a146c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 01/30] fix: encode i64 values outside the short range

The range check used || so every i64 was treated as a 12-bit short: values were
truncated to 16 bits, or recursed forever between the i64 and i16 encoders.
---
 src/encoder/encodable.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ced817f..2d5b8b6 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -31,7 +31,7 @@ impl Encodable for i64 {
     #[allow(clippy::cast_possible_truncation)]
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
         // If this is small enough, store it as a short
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             #[allow(clippy::cast_possible_truncation)]
             return (*self as i16).write_fleece_to(buf, is_wide);
         }
@@ -46,18 +46,17 @@ impl Encodable for i64 {
     }
 
     fn fleece_size(&self) -> usize {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             return 2;
         }
-        if *self >= 0 {
-            8 - self.trailing_zeros() as usize + 1
-        } else {
-            8 - self.trailing_ones() as usize + 1
-        }
+        // The significant bits, plus a sign bit so that the value can be sign-extended when read
+        let magnitude = if *self >= 0 { *self } else { !*self };
+        let bits = 64 - magnitude.leading_zeros() as usize + 1;
+        (bits + 7) / 8 + 1
     }
     #[allow(clippy::cast_possible_truncation)]
     fn to_sized_value(&self) -> Option<SizedValue> {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             (*self as i16).to_sized_value()
         } else {
             None
-- 
2.43.0


From 765cfd7e8f3d341f87e032c0bfb7d68c56e8c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 02/30] fix: sign extend signed ints of fewer than 8 bytes when
 reading

---
 src/value/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 080b457..bb7834c 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -274,6 +274,10 @@ impl Value {
                         count,
                     );
                 }
+                // Signed ints are stored with as few bytes as possible, so sign extend them.
+                if self.value_type() == ValueType::Int && buf[count - 1] & 0x80 != 0 {
+                    buf[count..].fill(0xFF);
+                }
                 i64::from_le_bytes(buf)
             }
             ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as i64,
-- 
2.43.0


From b59be390652430e772a2a1eaa45e35b88c1db42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 03/30] fix: size u64 by its leading zero bytes, not its
 trailing zero bits

Values with trailing zero bits lost their most significant bytes, or panicked.
---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 2d5b8b6..6b08247 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -87,8 +87,8 @@ impl Encodable for u64 {
         if *self <= 2047 {
             2
         } else {
-            let trailing_zeros = (self.trailing_zeros() + 7) / 8;
-            8 - trailing_zeros as usize + 1
+            let leading_zeros = self.leading_zeros() / 8;
+            8 - leading_zeros as usize + 1
         }
     }
 
-- 
2.43.0


From 226e57c850ac0e760e0e794d5fbdf2f5081df873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 04/30] fix: report the real encoded size of u16 and i16 values
 beyond 12 bits

---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 6b08247..50ad33d 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -242,7 +242,7 @@ impl Encodable for u16 {
     }
 
     fn fleece_size(&self) -> usize {
-        2
+        u64::from(*self).fleece_size()
     }
 
     fn to_sized_value(&self) -> Option<SizedValue> {
@@ -269,7 +269,7 @@ impl Encodable for i16 {
     }
 
     fn fleece_size(&self) -> usize {
-        2
+        i64::from(*self).fleece_size()
     }
 
     fn to_sized_value(&self) -> Option<SizedValue> {
-- 
2.43.0


From 755aa65cdb9862766a986e97d4a6fc57847f091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 05/30] fix: keep the tag of inline values in narrow
 collections

Masking out 0x40 turned inline (0 or 1 byte) strings and keys into shorts, and
inline data into ints.
---
 src/encoder/encodable.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 50ad33d..cf3abf2 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -607,7 +607,6 @@ impl Encodable for SizedValue {
                 return None;
             }
             buf[0..2].copy_from_slice(&self.as_bytes()[..2]);
-            buf[0] &= 0xBF;
             unsafe { Some(NonZeroUsize::new_unchecked(2)) }
         }
     }
-- 
2.43.0


From e161628a7605eca0ceecd6d3a021463c678d38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 06/30] fix: Array::get must not read one past the last element

---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 03a39a8..57cfc70 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -62,7 +62,7 @@ impl Array {
 
     #[must_use]
     pub fn get(&self, index: usize) -> Option<&Value> {
-        if index > self.len() {
+        if index >= self.len() {
             return None;
         }
 
-- 
2.43.0


From dcd96334857b54d66162d7f28167fa8d15add805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 07/30] fix: account for header size and element positions when
 choosing collection width

---
 src/encoder/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 224b337..ea35b34 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -422,10 +422,18 @@ impl Encoder {
         self.out.len() as u32 - offset_from_start
     }
 
+    /// The furthest offset at which an element of a narrow collection could be written, if the
+    /// collection's header is written next.
+    fn _narrow_collection_end<T: Encodable>(&self, collection: &T, slot_count: usize) -> usize {
+        let header_size = collection.fleece_size();
+        self.out.len() + header_size + (header_size % 2) + slot_count * 2
+    }
+
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
+        let end = self._narrow_collection_end(array, array.values.len());
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(end) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
@@ -435,20 +443,18 @@ impl Encoder {
 
     // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide
     fn _dict_should_be_wide(&self, dict: &value_stack::Dict) -> bool {
-        let mut len = self.out.len();
+        let end = self._narrow_collection_end(dict, dict.values.len() * 2);
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                let offset = len - *offset as usize;
-                if len - offset > pointer::MAX_NARROW as usize {
+                if end - *offset as usize > pointer::MAX_NARROW as usize {
                     return true;
                 }
             }
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(end) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
-            len += 2;
         }
         false
     }
-- 
2.43.0


From 5c913a7df3e54f1a4644bb6e1172fe68354ffa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 08/30] fix: end_array must not discard an open dict

---
 src/encoder/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index ea35b34..beb0550 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -196,6 +196,10 @@ impl Encoder {
     /// - If there is no open collection.
     /// - If the top open collection is not an Array.
     pub fn end_array(&mut self) -> Result<()> {
+        // Can only end an array if the top collection is an array
+        if !matches!(self.collection_stack.top(), Some(Collection::Array(_))) {
+            return Err(EncodeError::ArrayNotOpen);
+        }
         let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
             return Err(EncodeError::ArrayNotOpen);
         };
-- 
2.43.0


From f50132f8e005c89302bcef7b3c94d7b0772e6f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 09/30] fix: a rejected write_key must not write to the output

---
 src/encoder/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index beb0550..a3f1cb3 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -86,6 +86,14 @@ impl Encoder {
     /// - If the last item pushed to the Dict was a key (it is waiting for a value).
     /// - I/O errors related to writing to this Encoder's writer.
     pub fn write_key(&mut self, key: &str) -> Result<()> {
+        // Nothing may be written to the output (or the SharedKeys) unless the key can be accepted
+        match self.collection_stack.top() {
+            Some(Collection::Dict(dict)) if dict.next_key.is_some() => {
+                return Err(EncodeError::DictWaitingForValue)
+            }
+            Some(Collection::Dict(_)) => {}
+            _ => return Err(EncodeError::DictNotOpen),
+        }
         if let Some(val) = key.to_sized_value() {
             // Keys which are small enough are inlined.
             self._write_key_inline(val)
-- 
2.43.0


From 0f57cc50936980245b4d39a8ecbd8bbde8881731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 10/30] fix: creating or removing a scope with empty data must
 not poison the scope map

---
 src/scope.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4883491..aa84a2d 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -64,9 +64,8 @@ impl Scope {
     /// If the data in this scope is still being retained, release it from the global map. This will stop any new references
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
-        let mut scope_map = SCOPE_MAP.write().unwrap();
-        if let Some(range) = self.range() {
-            scope_map.remove(range);
+        if let Some(range) = self.range().filter(|range| !range.is_empty()) {
+            SCOPE_MAP.write().unwrap().remove(range);
         }
     }
 
@@ -75,7 +74,6 @@ impl Scope {
     #[allow(clippy::missing_panics_doc)]
     /// Create a new scope which retains the data it is given ownership of, and optionally retains the given [`SharedKeys`].
     pub fn new(data: impl Into<Arc<[u8]>>, shared_keys: Option<Arc<SharedKeys>>) -> Arc<Self> {
-        let mut scope_map = SCOPE_MAP.write().unwrap();
         let strong_data = data.into();
         let weak_data = Arc::downgrade(&strong_data);
 
@@ -91,7 +89,13 @@ impl Scope {
             root,
         });
 
-        scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        // Empty data has no addresses to be found by, and `RangeMap` panics if given an empty range.
+        if start < end {
+            SCOPE_MAP
+                .write()
+                .unwrap()
+                .insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        }
         scope
     }
 
-- 
2.43.0


From 3d87db09a5540cfa8482363b0ea9eb3b05b23a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 11/30] fix: SharedKeys must not truncate or alias keys

---
 src/shared_keys.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index c9d15bf..14d2bd5 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -5,7 +5,10 @@ use fixedstr::zstr;
 
 use crate::{Encoder, Value, ValueType};
 
-pub struct SharedKeys(folklore::HashMap<zstr<16>, u16>);
+// `zstr<N>` is zero terminated, so it holds up to `N - 1` bytes and would truncate anything longer.
+type KeyString = zstr<17>;
+
+pub struct SharedKeys(folklore::HashMap<KeyString, u16>);
 
 impl SharedKeys {
     const MAX_KEYS: u16 = 2048;
@@ -30,7 +33,11 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
-        self.0.get(&zstr::make(string_key))
+        // Other strings can't be represented by a `KeyString`, so they could match a different key
+        if !Self::is_eligible(string_key) {
+            return None;
+        }
+        self.0.get(&KeyString::make(string_key))
     }
 
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
@@ -39,7 +46,7 @@ impl SharedKeys {
         if !self.can_add(key) {
             return None;
         }
-        let key = zstr::make(key);
+        let key = KeyString::make(key);
         if let Some(existing) = self.0.get(&key) {
             return Some(existing);
         }
@@ -57,9 +64,12 @@ impl SharedKeys {
 
     #[allow(clippy::cast_possible_truncation)]
     pub fn can_add(&self, key: &str) -> bool {
-        self.len() < Self::MAX_KEYS
-            && key.len() <= Self::MAX_KEY_LEN as usize
-            && Self::can_encode(key)
+        self.len() < Self::MAX_KEYS && Self::is_eligible(key)
+    }
+
+    #[inline]
+    fn is_eligible(key: &str) -> bool {
+        key.len() <= Self::MAX_KEY_LEN as usize && Self::can_encode(key)
     }
 
     #[inline]
@@ -133,7 +143,7 @@ impl<'sk> IntoIterator for &'sk SharedKeys {
     }
 }
 
-pub struct Iter<'a>(folklore::Iter<'a, zstr<16>, u16>);
+pub struct Iter<'a>(folklore::Iter<'a, KeyString, u16>);
 
 impl<'sk> Iterator for Iter<'sk> {
     type Item = (&'sk str, u16);
-- 
2.43.0


From b434f0486026de58145004072eebe6e7416b2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 12/30] fix: full SharedKeys must still encode the keys they
 contain

---
 src/shared_keys.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 14d2bd5..38f57af 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -43,13 +43,13 @@ impl SharedKeys {
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
     // could insert a key between `index = self.0.len()` and `self.0.insert()`.
     pub fn encode_and_insert(&mut self, key: &str) -> Option<u16> {
+        if let Some(existing) = self.encode(key) {
+            return Some(existing);
+        }
         if !self.can_add(key) {
             return None;
         }
         let key = KeyString::make(key);
-        if let Some(existing) = self.0.get(&key) {
-            return Some(existing);
-        }
         let index = self.len();
         if !self.0.insert(key, index) {
             return None;
-- 
2.43.0


From 4759d725e5de3c95b5a816a435d11733e77ad070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 13/30] fix: find string keys in a dict even when SharedKeys
 contains them

---
 src/value/dict.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 55628e9..dac179b 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -90,9 +90,7 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), None);
-
-        self._get(&key)
+        self._get_encoded(key.borrow(), None)
     }
 
     /// The same as [`Dict::get`], but may be more efficient as the caller provides
@@ -101,9 +99,18 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), Some(shared_keys));
+        self._get_encoded(key.borrow(), Some(shared_keys))
+    }
 
-        self._get(&key)
+    fn _get_encoded(&self, key: &str, shared_keys: Option<&SharedKeys>) -> Option<&Value> {
+        let encoded = self.encode_key(key, shared_keys);
+        let found = self._get(&encoded);
+        // A key which is in the SharedKeys may still be stored as a string in this Dict. For example
+        // keys which are small enough to be inlined, or when the key was shared after it was written.
+        if found.is_none() && matches!(encoded, Key::Shared(_)) {
+            return self._get(&Key::String(key));
+        }
+        found
     }
 
     /// Get the value in this Dict which corresponds to the given encoded key. The key should be
-- 
2.43.0


From bcda10c68b3b559a717239951e6f532584ff0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 14/30] fix: keep values aligned when encoding to a Vec of odd
 length

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index a3f1cb3..84001e3 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -71,7 +71,11 @@ impl Encoder {
     }
 
     #[must_use]
-    pub fn new_to_vec(out: Vec<u8>) -> Self {
+    pub fn new_to_vec(mut out: Vec<u8>) -> Self {
+        // Values must be 2-byte aligned, relative to the end of the data
+        if out.len() % 2 != 0 {
+            out.push(0);
+        }
         Self {
             out,
             shared_keys: None,
-- 
2.43.0


From c6e9733c8971d929de4340614f35fa6d35cb91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 15/30] fix: size_hint of a MutableArray iterator must be the
 remaining length

---
 src/mutable/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 233919c..0e699cc 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -196,8 +196,8 @@ impl<'a> Iterator for Iter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.arr.len();
-        (len, Some(len))
+        let remaining = self.arr.len().saturating_sub(self.index);
+        (remaining, Some(remaining))
     }
 }
 
-- 
2.43.0


From 6225c9cdca851b1d1a3ff7301d3678dbd0ccb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 16/30] fix: fleece! macro with an array nested in an array

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd412e6..f4ac2f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ macro_rules! fleece {
     };
 
     (push $encoder:expr => [ $($inner_val:tt),* $(,)? ]) => {
-        unsafe { $encoder.begin_array().unwrap_unchecked() };
+        unsafe { $encoder.begin_array(10).unwrap_unchecked() };
         $(fleece!(push $encoder => $inner_val);)*
         unsafe { $encoder.end_array().unwrap_unchecked() };
     };
-- 
2.43.0


From 61f2f945e584f00abe47f27951805e2adda4f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 17/30] fix: varint::read must not overflow on more than 64
 bits

---
 src/value/varint.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/value/varint.rs b/src/value/varint.rs
index d0ed50c..243ea5d 100644
--- a/src/value/varint.rs
+++ b/src/value/varint.rs
@@ -12,18 +12,18 @@ pub fn read(data: &[u8]) -> (usize, u64) {
 
     let mut shift: usize = 7;
     let mut res = u64::from(data[0] & 0x7F);
-    let end: usize = data.len().min(MAX_LEN + 1);
+    let end: usize = data.len().min(MAX_LEN);
 
     for (i, byte) in data[1..end].iter().enumerate() {
+        // Make sure the value fits in 64 bits
+        if shift == 63 && *byte > 1 {
+            return (0, 0);
+        }
         if *byte >= 0x80 {
             res |= u64::from(*byte & 0x7F) << shift;
             shift += 7;
         } else {
             res |= u64::from(*byte) << shift;
-            // Make sure the varint is below the max length
-            if i == MAX_LEN && *byte > 1 {
-                return (0, 0);
-            }
             return (i + 2, res);
         }
     }
-- 
2.43.0


From 9b5789e52874093edab519341b8b2773c4ade28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 18/30] fix: reject strings and data which exceed their bounds
 instead of panicking

---
 src/value/mod.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index bb7834c..e6da6fd 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -391,15 +391,13 @@ impl Value {
             _ => {
                 // We don't need to validate that array elements fit within the data, as
                 // Array::validate already does that. This improves benchmark performance by ~15%.
-                if IS_ARR_ELEM
-                    || self.bytes.as_ptr() as usize + self.required_size() <= data_end as usize
-                {
+                if IS_ARR_ELEM || self.required_size() <= self.bytes.len() {
                     Ok(())
                 } else {
                     Err(DecodeError::ValueOutOfBounds {
                         value_type: self.value_type(),
                         required_size: self.required_size(),
-                        available_size: data_end as usize - self.bytes.as_ptr() as usize,
+                        available_size: self.bytes.len(),
                     })
                 }
             }
@@ -420,13 +418,9 @@ impl Value {
             ValueType::UnsignedInt | ValueType::Int => 2 + (self.bytes[0] & 0x07) as usize,
             ValueType::Float | ValueType::Double32 => 6,
             ValueType::Double64 => 10,
+            // Strings and data are at least 2 bytes, because values are 2-byte aligned
             ValueType::String | ValueType::Data => {
-                let len = self._get_data().len();
-                match len {
-                    0 | 1 => 2,
-                    2..=0x0E => 1 + len,
-                    _ => 1 + varint::size_required(len as u64) + len,
-                }
+                self._data_range().map_or(usize::MAX, |range| range.end.max(2))
             }
             // TODO: This is not correct for MutableArray / MutableDict
             ValueType::Array | ValueType::Dict => 2,
@@ -511,24 +505,32 @@ impl Value {
         u16::from_be_bytes(buf)
     }
 
-    fn _get_data(&self) -> &[u8] {
-        if self.bytes.len() < 2 {
-            return &[];
-        }
+    /// The range of bytes within this value which hold the data of a String or Data. The range
+    /// may exceed the size of this value, if it hasn't been validated. Returns [`None`] if the size
+    /// of the data is invalid.
+    fn _data_range(&self) -> Option<core::ops::Range<usize>> {
         let inline_size = self.bytes[0] & 0x0F;
         if inline_size == 0x0F {
             // varint
             let (bytes_read, size) = varint::read(&self.bytes[1..]);
             if bytes_read == 0 {
-                return &[];
+                return None;
             }
-            #[allow(clippy::cast_possible_truncation)]
-            let end = 1 + bytes_read + size as usize;
-            &self.bytes[1 + bytes_read..end]
+            let start = 1 + bytes_read;
+            let end = start.checked_add(usize::try_from(size).ok()?)?;
+            Some(start..end)
         } else {
-            let end = 1 + inline_size as usize;
-            &self.bytes[1..end]
+            Some(1..1 + inline_size as usize)
+        }
+    }
+
+    fn _get_data(&self) -> &[u8] {
+        if self.bytes.len() < 2 {
+            return &[];
         }
+        self._data_range()
+            .and_then(|range| self.bytes.get(range))
+            .unwrap_or(&[])
     }
 
     #[must_use]
-- 
2.43.0


From 02d561c35195e6050a74558a948e795964fe6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 19/30] fix: array bounds validation must not overflow

---
 src/value/array.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 57cfc70..dcb7410 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -130,7 +130,7 @@ impl Array {
             if read == 0 {
                 0
             } else if self.value.value_type() == ValueType::Dict {
-                size as usize * 2
+                (size as usize).saturating_mul(2)
             } else {
                 size as usize
             }
@@ -182,8 +182,9 @@ impl Array {
         let elem_count = self.len();
 
         let first = unsafe { self.value.bytes.as_ptr().add(self.first_pos()) };
-        if (first as usize) + (elem_count * width) > (data_end as usize) {
-            let available_size = data_end as usize - first as usize;
+        // The header may itself exceed the bounds, and the count can be any number.
+        let available_size = (data_end as usize).saturating_sub(first as usize);
+        if first as usize > data_end as usize || elem_count > available_size / width {
             return Err(DecodeError::ArrayOutOfBounds {
                 count: elem_count,
                 width,
-- 
2.43.0


From 2d51987a0cc8e0aa6ff0ad03fb5cf05404f95b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 20/30] fix: reject external pointers instead of panicking

---
 src/value/pointer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 679bf05..e4c5f72 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -37,11 +37,9 @@ impl Pointer {
         let target_ptr = unsafe { self.offset(-(offset as isize)) };
 
         // Is this pointer external to the source data?
-        if self.value.bytes[0] & 0x40 != 0 {
-            // return resolve_external_pointer(target_ptr, data_start, data_end);
-            unimplemented!()
-            // If the pointer isn't external, it should fit within the source data
-        } else if target_ptr < data_start {
+        // External pointers aren't supported, their target is always out of bounds.
+        // If the pointer isn't external, it should fit within the source data
+        if self.value.bytes[0] & 0x40 != 0 || target_ptr < data_start {
             return Err(DecodeError::PointerTargetOutOfBounds {
                 data_start: data_start as usize,
                 target: target_ptr as usize,
-- 
2.43.0


From 2a16f27759ba76cc0d34dd670b6001fac482f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 21/30] fix: searching a dict which has invalid keys must not
 panic

---
 src/value/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index e6da6fd..eec5483 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -430,10 +430,6 @@ impl Value {
     }
 
     pub(crate) fn dict_key_cmp(value1: &dict::Key, value2: &Self, is_wide: bool) -> Ordering {
-        debug_assert!(matches!(
-            value2.value_type(),
-            ValueType::String | ValueType::Pointer | ValueType::Short
-        ));
         let value_type2 = value2.value_type();
         match (value1, value_type2) {
             // Inline strings
@@ -445,7 +441,6 @@ impl Value {
                         .deref_unchecked(is_wide)
                         .to_str()
                 };
-                debug_assert_ne!(val2, "", "value2 is not a pointer to a string!");
                 (*key).cmp(val2)
             }
             // SharedKeys
@@ -453,7 +448,9 @@ impl Value {
             // SharedKeys are sorted first in the dict
             (dict::Key::Shared(_), _) => Ordering::Less,
             (_, ValueType::Short) => Ordering::Greater,
-            _ => unreachable!(),
+            // Keys of any other type aren't valid, but could be found in untrusted data.
+            // They must never be equal to a string.
+            (dict::Key::String(_), _) => Ordering::Greater,
         }
     }
 
-- 
2.43.0


From 66f78147cb969f0060a4a7015bef50869b441c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 22/30] fix: to_bool of fractional and unsigned numbers

---
 src/value/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index eec5483..55ac7b4 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -207,11 +207,8 @@ impl Value {
     pub fn to_bool(&self) -> bool {
         match self.value_type() {
             ValueType::False => false,
-            ValueType::Short
-            | ValueType::Int
-            | ValueType::Float
-            | ValueType::Double32
-            | ValueType::Double64 => self.to_int() != 0,
+            ValueType::Short | ValueType::Int | ValueType::UnsignedInt => self.to_int() != 0,
+            ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() != 0.0,
             _ => true,
         }
     }
-- 
2.43.0


From 160f8e0b60c70b3e63eea32d29bf5eb273b682ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 23/30] fix: conversions between doubles and unsigned ints of
 2^63 and above

---
 src/value/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 55ac7b4..2d5d54c 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -282,10 +282,19 @@ impl Value {
         }
     }
 
+    #[allow(clippy::cast_possible_truncation)]
     #[allow(clippy::cast_sign_loss)]
     #[must_use]
     pub fn to_unsigned_int(&self) -> u64 {
-        self.to_int() as u64
+        match self.value_type() {
+            // Floats of 2^63 and above don't fit in a signed int
+            ValueType::Float | ValueType::Double32 | ValueType::Double64
+                if self.to_double() >= 0.0 =>
+            {
+                self.to_double() as u64
+            }
+            _ => self.to_int() as u64,
+        }
     }
 
     #[allow(clippy::cast_precision_loss)]
@@ -302,6 +311,7 @@ impl Value {
                 buf.copy_from_slice(&self.bytes[2..10]);
                 f64::from_le_bytes(buf)
             }
+            ValueType::UnsignedInt => self.to_unsigned_int() as f64,
             _ => self.to_int() as f64,
         }
     }
-- 
2.43.0


From 104668bce8b40f90326fa59b436f97437f6fcb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 24/30] fix: deserialize newtype structs

---
 src/de.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 2b15241..89ef775 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -171,6 +171,14 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         }
     }
 
+    // A newtype struct is serialized as just its inner value
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
@@ -229,7 +237,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct newtype_struct str tuple_struct identifier ignored_any
+        unit unit_struct str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From aba5159e9bb0e307e96f5943c23a59a9684bc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 25/30] fix: deserialize unit structs

---
 src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 89ef775..3bfe7d4 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -171,6 +171,17 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         }
     }
 
+    // A unit struct is serialized as null
+    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        match self.value.value_type() {
+            ValueType::Null => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     // A newtype struct is serialized as just its inner value
     fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
     where
@@ -237,7 +248,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct str tuple_struct identifier ignored_any
+        unit str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 1d47bf952986dc3577ecf821b94cae7fc3ad2a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 26/30] fix: deserialize struct variants which skip or alias
 fields

---
 src/de.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 3bfe7d4..6c5e105 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -434,7 +434,7 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
         )))
     }
 
-    fn struct_variant<V>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value>
+    fn struct_variant<V>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
@@ -445,23 +445,12 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
                 .ok_or(Error::Deserialize(DeserializeError::InvalidEnumLayout(
                     format!("{:?}", self.array),
                 )))?;
-        if let Some(dict) = inner.as_dict() {
-            if dict.len() == fields.len() {
-                let correct_keys = if let Some(sk) = self.shared_keys.shared_keys() {
-                    fields
-                        .iter()
-                        .all(|field| dict.contains_key_with_shared_keys(field, sk))
-                } else {
-                    fields.iter().all(|field| dict.contains_key(field))
-                };
-
-                if correct_keys {
-                    return de::Deserializer::deserialize_map(
-                        &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
-                        visitor,
-                    );
-                }
-            }
+        // The visitor decides which fields may be missing, the same as for structs
+        if inner.as_dict().is_some() {
+            return de::Deserializer::deserialize_map(
+                &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
+                visitor,
+            );
         }
         Err(Error::Deserialize(DeserializeError::InvalidEnumLayout(
             format!("{:?}", self.array),
-- 
2.43.0


From d97b2a4770905a93d36968cd4f96d32c9ff07e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:24 +0000
Subject: [PATCH 27/30] fix: begin_array must not panic when given an enormous
 capacity

---
 src/encoder/value_stack.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encoder/value_stack.rs b/src/encoder/value_stack.rs
index 7cc3b8b..6edc5d7 100644
--- a/src/encoder/value_stack.rs
+++ b/src/encoder/value_stack.rs
@@ -88,9 +88,12 @@ impl CollectionStack {
 }
 
 impl Array {
+    // The capacity is a hint from the user: it must not make the allocation itself fail.
+    const MAX_INITIAL_CAPACITY: usize = 1 << 16;
+
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
-            values: Vec::with_capacity(capacity),
+            values: Vec::with_capacity(capacity.min(Self::MAX_INITIAL_CAPACITY)),
         }
     }
 
-- 
2.43.0


From 9f9c2736ef59a77d66e8176892fc97f47e85ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 28/30] fix: write_value must not leave bytes of a refused
 value in the output

---
 src/encoder/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 84001e3..17e0967 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -117,8 +117,13 @@ impl Encoder {
     where
         T: Encodable,
     {
-        if self.collection_stack.empty() {
-            return Err(EncodeError::CollectionNotOpen);
+        // Nothing may be written to the output unless the value can be accepted
+        match self.collection_stack.top() {
+            Some(Collection::Dict(dict)) if dict.next_key.is_none() => {
+                return Err(EncodeError::DictWaitingForKey)
+            }
+            Some(_) => {}
+            None => return Err(EncodeError::CollectionNotOpen),
         }
 
         let value = value.borrow();
-- 
2.43.0


From 755413d535f5a08dc8f19b67b98f14a38c1ddf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:47 +0000
Subject: [PATCH 29/30] fix: refuse what would put the document out of the
 reach of its pointers

---
 src/encoder/mod.rs         | 18 +++++++++++++++++-
 src/encoder/value_stack.rs | 33 ++++++++++++++++++++++++++++++---
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 17e0967..b0adfba 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -2,7 +2,9 @@ use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::num::NonZeroUsize;
 
-use crate::encoder::value_stack::{Collection, CollectionStack, DictKey};
+use crate::encoder::value_stack::{
+    Collection, CollectionStack, DictKey, MAX_HEADER_SIZE, MAX_SLOT_SIZE,
+};
 use crate::scope::Scope;
 use crate::value::pointer::Pointer as ValuePointer;
 use crate::value::SizedValue;
@@ -98,6 +100,7 @@ impl Encoder {
             Some(Collection::Dict(_)) => {}
             _ => return Err(EncodeError::DictNotOpen),
         }
+        self._check_size(key.fleece_size() + 2 * MAX_SLOT_SIZE)?;
         if let Some(val) = key.to_sized_value() {
             // Keys which are small enough are inlined.
             self._write_key_inline(val)
@@ -127,6 +130,7 @@ impl Encoder {
         }
 
         let value = value.borrow();
+        self._check_size(value.fleece_size() + MAX_SLOT_SIZE)?;
         if let Some(val) = value.to_sized_value() {
             // If the value can fit in a fixed-width Value, just push it to the current collection
             self._push(val)
@@ -140,6 +144,16 @@ impl Encoder {
         }
     }
 
+    /// Everything which is written must remain within reach of a pointer, until all of the collections
+    /// have been closed.
+    fn _check_size(&self, additional: usize) -> Result<()> {
+        let size = self.out.len() + self.collection_stack.size_to_close() + additional;
+        if size > pointer::MAX_WIDE as usize {
+            return Err(EncodeError::PointerTooLarge);
+        }
+        Ok(())
+    }
+
     /// Write a Fleece `Value` to the Encoder. If the value is an `Array` or `Dict`, all the
     /// elements will be written as well. This function cannot validate Fleece `Array` or `Dict`,
     /// so ensure they are valid before passing them to this function.
@@ -206,6 +220,7 @@ impl Encoder {
         if self.top_collection_closed {
             return Err(EncodeError::MultiTopLevelCollection);
         }
+        self._check_size(MAX_HEADER_SIZE + MAX_SLOT_SIZE)?;
         self.collection_stack.push_array(capacity)
     }
 
@@ -243,6 +258,7 @@ impl Encoder {
         if self.top_collection_closed {
             return Err(EncodeError::CollectionNotOpen);
         }
+        self._check_size(MAX_HEADER_SIZE + MAX_SLOT_SIZE)?;
         self.collection_stack.push_dict()
     }
 
diff --git a/src/encoder/value_stack.rs b/src/encoder/value_stack.rs
index 6edc5d7..3213c41 100644
--- a/src/encoder/value_stack.rs
+++ b/src/encoder/value_stack.rs
@@ -2,9 +2,16 @@ use crate::{encoder::error::EncodeError, value::SizedValue};
 
 use alloc::{boxed::Box, vec::Vec};
 
+/// The size of a pointer, or an inline value, in a wide collection.
+pub const MAX_SLOT_SIZE: usize = 4;
+/// The header of a collection with the largest count, padded.
+pub const MAX_HEADER_SIZE: usize = 8;
+
 #[derive(Default)]
 pub struct CollectionStack {
     collections: Vec<Collection>,
+    // For each open collection, the size required to close those beneath it.
+    sizes_beneath: Vec<usize>,
 }
 
 pub enum Collection {
@@ -53,6 +60,26 @@ impl CollectionStack {
         self.collections.is_empty()
     }
 
+    /// The most which closing all of the open collections, and writing the root, can add to the output.
+    pub fn size_to_close(&self) -> usize {
+        const ROOT_SIZE: usize = 6;
+        let slots = match self.top() {
+            None => return ROOT_SIZE,
+            Some(Collection::Array(array)) => array.values.len(),
+            Some(Collection::Dict(dict)) => {
+                2 * (dict.values.len() + usize::from(dict.next_key.is_some()))
+            }
+        };
+        self.sizes_beneath.last().unwrap_or(&0) + MAX_HEADER_SIZE + slots * MAX_SLOT_SIZE
+    }
+
+    fn push(&mut self, collection: Collection) {
+        // The collection will take a slot of the one beneath it.
+        self.sizes_beneath
+            .push(self.size_to_close() + MAX_SLOT_SIZE);
+        self.collections.push(collection);
+    }
+
     pub fn push_array(&mut self, capacity: usize) -> crate::encoder::Result<()> {
         if let Some(Collection::Dict(dict)) = self.top() {
             // If the current collection is a dict it should have a key to correspond to this array
@@ -60,8 +87,7 @@ impl CollectionStack {
                 return Err(EncodeError::DictWaitingForKey);
             }
         }
-        self.collections
-            .push(Collection::Array(Array::with_capacity(capacity)));
+        self.push(Collection::Array(Array::with_capacity(capacity)));
         Ok(())
     }
 
@@ -72,7 +98,7 @@ impl CollectionStack {
                 return Err(EncodeError::DictWaitingForKey);
             }
         }
-        self.collections.push(Collection::Dict(Dict::new()));
+        self.push(Collection::Dict(Dict::new()));
         Ok(())
     }
 
@@ -83,6 +109,7 @@ impl CollectionStack {
                 return None;
             }
         }
+        self.sizes_beneath.pop();
         self.collections.pop()
     }
 }
-- 
2.43.0


From bafd3ffe7e9e35283a175f40273051278ce94cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:00 +0000
Subject: [PATCH 30/30] fix: a refused write_fleece must not leave part of the
 collection

---
 src/encoder/mod.rs         | 12 ++++++++++++
 src/encoder/value_stack.rs |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index b0adfba..dbd9bbb 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -163,6 +163,18 @@ impl Encoder {
     /// - If the value is invalid Fleece.
     /// - I/O errors related to writing to this Encoder's writer.
     pub fn write_fleece(&mut self, value: &Value) -> Result<()> {
+        let size = self.out.len();
+        let depth = self.collection_stack.len();
+        let result = self._write_fleece(value);
+        if result.is_err() {
+            // Nothing of a collection may be left in the output
+            self.collection_stack.truncate(depth);
+            self.out.truncate(size);
+        }
+        result
+    }
+
+    fn _write_fleece(&mut self, value: &Value) -> Result<()> {
         // If the encoder has no open collections and the value is not a collection, return None
         if self.collection_stack.empty()
             && value.value_type() != ValueType::Dict
diff --git a/src/encoder/value_stack.rs b/src/encoder/value_stack.rs
index 3213c41..9465f02 100644
--- a/src/encoder/value_stack.rs
+++ b/src/encoder/value_stack.rs
@@ -80,6 +80,15 @@ impl CollectionStack {
         self.collections.push(collection);
     }
 
+    pub fn len(&self) -> usize {
+        self.collections.len()
+    }
+
+    pub fn truncate(&mut self, len: usize) {
+        self.sizes_beneath.truncate(len);
+        self.collections.truncate(len);
+    }
+
     pub fn push_array(&mut self, capacity: usize) -> crate::encoder::Result<()> {
         if let Some(Collection::Dict(dict)) = self.top() {
             // If the current collection is a dict it should have a key to correspond to this array
-- 
2.43.0

