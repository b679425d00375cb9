From 58aa30d6eca882ccf34a85a4262f09c3210ea463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:53 +0000
Subject: [PATCH 01/18] fix: is_greater_or_equal of equal values wider than a
 word

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 8063b3e..edcfa0d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -244,7 +244,7 @@ pub trait BitVecOps {
             // specialized for 1-word case
             crate::bv::arithmetic::cmp_greater_equal(&self.words()[0..1], &rhs.words()[0..1])
         } else {
-            crate::bv::arithmetic::cmp_greater(self.words(), rhs.words())
+            crate::bv::arithmetic::cmp_greater_equal(self.words(), rhs.words())
         }
     }
 
-- 
2.43.0


From b2a2ef57b213a1b96a21ad7d4e1413394ad56b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:53 +0000
Subject: [PATCH 02/18] fix: shift_left by a multiple of the word size masks
 the result

---
 src/bv/arithmetic.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ceebf69..7a703ea 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -319,9 +319,7 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
             prev = *s >> shift_right;
         }
     }
-    if shift_left > 0 {
-        mask_msb(dst, width);
-    }
+    mask_msb(dst, width);
 }
 
 #[inline]
-- 
2.43.0


From 4ef9e0e64c5aa2da85355a5336dd64a3bebab52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:53 +0000
Subject: [PATCH 03/18] fix: to_i64 of negative values when the top word is
 only partially used

---
 src/bv/ops.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index edcfa0d..81c772f 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -166,7 +166,11 @@ pub trait BitVecOps {
         } else {
             let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);
             let word_0 = self.words()[0];
-            let all_max_msbs = self.words().iter().skip(1).all(|w| *w == Word::MAX);
+            // the most significant word only uses the bits below the width
+            let (msw, middle) = self.words()[1..].split_last().unwrap();
+            let msw_bits = (self.width() - 1) % Word::BITS + 1;
+            let all_max_msbs = middle.iter().all(|w| *w == Word::MAX)
+                && *msw == crate::bv::arithmetic::mask(msw_bits);
             match (
                 all_zero_msbs,
                 all_max_msbs,
-- 
2.43.0


From 811b7257b5d699354b77fbf5347246f0e75efb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 04/18] fix: to_bit_str_signed of the most negative value, one
 bit values and widths of n*64+1

---
 src/bv/io/strings.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 830b575..1745676 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,9 +26,22 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(&copy, width - 1, out)
+        let digits = magnitude_width(&copy, width);
+        to_bit_str_internal(select_words_for_width(&copy, digits), digits, out)
     } else {
-        to_bit_str(values, width - 1)
+        let digits = magnitude_width(values, width);
+        to_bit_str(select_words_for_width(values, digits), digits)
+    }
+}
+
+/// Number of bits to print for the magnitude of a signed number. The sign bit is only part of the
+/// magnitude of the most negative value.
+#[inline]
+fn magnitude_width(magnitude: &[Word], width: WidthInt) -> WidthInt {
+    if is_neg(magnitude, width) {
+        width
+    } else {
+        (width - 1).max(1)
     }
 }
 
-- 
2.43.0


From fa73a60903a8960164e8f172e68ada5ca3a5bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:47 +0000
Subject: [PATCH 05/18] fix: to_hex_str_signed of the most negative value and
 of one bit values

---
 src/bv/io/strings.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 1745676..edc9957 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -89,9 +89,11 @@ pub(crate) fn to_hex_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_hex_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        let digits = magnitude_width(&copy, width);
+        to_hex_str_internal(select_words_for_width(&copy, digits), digits, out)
     } else {
-        to_hex_str(select_words_for_width(values, width - 1), width - 1)
+        let digits = magnitude_width(values, width);
+        to_hex_str(select_words_for_width(values, digits), digits)
     }
 }
 
-- 
2.43.0


From e44f4320ed9ae3ee2a961d665f25c644087d7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:24 +0000
Subject: [PATCH 06/18] fix: from_str_radix rejects numbers that do not fit the
 width

---
 src/bv/io/strings.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index edc9957..2aedbe7 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{is_neg, negate_in_place};
+use crate::bv::arithmetic::{is_neg, mask, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -303,15 +303,11 @@ pub(crate) fn from_str_radix(
         }
     }
 
-    // TODO: check width
-    // let m = super::super::arithmetic::mask(width);
-    // if *out != *out & m {
-    //     Err(ParseIntError {
-    //         kind: IntErrorKind::ExceedsWidth,
-    //     })
-    // } else {
-    //     Ok(())
-    // }
+    if exceeds_width(out, width) {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
 
     if is_negative {
         negate_in_place(out, width)
@@ -319,9 +315,26 @@ pub(crate) fn from_str_radix(
     Ok(())
 }
 
+/// Checks whether any bit at or above `width` is set.
+fn exceeds_width(words: &[Word], width: WidthInt) -> bool {
+    let full_words = (width / Word::BITS) as usize;
+    let msb_bits = width % Word::BITS;
+    match &words[full_words..] {
+        [msb, rest @ ..] if msb_bits > 0 => {
+            (msb & !mask(msb_bits)) != 0 || rest.iter().any(|w| *w != 0)
+        }
+        rest => rest.iter().any(|w| *w != 0),
+    }
+}
+
 fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
     let num_digits = digits.len();
     let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
+    if words as usize > out.len() {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
     let mut word = 0 as Word;
     let mut out_ii = (words - 1) as usize;
 
-- 
2.43.0


From 9f3f3477912dada3ba41e97bd804ed76f811643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:34 +0000
Subject: [PATCH 07/18] fix: leading zeros of wide binary and hex numbers do
 not count towards the width

---
 src/bv/io/strings.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 2aedbe7..139156d 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -294,6 +294,15 @@ pub(crate) fn from_str_radix(
                 _ => digits,
             };
 
+            // leading zeros do not count towards the width
+            let mut digits = digits;
+            while let [b'0', rest @ ..] = digits {
+                if rest.is_empty() {
+                    break;
+                }
+                digits = rest;
+            }
+
             match radix {
                 2 => parse_base_2(digits, out, width)?,
                 10 => parse_base_10(digits, out, width)?,
@@ -369,7 +378,6 @@ fn parse_base_2(
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
     let width = digits.len() as WidthInt;
-    // TODO: ignore zeros
     if width > max_width {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
-- 
2.43.0


From adcf49c5e58255c2247072a8a6d1436c73c0bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 08/18] fix: assign_from_str_radix overwrites all words of the
 receiver

---
 src/bv/io/strings.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 139156d..6850763 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{is_neg, mask, negate_in_place};
+use crate::bv::arithmetic::{clear, is_neg, mask, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -215,6 +215,21 @@ pub(crate) fn from_str_radix(
     radix: u32,
     out: &mut [Word],
     width: WidthInt,
+) -> Result<(), ParseIntError> {
+    // the parser only writes the words that it has digits for
+    clear(out);
+    let result = parse_str_radix(value, radix, out, width);
+    if result.is_err() {
+        clear(out);
+    }
+    result
+}
+
+fn parse_str_radix(
+    value: &str,
+    radix: u32,
+    out: &mut [Word],
+    width: WidthInt,
 ) -> Result<(), ParseIntError> {
     // The empty string becomes a 0-bit vector.
     if value.is_empty() {
-- 
2.43.0


From ec591539895a4730fa5d93f9ec30993547bf5220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:53 +0000
Subject: [PATCH 09/18] fix: from_str_radix rejects a plus sign after the minus
 sign

---
 src/bv/io/strings.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 6850763..00c0d84 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -238,6 +238,11 @@ fn parse_str_radix(
 
     // remove any minus
     let (is_negative, value) = match value.strip_prefix('-') {
+        Some(value) if value.starts_with('+') => {
+            return Err(ParseIntError {
+                kind: IntErrorKind::InvalidDigit,
+            });
+        }
         Some(value) => (true, value),
         None => (false, value),
     };
-- 
2.43.0


From 744af67251abb5c03c2bfb095609e211dc65d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 10/18] fix: select and store of the default value on sparse
 arrays with an index wider than 64 bits

---
 src/array/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 0ae51bc..2a279b7 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -785,6 +785,7 @@ impl ArrayOps for SparseArrayValue {
                 value
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 let value = map.get(&index).cloned().unwrap_or_else(|| default.clone());
                 value
             }
@@ -823,11 +824,12 @@ impl ArrayMutOps for SparseArrayValue {
                 }
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 if data.is_equal(default) {
                     // ensures that the default value is used for the given index
                     map.remove(&index);
                 } else {
-                    map.insert(index.into(), data.into());
+                    map.insert(index, data.into());
                 }
             }
         }
-- 
2.43.0


From ee97bd4d1f956a6b9bf1bc821ec8cb90f1b6ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 11/18] fix: conversion of dense 8-bit arrays to sparse ones
 counts all 256 possible values

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2a279b7..1565227 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -490,7 +490,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
             }
             DenseArrayImpl::U8(data) => {
                 // find default value
-                let mut count = [0usize; u8::BITS as usize];
+                let mut count = [0usize; 1 << u8::BITS];
                 for bit in 0..value.num_elements() {
                     count[data[bit] as usize] += 1;
                 }
-- 
2.43.0


From 774d205b958cde524858881ab878ad515634e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 12/18] fix: make_dense of arrays with data wider than 64 bits
 uses an index of the index width

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 1565227..a2cd81f 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -449,7 +449,7 @@ impl From<&SparseArrayValue> for DenseArrayValue {
                 }
             }
             SparseArrayImpl::U64Big(_, m) => {
-                let mut index_bv = BitVecValue::zero(value.data_width);
+                let mut index_bv = BitVecValue::zero(value.index_width);
                 for (k, v) in m.iter() {
                     index_bv.assign_from_u64(*k);
                     dense.store(&index_bv, v);
-- 
2.43.0


From ec60adfa1c79038e69cd32cb9dd437ec889a17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 13/18] fix: fixed point conversion with 64 or more fraction
 bits

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 81c772f..2106940 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -120,7 +120,7 @@ pub trait BitVecOps {
     #[cfg(feature = "fraction1")]
     fn to_unsigned_fixed_point(&self, fraction_width: WidthInt) -> Option<fraction::Fraction> {
         debug_assert!(fraction_width <= self.width());
-        let denom = 1u64 << fraction_width;
+        let denom = 1u64.checked_shl(fraction_width)?;
         self.to_u64().map(|v| fraction::Fraction::new(v, denom))
     }
 
-- 
2.43.0


From 3ebfffb593bff8df5eee66d3e69a877cd3a58b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 14/18] fix: slice rejects an msb that equals the width

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 2106940..03afbb3 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -303,7 +303,7 @@ pub trait BitVecOps {
     }
 
     fn slice(&self, msb: WidthInt, lsb: WidthInt) -> BitVecValue {
-        debug_assert!(msb <= self.width());
+        debug_assert!(msb < self.width());
         debug_assert!(msb >= lsb);
         let out_width = msb - lsb + 1;
         let mut out = value_vec_zeros(out_width);
-- 
2.43.0


From 3147c5777c0ae2086a03fc8a745d179bb49811fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 15/18] fix: set_bit and clear_bit reject positions beyond the
 width

---
 src/bv/ops.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 03afbb3..3e0f6d9 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -488,10 +488,12 @@ pub trait BitVecMutOps: BitVecOps {
     }
 
     fn set_bit(&mut self, pos: WidthInt) {
+        debug_assert!(pos < self.width());
         crate::bv::arithmetic::set_bit(self.words_mut(), pos);
     }
 
     fn clear_bit(&mut self, pos: WidthInt) {
+        debug_assert!(pos < self.width());
         crate::bv::arithmetic::clear_bit(self.words_mut(), pos);
     }
 }
-- 
2.43.0


From ad816cc8f0d6c46bc0f1c9e7982f363b0d0b5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:37 +0000
Subject: [PATCH 16/18] fix: equality of sparse arrays with different default
 values

---
 src/array/owned.rs | 63 ++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index a2cd81f..a6cc85c 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -592,6 +592,27 @@ enum SparseArrayImpl {
     BigBig(BitVecValue, HashMap<BitVecValue, BitVecValue>),
 }
 
+fn is_equal_sparse<K: Eq + std::hash::Hash, V: Eq>(
+    index_width: WidthInt,
+    (default_a, map_a): (&V, &HashMap<K, V>),
+    (default_b, map_b): (&V, &HashMap<K, V>),
+) -> bool {
+    if default_a == default_b {
+        // here we rely on the fact that the default value may never appear in the map
+        return map_a == map_b;
+    }
+    // with different defaults, the arrays can only be equal if no index uses both defaults
+    let only_in_b = map_b.keys().filter(|k| !map_a.contains_key(k)).count();
+    let stored = map_a.len() + only_in_b;
+    1usize.checked_shl(index_width) == Some(stored)
+        && map_a
+            .iter()
+            .all(|(k, a)| map_b.get(k).unwrap_or(default_b) == a)
+        && map_b
+            .iter()
+            .all(|(k, b)| map_a.get(k).unwrap_or(default_a) == b)
+}
+
 impl SparseArrayValue {
     pub fn new<'a>(index_width: WidthInt, default: impl Into<BitVecValueRef<'a>>) -> Self {
         let default = default.into();
@@ -619,39 +640,27 @@ impl SparseArrayValue {
             (
                 SparseArrayImpl::U64U64(default_a, map_a),
                 SparseArrayImpl::U64U64(default_b, map_b),
-            ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
-            }
+            ) => Some(is_equal_sparse(
+                self.index_width,
+                (default_a, map_a),
+                (default_b, map_b),
+            )),
             (
                 SparseArrayImpl::U64Big(default_a, map_a),
                 SparseArrayImpl::U64Big(default_b, map_b),
-            ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
-            }
+            ) => Some(is_equal_sparse(
+                self.index_width,
+                (default_a, map_a),
+                (default_b, map_b),
+            )),
             (
                 SparseArrayImpl::BigBig(default_a, map_a),
                 SparseArrayImpl::BigBig(default_b, map_b),
-            ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
-            }
+            ) => Some(is_equal_sparse(
+                self.index_width,
+                (default_a, map_a),
+                (default_b, map_b),
+            )),
             _ => unreachable!(
                 "the representation for two arrays of the same type should always be the same!"
             ),
-- 
2.43.0


From 7a511b7c5ca661fe3078b1c049e59a8bcbdd59a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:37 +0000
Subject: [PATCH 17/18] fix: the default value of converted arrays does not
 depend on the hash table order

---
 src/array/owned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index a6cc85c..9a786fa 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -524,7 +524,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
                 }
                 let default = count
                     .into_iter()
-                    .max_by_key(|(_, count)| *count)
+                    .max_by_key(|(v, count)| (*count, *v))
                     .map(|(v, _)| v)
                     .unwrap();
                 let bv_default = BitVecValue::from_u64(default, value.data_width());
@@ -552,7 +552,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
                 }
                 let default = count
                     .into_iter()
-                    .max_by_key(|(_, count)| *count)
+                    .max_by(|(a, count_a), (b, count_b)| (count_a, a).cmp(&(count_b, b)))
                     .map(|(v, _)| v)
                     .unwrap();
                 let mut out = SparseArrayValue::new(value.index_width(), &default);
-- 
2.43.0


From 2b5a091037d9576e5d6972f3263c84e8048aec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:58 +0000
Subject: [PATCH 18/18] fix: dense arrays with more single bit elements than a
 bit vector can hold

---
 src/array/owned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 9a786fa..fe9d96e 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -263,7 +263,7 @@ const DENSE_ARRAY_MAX_BYTES: usize = 1024 * 1024 * 1024;
 
 fn approx_dense_storage_size(index_width: WidthInt, data_width: WidthInt) -> usize {
     let elements = 1usize << index_width;
-    if data_width == 1 {
+    if data_width == 1 && index_width < WidthInt::BITS {
         // using the Bit representation
         elements.div_ceil(u8::BITS as usize)
     } else if data_width <= u8::BITS {
@@ -289,7 +289,7 @@ impl DenseArrayValue {
         );
 
         let elements = 1usize << index_width;
-        let data = if data_width == 1 {
+        let data = if data_width == 1 && index_width < WidthInt::BITS {
             if default.is_tru() {
                 DenseArrayImpl::Bit(BitVecValue::ones(elements as WidthInt))
             } else {
-- 
2.43.0

