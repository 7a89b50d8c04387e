From 7064fe0eaa55e917123753e819687d5ff6b140ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:42 +0000
Subject: [PATCH 1/2] fix: make float to integer vector casts saturate like
 scalar casts

FromCast used simd_cast, whose result is undefined when a float lane does
not fit the integer type: differently compiled copies of the library gave
different lanes. simd_as has the semantics of the scalar 'as'.
---
 src/api/cast/macros.rs | 4 ++--
 src/codegen/llvm.rs    | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/cast/macros.rs b/src/api/cast/macros.rs
index 3bb29f0..3f980f8 100644
--- a/src/api/cast/macros.rs
+++ b/src/api/cast/macros.rs
@@ -5,9 +5,9 @@ macro_rules! impl_from_cast_ {
         impl crate::api::cast::FromCast<$from_ty> for $id {
             #[inline]
             fn from_cast(x: $from_ty) -> Self {
-                use crate::llvm::simd_cast;
+                use crate::llvm::simd_as;
                 debug_assert_eq!($from_ty::lanes(), $id::lanes());
-                Simd(unsafe { simd_cast(x.0) })
+                Simd(unsafe { simd_as(x.0) })
             }
         }
 
diff --git a/src/codegen/llvm.rs b/src/codegen/llvm.rs
index bb482fa..f3a1e31 100644
--- a/src/codegen/llvm.rs
+++ b/src/codegen/llvm.rs
@@ -81,6 +81,7 @@ extern "platform-intrinsic" {
     pub(crate) fn simd_extract<T, U>(x: T, idx: u32) -> U;
 
     pub(crate) fn simd_cast<T, U>(x: T) -> U;
+    pub(crate) fn simd_as<T, U>(x: T) -> U;
 
     pub(crate) fn simd_add<T>(x: T, y: T) -> T;
     pub(crate) fn simd_sub<T>(x: T, y: T) -> T;
-- 
2.43.0


From 0894429c8036d6f39020153386061ac5ef005081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:42 +0000
Subject: [PATCH 2/2] fix: rotate signed lanes and by negative amounts
 correctly

n % LANE_WIDTH is negative for negative amounts, which made the shifts
undefined, and >> is arithmetic on signed lanes, so the sign bit leaked into
the rotated value.
---
 src/api/ops/vector_rotates.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/api/ops/vector_rotates.rs b/src/api/ops/vector_rotates.rs
index 6c4bed7..f542f9e 100644
--- a/src/api/ops/vector_rotates.rs
+++ b/src/api/ops/vector_rotates.rs
@@ -14,9 +14,16 @@ macro_rules! impl_ops_vector_rotates {
             pub fn rotate_left(self, n: $id) -> $id {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
-                // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self << n) | (self >> ((LANE_WIDTH - n) % LANE_WIDTH))
+                // Protect against undefined behavior for over-long or
+                // negative bit shifts
+                let n = n & (LANE_WIDTH - 1);
+                let mut low = self >> ((LANE_WIDTH - n) % LANE_WIDTH);
+                if $elem_ty::min_value() != 0 {
+                    // `>>` copies the sign bit into signed lanes: keep only
+                    // the `n` bits that wrap around
+                    low &= ($id::splat(1) << n) - $id::splat(1);
+                }
+                (self << n) | low
             }
 
             /// Shifts the bits of each lane to the right by the specified
@@ -29,9 +36,15 @@ macro_rules! impl_ops_vector_rotates {
             pub fn rotate_right(self, n: $id) -> $id {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
-                // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self >> n) | (self << ((LANE_WIDTH - n) % LANE_WIDTH))
+                // Protect against undefined behavior for over-long or
+                // negative bit shifts
+                let n = n & (LANE_WIDTH - 1);
+                let left = (LANE_WIDTH - n) % LANE_WIDTH;
+                if $elem_ty::min_value() != 0 {
+                    // `>>` copies the sign bit into signed lanes
+                    return self.rotate_left(left);
+                }
+                (self >> n) | (self << left)
             }
         }
 
-- 
2.43.0

