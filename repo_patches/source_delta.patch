From bd51aed30caf1f1f9caa8e912c8e261213f47332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 01/40] fix: saturate u64 -> u32 downcasts at u32::MAX in every
 lane

Most lanes were clamped to 0x7FFFFFFF, so values which fit in a u32 lost
their upper half.
---
 src/arch/x86/intrin/downcast.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 55c4686..7916b05 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -52,9 +52,9 @@ impl Downcast<u32x4> for u64x2 {
     fn saturating_downcast(self, other: Self) -> u32x4 {
         fallback!();
         u32x4::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32)
+                   self.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32)
     }
 }
 
@@ -330,13 +330,13 @@ impl Downcast<u32x8> for u64x4 {
     fn saturating_downcast(self, other: Self) -> u32x8 {
         fallback!();
         u32x8::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
+                   self.extract(1).min(0xFFFFFFFF) as u32,
                    self.extract(2).min(0xFFFFFFFF) as u32,
-                   self.extract(3).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(2).min(0x7FFFFFFF) as u32,
-                   other.extract(3).min(0x7FFFFFFF) as u32)
+                   self.extract(3).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(2).min(0xFFFFFFFF) as u32,
+                   other.extract(3).min(0xFFFFFFFF) as u32)
     }
 }
 
-- 
2.43.0


From 31be058d59d158ed343721b2a25ab7640827fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 02/40] fix: treat unsigned lanes as unsigned in accelerated
 saturating downcasts

The pack-with-unsigned-saturation instructions read their operands as
signed, so lanes with the top bit set became 0 instead of the maximum.
---
 src/arch/x86/intrin/downcast.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 7916b05..44f6ad1 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -105,7 +105,9 @@ impl Downcast<u16x8> for u32x4 {
     #[cfg(target_feature = "sse4.1")]
     fn saturating_downcast(self, other: Self) -> u16x8 {
         optimized!();
-        unsafe { transmute(_mm_packus_epi32(transmute(self), transmute(other))) }
+        // packus reads its operands as signed, so clamp to the target range first
+        let max = u32x4::splat(0x0000FFFF);
+        unsafe { transmute(_mm_packus_epi32(transmute(self.min(max)), transmute(other.min(max)))) }
     }
 
     #[inline(always)]
@@ -128,7 +130,9 @@ impl Downcast<u8x16> for u16x8 {
     #[cfg(target_feature = "sse2")]
     fn saturating_downcast(self, other: Self) -> u8x16 {
         optimized!();
-        unsafe { _mm_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        // packus reads its operands as signed, so clamp to the target range first
+        let max = u16x8::splat(0x00FF);
+        unsafe { _mm_packus_epi16(self.min(max).be_i16s(), other.min(max).be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
@@ -237,7 +241,9 @@ impl Downcast<u16x16> for u32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
-        unsafe { transmute(_mm256_packus_epi32(transmute(self), transmute(other))) }
+        // packus reads its operands as signed, so clamp to the target range first
+        let max = u32x8::splat(0x0000FFFF);
+        unsafe { transmute(_mm256_packus_epi32(transmute(self.min(max)), transmute(other.min(max)))) }
     }
 
     #[inline(always)]
@@ -268,7 +274,9 @@ impl Downcast<u8x32> for u16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
-        unsafe { _mm256_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        // packus reads its operands as signed, so clamp to the target range first
+        let max = u16x16::splat(0x00FF);
+        unsafe { _mm256_packus_epi16(self.min(max).be_i16s(), other.min(max).be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
-- 
2.43.0


From 565f322c051d439ae558e64468539af5bd3ac0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 03/40] fix: keep lane order in 256-bit AVX2 saturating
 downcasts

The AVX2 pack instructions work within 128-bit halves, which interleaved
the two operands in the result.
---
 src/arch/x86/intrin/downcast.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 44f6ad1..9ad874a 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -163,7 +163,8 @@ impl Downcast<i16x16> for i32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i16x16 {
         optimized!();
-        unsafe { _mm256_packs_epi32(self, other) }
+        // The 256-bit packs interleave 128-bit halves; put them back in order
+        unsafe { transmute(_mm256_permute4x64_epi64(transmute(_mm256_packs_epi32(self, other)), 0b11011000)) }
     }
 
     #[inline(always)]
@@ -194,7 +195,8 @@ impl Downcast<i8x32> for i16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i8x32 {
         optimized!();
-        unsafe { _mm256_packs_epi16(self.be_i16s(), other) }
+        // The 256-bit packs interleave 128-bit halves; put them back in order
+        unsafe { transmute(_mm256_permute4x64_epi64(transmute(_mm256_packs_epi16(self.be_i16s(), other)), 0b11011000)) }
     }
 
     #[inline(always)]
@@ -243,7 +245,8 @@ impl Downcast<u16x16> for u32x8 {
         optimized!();
         // packus reads its operands as signed, so clamp to the target range first
         let max = u32x8::splat(0x0000FFFF);
-        unsafe { transmute(_mm256_packus_epi32(transmute(self.min(max)), transmute(other.min(max)))) }
+        // The 256-bit packs interleave 128-bit halves; put them back in order
+        unsafe { transmute(_mm256_permute4x64_epi64(transmute(_mm256_packus_epi32(transmute(self.min(max)), transmute(other.min(max)))), 0b11011000)) }
     }
 
     #[inline(always)]
@@ -276,7 +279,8 @@ impl Downcast<u8x32> for u16x16 {
         optimized!();
         // packus reads its operands as signed, so clamp to the target range first
         let max = u16x16::splat(0x00FF);
-        unsafe { _mm256_packus_epi16(self.min(max).be_i16s(), other.min(max).be_i16s()).be_u8s() }
+        // The 256-bit packs interleave 128-bit halves; put them back in order
+        unsafe { transmute(_mm256_permute4x64_epi64(transmute(_mm256_packus_epi16(self.min(max).be_i16s(), other.min(max).be_i16s())), 0b11011000)) }
     }
 
     #[inline(always)]
-- 
2.43.0


From df7442cbb8f39d6ecd7fe72e9cb15d311f5c3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 04/40] fix: do not truncate the widening sum of i8 vectors to
 i8

---
 src/arch/x86/intrin/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/sum.rs b/src/arch/x86/intrin/sum.rs
index 3b408de..ad0127c 100644
--- a/src/arch/x86/intrin/sum.rs
+++ b/src/arch/x86/intrin/sum.rs
@@ -45,7 +45,7 @@ impl UpcastSum for i8x16 {
         let pos = unsafe { _mm_sad_epu8(self.max(Self::splat(0)).be_u8s(), u8x16::splat(0)).be_u16s() };
         let neg = unsafe { _mm_sad_epu8(self.min(Self::splat(0)).abs().be_u8s(), u8x16::splat(0)).be_u16s() };
         pos.extract(0).overflowing_sub(neg.extract(0)).0
-            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i16 as i64
     }
 }
 
@@ -73,7 +73,7 @@ impl UpcastSum for i8x32 {
         pos.extract(0).overflowing_sub(neg.extract(0)).0
             .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0
             .overflowing_add(pos.extract(8).overflowing_sub(neg.extract(8)).0).0
-            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i16 as i64
     }
 }
 
-- 
2.43.0


From 5c7c0ead0f351b464b76967a47a25c25877f2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:37 +0000
Subject: [PATCH 05/40] fix: wrap in portable horizontal add and subtract in
 every build profile

The accelerated versions wrap; the portable ones panicked on overflow when
overflow checks were on.
---
 src/arch/unknown/intrin/hadd.rs | 16 +++++------
 src/arch/unknown/intrin/hsub.rs | 16 +++++------
 src/arch/x86/intrin/hadd.rs     | 48 ++++++++++++++++-----------------
 src/arch/x86/intrin/hsub.rs     | 48 ++++++++++++++++-----------------
 4 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/src/arch/unknown/intrin/hadd.rs b/src/arch/unknown/intrin/hadd.rs
index 79fc424..6e93e63 100644
--- a/src/arch/unknown/intrin/hadd.rs
+++ b/src/arch/unknown/intrin/hadd.rs
@@ -10,13 +10,13 @@ use crate::core::ops::Add;
 use crate::arch::current::vecs::*;
 use crate::vecs::*;
 
-impl HAdd for u64x2 { hop!(hadd, Add::add, 0, 1); }
-impl HAdd for u32x4 { hop!(hadd, Add::add, 0, 1, 2, 3); }
-impl HAdd for u16x8 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HAdd for u8x16 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HAdd for i64x2 { hop!(hadd, Add::add, 0, 1); }
-impl HAdd for i32x4 { hop!(hadd, Add::add, 0, 1, 2, 3); }
-impl HAdd for i16x8 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HAdd for i8x16 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HAdd for u64x2 { hop!(hadd, u64::wrapping_add, 0, 1); }
+impl HAdd for u32x4 { hop!(hadd, u32::wrapping_add, 0, 1, 2, 3); }
+impl HAdd for u16x8 { hop!(hadd, u16::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HAdd for u8x16 { hop!(hadd, u8::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HAdd for i64x2 { hop!(hadd, i64::wrapping_add, 0, 1); }
+impl HAdd for i32x4 { hop!(hadd, i32::wrapping_add, 0, 1, 2, 3); }
+impl HAdd for i16x8 { hop!(hadd, i16::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HAdd for i8x16 { hop!(hadd, i8::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
 impl HAdd for f64x2 { hop!(hadd, Add::add, 0, 1); }
 impl HAdd for f32x4 { hop!(hadd, Add::add, 0, 1, 2, 3); }
diff --git a/src/arch/unknown/intrin/hsub.rs b/src/arch/unknown/intrin/hsub.rs
index 420c812..ba4024a 100644
--- a/src/arch/unknown/intrin/hsub.rs
+++ b/src/arch/unknown/intrin/hsub.rs
@@ -10,13 +10,13 @@ use crate::vecs::*;
 use crate::intrin::hsub::*;
 use crate::core::ops::Sub;
 
-impl HSub for u64x2 { hop!(hsub, Sub::sub, 0, 1); }
-impl HSub for u32x4 { hop!(hsub, Sub::sub, 0, 1, 2, 3); }
-impl HSub for u16x8 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HSub for u8x16 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HSub for i64x2 { hop!(hsub, Sub::sub, 0, 1); }
-impl HSub for i32x4 { hop!(hsub, Sub::sub, 0, 1, 2, 3); }
-impl HSub for i16x8 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HSub for i8x16 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HSub for u64x2 { hop!(hsub, u64::wrapping_sub, 0, 1); }
+impl HSub for u32x4 { hop!(hsub, u32::wrapping_sub, 0, 1, 2, 3); }
+impl HSub for u16x8 { hop!(hsub, u16::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HSub for u8x16 { hop!(hsub, u8::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HSub for i64x2 { hop!(hsub, i64::wrapping_sub, 0, 1); }
+impl HSub for i32x4 { hop!(hsub, i32::wrapping_sub, 0, 1, 2, 3); }
+impl HSub for i16x8 { hop!(hsub, i16::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HSub for i8x16 { hop!(hsub, i8::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
 impl HSub for f64x2 { hop!(hsub, Sub::sub, 0, 1); }
 impl HSub for f32x4 { hop!(hsub, Sub::sub, 0, 1, 2, 3); }
diff --git a/src/arch/x86/intrin/hadd.rs b/src/arch/x86/intrin/hadd.rs
index ac8fb96..729902d 100644
--- a/src/arch/x86/intrin/hadd.rs
+++ b/src/arch/x86/intrin/hadd.rs
@@ -92,34 +92,34 @@ impl HAdd for i32x8 {
     }
 }
 
-impl HAdd for u64x2 { hop!(hadd, Add::add, 0, 1); }
-impl HAdd for u64x4 { hop!(hadd, Add::add, 0, 1, 2, 3); }
-impl HAdd for u64x8 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HAdd for u32x4 { hop!(hadd, Add::add, 0, 1, 2, 3); }
-impl HAdd for u32x8 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HAdd for u32x16 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HAdd for u16x8 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HAdd for u16x16 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HAdd for u16x32 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
-impl HAdd for u8x16 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HAdd for u8x32 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
-impl HAdd for u8x64 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63); }
-impl HAdd for i64x2 { hop!(hadd, Add::add, 0, 1); }
-impl HAdd for i64x4 { hop!(hadd, Add::add, 0, 1, 2, 3); }
-impl HAdd for i64x8 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HAdd for u64x2 { hop!(hadd, u64::wrapping_add, 0, 1); }
+impl HAdd for u64x4 { hop!(hadd, u64::wrapping_add, 0, 1, 2, 3); }
+impl HAdd for u64x8 { hop!(hadd, u64::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HAdd for u32x4 { hop!(hadd, u32::wrapping_add, 0, 1, 2, 3); }
+impl HAdd for u32x8 { hop!(hadd, u32::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HAdd for u32x16 { hop!(hadd, u32::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HAdd for u16x8 { hop!(hadd, u16::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HAdd for u16x16 { hop!(hadd, u16::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HAdd for u16x32 { hop!(hadd, u16::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
+impl HAdd for u8x16 { hop!(hadd, u8::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HAdd for u8x32 { hop!(hadd, u8::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
+impl HAdd for u8x64 { hop!(hadd, u8::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63); }
+impl HAdd for i64x2 { hop!(hadd, i64::wrapping_add, 0, 1); }
+impl HAdd for i64x4 { hop!(hadd, i64::wrapping_add, 0, 1, 2, 3); }
+impl HAdd for i64x8 { hop!(hadd, i64::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7); }
 #[cfg(not(target_feature = "ssse3"))]
-impl HAdd for i32x4 { hop!(hadd, Add::add, 0, 1, 2, 3); }
+impl HAdd for i32x4 { hop!(hadd, i32::wrapping_add, 0, 1, 2, 3); }
 #[cfg(not(target_feature = "avx2"))]
-impl HAdd for i32x8 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HAdd for i32x16 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HAdd for i32x8 { hop!(hadd, i32::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HAdd for i32x16 { hop!(hadd, i32::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
 #[cfg(not(target_feature = "ssse3"))]
-impl HAdd for i16x8 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HAdd for i16x8 { hop!(hadd, i16::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7); }
 #[cfg(not(target_feature = "avx2"))]
-impl HAdd for i16x16 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HAdd for i16x32 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
-impl HAdd for i8x16 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HAdd for i8x32 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
-impl HAdd for i8x64 { hop!(hadd, Add::add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63); }
+impl HAdd for i16x16 { hop!(hadd, i16::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HAdd for i16x32 { hop!(hadd, i16::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
+impl HAdd for i8x16 { hop!(hadd, i8::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HAdd for i8x32 { hop!(hadd, i8::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
+impl HAdd for i8x64 { hop!(hadd, i8::wrapping_add, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63); }
 #[cfg(not(target_feature = "sse3"))]
 impl HAdd for f64x2 { hop!(hadd, Add::add, 0, 1); }
 #[cfg(not(target_feature = "avx"))]
diff --git a/src/arch/x86/intrin/hsub.rs b/src/arch/x86/intrin/hsub.rs
index 0fa38e7..8242afa 100644
--- a/src/arch/x86/intrin/hsub.rs
+++ b/src/arch/x86/intrin/hsub.rs
@@ -91,34 +91,34 @@ impl HSub for i32x8 {
     }
 }
 
-impl HSub for u64x2 { hop!(hsub, Sub::sub, 0, 1); }
-impl HSub for u64x4 { hop!(hsub, Sub::sub, 0, 1, 2, 3); }
-impl HSub for u64x8 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HSub for u32x4 { hop!(hsub, Sub::sub, 0, 1, 2, 3); }
-impl HSub for u32x8 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HSub for u32x16 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HSub for u16x8 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HSub for u16x16 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HSub for u16x32 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
-impl HSub for u8x16 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HSub for u8x32 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
-impl HSub for u8x64 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63); }
-impl HSub for i64x2 { hop!(hsub, Sub::sub, 0, 1); }
-impl HSub for i64x4 { hop!(hsub, Sub::sub, 0, 1, 2, 3); }
-impl HSub for i64x8 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HSub for u64x2 { hop!(hsub, u64::wrapping_sub, 0, 1); }
+impl HSub for u64x4 { hop!(hsub, u64::wrapping_sub, 0, 1, 2, 3); }
+impl HSub for u64x8 { hop!(hsub, u64::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HSub for u32x4 { hop!(hsub, u32::wrapping_sub, 0, 1, 2, 3); }
+impl HSub for u32x8 { hop!(hsub, u32::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HSub for u32x16 { hop!(hsub, u32::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HSub for u16x8 { hop!(hsub, u16::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HSub for u16x16 { hop!(hsub, u16::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HSub for u16x32 { hop!(hsub, u16::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
+impl HSub for u8x16 { hop!(hsub, u8::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HSub for u8x32 { hop!(hsub, u8::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
+impl HSub for u8x64 { hop!(hsub, u8::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63); }
+impl HSub for i64x2 { hop!(hsub, i64::wrapping_sub, 0, 1); }
+impl HSub for i64x4 { hop!(hsub, i64::wrapping_sub, 0, 1, 2, 3); }
+impl HSub for i64x8 { hop!(hsub, i64::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7); }
 #[cfg(not(target_feature = "ssse3"))]
-impl HSub for i32x4 { hop!(hsub, Sub::sub, 0, 1, 2, 3); }
+impl HSub for i32x4 { hop!(hsub, i32::wrapping_sub, 0, 1, 2, 3); }
 #[cfg(not(target_feature = "avx2"))]
-impl HSub for i32x8 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7); }
-impl HSub for i32x16 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HSub for i32x8 { hop!(hsub, i32::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HSub for i32x16 { hop!(hsub, i32::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
 #[cfg(not(target_feature = "ssse3"))]
-impl HSub for i16x8 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7); }
+impl HSub for i16x8 { hop!(hsub, i16::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7); }
 #[cfg(not(target_feature = "avx2"))]
-impl HSub for i16x16 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HSub for i16x32 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
-impl HSub for i8x16 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
-impl HSub for i8x32 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
-impl HSub for i8x64 { hop!(hsub, Sub::sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63); }
+impl HSub for i16x16 { hop!(hsub, i16::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HSub for i16x32 { hop!(hsub, i16::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
+impl HSub for i8x16 { hop!(hsub, i8::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); }
+impl HSub for i8x32 { hop!(hsub, i8::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31); }
+impl HSub for i8x64 { hop!(hsub, i8::wrapping_sub, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63); }
 #[cfg(not(target_feature = "sse3"))]
 impl HSub for f64x2 { hop!(hsub, Sub::sub, 0, 1); }
 #[cfg(not(target_feature = "avx"))]
-- 
2.43.0


From 993c9c360e692dc5590b47bc55ff93c09fdc0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:03 +0000
Subject: [PATCH 06/40] fix: wrap in vector sums and products in every build
 profile

---
 src/arch/x86/intrin/sum.rs |  4 ++--
 src/intrin/sum.rs          |  4 ++--
 src/vecs.rs                | 34 +++++++++++++++++++++++++++++++++-
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/arch/x86/intrin/sum.rs b/src/arch/x86/intrin/sum.rs
index ad0127c..f04ed0a 100644
--- a/src/arch/x86/intrin/sum.rs
+++ b/src/arch/x86/intrin/sum.rs
@@ -141,7 +141,7 @@ impl Sum for i16x16 {
                 _mm256_hadd_epi16(
                     _mm256_hadd_epi16(*self, Self::splat(0)), Self::splat(0)), Self::splat(0))
         };
-        x.extract(0) + x.extract(8)
+        x.extract(0).wrapping_add(x.extract(8))
     }
 }
 
@@ -202,7 +202,7 @@ impl Sum for i32x8 {
             _mm256_hadd_epi32(
                 _mm256_hadd_epi32(*self, Self::splat(0)), Self::splat(0))
         };
-        x.extract(0) + x.extract(4)
+        x.extract(0).wrapping_add(x.extract(4))
     }
 }
 
diff --git a/src/intrin/sum.rs b/src/intrin/sum.rs
index 79d4828..12f1a0b 100644
--- a/src/intrin/sum.rs
+++ b/src/intrin/sum.rs
@@ -25,7 +25,7 @@ macro_rules! impl_packed_sum {
                 #[inline(always)]
                 fn sum(&self) -> Self::Scalar {
                     fallback!();
-                    self.scalar_reduce(0 as Self::Scalar, |acc, s| acc + s)
+                    self.scalar_reduce(0 as Self::Scalar, |acc, s| acc.element_add(s))
                 }
             }
         )*
@@ -39,7 +39,7 @@ macro_rules! impl_packed_upcast_sum {
                 #[inline(always)]
                 fn sum_upcast(&self) -> i64 {
                     fallback!();
-                    self.scalar_reduce(0i64, |acc, s| acc + (s as i64))
+                    self.scalar_reduce(0i64, |acc, s| acc.wrapping_add(s as i64))
                 }
             }
         )*
diff --git a/src/vecs.rs b/src/vecs.rs
index f9b0241..3d98c49 100644
--- a/src/vecs.rs
+++ b/src/vecs.rs
@@ -79,6 +79,38 @@ pub trait Packable where Self : Sized + Copy + Debug {
     const SIZE: usize;
 }
 
+/// Arithmetic on vector elements which wraps on overflow, like its vector
+/// counterpart, regardless of whether overflow checks are enabled.
+pub(crate) trait ElementArith {
+    fn element_add(self, other: Self) -> Self;
+    fn element_mul(self, other: Self) -> Self;
+}
+
+macro_rules! impl_element_arith {
+    ($($el:tt, $add:path, $mul:path);*) => (
+        $(
+            impl ElementArith for $el {
+                #[inline(always)]
+                fn element_add(self, other: Self) -> Self { $add(self, other) }
+
+                #[inline(always)]
+                fn element_mul(self, other: Self) -> Self { $mul(self, other) }
+            }
+        )*
+    );
+}
+
+impl_element_arith!(u8, u8::wrapping_add, u8::wrapping_mul;
+                    i8, i8::wrapping_add, i8::wrapping_mul;
+                    u16, u16::wrapping_add, u16::wrapping_mul;
+                    i16, i16::wrapping_add, i16::wrapping_mul;
+                    u32, u32::wrapping_add, u32::wrapping_mul;
+                    i32, i32::wrapping_add, i32::wrapping_mul;
+                    f32, crate::core::ops::Add::add, crate::core::ops::Mul::mul;
+                    u64, u64::wrapping_add, u64::wrapping_mul;
+                    i64, i64::wrapping_add, i64::wrapping_mul;
+                    f64, crate::core::ops::Add::add, crate::core::ops::Mul::mul);
+
 // Vector types which aren't interpreted as SIMD vectors, for systems which
 // don't have SIMD support.
 
@@ -175,7 +207,7 @@ macro_rules! impl_packed {
             fn product(&self) -> Self::Scalar {
                 let mut acc = 1 as $el;
                 for i in 0..Self::WIDTH {
-                    acc *= self.extract(i)
+                    acc = acc.element_mul(self.extract(i))
                 }
                 acc
             }
-- 
2.43.0


From 3b5bcb1731b2d1591f71db0cdc550dc0edc2bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:24 +0000
Subject: [PATCH 07/40] fix: return the odd elements from the AVX2 destride_two
 of 8-bit vectors

---
 src/arch/x86/intrin/destride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/destride.rs b/src/arch/x86/intrin/destride.rs
index 8715278..0bfdc59 100644
--- a/src/arch/x86/intrin/destride.rs
+++ b/src/arch/x86/intrin/destride.rs
@@ -48,7 +48,7 @@ impl Destride for u8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_u8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_u8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_u8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_u8s();
             (aa.merge_halves(bb), c)
         }
     }
@@ -108,7 +108,7 @@ impl Destride for i8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_i8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_i8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_i8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_i8s();
             (aa.merge_halves(bb), c)
         }
     }
-- 
2.43.0


From 5e611ed40553baabb5299762d75d11598db82b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 08/40] fix: keep SIMDIterator::end in bounds before exhaustion
 and off vector boundaries

---
 src/iters.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0c4c5a8..4dd2302 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -526,16 +526,24 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         if self.scalar_pos() < self.scalar_len() {
+            let pos = self.scalar_pos();
+            if self.scalar_len() - pos >= self.width() {
+                // The next vector is a full one
+                let ret = unsafe { self.load_unchecked(pos) };
+                let width = self.width(); // Appease borrow checker
+                self.advance(width);
+                return Some((ret, 0));
+            }
             let mut ret = self.default();
-            let empty_amt = self.width() - (self.scalar_len() - self.scalar_pos());
+            let empty_amt = self.width() - (self.scalar_len() - pos);
             // Right-align the partial vector to ensure the load is vectorized
             if self.width() < self.scalar_len() {
                 ret = unsafe { self.load_unchecked(self.scalar_len() - self.width()) };
                 ret = self.default().merge_partitioned(ret, empty_amt);
             } else {
-                for i in self.scalar_pos()..self.scalar_len() {
+                for i in pos..self.scalar_len() {
                     unsafe {
-                        ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                        ret = ret.replace_unchecked(i - pos + empty_amt, self.load_scalar_unchecked(i));
                     }
                 }
             }
@@ -595,6 +603,9 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
     #[inline(always)]
     unsafe fn end_unchecked(&mut self, offset: usize, empty_amt: usize) -> Self::Vector {
         debug_assert!(offset < self.scalar_len());
+        if empty_amt == 0 {
+            return self.load_unchecked(offset);
+        }
         let mut ret = self.default();
         debug_assert_eq!(empty_amt, self.width() - (self.scalar_len() - offset));
         // Right-align the partial vector to ensure the load is vectorized
@@ -603,7 +614,7 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
             ret = self.default().merge_partitioned(ret, empty_amt);
         } else {
             for i in offset..self.scalar_len() {
-                ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                ret = ret.replace_unchecked(i - offset + empty_amt, self.load_scalar_unchecked(i));
             }
         }
         ret
-- 
2.43.0


From 6100dee3ad9c2f16119bd705e0dfa23cf2d784db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 09/40] fix: do not wrap the position of a slice iterator
 advanced past its end

---
 src/iters.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 4dd2302..3e99be0 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -43,7 +43,7 @@ pub trait SIMDIterable : SIMDObject + SIMDSized + ExactSizeIterator<Item = <Self
     /// Advance the iterable such that it procudes no more items.
     #[inline(always)]
     fn finalize(&mut self) {
-        let end = self.scalar_len() - self.scalar_pos();
+        let end = self.scalar_len().saturating_sub(self.scalar_pos());
         self.advance(end);
     }
 
@@ -465,7 +465,7 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.position <= self.scalar_len() && self.scalar_len() - self.position >= self.width() {
             let ret = unsafe { self.load_unchecked(self.position) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
@@ -513,7 +513,7 @@ impl<A> SIMDIterable for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A:
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        self.position = self.position.saturating_add(amount)
     }
 
     #[inline(always)]
-- 
2.43.0


From 2b347bdd1068746d6368cfe974dfa18beb055e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 10/40] fix: only return collected elements from scalar_collect

---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 3e99be0..3e46f6f 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -738,7 +738,7 @@ impl<'a, T, I> IntoScalar<T> for I
                 }
                 ret.set_len(self.width() + offset - n);
             } else {
-                ret.set_len(self.len() * self.width());
+                ret.set_len(offset);
             }
         }
         ret
-- 
2.43.0


From 6e614b2b712ccb8a9de696c9699f8ab555ead893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 11/40] fix: return every collected vector from
 scalar_collect_all

---
 src/iters.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 3e46f6f..0075457 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -779,10 +779,20 @@ impl<'a, T, I> IntoScalar<T> for I
     #[cfg(feature = "std")]
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
         let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        let mut offset = 0;
 
         unsafe {
-            ret.set_len(self.len());
-            self.scalar_fill_all(ret.as_mut_slice());
+            ret.set_len((self.len() + 1) * self.width());
+            while let Some(vec) = self.next() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+
+            if let Some((vec, _)) = self.end() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+            ret.set_len(offset);
         }
         ret
     }
-- 
2.43.0


From 510bfaa1454385a2a2c6c674a1091b93884c6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 12/40] fix: check the length of the buffer given to
 scalar_fill and scalar_fill_all

---
 src/iters.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0075457..65435c5 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -750,7 +750,7 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut lastvec = Self::Vector::default();
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
             lastvec = vec;
         }
@@ -758,10 +758,8 @@ impl<'a, T, I> IntoScalar<T> for I
         if let Some((p, n)) = self.end() {
             if offset > 0 {
                 // We stored a vector in this buffer; overwrite the unused elements
-                unsafe {
-                    p.store_unchecked(fill, offset - n);
-                    lastvec.store_unchecked(fill, offset - self.width());
-                }
+                p.store(fill, offset - n);
+                lastvec.store(fill, offset - self.width());
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
@@ -802,12 +800,12 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut offset = 0;
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
         }
 
         if let Some((vec, _)) = self.end() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
         }
 
         fill
-- 
2.43.0


From 28a90b2c028d13dde9cef7d5918aa630be71441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 13/40] fix: leave elements before the iterator's position
 alone in simd_for_each

---
 src/iters.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 65435c5..5754132 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -559,11 +559,11 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
 impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
     fn simd_for_each<F>(&mut self, mut func: F)
         where F : FnMut(&mut Self::Vector) -> () {
-        let mut lastvec = Self::Vector::default();
+        let mut lastvec = None;
 
         while let Some(mut v) = self.next() {
             func(&mut v);
-            lastvec = v;
+            lastvec = Some(v);
             let offset = self.scalar_pos() - self.width();
             unsafe { self.data.store_unchecked(v, offset); }
         }
@@ -571,14 +571,14 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
         if let Some((mut p, n)) = self.end() {
             func(&mut p);
             let width = self.width();
-            if self.width() < self.scalar_len() {
+            if let Some(lastvec) = lastvec {
                 // We stored a vector in this buffer; overwrite the unused elements
                 unsafe {
                     self.data.store_unchecked(p, offset - n);
                     self.data.store_unchecked(lastvec, offset - width);
                 }
             } else {
-                // The buffer won't fit one vector; store elementwise
+                // We haven't stored a vector in this buffer; store elementwise
                 for i in 0..(width - n) {
                     unsafe { self.data.store_scalar_unchecked(p.extract_unchecked(i + n), offset + i); }
                 }
-- 
2.43.0


From 638a2d294901ab4fccc2ecbd7713d4a069323285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 14/40] fix: scale the padding of mapped iterators by their
 lane counts

---
 src/iters.rs | 2 +-
 src/zip.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 5754132..4b51209 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -682,7 +682,7 @@ impl<'a, A, B, I, F> SIMDIterator for SIMDMap<I, F>
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         let (v, n) = self.iter.end()?;
-        let nr = n * I::Scalar::SIZE / Self::Scalar::SIZE;
+        let nr = n * Self::Vector::WIDTH / I::Vector::WIDTH;
         Some(((self.func)(v), nr))
     }
 }
diff --git a/src/zip.rs b/src/zip.rs
index 960e2c4..a7b4e14 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -365,7 +365,7 @@ where I : SIMDZippedIterator, F : FnMut(I::Vectors) -> A, A : Packed {
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         let (v, n) = self.iter.end()?;
-        let nr = n * self.iter.size() / self.size();
+        let nr = n * self.width() / self.iter.width();
         Some(((self.func)(v), nr))
     }
 }
-- 
2.43.0


From 91d3ac147cbc5fcf77cbb24703fba41de6c8d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 15/40] fix: refuse to zip iterators of different scalar
 lengths or lane counts

---
 src/zip.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zip.rs b/src/zip.rs
index a7b4e14..20f083a 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -225,9 +225,12 @@ macro_rules! impl_iter_zip {
         impl<$($a),*> IntoSIMDZip for ($($a),*) where $($a : SIMDIterator + UnsafeIterator),* {
             #[inline(always)]
             fn zip(self) -> Zip<Self> {
-                if $(self.0.len() != self.$n.len())||* {
+                if $(self.0.scalar_len() != self.$n.scalar_len())||* {
                     panic!("You can only zip iterators of the same length.");
                 }
+                if $(self.0.width() != self.$n.width())||* {
+                    panic!("You can only zip iterators of the same width.");
+                }
                 Zip { iters: self }
             }
         }
-- 
2.43.0


From ba03bfe238f3dde5d97e3a1b0addefefbd34b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 16/40] fix: report lengths and positions of mapped and zipped
 iterators in one unit

---
 src/iters.rs | 12 +++++++++++-
 src/zip.rs   | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 4b51209..dba7173 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -654,7 +654,12 @@ impl<A, B, I, F> SIMDSized for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.iter.scalar_len()
+    }
+
+    #[inline(always)]
+    fn vector_len(&self) -> usize {
+        self.iter.vector_len()
     }
 }
 
@@ -665,6 +670,11 @@ impl<A, B, I, F> SIMDIterable for SIMDMap<I, F>
         self.iter.scalar_pos()
     }
 
+    #[inline(always)]
+    fn vector_pos(&self) -> usize {
+        self.iter.vector_pos()
+    }
+
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
         self.iter.advance(amount);
diff --git a/src/zip.rs b/src/zip.rs
index 20f083a..7540147 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -97,7 +97,7 @@ pub trait SIMDZippedIterable : SIMDZippedObject + ExactSizeIterator<Item = <Self
     /// Advance the iterable such that it procudes no more items.
     #[inline(always)]
     fn finalize(&mut self) {
-        let end = self.scalar_len() - self.scalar_pos();
+        let end = self.scalar_len().saturating_sub(self.scalar_pos());
         self.advance(end);
     }
 
@@ -292,6 +292,11 @@ macro_rules! impl_iter_zip {
                 self.iters.0.scalar_pos()
             }
 
+            #[inline(always)]
+            fn scalar_len(&self) -> usize {
+                self.iters.0.scalar_len()
+            }
+
             #[inline(always)]
             fn advance(&mut self, amount: usize) {
                 self.iters.0.advance(amount);
@@ -351,6 +356,11 @@ impl<I, F, A> SIMDIterable for SIMDZipMap<I, F>
         self.iter.scalar_pos()
     }
 
+    #[inline(always)]
+    fn vector_pos(&self) -> usize {
+        self.iter.vector_pos()
+    }
+
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
         self.iter.advance(amount)
-- 
2.43.0


From 2be12c57a69ad9504426d403f2aaae2d832c633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 17/40] fix: report the vectors left from
 ExactSizeIterator::len of a slice iterator

---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index dba7173..5f58fea 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -456,7 +456,7 @@ impl<A> SIMDObject for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::S
 impl<A> ExactSizeIterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Scalar : Packable {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.data.scalar_len() / self.width()
+        self.data.scalar_len().saturating_sub(self.position) / self.width()
     }
 }
 
-- 
2.43.0


From 136fab94b8d3fe466466d9e59abce69eac90b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 18/40] fix: neither drop nor misplace trailing elements of
 strided iterators

---
 src/stride.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/stride.rs b/src/stride.rs
index 4a27b95..8337157 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,13 +32,9 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + self.stride * self.width() < self.iter.scalar_len() {
-            let mut ret = <Self as SIMDObject>::Vector::default();
-            for i in 0..self.width() {
-                ret = ret.replace(i, unsafe {
-                    self.iter.load_scalar_unchecked(self.pos + self.stride * i)
-                });
-            }
+        let pos = self.scalar_pos();
+        if pos <= self.scalar_len() && self.scalar_len() - pos >= self.width() {
+            let ret = unsafe { self.load_unchecked(pos) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
             Some(ret)
@@ -51,7 +47,7 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 impl<'a, A> ExactSizeIterator for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.vector_len() / self.stride
+        self.scalar_len().saturating_sub(self.scalar_pos()) / self.width()
     }
 }
 
@@ -322,7 +318,8 @@ impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
 impl<'a, A> SIMDSized for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.scalar_len() / self.stride
+        // Round up, as the last stride may be incomplete
+        (self.iter.scalar_len().saturating_sub(self.base) + self.stride - 1) / self.stride
     }
 }
 
@@ -339,7 +336,7 @@ impl<'a, A> SIMDIterable for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.pos += amount * self.stride;
+        self.pos = self.pos.saturating_add(amount.saturating_mul(self.stride));
     }
 
     #[inline(always)]
-- 
2.43.0


From 7aeb339f4f1320555de2dbd9c2309f2b96d122ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 19/40] fix: check offsets into strided iterators without
 wrapping

---
 src/stride.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stride.rs b/src/stride.rs
index 8337157..a1082c8 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -289,7 +289,7 @@ impl<'a, A> SIMDObject for PackedStride<'a, A> where A : SIMDArray {
 impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn load(&self, offset: usize) -> Self::Vector {
-        assert!(self.base + self.stride * (offset + (self.width() - 1)) < self.iter.scalar_len());
+        assert!(self.scalar_len() >= self.width() && offset <= self.scalar_len() - self.width());
         unsafe { self.load_unchecked(offset) }
     }
 
@@ -306,6 +306,7 @@ impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn load_scalar(&self, offset: usize) -> Self::Scalar {
+        assert!(offset < self.scalar_len());
         self.iter.load_scalar(self.base + offset * self.stride)
     }
 
-- 
2.43.0


From ba3ce8e1f1969c28866805656638e6f6cf29459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 20/40] fix: right-align the last vectors of a StrideZip and
 count their padding

---
 src/stride_zip.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index eed06d3..61d3161 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -94,19 +94,32 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
-        let first = self.iter.next();
-        let (end, n) = self.iter.end().unwrap_or((self.iter.default(), 0));
-        if let Some(first) = first {
-            Some((first.destride_two(end), (self.width() + n) / 2))
-        } else {
-            if let Some(v) = self.peek {
-                self.peek = None;
-                Some((v.destride_two(end), (self.width() + n) / 2))
-            } else if n > 0 {
-                Some((end.destride_two(self.iter.default()), n / 2))
+        let width = self.width();
+        let default = self.iter.default();
+        let first = match self.peek.take() {
+            Some(v) => Some(v),
+            None => self.iter.next()
+        };
+        let (end, n) = self.iter.end().unwrap_or((default, width));
+        let first_amt = if first.is_some() { width } else { 0 };
+        let first = first.unwrap_or(default);
+
+        // Right-align the remaining elements, leaving the even ones even
+        let amt = first_amt + width - n;
+        let empty_amt = width - (amt + 1) / 2;
+        let (mut evens, mut odds) = (default, default);
+        for i in 0..amt {
+            let v = if i < first_amt { first.extract(i) } else { end.extract(i - first_amt + n) };
+            if i % 2 == 0 {
+                evens = evens.replace(empty_amt + i / 2, v);
             } else {
-                None
+                odds = odds.replace(empty_amt + i / 2, v);
             }
         }
+        if amt > 0 {
+            Some(((evens, odds), empty_amt))
+        } else {
+            None
+        }
     }
 }
-- 
2.43.0


From e16572d8e70c9af3ceb7d264a6f5af4bab2af35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 21/40] fix: present every element of an adapted scalar
 iterator once and in order

---
 src/iters.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 5f58fea..1988e07 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -239,7 +239,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.iter.len() >= self.width() {
             // Our iterator has at least one vector's worth of elements, so load
             // them all into our vector
             for offset in 0..self.width() {
@@ -247,8 +247,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
                     self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
             }
-            let width = self.width(); // Appease borrow checker
-            self.advance(width);
+            self.position += self.width();
             Some(self.scratch)
         } else {
             None
@@ -258,19 +257,20 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
-        if self.position < self.scalar_len() {
-            // This is the last vector we can load, so we should load it
-            // backwards and use the default vector to overwrite blank spots
+        if self.iter.len() >= self.width() {
+            self.next().map(|v| (v, 0))
+        } else if self.iter.len() > 0 {
+            // This is the last vector we can load, so we should right-align it
+            // and leave the default vector in blank spots
             self.scratch = self.default;
-            let mut offset = self.width() - 1;
-            while let Some(item) = self.iter.next() {
+            let empty_amt = self.width() - self.iter.len();
+            for offset in empty_amt..self.width() {
                 unsafe {
-                    self.scratch = self.scratch.replace_unchecked(offset, item);
+                    self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
-                offset -= 1;
             }
-            self.finalize();
-            Some((self.scratch, offset))
+            self.position += self.width() - empty_amt;
+            Some((self.scratch, empty_amt))
         } else {
             None
         }
@@ -287,7 +287,7 @@ impl<I, V> ExactSizeIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<I
 impl<I, V> SIMDSized for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.position + self.iter.len()
     }
 }
 
@@ -299,7 +299,10 @@ impl<I, V> SIMDIterable for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        for _ in 0..amount.min(self.iter.len()) {
+            self.iter.next();
+            self.position += 1;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 87d0c4c175ceb81badda31b33bf5996519c59b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:30 +0000
Subject: [PATCH 22/40] fix: panic on split offsets beyond the lane count
 instead of reading past the mask table

---
 scripts/vec_patterns_gen.py      |  2 +-
 src/arch/unknown/vec_patterns.rs | 20 +++++------
 src/arch/x86/vec_patterns.rs     | 60 ++++++++++++++++----------------
 3 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/scripts/vec_patterns_gen.py b/scripts/vec_patterns_gen.py
index 226e4db..1069844 100644
--- a/scripts/vec_patterns_gen.py
+++ b/scripts/vec_patterns_gen.py
@@ -89,7 +89,7 @@ def generate_vec_patterns(arch, headers, els, vecs, lens, feats, blends, elsz, m
             fprint(f"""
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {{
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe {{ transmute(&PART_MASK[..]) }}, 64 / Self::Scalar::SIZE - off)
             }}""",)
diff --git a/src/arch/unknown/vec_patterns.rs b/src/arch/unknown/vec_patterns.rs
index a4ce16f..e1fbb9b 100644
--- a/src/arch/unknown/vec_patterns.rs
+++ b/src/arch/unknown/vec_patterns.rs
@@ -47,7 +47,7 @@ impl Pattern for u8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -112,7 +112,7 @@ impl Pattern for i8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -177,7 +177,7 @@ impl Pattern for u16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -234,7 +234,7 @@ impl Pattern for i16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -291,7 +291,7 @@ impl Pattern for u32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -344,7 +344,7 @@ impl Pattern for i32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -397,7 +397,7 @@ impl Pattern for f32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -450,7 +450,7 @@ impl Pattern for u64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -501,7 +501,7 @@ impl Pattern for i64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -552,7 +552,7 @@ impl Pattern for f64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
diff --git a/src/arch/x86/vec_patterns.rs b/src/arch/x86/vec_patterns.rs
index d5221cc..86f22a1 100644
--- a/src/arch/x86/vec_patterns.rs
+++ b/src/arch/x86/vec_patterns.rs
@@ -47,7 +47,7 @@ impl Pattern for u8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -160,7 +160,7 @@ impl Pattern for u8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -241,7 +241,7 @@ impl Pattern for u8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -306,7 +306,7 @@ impl Pattern for i8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -419,7 +419,7 @@ impl Pattern for i8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -500,7 +500,7 @@ impl Pattern for i8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -565,7 +565,7 @@ impl Pattern for u16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -646,7 +646,7 @@ impl Pattern for u16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -711,7 +711,7 @@ impl Pattern for u16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -768,7 +768,7 @@ impl Pattern for i16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -849,7 +849,7 @@ impl Pattern for i16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -914,7 +914,7 @@ impl Pattern for i16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -971,7 +971,7 @@ impl Pattern for u32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1036,7 +1036,7 @@ impl Pattern for u32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1093,7 +1093,7 @@ impl Pattern for u32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1146,7 +1146,7 @@ impl Pattern for i32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1211,7 +1211,7 @@ impl Pattern for i32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1268,7 +1268,7 @@ impl Pattern for i32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1321,7 +1321,7 @@ impl Pattern for f32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1386,7 +1386,7 @@ impl Pattern for f32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1443,7 +1443,7 @@ impl Pattern for f32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1496,7 +1496,7 @@ impl Pattern for u64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1553,7 +1553,7 @@ impl Pattern for u64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1606,7 +1606,7 @@ impl Pattern for u64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1657,7 +1657,7 @@ impl Pattern for i64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1714,7 +1714,7 @@ impl Pattern for i64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1767,7 +1767,7 @@ impl Pattern for i64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1818,7 +1818,7 @@ impl Pattern for f64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1875,7 +1875,7 @@ impl Pattern for f64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1928,7 +1928,7 @@ impl Pattern for f64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
-- 
2.43.0


From 07994607a61d204f85907ffaf2b60af82f7d3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:52 +0000
Subject: [PATCH 23/40] fix: gate Round for f64x4 on avx, which its intrinsics
 need

---
 src/arch/x86/intrin/round.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/x86/intrin/round.rs b/src/arch/x86/intrin/round.rs
index 7cff34a..52ea60b 100644
--- a/src/arch/x86/intrin/round.rs
+++ b/src/arch/x86/intrin/round.rs
@@ -40,7 +40,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x4 where "sse4.1" {
+    impl Round for f64x4 where "avx" {
         round => _mm256_round_pd(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => _mm256_ceil_pd(), [0, 1, 2, 3];
         floor => _mm256_floor_pd(), [0, 1, 2, 3];
-- 
2.43.0


From eb4e35f5202ce3f5d1018a44de30742380372f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:52 +0000
Subject: [PATCH 24/40] fix: gate Cmp for u32x8 and i32x8 on avx2, which their
 intrinsics need

---
 src/arch/x86/intrin/cmp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/cmp.rs b/src/arch/x86/intrin/cmp.rs
index 7b97db8..e3dbbf0 100644
--- a/src/arch/x86/intrin/cmp.rs
+++ b/src/arch/x86/intrin/cmp.rs
@@ -100,14 +100,14 @@ rust_fallback_impl_binary! {
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for u32x8 where "avx" {
+    impl Cmp for u32x8 where "avx2" {
         min => _mm256_min_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for i32x8 where "avx" {
+    impl Cmp for i32x8 where "avx2" {
         min => _mm256_min_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
-- 
2.43.0


From bb09a2de20595c2ad921741bafc0c40fcaed1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:24 +0000
Subject: [PATCH 25/40] fix: give the portable vector types the slice accessors
 that Packed uses, so non-x86 targets build

---
 src/arch/unknown/vecs.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/arch/unknown/vecs.rs b/src/arch/unknown/vecs.rs
index d24df90..b3ce21c 100644
--- a/src/arch/unknown/vecs.rs
+++ b/src/arch/unknown/vecs.rs
@@ -142,6 +142,26 @@ macro_rules! impl_packed_type {
                 x
             }
 
+            #[inline(always)]
+            pub fn from_slice_unaligned(slice: &[$el]) -> $vec {
+                $vec::load_unaligned(slice)
+            }
+
+            #[inline(always)]
+            pub unsafe fn from_slice_unaligned_unchecked(slice: &[$el]) -> $vec {
+                $vec::load_unaligned_unchecked(slice)
+            }
+
+            #[inline(always)]
+            pub fn write_to_slice_unaligned(self, slice: &mut [$el]) {
+                self.store_unaligned(slice)
+            }
+
+            #[inline(always)]
+            pub unsafe fn write_to_slice_unaligned_unchecked(self, slice: &mut [$el]) {
+                self.store_unaligned_unchecked(slice)
+            }
+
             // TODO: Actually check alignment
             #[inline(always)]
             pub unsafe fn load_aligned_unchecked(slice: &[$el]) -> $vec {
-- 
2.43.0


From 2148cae22465f3a9f77556d7d875fad32cc0ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:19 +0000
Subject: [PATCH 26/40] fix: saturate every lane of the portable u64 to u32
 downcast at u32::MAX

---
 src/arch/unknown/intrin/downcast.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/arch/unknown/intrin/downcast.rs b/src/arch/unknown/intrin/downcast.rs
index e510b9d..4885bbd 100644
--- a/src/arch/unknown/intrin/downcast.rs
+++ b/src/arch/unknown/intrin/downcast.rs
@@ -36,9 +36,9 @@ impl Downcast<u32x4> for u64x2 {
     #[inline(always)]
     fn saturating_downcast(self, other: Self) -> u32x4 {
         u32x4::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32)
+                   self.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32)
     }
 }
 
@@ -248,13 +248,13 @@ impl Downcast<u32x8> for u64x4 {
     #[inline(always)]
     fn saturating_downcast(self, other: Self) -> u32x8 {
         u32x8::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
+                   self.extract(1).min(0xFFFFFFFF) as u32,
                    self.extract(2).min(0xFFFFFFFF) as u32,
-                   self.extract(3).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(2).min(0x7FFFFFFF) as u32,
-                   other.extract(3).min(0x7FFFFFFF) as u32)
+                   self.extract(3).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(2).min(0xFFFFFFFF) as u32,
+                   other.extract(3).min(0xFFFFFFFF) as u32)
     }
 }
 
-- 
2.43.0


From 557993b19657414454668c2cf682e6c526e32290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:12 +0000
Subject: [PATCH 27/40] fix: offer bit counts on non-x86 targets

---
 src/arch/unknown/intrin/mod.rs    |  2 ++
 src/arch/unknown/intrin/popcnt.rs | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+)
 create mode 100644 src/arch/unknown/intrin/popcnt.rs

diff --git a/src/arch/unknown/intrin/mod.rs b/src/arch/unknown/intrin/mod.rs
index 8998477..2e322ea 100644
--- a/src/arch/unknown/intrin/mod.rs
+++ b/src/arch/unknown/intrin/mod.rs
@@ -14,6 +14,7 @@ mod eq;
 mod hadd;
 mod hsub;
 mod merge;
+mod popcnt;
 mod recip;
 mod round;
 mod rsqrt;
@@ -36,6 +37,7 @@ pub mod prelude {
     pub use super::hadd::*;
     pub use super::hsub::*;
     pub use super::merge::*;
+    pub use super::popcnt::*;
     pub use super::recip::*;
     pub use super::round::*;
     pub use super::rsqrt::*;
diff --git a/src/arch/unknown/intrin/popcnt.rs b/src/arch/unknown/intrin/popcnt.rs
new file mode 100644
index 0000000..dc86d72
--- /dev/null
+++ b/src/arch/unknown/intrin/popcnt.rs
@@ -0,0 +1,19 @@
+// This file is part of faster, the SIMD library for humans.
+// Copyright 2017 Adam Niederer <adam.niederer@gmail.com>
+
+// This Source Code Form is subject to the terms of the Mozilla Public
+// License, v. 2.0. If a copy of the MPL was not distributed with this
+// file, You can obtain one at http://mozilla.org/MPL/2.0/.
+
+use crate::intrin::popcnt::*;
+use crate::intrin::transmute::*;
+use crate::arch::current::vecs::*;
+use crate::vecs::*;
+
+#[inline(always)]
+fn popcnt128(v: u8x16) -> usize {
+    v.scalar_reduce(0, |acc, s| acc + (s.count_ones() as usize))
+}
+
+impl_popcnt!(u8x16, popcnt128, i8x16, popcnt128, u16x8, popcnt128, i16x8, popcnt128,
+             u32x4, popcnt128, i32x4, popcnt128, u64x2, popcnt128, i64x2, popcnt128);
-- 
2.43.0


From 618474b8f9f6e1a123237f79c60a697f61c4b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 28/40] fix: only use std in the tracing macros when tracing is
 on

---
 src/debug.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/debug.rs b/src/debug.rs
index b7e3a2a..67a9b8b 100644
--- a/src/debug.rs
+++ b/src/debug.rs
@@ -1,8 +1,11 @@
 #![allow(unused_macros, dead_code)]
 
+#[cfg(all(feature = "trace", feature = "std"))]
 use std::collections::HashSet;
+#[cfg(all(feature = "trace", feature = "std"))]
 use std::cell::RefCell;
 
+#[cfg(all(feature = "trace", feature = "std"))]
 thread_local! {
     // Not perfect as it might print multiple times (once per thread),
     // but better than a `global` hack to prevent multiple prints of the
@@ -54,7 +57,7 @@ macro_rules! debug_output_once {
 
 
 /// Signal a software fallback is executed.
-#[cfg(feature="trace")]
+#[cfg(all(feature = "trace", feature = "std"))]
 macro_rules! fallback {
     () => {
         debug_output_once!(format!("⛔ faster is using SOFTWARE emulation here ({}:{}).", file!(), line!()));
@@ -62,19 +65,19 @@ macro_rules! fallback {
 }
 
 /// Signal an optimized SIMD intrinsic is executed.
-#[cfg(feature="trace")]
+#[cfg(all(feature = "trace", feature = "std"))]
 macro_rules! optimized {
     () => {
         debug_output_once!(format!("🚄 faster is using HARDWARE acceleration here ({}:{}).", file!(), line!()));
     }
 }
 
-#[cfg(not(feature="trace"))]
+#[cfg(not(all(feature = "trace", feature = "std")))]
 macro_rules! fallback {
     () => { }
 }
 
-#[cfg(not(feature="trace"))]
+#[cfg(not(all(feature = "trace", feature = "std")))]
 macro_rules! optimized {
     () => { }
 }
-- 
2.43.0


From 36f58e643275499cbd05f9ce1d78d4d6e7a81abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:32 +0000
Subject: [PATCH 29/40] fix: provide the scalar float fallbacks without std

---
 src/arch/unknown/intrin/abs.rs   |  2 ++
 src/arch/unknown/intrin/round.rs |  2 ++
 src/arch/unknown/intrin/rsqrt.rs |  2 ++
 src/arch/unknown/intrin/sqrt.rs  |  2 ++
 src/arch/x86/intrin/abs.rs       |  2 ++
 src/arch/x86/intrin/round.rs     |  2 ++
 src/arch/x86/intrin/rsqrt.rs     |  2 ++
 src/arch/x86/intrin/sqrt.rs      |  2 ++
 src/intrin/mod.rs                |  1 +
 src/intrin/scalar.rs             | 41 ++++++++++++++++++++++++++++++++
 src/lib.rs                       |  2 +-
 11 files changed, 59 insertions(+), 1 deletion(-)
 create mode 100644 src/intrin/scalar.rs

diff --git a/src/arch/unknown/intrin/abs.rs b/src/arch/unknown/intrin/abs.rs
index 6632940..f127a18 100644
--- a/src/arch/unknown/intrin/abs.rs
+++ b/src/arch/unknown/intrin/abs.rs
@@ -5,6 +5,8 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#[cfg(not(feature = "std"))]
+use crate::intrin::scalar::ScalarFloat;
 use crate::intrin::abs::Abs;
 use crate::arch::current::vecs::*;
 use crate::core::mem::transmute;
diff --git a/src/arch/unknown/intrin/round.rs b/src/arch/unknown/intrin/round.rs
index a5158ae..831d8da 100644
--- a/src/arch/unknown/intrin/round.rs
+++ b/src/arch/unknown/intrin/round.rs
@@ -5,6 +5,8 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#[cfg(not(feature = "std"))]
+use crate::intrin::scalar::ScalarFloat;
 use crate::intrin::round::Round;
 use crate::arch::current::vecs::*;
 use crate::vecs::*;
diff --git a/src/arch/unknown/intrin/rsqrt.rs b/src/arch/unknown/intrin/rsqrt.rs
index d089a4b..d0f8c3e 100644
--- a/src/arch/unknown/intrin/rsqrt.rs
+++ b/src/arch/unknown/intrin/rsqrt.rs
@@ -5,6 +5,8 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#[cfg(not(feature = "std"))]
+use crate::intrin::scalar::ScalarFloat;
 use crate::intrin::rsqrt::*;
 use crate::arch::current::vecs::*;
 use crate::vecs::*;
diff --git a/src/arch/unknown/intrin/sqrt.rs b/src/arch/unknown/intrin/sqrt.rs
index dac3454..f600866 100644
--- a/src/arch/unknown/intrin/sqrt.rs
+++ b/src/arch/unknown/intrin/sqrt.rs
@@ -5,6 +5,8 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#[cfg(not(feature = "std"))]
+use crate::intrin::scalar::ScalarFloat;
 use crate::intrin::sqrt::*;
 use crate::arch::current::vecs::*;
 use crate::vecs::*;
diff --git a/src/arch/x86/intrin/abs.rs b/src/arch/x86/intrin/abs.rs
index a4dc623..716a619 100644
--- a/src/arch/x86/intrin/abs.rs
+++ b/src/arch/x86/intrin/abs.rs
@@ -5,6 +5,8 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#[cfg(not(feature = "std"))]
+use crate::intrin::scalar::ScalarFloat;
 use crate::intrin::abs::Abs;
 
 use crate::vektor::x86_64::*;
diff --git a/src/arch/x86/intrin/round.rs b/src/arch/x86/intrin/round.rs
index 52ea60b..52ef430 100644
--- a/src/arch/x86/intrin/round.rs
+++ b/src/arch/x86/intrin/round.rs
@@ -5,6 +5,8 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#[cfg(not(feature = "std"))]
+use crate::intrin::scalar::ScalarFloat;
 use crate::vektor::x86_64::*;
 use crate::vektor::x86::*;
 use crate::intrin::round::Round;
diff --git a/src/arch/x86/intrin/rsqrt.rs b/src/arch/x86/intrin/rsqrt.rs
index a967620..8843699 100644
--- a/src/arch/x86/intrin/rsqrt.rs
+++ b/src/arch/x86/intrin/rsqrt.rs
@@ -5,6 +5,8 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#[cfg(not(feature = "std"))]
+use crate::intrin::scalar::ScalarFloat;
 use crate::vektor::x86_64::*;
 use crate::vektor::x86::*;
 use crate::intrin::rsqrt::*;
diff --git a/src/arch/x86/intrin/sqrt.rs b/src/arch/x86/intrin/sqrt.rs
index 2f54666..d4f6fa9 100644
--- a/src/arch/x86/intrin/sqrt.rs
+++ b/src/arch/x86/intrin/sqrt.rs
@@ -5,6 +5,8 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#[cfg(not(feature = "std"))]
+use crate::intrin::scalar::ScalarFloat;
 use vektor::x86_64::*;
 use vektor::x86::*;
 use crate::intrin::sqrt::*;
diff --git a/src/intrin/mod.rs b/src/intrin/mod.rs
index cbb0266..6f1f425 100644
--- a/src/intrin/mod.rs
+++ b/src/intrin/mod.rs
@@ -21,6 +21,7 @@ pub mod hsub;
 pub mod recip;
 pub mod round;
 pub mod rsqrt;
+pub(crate) mod scalar;
 #[macro_use] pub mod sum;
 pub mod saturating_add;
 pub mod saturating_hadd;
diff --git a/src/intrin/scalar.rs b/src/intrin/scalar.rs
new file mode 100644
index 0000000..d1da175
--- /dev/null
+++ b/src/intrin/scalar.rs
@@ -0,0 +1,41 @@
+// This file is part of faster, the SIMD library for humans.
+// Copyright 2017 Adam Niederer <adam.niederer@gmail.com>
+
+// This Source Code Form is subject to the terms of the Mozilla Public
+// License, v. 2.0. If a copy of the MPL was not distributed with this
+// file, You can obtain one at http://mozilla.org/MPL/2.0/.
+
+//! Scalar counterparts of the float operations which the standard library only
+//! offers with `std`. They back the fallbacks of the vector operations.
+
+use crate::core::intrinsics::*;
+
+pub trait ScalarFloat: Copy {
+    fn abs(self) -> Self;
+    fn ceil(self) -> Self;
+    fn floor(self) -> Self;
+    fn round(self) -> Self;
+    fn sqrt(self) -> Self;
+    fn trunc(self) -> Self;
+}
+
+macro_rules! impl_scalar_float {
+    ($($el:ty: $($fn:ident = $intrinsic:ident),*);*;) => {
+        $(
+            impl ScalarFloat for $el {
+                $(
+                    #[inline(always)]
+                    #[allow(unused_unsafe)]
+                    fn $fn(self) -> Self {
+                        unsafe { $intrinsic(self) }
+                    }
+                )*
+            }
+        )*
+    }
+}
+
+impl_scalar_float! {
+    f32: abs = fabsf32, ceil = ceilf32, floor = floorf32, round = roundf32, sqrt = sqrtf32, trunc = truncf32;
+    f64: abs = fabsf64, ceil = ceilf64, floor = floorf64, round = roundf64, sqrt = sqrtf64, trunc = truncf64;
+}
diff --git a/src/lib.rs b/src/lib.rs
index ec6612d..1780498 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -198,7 +198,7 @@
 
 #![cfg_attr(not(feature = "std"), no_std)]
 #![cfg_attr(test, feature(test))]
-#![feature(stdsimd)]
+#![feature(stdsimd, core_intrinsics)]
 // , mmx_target_feature, sse4a_target_feautre, tbm_target_feature
 
 mod core {
-- 
2.43.0


From 2552a28db2f909d30768cde035ace8db6e48274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:49 +0000
Subject: [PATCH 30/40] fix: round ties to even in the scalar fallback, as the
 vector instructions do

---
 src/arch/unknown/intrin/round.rs |  9 ++++-----
 src/arch/x86/intrin/round.rs     |  9 ++++-----
 src/intrin/macros.rs             | 20 ++++++++++++++++++++
 src/intrin/scalar.rs             |  6 ++++--
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/arch/unknown/intrin/round.rs b/src/arch/unknown/intrin/round.rs
index 831d8da..950567f 100644
--- a/src/arch/unknown/intrin/round.rs
+++ b/src/arch/unknown/intrin/round.rs
@@ -5,14 +5,13 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
-#[cfg(not(feature = "std"))]
 use crate::intrin::scalar::ScalarFloat;
 use crate::intrin::round::Round;
 use crate::arch::current::vecs::*;
 use crate::vecs::*;
 
 rust_fallback_impl! {
-    impl Round for f32x4 where "__undefined" {
+    impl Round for f32x4 where "__undefined" via ScalarFloat {
         round => __undefined(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => __undefined(), [0, 1, 2, 3];
         floor => __undefined(), [0, 1, 2, 3];
@@ -21,7 +20,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x2 where "__undefined" {
+    impl Round for f64x2 where "__undefined" via ScalarFloat {
         round => __undefined(_MM_FROUND_TO_NEAREST_INT), [0, 1];
         ceil => __undefined(), [0, 1];
         floor => __undefined(), [0, 1];
@@ -30,7 +29,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f32x8 where "__undefined" {
+    impl Round for f32x8 where "__undefined" via ScalarFloat {
         round => __undefined(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3, 4, 5, 6, 7];
         ceil => __undefined(), [0, 1, 2, 3, 4, 5, 6, 7];
         floor => __undefined(), [0, 1, 2, 3, 4, 5, 6, 7];
@@ -39,7 +38,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x4 where "__undefined" {
+    impl Round for f64x4 where "__undefined" via ScalarFloat {
         round => __undefined(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => __undefined(), [0, 1, 2, 3];
         floor => __undefined(), [0, 1, 2, 3];
diff --git a/src/arch/x86/intrin/round.rs b/src/arch/x86/intrin/round.rs
index 52ef430..b33de77 100644
--- a/src/arch/x86/intrin/round.rs
+++ b/src/arch/x86/intrin/round.rs
@@ -5,7 +5,6 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
-#[cfg(not(feature = "std"))]
 use crate::intrin::scalar::ScalarFloat;
 use crate::vektor::x86_64::*;
 use crate::vektor::x86::*;
@@ -15,7 +14,7 @@ use crate::arch::current::vecs::*;
 use crate::vecs::*;
 
 rust_fallback_impl! {
-    impl Round for f32x4 where "sse4.1" {
+    impl Round for f32x4 where "sse4.1" via ScalarFloat {
         round => _mm_round_ps(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => _mm_ceil_ps(), [0, 1, 2, 3];
         floor => _mm_floor_ps(), [0, 1, 2, 3];
@@ -24,7 +23,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x2 where "sse4.1" {
+    impl Round for f64x2 where "sse4.1" via ScalarFloat {
         round => _mm_round_pd(_MM_FROUND_TO_NEAREST_INT), [0, 1];
         ceil => _mm_ceil_pd(), [0, 1];
         floor => _mm_floor_pd(), [0, 1];
@@ -33,7 +32,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f32x8 where "avx" {
+    impl Round for f32x8 where "avx" via ScalarFloat {
         round => _mm256_round_ps(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3, 4, 5, 6, 7];
         ceil => _mm256_ceil_ps(), [0, 1, 2, 3, 4, 5, 6, 7];
         floor => _mm256_floor_ps(), [0, 1, 2, 3, 4, 5, 6, 7];
@@ -42,7 +41,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x4 where "avx" {
+    impl Round for f64x4 where "avx" via ScalarFloat {
         round => _mm256_round_pd(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => _mm256_ceil_pd(), [0, 1, 2, 3];
         floor => _mm256_floor_pd(), [0, 1, 2, 3];
diff --git a/src/intrin/macros.rs b/src/intrin/macros.rs
index 27ee745..f67f18a 100644
--- a/src/intrin/macros.rs
+++ b/src/intrin/macros.rs
@@ -27,6 +27,26 @@ macro_rules! rust_fallback_impl {
             )*
         }
     );
+    (impl $trait:tt for $type:tt where $feat:tt via $via:tt {
+        $($rustfn:ident => $mmfn:tt  ( $($mmfnargs:expr),* ), [$($n:expr),+]);*;}) => (
+        impl $trait for $type {
+            $(
+                #[inline(always)]
+                #[cfg(target_feature = $feat)]
+                fn $rustfn(&self) -> Self {
+                    optimized!();
+                    unsafe { $mmfn(*self, $($mmfnargs),*) }
+                }
+
+                #[inline(always)]
+                #[cfg(not(target_feature = $feat))]
+                fn $rustfn(&self) -> Self {
+                    fallback!();
+                    Self::new($($via::$rustfn(self.extract($n)),)*)
+                }
+            )*
+        }
+    );
 }
 
 macro_rules! rust_fallback_impl_binary {
diff --git a/src/intrin/scalar.rs b/src/intrin/scalar.rs
index d1da175..da3f745 100644
--- a/src/intrin/scalar.rs
+++ b/src/intrin/scalar.rs
@@ -14,6 +14,8 @@ pub trait ScalarFloat: Copy {
     fn abs(self) -> Self;
     fn ceil(self) -> Self;
     fn floor(self) -> Self;
+    /// Round to the nearest integer, and to the even one of two equally near
+    /// integers, like the vector instructions do.
     fn round(self) -> Self;
     fn sqrt(self) -> Self;
     fn trunc(self) -> Self;
@@ -36,6 +38,6 @@ macro_rules! impl_scalar_float {
 }
 
 impl_scalar_float! {
-    f32: abs = fabsf32, ceil = ceilf32, floor = floorf32, round = roundf32, sqrt = sqrtf32, trunc = truncf32;
-    f64: abs = fabsf64, ceil = ceilf64, floor = floorf64, round = roundf64, sqrt = sqrtf64, trunc = truncf64;
+    f32: abs = fabsf32, ceil = ceilf32, floor = floorf32, round = rintf32, sqrt = sqrtf32, trunc = truncf32;
+    f64: abs = fabsf64, ceil = ceilf64, floor = floorf64, round = rintf64, sqrt = sqrtf64, trunc = truncf64;
 }
-- 
2.43.0


From 8e9e7cf48b5e235556f9e3b37ef87b04cb04c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 31/40] fix: wrap on overflow in the portable vector operators,
 as SIMD vectors do

---
 src/arch/unknown/vecs.rs | 16 ++++++++++++++--
 src/vecs.rs              | 26 +++++++++++++++-----------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/arch/unknown/vecs.rs b/src/arch/unknown/vecs.rs
index b3ce21c..e520f28 100644
--- a/src/arch/unknown/vecs.rs
+++ b/src/arch/unknown/vecs.rs
@@ -199,6 +199,18 @@ macro_rules! impl_from {
     }
 }
 
+// Integer arithmetic wraps on overflow regardless of whether overflow checks are
+// enabled, like it does on SIMD vectors.
+macro_rules! element_op {
+    ($x:expr, +, $y:expr) => { $x.element_add($y) };
+    ($x:expr, -, $y:expr) => { $x.element_sub($y) };
+    ($x:expr, *, $y:expr) => { $x.element_mul($y) };
+    ($x:expr, +=, $y:expr) => { $x = $x.element_add($y) };
+    ($x:expr, -=, $y:expr) => { $x = $x.element_sub($y) };
+    ($x:expr, *=, $y:expr) => { $x = $x.element_mul($y) };
+    ($x:expr, $op:tt, $y:expr) => { $x $op $y };
+}
+
 macro_rules! impl_ops {
     ($el:ty, $vec:ty, $([$trait:tt, $fn:tt, $op:tt]),*) => {
         $(
@@ -208,7 +220,7 @@ macro_rules! impl_ops {
                 fn $fn(self, rhs: Self) -> Self::Output {
                     let mut ret = Self::splat(0 as $el);
                     for (i, (x, y)) in self.data.iter().zip(rhs.data.iter()).enumerate() {
-                        ret.data[i] = x $op y;
+                        ret.data[i] = element_op!(*x, $op, *y);
                     }
                     ret
                 }
@@ -224,7 +236,7 @@ macro_rules! impl_assignops {
                 #[inline(always)]
                 fn $fn(&mut self, rhs: Self) {
                     for (i, y) in rhs.data.iter().enumerate() {
-                        self.data[i] $op y;
+                        element_op!(self.data[i], $op, *y);
                     }
                 }
             }
diff --git a/src/vecs.rs b/src/vecs.rs
index 3d98c49..14fc270 100644
--- a/src/vecs.rs
+++ b/src/vecs.rs
@@ -83,16 +83,20 @@ pub trait Packable where Self : Sized + Copy + Debug {
 /// counterpart, regardless of whether overflow checks are enabled.
 pub(crate) trait ElementArith {
     fn element_add(self, other: Self) -> Self;
+    fn element_sub(self, other: Self) -> Self;
     fn element_mul(self, other: Self) -> Self;
 }
 
 macro_rules! impl_element_arith {
-    ($($el:tt, $add:path, $mul:path);*) => (
+    ($($el:tt, $add:path, $sub:path, $mul:path);*) => (
         $(
             impl ElementArith for $el {
                 #[inline(always)]
                 fn element_add(self, other: Self) -> Self { $add(self, other) }
 
+                #[inline(always)]
+                fn element_sub(self, other: Self) -> Self { $sub(self, other) }
+
                 #[inline(always)]
                 fn element_mul(self, other: Self) -> Self { $mul(self, other) }
             }
@@ -100,16 +104,16 @@ macro_rules! impl_element_arith {
     );
 }
 
-impl_element_arith!(u8, u8::wrapping_add, u8::wrapping_mul;
-                    i8, i8::wrapping_add, i8::wrapping_mul;
-                    u16, u16::wrapping_add, u16::wrapping_mul;
-                    i16, i16::wrapping_add, i16::wrapping_mul;
-                    u32, u32::wrapping_add, u32::wrapping_mul;
-                    i32, i32::wrapping_add, i32::wrapping_mul;
-                    f32, crate::core::ops::Add::add, crate::core::ops::Mul::mul;
-                    u64, u64::wrapping_add, u64::wrapping_mul;
-                    i64, i64::wrapping_add, i64::wrapping_mul;
-                    f64, crate::core::ops::Add::add, crate::core::ops::Mul::mul);
+impl_element_arith!(u8, u8::wrapping_add, u8::wrapping_sub, u8::wrapping_mul;
+                    i8, i8::wrapping_add, i8::wrapping_sub, i8::wrapping_mul;
+                    u16, u16::wrapping_add, u16::wrapping_sub, u16::wrapping_mul;
+                    i16, i16::wrapping_add, i16::wrapping_sub, i16::wrapping_mul;
+                    u32, u32::wrapping_add, u32::wrapping_sub, u32::wrapping_mul;
+                    i32, i32::wrapping_add, i32::wrapping_sub, i32::wrapping_mul;
+                    f32, crate::core::ops::Add::add, crate::core::ops::Sub::sub, crate::core::ops::Mul::mul;
+                    u64, u64::wrapping_add, u64::wrapping_sub, u64::wrapping_mul;
+                    i64, i64::wrapping_add, i64::wrapping_sub, i64::wrapping_mul;
+                    f64, crate::core::ops::Add::add, crate::core::ops::Sub::sub, crate::core::ops::Mul::mul);
 
 // Vector types which aren't interpreted as SIMD vectors, for systems which
 // don't have SIMD support.
-- 
2.43.0


From 200ed1b16f8d4f42fc508e3dbc8246f202b961d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:08 +0000
Subject: [PATCH 32/40] fix: let the portable merge_partitioned take every lane
 from self, as the accelerated one does

---
 src/intrin/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intrin/merge.rs b/src/intrin/merge.rs
index 29ba3f1..ab45726 100644
--- a/src/intrin/merge.rs
+++ b/src/intrin/merge.rs
@@ -71,7 +71,7 @@ macro_rules! impl_packed_merge {
             #[inline(always)]
             fn merge_partitioned(&self, other: Self, offset: usize) -> Self {
                 fallback!();
-                assert!(offset < Self::WIDTH);
+                assert!(offset <= Self::WIDTH);
                 let mut ret = self.clone();
                 for i in offset..Self::WIDTH {
                     unsafe {
-- 
2.43.0


From 980b5a5e87c1b6a6eb41c0b2c058007d2e63bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:41 +0000
Subject: [PATCH 33/40] fix: stride_zip counts its length and vector position
 from where it starts

---
 src/stride_zip.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index 61d3161..a031018 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -58,12 +58,12 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn vector_pos(&self) -> usize {
-        (self.iter.vector_pos() - (self.base / self.width())) / 2
+        self.scalar_pos() / self.width()
     }
 
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.scalar_len() / 2
+        self.iter.scalar_len().saturating_sub(self.base) / 2
     }
 
     #[inline(always)]
-- 
2.43.0


From 888df28b88713721766859a078b405650720cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:41 +0000
Subject: [PATCH 34/40] fix: an exhausted stride_zip keeps its position and can
 still be advanced

---
 src/stride_zip.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index a031018..bbadeac 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -5,7 +5,6 @@ use crate::zip::{SIMDZippedIterable, SIMDZippedIterator, SIMDZippedObject};
 
 pub struct StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     base: usize,
-    peek: Option<T::Vector>,
     iter: T
 }
 
@@ -20,7 +19,6 @@ impl<T> IntoStrideZip for T where T : SIMDIterator, T::Vector : Destride {
     fn stride_zip(self) -> StrideZip<Self> {
         StrideZip {
             base: self.scalar_pos(),
-            peek: None,
             iter: self
         }
     }
@@ -81,14 +79,13 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     type Item = <Self as SIMDZippedObject>::Vectors;
     
     fn next(&mut self) -> Option<Self::Item> {
-        let first = self.iter.next()?;
-        let second = self.iter.next();
-        if let Some(second) = second {
-            Some(first.destride_two(second))
-        } else {
-            self.peek = Some(first);
-            None
+        // An unpaired vector is left to `end`
+        if self.iter.len() < 2 {
+            return None;
         }
+        let first = self.iter.next()?;
+        let second = self.iter.next()?;
+        Some(first.destride_two(second))
     }
 }
 
@@ -96,10 +93,7 @@ impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector :
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
         let width = self.width();
         let default = self.iter.default();
-        let first = match self.peek.take() {
-            Some(v) => Some(v),
-            None => self.iter.next()
-        };
+        let first = self.iter.next();
         let (end, n) = self.iter.end().unwrap_or((default, width));
         let first_amt = if first.is_some() { width } else { 0 };
         let first = first.unwrap_or(default);
-- 
2.43.0


From 1c16b9c1580324f2bee452dc01f5a807c9af99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:41 +0000
Subject: [PATCH 35/40] fix: advancing a stride_zip saturates instead of
 wrapping around

---
 src/stride_zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index bbadeac..560e816 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -66,7 +66,7 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.iter.advance(2 * amount);
+        self.iter.advance(amount.saturating_mul(2));
     }
 
     #[inline(always)]
-- 
2.43.0


From bcc6033f2e70cacaf37b52d52a92da049838912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:41 +0000
Subject: [PATCH 36/40] fix: finalizing a stride_zip leaves no odd element
 behind

---
 src/stride_zip.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index 560e816..f99e775 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -69,6 +69,12 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
         self.iter.advance(amount.saturating_mul(2));
     }
 
+    #[inline(always)]
+    fn finalize(&mut self) {
+        // An odd element at the end has no position of its own
+        self.iter.finalize();
+    }
+
     #[inline(always)]
     fn default(&self) -> Self::Vectors {
         (T::Vector::default(), T::Vector::default())
-- 
2.43.0


From 45ec91b223cc98f4d52eade4be2db9f3497320e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:32 +0000
Subject: [PATCH 37/40] fix: stride_zip reports the default vector its tail is
 padded from

---
 src/stride_zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index f99e775..b809f55 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -77,7 +77,7 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn default(&self) -> Self::Vectors {
-        (T::Vector::default(), T::Vector::default())
+        (self.iter.default(), self.iter.default())
     }
 }
 
-- 
2.43.0


From 23d4a60df124c0e0ef04a4cc95007a74a2a535ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:08 +0000
Subject: [PATCH 38/40] fix: portable vector load and store check the room left
 after the offset

The inherent load and store of the vectors used without SIMD support only
required the whole slice to hold a vector, so a non-zero offset read or wrote
past its end from safe code.
---
 src/arch/unknown/vecs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/unknown/vecs.rs b/src/arch/unknown/vecs.rs
index e520f28..42ae2ce 100644
--- a/src/arch/unknown/vecs.rs
+++ b/src/arch/unknown/vecs.rs
@@ -85,7 +85,7 @@ macro_rules! impl_packed_type {
 
             #[inline(always)]
             pub fn store(self, slice: &mut [$el], offset: usize) {
-                assert!(slice.len() >= $sz);
+                assert!(slice[offset..].len() >= $sz);
                 unsafe { self.store_unchecked(slice, offset) }
             }
 
@@ -122,7 +122,7 @@ macro_rules! impl_packed_type {
 
             #[inline(always)]
             pub fn load(slice: &[$el], offset: usize) -> $vec {
-                assert!(slice.len() >= $sz);
+                assert!(slice[offset..].len() >= $sz);
                 unsafe { $vec::load_unchecked(slice, offset) }
             }
 
-- 
2.43.0


From 862d10fd8f1d98aeda769f71226e8788ff17e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:28 +0000
Subject: [PATCH 39/40] fix: align the partition mask for every element type it
 is viewed as

---
 scripts/vec_patterns_gen.py      | 8 +++++++-
 src/arch/unknown/vec_patterns.rs | 8 +++++++-
 src/arch/x86/vec_patterns.rs     | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/scripts/vec_patterns_gen.py b/scripts/vec_patterns_gen.py
index 1069844..b404627 100644
--- a/scripts/vec_patterns_gen.py
+++ b/scripts/vec_patterns_gen.py
@@ -33,7 +33,7 @@ use crate::vecs::*;
 
 {newline.join(imports)}
 
-const PART_MASK: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+const MASK_DATA: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
@@ -49,6 +49,12 @@ const PART_MASK: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
                               0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
                               0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF];
+
+// The mask is viewed as elements of any type, so it must be aligned for all of them.
+#[repr(align(64))]
+struct PartMask([u8; 128]);
+
+const PART_MASK: &[u8; 128] = &PartMask(MASK_DATA).0;
 """.lstrip()
 
 def generate_vec_patterns(arch, headers, els, vecs, lens, feats, blends, elsz, masks):
diff --git a/src/arch/unknown/vec_patterns.rs b/src/arch/unknown/vec_patterns.rs
index e1fbb9b..7cb095c 100644
--- a/src/arch/unknown/vec_patterns.rs
+++ b/src/arch/unknown/vec_patterns.rs
@@ -17,7 +17,7 @@ use crate::vecs::*;
 
 
 
-const PART_MASK: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+const MASK_DATA: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
@@ -34,6 +34,12 @@ const PART_MASK: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
                               0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF];
 
+// The mask is viewed as elements of any type, so it must be aligned for all of them.
+#[repr(align(64))]
+struct PartMask([u8; 128]);
+
+const PART_MASK: &[u8; 128] = &PartMask(MASK_DATA).0;
+
 impl Pattern for u8x16 {
     #[inline(always)]
     fn halfs(hi: Self::Scalar, lo: Self::Scalar) -> Self {
diff --git a/src/arch/x86/vec_patterns.rs b/src/arch/x86/vec_patterns.rs
index 86f22a1..75fdf39 100644
--- a/src/arch/x86/vec_patterns.rs
+++ b/src/arch/x86/vec_patterns.rs
@@ -17,7 +17,7 @@ use crate::vecs::*;
 
 use vektor::x86::*;
 
-const PART_MASK: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+const MASK_DATA: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
@@ -34,6 +34,12 @@ const PART_MASK: [u8; 128] = [0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                               0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
                               0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF];
 
+// The mask is viewed as elements of any type, so it must be aligned for all of them.
+#[repr(align(64))]
+struct PartMask([u8; 128]);
+
+const PART_MASK: &[u8; 128] = &PartMask(MASK_DATA).0;
+
 impl Pattern for u8x64 {
     #[inline(always)]
     fn halfs(hi: Self::Scalar, lo: Self::Scalar) -> Self {
-- 
2.43.0


From 1774cb905fd2ed60e2fe64ed4d6f6fc8c96eeae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:28 +0000
Subject: [PATCH 40/40] fix: report the exact remaining length as the size hint
 of ExactSizeIterators

---
 src/iters.rs      | 18 ++++++++++++++++++
 src/stride.rs     |  6 ++++++
 src/stride_zip.rs |  6 ++++++
 src/zip.rs        | 12 ++++++++++++
 4 files changed, 42 insertions(+)

diff --git a/src/iters.rs b/src/iters.rs
index 1988e07..08d9793 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -253,6 +253,12 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
@@ -477,6 +483,12 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<A> SIMDArray for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Scalar : Packable {
@@ -633,6 +645,12 @@ impl<A, B, I, F> Iterator for SIMDMap<I, F>
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(&mut self.func)
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<I, F> ExactSizeIterator for SIMDMap<I, F> where Self : Iterator, I : SIMDIterable {
diff --git a/src/stride.rs b/src/stride.rs
index a1082c8..1f334fd 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -42,6 +42,12 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, A> ExactSizeIterator for PackedStride<'a, A> where A : SIMDArray {
diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index b809f55..9825203 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -93,6 +93,12 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
         let second = self.iter.next()?;
         Some(first.destride_two(second))
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
diff --git a/src/zip.rs b/src/zip.rs
index 7540147..54ede30 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -254,6 +254,12 @@ macro_rules! impl_iter_zip {
                     (v, $(self.iters.$n.next_unchecked(pos)),*)
                 })
             }
+
+            #[inline(always)]
+            fn size_hint(&self) -> (usize, Option<usize>) {
+                let len = self.len();
+                (len, Some(len))
+            }
         }
 
         impl<$($a),*> SIMDZippedObject for Zip<($($a),*)>
@@ -318,6 +324,12 @@ impl<I, F, A> Iterator for SIMDZipMap<I, F>
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(&mut self.func)
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<I, F, A> ExactSizeIterator for SIMDZipMap<I, F>
-- 
2.43.0

