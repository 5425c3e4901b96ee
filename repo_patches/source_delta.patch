From d8c758f0c1d44b8790877de4116d81ca0eab8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:47 +0000
Subject: [PATCH 01/14] fix: XMVectorSetBinaryConstant tests the low bit of
 every argument

The SSE mask was [1, 2, 3, 4], so lanes y, z and w tested other bits; the scalar
version computed 0 - 1 and overflowed in debug builds.
---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1edfda..b5cc253 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2808,10 +2808,10 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
         let mut vResult: XMVECTORU32 = crate::undefined();
-        vResult.u[0] = (0 - (C0 & 1)) & 0x3F800000;
-        vResult.u[1] = (0 - (C1 & 1)) & 0x3F800000;
-        vResult.u[2] = (0 - (C2 & 1)) & 0x3F800000;
-        vResult.u[3] = (0 - (C3 & 1)) & 0x3F800000;
+        vResult.u[0] = 0u32.wrapping_sub(C0 & 1) & 0x3F800000;
+        vResult.u[1] = 0u32.wrapping_sub(C1 & 1) & 0x3F800000;
+        vResult.u[2] = 0u32.wrapping_sub(C2 & 1) & 0x3F800000;
+        vResult.u[3] = 0u32.wrapping_sub(C3 & 1) & 0x3F800000;
         return vResult.v;
     }
 
@@ -2822,7 +2822,7 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 2, 3, 4] };
+        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 1, 1, 1] };
         let mut vTemp = _mm_set_epi32(C3 as i32, C2 as i32, C1 as i32, C0 as i32);
         // Mask off the low bits
         vTemp = _mm_and_si128(vTemp, g_vMask1.m128i());
-- 
2.43.0


From 7b0a9ed07a29fa24722c7abe0ece3822a4ec7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:47 +0000
Subject: [PATCH 02/14] fix: XMConvertVectorIntToFloat without intrinsics

The scale was 1 / (1 >> DivExponent) (infinite for a non-zero exponent) and the
components were converted as unsigned integers.
---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index cb5e66e..6e198cf 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -13,10 +13,10 @@ pub fn XMConvertVectorIntToFloat(VInt: FXMVECTOR, DivExponent: u32) -> XMVECTOR
 
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
-        let fScale = 1.0 / (1 >> DivExponent) as f32;
+        let fScale = 1.0 / (1u32 << DivExponent) as f32;
         let mut Result: XMVECTOR = crate::undefined();
         for ElementIndex in 0..4 {
-            let iTemp = VInt.vector4_u32[ElementIndex];
+            let iTemp = VInt.vector4_u32[ElementIndex] as i32;
             Result.vector4_f32[ElementIndex] = iTemp as f32 * fScale;
         }
         return Result;
-- 
2.43.0


From 85db6131332867cf62c76ab173f87bb5f9f6495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:22 +0000
Subject: [PATCH 03/14] fix: XMVectorRound without intrinsics rounds every
 component

---
 src/vector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 704b728..b08d3f8 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -3152,9 +3152,9 @@ pub fn XMVectorRound(V: FXMVECTOR) -> XMVECTOR {
         let Result = XMVECTORF32 {
             f: [
                 round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
+                round_to_nearest(V.vector4_f32[1]),
+                round_to_nearest(V.vector4_f32[2]),
+                round_to_nearest(V.vector4_f32[3]),
             ]
         };
         return Result.v;
-- 
2.43.0


From 95e733a8e542fcefdab8332deff2d99241e95a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:22 +0000
Subject: [PATCH 04/14] fix: XMVectorInBoundsR without intrinsics reports the
 in-bounds record

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index b08d3f8..b8093fd 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2913,7 +2913,7 @@ pub fn XMVectorInBoundsR(pCR: &mut u32, V: FXMVECTOR, Bounds: FXMVECTOR) -> XMVE
         let mut CR = 0;
         if ubool(ux & uy & uz & uw) {
             // All elements are in bounds
-            CR = XM_CRMASK_CR6TRUE;
+            CR = XM_CRMASK_CR6BOUNDS;
         }
         *pCR = CR;
 
-- 
2.43.0


From 8fb45080a6f98392848e6abb4ffbaaf23b4c6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:21 +0000
Subject: [PATCH 05/14] fix: XMConvertHalfToFloat normalises denormal halves

---
 src/packed_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packed_vector.rs b/src/packed_vector.rs
index 3a62443..8712e1e 100644
--- a/src/packed_vector.rs
+++ b/src/packed_vector.rs
@@ -30,7 +30,7 @@ pub fn XMConvertHalfToFloat(Value: HALF) -> f32 {
             {
                 Exponent = Exponent.wrapping_sub(1);
                 Mantissa <<= 1;
-                if ((Mantissa & 0x0400) == 0) {
+                if ((Mantissa & 0x0400) != 0) {
                     break;
                 }
             }
-- 
2.43.0


From b8d7f865c1a0038d9be5bcded1fef96df007c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:10 +0000
Subject: [PATCH 06/14] fix: XMMatrixDecompose uses the three canonical axes as
 fallback basis

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 4c78e25..9ac9d0c 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1370,8 +1370,8 @@ pub fn XMMatrixDecompose(
         // PERFORMANCE: We're using a static here insteads of const due to the references
         static pvCanonicalBasis: [&XMVECTOR; 3] = unsafe {[
             &g_XMIdentityR0.v,
+            &g_XMIdentityR1.v,
             &g_XMIdentityR2.v,
-            &g_XMIdentityR3.v,
         ]};
 
         // Get the translation
-- 
2.43.0


From 18d449d7bbd40a5db540015b28a17b0ede965f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:14 +0000
Subject: [PATCH 07/14] fix: XMMatrix += and -= update every row

---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9ac9d0c..9d6c763 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -3785,9 +3785,9 @@ impl std::ops::AddAssign for XMMatrix {
     fn add_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorAdd(self.r[0], M.r[0]);
-            self.r[0] = XMVectorAdd(self.r[1], M.r[1]);
-            self.r[0] = XMVectorAdd(self.r[2], M.r[2]);
-            self.r[0] = XMVectorAdd(self.r[3], M.r[3]);
+            self.r[1] = XMVectorAdd(self.r[1], M.r[1]);
+            self.r[2] = XMVectorAdd(self.r[2], M.r[2]);
+            self.r[3] = XMVectorAdd(self.r[3], M.r[3]);
         }
     }
 }
@@ -3812,9 +3812,9 @@ impl std::ops::SubAssign for XMMatrix {
     fn sub_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorSubtract(self.r[0], M.r[0]);
-            self.r[0] = XMVectorSubtract(self.r[1], M.r[1]);
-            self.r[0] = XMVectorSubtract(self.r[2], M.r[2]);
-            self.r[0] = XMVectorSubtract(self.r[3], M.r[3]);
+            self.r[1] = XMVectorSubtract(self.r[1], M.r[1]);
+            self.r[2] = XMVectorSubtract(self.r[2], M.r[2]);
+            self.r[3] = XMVectorSubtract(self.r[3], M.r[3]);
         }
     }
 }
-- 
2.43.0


From 6f0f3b04bde70bd8cfdb4a55d406121d0d2b0db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:02 +0000
Subject: [PATCH 08/14] fix: XMPlaneNormalize does not execute SSE4.1
 instructions in SSE2 builds

---
 src/misc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/misc.rs b/src/misc.rs
index e3c685d..e29d2f4 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -2027,7 +2027,13 @@ pub fn XMPlaneNormalize(
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let mut vLengthSq: XMVECTOR = _mm_dp_ps(P, P, 0x7f);
+        // Perform the dot product on x,y and z only
+        let mut vLengthSq: XMVECTOR = _mm_mul_ps(P, P);
+        let mut vTemp: XMVECTOR = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(2, 1, 2, 1));
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        vTemp = XM_PERMUTE_PS!(vTemp, _MM_SHUFFLE(1, 1, 1, 1));
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        vLengthSq = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(0, 0, 0, 0));
         // Prepare for the division
         let mut vResult: XMVECTOR = _mm_sqrt_ps(vLengthSq);
         // Failsafe on zero (Or epsilon) length planes
-- 
2.43.0


From fab51dfcb292a9f04666b7a5d1ad2ae7b721a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:04 +0000
Subject: [PATCH 09/14] fix: XMVectorSwizzle does not read out of bounds
 without debug assertions

---
 src/vector.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index b8093fd..6ec2252 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1574,16 +1574,16 @@ pub fn XMVectorSwizzle(
 
     #[cfg(all(not(_XM_AVX_INTRINSICS_), _XM_SSE_INTRINSICS_))]
     unsafe {
-        let aPtr = mem::transmute::<_, *const u32>(&V);
+        let aPtr = mem::transmute::<_, &[u32; 4]>(&V);
 
         let mut Result: XMVECTOR = crate::undefined();
 
         let pWork = mem::transmute::<_, *mut u32>(&mut Result);
 
-        idx!(mut pWork[0]) = idx!(aPtr[E0]);
-        idx!(mut pWork[1]) = idx!(aPtr[E1]);
-        idx!(mut pWork[2]) = idx!(aPtr[E2]);
-        idx!(mut pWork[3]) = idx!(aPtr[E3]);
+        idx!(mut pWork[0]) = aPtr[E0 as usize];
+        idx!(mut pWork[1]) = aPtr[E1 as usize];
+        idx!(mut pWork[2]) = aPtr[E2 as usize];
+        idx!(mut pWork[3]) = aPtr[E3 as usize];
 
         return Result;
     }
-- 
2.43.0


From edbaf84d5627363877ea3560a7fe605898fcb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:51 +0000
Subject: [PATCH 10/14] fix: BoundingOrientedBox::CreateFromPoints measures
 every point in the box frame

---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index a7f8cfc..1c378b7 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -3273,10 +3273,10 @@ impl BoundingOrientedBox {
         //for (let i: size_t = 1; i < Count; ++i)
         for (i, point) in pPoints.enumerate()
         {
-            let Point: XMVECTOR = XMLoadFloat3(point);
+            let Point: XMVECTOR = XMVector3TransformNormal(XMLoadFloat3(point), InverseR);
 
             if i == 0 {
-                vMin = XMVector3TransformNormal(Point, InverseR);
+                vMin = Point;
                 vMax = vMin;
             } else {
                 vMin = XMVectorMin(vMin, Point);
-- 
2.43.0


From ccedf61555d20bc636a55e060d72b5bf57f608d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:39 +0000
Subject: [PATCH 11/14] fix: triangle-triangle intersection zeroes the
 distances of A by its own small distances, not those of B

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index 1c378b7..6696b6d 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5271,7 +5271,7 @@ pub mod triangle_tests {
 
         // Ensure robustness with co-planar triangles by zeroing small distances.
         let mut ADistIsZeroCR: u32 = unsafe { undefined() };
-        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(BDist));
+        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(ADist));
         ADist = XMVectorSelect(ADist, Zero, ADistIsZero);
 
         let mut ADistIsLessCR: u32 = unsafe { undefined() };
-- 
2.43.0


From 43ff78f9d6ac531ba0a303ac15cf2361ba333082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 12/14] fix: coplanar triangle intersection tests along the
 outward edge axes

---
 src/collision.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 6696b6d..98830bc 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5293,7 +5293,7 @@ pub mod triangle_tests {
             let mut MinDist: XMVECTOR;
 
             // Compute an axis perpindicular to the edge (points out).
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A1, A0));
+            Axis = XMVector3Cross(XMVectorSubtract(A1, A0), N1);
             Dist = XMVector3Dot(Axis, A0);
 
             // Test points of B against the axis.
@@ -5305,7 +5305,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A1, A2)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A2, A1));
+            Axis = XMVector3Cross(XMVectorSubtract(A2, A1), N1);
             Dist = XMVector3Dot(Axis, A1);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5316,7 +5316,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A2, A0)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A0, A2));
+            Axis = XMVector3Cross(XMVectorSubtract(A0, A2), N1);
             Dist = XMVector3Dot(Axis, A2);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5327,7 +5327,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B0, B1)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B1, B0));
+            Axis = XMVector3Cross(XMVectorSubtract(B1, B0), N2);
             Dist = XMVector3Dot(Axis, B0);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5338,7 +5338,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B1, B2)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B2, B1));
+            Axis = XMVector3Cross(XMVectorSubtract(B2, B1), N2);
             Dist = XMVector3Dot(Axis, B1);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5349,7 +5349,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B2,B0)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B0, B2));
+            Axis = XMVector3Cross(XMVectorSubtract(B0, B2), N2);
             Dist = XMVector3Dot(Axis, B2);
 
             MinDist = XMVector3Dot(A0, Axis);
-- 
2.43.0


From 52e36a033cae5dfd5b18dc39258cd3a38a3e6b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:55 +0000
Subject: [PATCH 13/14] fix: BoundingFrustum::IntersectsTriangle tests the
 triangle in the frustum's space throughout

---
 src/collision.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 98830bc..839fc05 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -4434,8 +4434,8 @@ impl BoundingFrustum {
        Corners[7] = XMVectorMultiply(vLeftBottom, vFar);
 
        // Test the plane of the triangle.
-       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(V1, V0), XMVectorSubtract(V2, V0));
-       let Dist: XMVECTOR = XMVector3Dot(Normal, V0);
+       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(TV1, TV0), XMVectorSubtract(TV2, TV0));
+       let Dist: XMVECTOR = XMVector3Dot(Normal, TV0);
 
        let mut MinDist: XMVECTOR;
        let mut MaxDist: XMVECTOR;
@@ -4457,9 +4457,9 @@ impl BoundingFrustum {
 
        // Check the edge/edge axes (3*6).
        let mut TriangleEdgeAxis: [XMVECTOR; 3] = unsafe { undefined() };
-       TriangleEdgeAxis[0] = XMVectorSubtract(V1, V0);
-       TriangleEdgeAxis[1] = XMVectorSubtract(V2, V1);
-       TriangleEdgeAxis[2] = XMVectorSubtract(V0, V2);
+       TriangleEdgeAxis[0] = XMVectorSubtract(TV1, TV0);
+       TriangleEdgeAxis[1] = XMVectorSubtract(TV2, TV1);
+       TriangleEdgeAxis[2] = XMVectorSubtract(TV0, TV2);
 
        let mut FrustumEdgeAxis: [XMVECTOR; 6] = unsafe { undefined() };
        FrustumEdgeAxis[0] = vRightTop;
@@ -4480,9 +4480,9 @@ impl BoundingFrustum {
                let mut MinA: XMVECTOR;
                let mut MaxA: XMVECTOR;
 
-               let Dist0: XMVECTOR = XMVector3Dot(V0, Axis);
-               let Dist1: XMVECTOR = XMVector3Dot(V1, Axis);
-               let Dist2: XMVECTOR = XMVector3Dot(V2, Axis);
+               let Dist0: XMVECTOR = XMVector3Dot(TV0, Axis);
+               let Dist1: XMVECTOR = XMVector3Dot(TV1, Axis);
+               let Dist2: XMVECTOR = XMVector3Dot(TV2, Axis);
 
                MinA = XMVectorMin(Dist0, Dist1);
                MinA = XMVectorMin(MinA, Dist2);
-- 
2.43.0


From 8503b0ed924ea789462f70bd015a1efd2c0d70cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:02 +0000
Subject: [PATCH 14/14] fix: XMVector{2,3,4}Normalize without intrinsics return
 QNaN for a vector of infinite length

The documentation (and every intrinsics build) promises a vector of QNaN; the scalar
bodies multiplied by 1/inf and returned zeros in the finite components.
---
 src/vector.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 6ec2252..a8869d4 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -8197,6 +8197,12 @@ pub fn XMVector2Normalize(
         let mut vResult: XMVECTOR = XMVector2Length(V);
         let mut fLength: f32 = vResult.vector4_f32[0];
 
+        // A vector of infinite length has no direction
+        if (fLength == std::f32::INFINITY)
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
@@ -10180,6 +10186,12 @@ pub fn XMVector3Normalize(
         vResult = XMVector3Length(V);
         fLength = vResult.vector4_f32[0];
 
+        // A vector of infinite length has no direction
+        if (fLength == std::f32::INFINITY)
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
@@ -12321,6 +12333,12 @@ pub fn XMVector4Normalize(
         vResult = XMVector4Length(V);
         fLength = vResult.vector4_f32[0];
 
+        // A vector of infinite length has no direction
+        if (fLength == std::f32::INFINITY)
+        {
+            return g_XMQNaN.v;
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
-- 
2.43.0

