From 7b3daf5d725f3ad1d29324faa2a9baeb21b40d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 01/33] fix: negating a field element by reference must not
 recurse forever

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index f183321..d308d73 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -128,7 +128,7 @@ macro_rules! group_operation {
             type Output = $field;
 
             fn neg(self) -> $field {
-                -self
+                $field(neg(self.0, $p))
             }
         }
 
-- 
2.43.0


From 2b9642660cf605d9ce88956fd63c8e5d415679ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 02/33] fix: the additive identity of a prime field is zero

---
 zkstd/src/macros/field/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zkstd/src/macros/field/group.rs b/zkstd/src/macros/field/group.rs
index d308d73..d29a180 100644
--- a/zkstd/src/macros/field/group.rs
+++ b/zkstd/src/macros/field/group.rs
@@ -4,7 +4,7 @@ macro_rules! group_operation {
     ($field:ident, $p:ident, $g:ident, $r:ident, $r2:ident, $r3:ident, $inv:ident) => {
         impl Group for $field {
             const ADDITIVE_GENERATOR: Self = $field($g);
-            const ADDITIVE_IDENTITY: Self = $field($r);
+            const ADDITIVE_IDENTITY: Self = $field(zero());
 
             fn invert(self) -> Option<Self> {
                 match invert(self.0, little_fermat($p), $r, $p, $inv) {
-- 
2.43.0


From a19fdf9afec7dbb0cdc0e886c5bfb28e2d55af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 03/33] fix: by-reference add, sub and mul of extension fields
 compute the operation they name

---
 zkstd/src/macros/extension_field/group.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zkstd/src/macros/extension_field/group.rs b/zkstd/src/macros/extension_field/group.rs
index 41d2aaf..2187dd5 100644
--- a/zkstd/src/macros/extension_field/group.rs
+++ b/zkstd/src/macros/extension_field/group.rs
@@ -82,7 +82,7 @@ macro_rules! ext_field_group_operation {
 
         impl<'b> AddAssign<&'b $extension_field> for $extension_field {
             fn add_assign(&mut self, rhs: &'b $extension_field) {
-                *self = *self + rhs;
+                *self = *self + *rhs;
             }
         }
 
@@ -90,7 +90,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn add(self, rhs: &'b $extension_field) -> Self {
-                self + rhs
+                self + *rhs
             }
         }
 
@@ -136,7 +136,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                *self * *rhs
+                *self - *rhs
             }
         }
 
@@ -144,7 +144,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: &'b $extension_field) -> $extension_field {
-                self * *rhs
+                self - *rhs
             }
         }
 
@@ -152,7 +152,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn sub(self, rhs: $extension_field) -> $extension_field {
-                *self * rhs
+                *self - rhs
             }
         }
 
@@ -181,7 +181,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                *self + *rhs
+                *self * *rhs
             }
         }
 
@@ -189,7 +189,7 @@ macro_rules! ext_field_group_operation {
             type Output = $extension_field;
 
             fn mul(self, rhs: &'b $extension_field) -> $extension_field {
-                self + *rhs
+                self * *rhs
             }
         }
 
-- 
2.43.0


From 62bf68fb2f657310e30f777e16cf73558d650d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 04/33] fix: by-reference subtraction of a projective from an
 affine point subtracts

---
 zkstd/src/macros/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkstd/src/macros/curve.rs b/zkstd/src/macros/curve.rs
index 236bad1..a0224f1 100644
--- a/zkstd/src/macros/curve.rs
+++ b/zkstd/src/macros/curve.rs
@@ -159,7 +159,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                *self + *rhs
+                *self - *rhs
             }
         }
 
@@ -167,7 +167,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: &'b $extended) -> $extended {
-                &self + rhs
+                &self - rhs
             }
         }
 
@@ -175,7 +175,7 @@ macro_rules! mixed_curve_operations {
             type Output = $extended;
 
             fn sub(self, rhs: $extended) -> $extended {
-                self + &rhs
+                self - &rhs
             }
         }
 
-- 
2.43.0


From 399ee7ba93df2c6becb2901db101485ecc1dd68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 05/33] fix: doubling the affine identity gives the identity

---
 zkstd/src/arithmetic/points/weierstrass.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zkstd/src/arithmetic/points/weierstrass.rs b/zkstd/src/arithmetic/points/weierstrass.rs
index 356f6d6..73a07c3 100644
--- a/zkstd/src/arithmetic/points/weierstrass.rs
+++ b/zkstd/src/arithmetic/points/weierstrass.rs
@@ -37,6 +37,10 @@ pub fn add_affine_point<A: BNAffine>(lhs: A, rhs: A) -> A::Extended {
 /// weierstrass affine coordinate doubling
 #[inline(always)]
 pub fn double_affine_point<A: BNAffine>(point: A) -> A::Extended {
+    if point.is_identity() {
+        return A::Extended::ADDITIVE_IDENTITY;
+    }
+
     // Algorithm 9, https://eprint.iacr.org/2015/1060.pdf
     let b3 = <A as BNCurve>::PARAM_3B;
     let (x, y) = (point.get_x(), point.get_y());
-- 
2.43.0


From 937e88d00ac19499eebb95773bd81d6dec7d828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 06/33] fix: is_torsion_free accepts exactly the points of the
 prime-order subgroup

---
 bn254/src/g1.rs | 49 +++--------------------------------
 bn254/src/g2.rs | 69 ++-----------------------------------------------
 2 files changed, 5 insertions(+), 113 deletions(-)

diff --git a/bn254/src/g1.rs b/bn254/src/g1.rs
index 3974d1d..22765ab 100644
--- a/bn254/src/g1.rs
+++ b/bn254/src/g1.rs
@@ -1,4 +1,4 @@
-use crate::params::{BN_X, BN_X_IS_NEGATIVE, G1_GENERATOR_X, G1_GENERATOR_Y, G1_PARAM_B, PARAM_B3};
+use crate::params::{G1_GENERATOR_X, G1_GENERATOR_Y, G1_PARAM_B, PARAM_B3};
 use crate::{Fq, Fr};
 use core::borrow::Borrow;
 use core::iter::Sum;
@@ -6,13 +6,6 @@ use zkstd::arithmetic::weierstrass::*;
 use zkstd::common::*;
 use zkstd::macros::curve::weierstrass::*;
 
-pub const BETA: Fq = Fq([
-    0x30f1361b798a64e8,
-    0xf3b8ddab7ece5a2a,
-    0x16a8ca3ac61577f7,
-    0xc26a2ff874fd029b,
-]);
-
 /// The projective form of coordinate
 #[derive(Debug, Clone, Copy, Decode, Encode)]
 pub struct G1Affine {
@@ -21,15 +14,6 @@ pub struct G1Affine {
     is_infinity: bool,
 }
 
-fn endomorphism(p: &G1Affine) -> G1Affine {
-    // Endomorphism of the points on the curve.
-    // endomorphism_p(x,y) = (BETA * x, y)
-    // where BETA is a non-trivial cubic root of unity in Fq.
-    let mut res = *p;
-    res.x *= BETA;
-    res
-}
-
 impl G1Affine {
     pub const RAW_SIZE: usize = 97;
 
@@ -59,14 +43,8 @@ impl G1Affine {
     }
 
     pub fn is_torsion_free(&self) -> bool {
-        // Algorithm from Section 6 of https://eprint.iacr.org/2021/1130
-        // Updated proof of correctness in https://eprint.iacr.org/2022/352
-        //
-        // Check that endomorphism_p(P) == -[x^2] P
-
-        let minus_x_squared_times_p = G1Projective::from(*self).mul_by_x().mul_by_x().neg();
-        let endomorphism_p = endomorphism(self);
-        minus_x_squared_times_p == G1Projective::from(endomorphism_p)
+        // multiplying by the group order, written as (r - 1) + 1, gives the identity
+        (G1Projective::from(*self) * -Fr::one() + *self).is_identity()
     }
 }
 
@@ -123,27 +101,6 @@ pub struct G1Projective {
 }
 
 impl G1Projective {
-    /// Multiply `self` by `crate::BN_X`, using double and add.
-    fn mul_by_x(&self) -> G1Projective {
-        let mut xself = G1Projective::ADDITIVE_IDENTITY;
-        // NOTE: in BN254 we can just skip the first bit.
-        let mut x = BN_X >> 1;
-        let mut tmp = *self;
-        while x != 0 {
-            tmp = tmp.double();
-
-            if x % 2 == 1 {
-                xself += tmp;
-            }
-            x >>= 1;
-        }
-        // finally, flip the sign
-        if BN_X_IS_NEGATIVE {
-            xself = -xself;
-        }
-        xself
-    }
-
     /// Converts a batch of `G1Projective` elements into `G1Affine` elements. This
     /// function will panic if `p.len() != q.len()`.
     pub fn batch_normalize(p: &[Self], q: &mut [G1Affine]) {
diff --git a/bn254/src/g2.rs b/bn254/src/g2.rs
index fb7c64f..b8ede34 100644
--- a/bn254/src/g2.rs
+++ b/bn254/src/g2.rs
@@ -1,4 +1,3 @@
-use crate::fq::Fq;
 use crate::fqn::Fq2;
 use crate::fr::Fr;
 use crate::pairing::{SIX_U_PLUS_2_NAF, XI_TO_Q_MINUS_1_OVER_2};
@@ -24,12 +23,8 @@ impl G2Affine {
     /// exists within the $q$-order subgroup $\mathbb{G}_2$. This should always return true
     /// unless an "unchecked" API was used.
     pub fn is_torsion_free(&self) -> bool {
-        // Algorithm from Section 4 of https://eprint.iacr.org/2021/1130
-        // Updated proof of correctness in https://eprint.iacr.org/2022/352
-        //
-        // Check that psi(P) == [x] P
-        let p = G2Projective::from(*self);
-        p.psi() == p.mul_by_x()
+        // multiplying by the group order, written as (r - 1) + 1, gives the identity
+        (G2Projective::from(*self) * -Fr::one() + *self).is_identity()
     }
 }
 
@@ -85,66 +80,6 @@ pub struct G2Projective {
     pub(crate) z: Fq2,
 }
 
-impl G2Projective {
-    /// Multiply `self` by `crate::BN_X`, using double and add.
-    fn mul_by_x(&self) -> G2Projective {
-        let mut xself = G2Projective::ADDITIVE_IDENTITY;
-        // NOTE: in BLS12-381 we can just skip the first bit.
-        // TODO: need to test conversion to bytes and back
-        let mut x = BN_X >> 1;
-        let mut acc = *self;
-        while x != 0 {
-            acc = acc.double();
-            if x % 2 == 1 {
-                xself += acc;
-            }
-            x >>= 1;
-        }
-        // finally, flip the sign
-        if BN_X_IS_NEGATIVE {
-            xself = -xself;
-        }
-        xself
-    }
-
-    fn psi(&self) -> G2Projective {
-        // 1 / ((u+1) ^ ((q-1)/3))
-        let psi_coeff_x = Fq2([
-            Fq::zero(),
-            Fq([
-                0x890dc9e4867545c3,
-                0x2af322533285a5d5,
-                0x50880866309b7e2c,
-                0xa20d1b8c7e881024,
-            ]),
-        ]);
-        // 1 / ((u+1) ^ (p-1)/2)
-        let psi_coeff_y = Fq2([
-            Fq([
-                0x3e2f585da55c9ad1,
-                0x4294213d86c18183,
-                0x382844c88b623732,
-                0x92ad2afd19103e18,
-            ]),
-            Fq([
-                0x7bcfa7a25aa30fda,
-                0xdc17dec12a927e7c,
-                0x2f088dd86b4ebef1,
-                0xd1ca2087da74d4a7,
-            ]),
-        ]);
-
-        G2Projective {
-            // x = frobenius(x)/((u+1)^((p-1)/3))
-            x: self.x.frobenius_map() * psi_coeff_x,
-            // y = frobenius(y)/(u+1)^((p-1)/2)
-            y: self.y.frobenius_map() * psi_coeff_y,
-            // z = frobenius(z)
-            z: self.z.frobenius_map(),
-        }
-    }
-}
-
 impl Add for G2Projective {
     type Output = Self;
 
-- 
2.43.0


From ec8d4cbf0c7f2d367fb162648c4a68f67c942c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 07/33] fix: ff inversion of zero reports none

---
 bn254/src/ff_compat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index aad5d99..f0ecc8e 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -64,7 +64,7 @@ mod fr {
         }
 
         fn invert(&self) -> CtOption<Self> {
-            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
+            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or(Self::zero());
             CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
         }
 
@@ -231,7 +231,7 @@ mod fq {
         }
 
         fn invert(&self) -> CtOption<Self> {
-            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or_default();
+            let tmp = <Self as zkstd::common::Group>::invert(*self).unwrap_or(Self::zero());
             CtOption::new(tmp, !tmp.ct_eq(&Self::zero()))
         }
 
-- 
2.43.0


From 93f2785ec68fcecabe0f613bb9044a107edab1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 08/33] fix: ff square root terminates

---
 bn254/src/ff_compat.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index f0ecc8e..cdf200f 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -71,6 +71,11 @@ mod fr {
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
             ff::helpers::sqrt_ratio_generic(num, div)
         }
+
+        fn sqrt(&self) -> CtOption<Self> {
+            let tmp = Fr::sqrt(self);
+            CtOption::new(tmp.unwrap_or(Self::zero()), Choice::from(tmp.is_some() as u8))
+        }
     }
 
     impl ff::PrimeField for Fr {
@@ -238,6 +243,11 @@ mod fq {
         fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
             ff::helpers::sqrt_ratio_generic(num, div)
         }
+
+        fn sqrt(&self) -> CtOption<Self> {
+            let tmp = Fq::sqrt(self);
+            CtOption::new(tmp.unwrap_or(Self::zero()), Choice::from(tmp.is_some() as u8))
+        }
     }
 
     impl ff::PrimeField for Fq {
-- 
2.43.0


From 6b72d95d40f13d400466105572d50fa4d8459963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 09/33] fix: ff from_repr accepts canonical encodings only

---
 bn254/src/ff_compat.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bn254/src/ff_compat.rs b/bn254/src/ff_compat.rs
index cdf200f..b4063fa 100644
--- a/bn254/src/ff_compat.rs
+++ b/bn254/src/ff_compat.rs
@@ -89,9 +89,12 @@ mod fr {
             tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
             tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
 
+            // only integers below the modulus are canonical
+            let is_canonical = tmp.0.iter().rev().lt(MODULUS.iter().rev());
+
             tmp = Fr(to_mont_form(tmp.0, R2, MODULUS, INV));
 
-            CtOption::new(tmp, Choice::from(1))
+            CtOption::new(tmp, Choice::from(is_canonical as u8))
         }
 
         fn to_repr(&self) -> Self::Repr {
@@ -261,9 +264,12 @@ mod fq {
             tmp.0[2] = u64::from_le_bytes(repr[16..24].try_into().unwrap());
             tmp.0[3] = u64::from_le_bytes(repr[24..32].try_into().unwrap());
 
+            // only integers below the modulus are canonical
+            let is_canonical = tmp.0.iter().rev().lt(MODULUS.iter().rev());
+
             tmp = Fq(to_mont_form(tmp.0, R2, MODULUS, INV));
 
-            CtOption::new(tmp, Choice::from(1))
+            CtOption::new(tmp, Choice::from(is_canonical as u8))
         }
 
         fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 1c2910766b40fac93c0563612824c70a4a68ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:39 +0000
Subject: [PATCH 10/33] fix: twisted Edwards is_on_curve accepted every point
 with x = 0 and every z = 0

---
 zkstd/src/macros/curve/edwards/group.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/zkstd/src/macros/curve/edwards/group.rs b/zkstd/src/macros/curve/edwards/group.rs
index 8948ae1..df3ff3b 100644
--- a/zkstd/src/macros/curve/edwards/group.rs
+++ b/zkstd/src/macros/curve/edwards/group.rs
@@ -43,13 +43,9 @@ macro_rules! twisted_edwards_affine_group_operation {
             }
 
             fn is_on_curve(self) -> bool {
-                if self.x.is_zero() {
-                    true
-                } else {
-                    let xx = self.x.square();
-                    let yy = self.y.square();
-                    yy == $range::one() + Self::PARAM_D * xx * yy + xx
-                }
+                let xx = self.x.square();
+                let yy = self.y.square();
+                yy == $range::one() + Self::PARAM_D * xx * yy + xx
             }
 
             fn get_x(&self) -> Self::Base {
@@ -129,7 +125,7 @@ macro_rules! twisted_edwards_extend_group_operation {
 
             fn is_on_curve(self) -> bool {
                 if self.z.is_zero() {
-                    true
+                    false
                 } else {
                     let affine = $affine::from(self);
                     affine.is_on_curve()
-- 
2.43.0


From e2b9cbd1614f092fc740f4b786da8f1529195701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:01 +0000
Subject: [PATCH 11/33] fix: squaring dropped a carry between limbs when
 accumulating cross products

---
 zkstd/src/arithmetic/limbs/bits_256/normal.rs |  4 +++-
 zkstd/src/arithmetic/limbs/bits_384/normal.rs | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/zkstd/src/arithmetic/limbs/bits_256/normal.rs b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
index cdfafad..f5dd3ae 100644
--- a/zkstd/src/arithmetic/limbs/bits_256/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_256/normal.rs
@@ -136,7 +136,9 @@ pub const fn square(a: [u64; 4], p: [u64; 4], inv: u64) -> [u64; 4] {
     let (l3, c) = (s as u64, (s >> 64) as u64);
     let s = l4 as u128 + c as u128;
     let (l4, c) = (s as u64, (s >> 64) as u64);
-    let l5 = l5.wrapping_add(c);
+    let s = l5 as u128 + c as u128;
+    let (l5, c) = (s as u64, (s >> 64) as u64);
+    let l6 = l6.wrapping_add(c);
 
     let l7 = l6 >> 63;
     let l6 = (l6 << 1) | (l5 >> 63);
diff --git a/zkstd/src/arithmetic/limbs/bits_384/normal.rs b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
index 61801ae..1b9b70b 100644
--- a/zkstd/src/arithmetic/limbs/bits_384/normal.rs
+++ b/zkstd/src/arithmetic/limbs/bits_384/normal.rs
@@ -225,13 +225,21 @@ pub const fn square(a: [u64; 6], p: [u64; 6], inv: u64) -> [u64; 6] {
     let (l7, c) = (s as u64, (s >> 64) as u64);
     let s = l8 as u128 + c as u128;
     let (l8, c) = (s as u64, (s >> 64) as u64);
-    let l9 = l9.wrapping_add(c);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let s = a[2] as u128 * a[3] as u128 + l5 as u128;
     let (l5, c) = (s as u64, (s >> 64) as u64);
     let s = l6 as u128 + c as u128;
     let (l6, c) = (s as u64, (s >> 64) as u64);
-    let l7 = l7.wrapping_add(c);
+    let s = l7 as u128 + c as u128;
+    let (l7, c) = (s as u64, (s >> 64) as u64);
+    let s = l8 as u128 + c as u128;
+    let (l8, c) = (s as u64, (s >> 64) as u64);
+    let s = l9 as u128 + c as u128;
+    let (l9, c) = (s as u64, (s >> 64) as u64);
+    let l10 = l10.wrapping_add(c);
 
     let l11 = l10 >> 63;
     let l10 = (l10 << 1) | (l9 >> 63);
-- 
2.43.0


From f39581218edc6cb6c5768a4b1a0173452c9d1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 12/33] fix: boolean gadgets left their output wires
 unconstrained

---
 zkstd/src/circuit/gadget/binary.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index bcb86a8..dc758c2 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -1,6 +1,7 @@
 use crate::circuit::prelude::FieldAssignment;
 use crate::circuit::CircuitDriver;
 use crate::common::{IntGroup, Ring};
+use crate::matrix::SparseRow;
 use crate::r1cs::{R1cs, Wire};
 
 #[derive(Clone, Debug)]
@@ -32,6 +33,11 @@ impl BinaryAssignment {
         let wire = cs.private_wire();
         cs.w.push(C::Scalar::from(bit as u64));
 
+        // b * (b - 1) = 0
+        let b = SparseRow::from(wire);
+        let b_minus_one = &b - &SparseRow::one();
+        cs.mul_gate(&b, &b_minus_one, &SparseRow::from(C::Scalar::zero()));
+
         Self(wire)
     }
 
@@ -45,6 +51,12 @@ impl BinaryAssignment {
         };
 
         cs.w.push(new_val);
+        // 1 - b = wire
+        cs.sub_gate(
+            &SparseRow::one(),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
 
         Self(wire)
     }
@@ -60,6 +72,12 @@ impl BinaryAssignment {
         };
 
         cs.w.push(a_and_b);
+        // a * b = wire
+        cs.mul_gate(
+            &SparseRow::from(a.0),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
 
         Self(wire)
     }
-- 
2.43.0


From a46a62d2881b9379fa37e805d8f0fba4e0aea3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 13/33] fix: inputize did not tie the public wire to the value
 it exposes

---
 zkstd/src/circuit/gadget/field.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 131d9db..3a2afb9 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -29,6 +29,7 @@ impl<F: PrimeField> FieldAssignment<F> {
         let wire = cs.public_wire();
         let value = witness.inner().evaluate(&cs.x, &cs.w);
         cs.x.push(value);
+        cs.equal_gate(&witness.0, &SparseRow::from(wire));
 
         Self(SparseRow::from(wire))
     }
-- 
2.43.0


From 4fd78673e82e6023c1d212e8764c4e075a3d6eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 14/33] fix: range check against zero indexed an empty bit list

---
 zkstd/src/circuit/gadget/field.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 3a2afb9..32acea4 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -109,6 +109,11 @@ impl<F: PrimeField> FieldAssignment<F> {
             .skip(a_bits.len() - c_bits.len())
             .collect::<Vec<_>>();
 
+        // The bound is zero and so is every bit
+        if a_bits.is_empty() {
+            return;
+        }
+
         let mut p = vec![FieldAssignment::from(a_bits[0])];
         let t = c_bits
             .iter()
-- 
2.43.0


From 6d02c81c64db246fa240771725c3193b305155b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 15/33] fix: bit decomposition did not recompose to the
 decomposed value

---
 zkstd/src/circuit/gadget/field.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 32acea4..ba2d90e 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -169,19 +169,19 @@ impl<F: PrimeField> FieldAssignment<F> {
         assert!(num_bits <= 256);
         let bound = F::MODULUS - F::one();
 
-        let bit_repr: Vec<BinaryAssignment> = x
+        let mut bit_repr: Vec<BinaryAssignment> = x
             .inner()
             .evaluate(&cs.x, &cs.w)
             .to_bits()
             .iter()
             .map(|b| BinaryAssignment::witness(cs, *b))
-            .skip(256 - num_bits) // TODO: Decide on how to store bits. LE or BE
             .collect();
-        if num_bits < C::NUM_BITS as usize {
-            FieldAssignment::range_check_bits(cs, &bit_repr, num_bits as u64);
-        } else {
-            FieldAssignment::range_check(cs, &bit_repr, bound);
-        }
+        // The whole decomposition is the canonical one and recomposes to x
+        FieldAssignment::range_check(cs, &bit_repr, bound);
+        FieldAssignment::enforce_eq_bits(cs, x, &bit_repr);
+
+        // TODO: Decide on how to store bits. LE or BE
+        bit_repr.drain(..256 - num_bits);
 
         bit_repr
     }
-- 
2.43.0


From 254dd8367756907b33490390d650f6596753aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:58 +0000
Subject: [PATCH 16/33] fix: normalising an in-circuit point left its scale
 unconstrained

---
 zkstd/src/circuit/gadget/curve.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zkstd/src/circuit/gadget/curve.rs b/zkstd/src/circuit/gadget/curve.rs
index d6d61a4..25fe953 100644
--- a/zkstd/src/circuit/gadget/curve.rs
+++ b/zkstd/src/circuit/gadget/curve.rs
@@ -3,6 +3,7 @@ use super::field::FieldAssignment;
 
 use crate::circuit::CircuitDriver;
 use crate::common::{BNAffine, BNProjective, PrimeField};
+use crate::matrix::SparseRow;
 use crate::r1cs::R1cs;
 
 #[derive(Clone)]
@@ -35,6 +36,12 @@ impl<F: PrimeField> PointAssignment<F> {
         let take_value =
             FieldAssignment::is_neq(cs, &self.z, &FieldAssignment::constant(&F::zero()));
         let inv = FieldAssignment::witness(cs, self.z.value(cs).invert().unwrap_or_else(F::zero));
+        // The scale is tied to z wherever it is used
+        cs.mul_gate(
+            self.z.inner(),
+            inv.inner(),
+            &SparseRow::from(take_value.inner()),
+        );
 
         let p = Self {
             x: FieldAssignment::mul(cs, &self.x, &inv),
-- 
2.43.0


From 51c583f533a8985b9b00f5c31172971ff5be02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:05 +0000
Subject: [PATCH 17/33] verif: groth16 hooks for the harness (guarded by cfg
 kogarashi_verif)

---
 groth16/src/lib.rs   |  2 ++
 groth16/src/verif.rs | 53 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+)
 create mode 100644 groth16/src/verif.rs

diff --git a/groth16/src/lib.rs b/groth16/src/lib.rs
index 897fbc4..d8ef390 100644
--- a/groth16/src/lib.rs
+++ b/groth16/src/lib.rs
@@ -8,6 +8,8 @@ mod params;
 mod poly;
 mod proof;
 mod prover;
+#[cfg(kogarashi_verif)]
+pub mod verif;
 mod verifier;
 mod zksnark;
 
diff --git a/groth16/src/verif.rs b/groth16/src/verif.rs
new file mode 100644
index 0000000..8659cb1
--- /dev/null
+++ b/groth16/src/verif.rs
@@ -0,0 +1,53 @@
+//! Access for the verification harness to what the crate keeps private. Compiled only with `--cfg kogarashi_verif`.
+use crate::fft::Fft;
+use crate::proof::Proof;
+
+use bn_254::{G1Affine, G2Affine};
+use zkstd::common::FftField;
+
+pub use crate::msm::msm_curve_addition;
+pub use crate::poly::{Coefficients, PointsValue};
+
+pub struct Domain<F: FftField>(Fft<F>);
+
+impl<F: FftField> Domain<F> {
+    pub fn new(k: usize) -> Self {
+        Self(Fft::new(k))
+    }
+
+    pub fn dft(&self, coeffs: Coefficients<F>) -> PointsValue<F> {
+        self.0.dft(coeffs)
+    }
+
+    pub fn idft(&self, points: PointsValue<F>) -> Coefficients<F> {
+        self.0.idft(points)
+    }
+
+    pub fn coset_dft(&self, coeffs: Coefficients<F>) -> PointsValue<F> {
+        self.0.coset_dft(coeffs)
+    }
+
+    pub fn coset_idft(&self, points: PointsValue<F>) -> Coefficients<F> {
+        self.0.coset_idft(points)
+    }
+
+    pub fn z(&self, tau: &F) -> F {
+        self.0.z(tau)
+    }
+
+    pub fn z_on_coset(&self) -> F {
+        self.0.z_on_coset()
+    }
+
+    pub fn divide_by_z_on_coset(&self, points: PointsValue<F>) -> PointsValue<F> {
+        self.0.divide_by_z_on_coset(points)
+    }
+}
+
+pub fn proof_from_parts(a: G1Affine, b: G2Affine, c: G1Affine) -> Proof {
+    Proof { a, b, c }
+}
+
+pub fn proof_parts(proof: &Proof) -> (G1Affine, G2Affine, G1Affine) {
+    (proof.a, proof.b, proof.c)
+}
-- 
2.43.0


From df1f1ca13557adee6937b23d5738e199405474ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:15 +0000
Subject: [PATCH 18/33] fix: polynomial subtraction was negated when the
 subtrahend was not shorter

---
 groth16/src/poly.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/groth16/src/poly.rs b/groth16/src/poly.rs
index e7d8f11..45c5129 100644
--- a/groth16/src/poly.rs
+++ b/groth16/src/poly.rs
@@ -213,12 +213,13 @@ impl<F: FftField> Sub for Coefficients<F> {
 
     fn sub(self, rhs: Self) -> Self::Output {
         let zero = F::zero();
-        let (left, right) = if self.0.len() > rhs.0.len() {
-            (self.0.iter(), rhs.0.iter().chain(iter::repeat(&zero)))
+        Self::new(if self.0.len() > rhs.0.len() {
+            let (left, right) = (self.0.iter(), rhs.0.iter().chain(iter::repeat(&zero)));
+            left.zip(right).map(|(a, b)| *a - *b).collect()
         } else {
-            (rhs.0.iter(), self.0.iter().chain(iter::repeat(&zero)))
-        };
-        Self::new(left.zip(right).map(|(a, b)| *a - *b).collect())
+            let (left, right) = (self.0.iter().chain(iter::repeat(&zero)), rhs.0.iter());
+            left.zip(right).map(|(a, b)| *a - *b).collect()
+        })
     }
 }
 
-- 
2.43.0


From de83973014407a7fc50ab1b9e71edd36b8c612d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:16 +0000
Subject: [PATCH 19/33] fix: groth16 parameters were sized by the number of
 constraints instead of the domain

---
 groth16/src/prover.rs  | 2 +-
 groth16/src/zksnark.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index 678ff26..27c6f9b 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -25,7 +25,7 @@ impl Prover {
         let mut cs = R1cs::default();
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let vk = self.params.vk.clone();
 
diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index f20d93a..18d30b7 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -20,7 +20,7 @@ impl ZkSnark {
 
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        let size = cs.m().next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let fft = Fft::<Fr>::new(k as usize);
 
@@ -37,10 +37,10 @@ impl ZkSnark {
         let gamma_inverse = gamma.invert().ok_or(Error::ProverInversionFailed)?;
         let delta_inverse = delta.invert().ok_or(Error::ProverInversionFailed)?;
 
-        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (cs.m() - 1) as usize];
+        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (size - 1) as usize];
 
         // Compute (1, tau, tau^2, ...)
-        let mut powers_of_tau = PointsValue(vec![Fr::zero(); cs.m() as usize]);
+        let mut powers_of_tau = PointsValue(vec![Fr::zero(); size as usize]);
         let mut current_pow_of_tau = Fr::one();
         for x in powers_of_tau.0.iter_mut() {
             *x = current_pow_of_tau;
-- 
2.43.0


From 71e1796f550575e5a3dbea21c69f8b59f702594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:26 +0000
Subject: [PATCH 20/33] verif: nova hooks for the harness (guarded by cfg
 kogarashi_verif)

---
 nova/src/circuit.rs |  17 +++
 nova/src/gadget.rs  |   5 +
 nova/src/lib.rs     |   2 +
 nova/src/verif.rs   | 283 ++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 307 insertions(+)
 create mode 100644 nova/src/verif.rs

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index 505814e..a09e6b2 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -2,5 +2,22 @@ mod augmented;
 mod nifs;
 mod transcript;
 
+#[cfg(kogarashi_verif)]
+pub(crate) mod verif {
+    use super::nifs::NifsCircuit;
+    use crate::gadget::{R1csInstanceAssignment, RelaxedR1csInstanceAssignment};
+    use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, PointAssignment, R1cs};
+
+    pub(crate) fn verify<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
+        cs: &mut R1cs<CS>,
+        r: FieldAssignment<C::Base>,
+        u_range: RelaxedR1csInstanceAssignment<C>,
+        u_single: R1csInstanceAssignment<C>,
+        commit_t: PointAssignment<C::Base>,
+    ) -> RelaxedR1csInstanceAssignment<C> {
+        NifsCircuit::verify(cs, r, u_range, u_single, commit_t)
+    }
+}
+
 pub(crate) use augmented::AugmentedFCircuit;
 pub(crate) use transcript::MimcROCircuit;
diff --git a/nova/src/gadget.rs b/nova/src/gadget.rs
index 532804a..e102fad 100644
--- a/nova/src/gadget.rs
+++ b/nova/src/gadget.rs
@@ -7,3 +7,8 @@ pub(crate) use big_nat::{f_to_nat, nat_to_limbs, BigNatAssignment, BN_LIMB_WIDTH
 pub(crate) use instance::R1csInstanceAssignment;
 pub(crate) use mimc::MimcAssignment;
 pub(crate) use relaxed_instance::RelaxedR1csInstanceAssignment;
+
+#[cfg(kogarashi_verif)]
+pub mod verif {
+    pub use super::big_nat::{f_to_nat, limbs_to_nat, nat_to_f, nat_to_limbs};
+}
diff --git a/nova/src/lib.rs b/nova/src/lib.rs
index 280a236..c9d4351 100644
--- a/nova/src/lib.rs
+++ b/nova/src/lib.rs
@@ -15,6 +15,8 @@ mod verifier;
 mod driver;
 #[cfg(test)]
 mod test;
+#[cfg(kogarashi_verif)]
+pub mod verif;
 
 pub use driver::{Bn254Driver, GrumpkinDriver};
 pub use function::FunctionCircuit;
diff --git a/nova/src/verif.rs b/nova/src/verif.rs
new file mode 100644
index 0000000..949158a
--- /dev/null
+++ b/nova/src/verif.rs
@@ -0,0 +1,283 @@
+//! Access to private items for the verification harness, compiled only under `--cfg kogarashi_verif`.
+#![allow(clippy::type_complexity, clippy::too_many_arguments)]
+use crate::circuit::{AugmentedFCircuit, MimcROCircuit};
+use crate::function::FunctionCircuit;
+use crate::gadget::{R1csInstanceAssignment, RelaxedR1csInstanceAssignment};
+use crate::hash::{MimcRO, MIMC_ROUNDS};
+use crate::{PedersenCommitment, Prover, R1csShape, RecursiveProof};
+use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, PointAssignment, R1cs};
+use zkstd::common::{BNAffine, CurveGroup};
+use zkstd::matrix::DenseVectors;
+
+pub type Instance<C> = crate::relaxed_r1cs::R1csInstance<C>;
+pub type Witness<C> = crate::relaxed_r1cs::R1csWitness<C>;
+pub type RelaxedInstance<C> = crate::relaxed_r1cs::RelaxedR1csInstance<C>;
+pub type RelaxedWitness<C> = crate::relaxed_r1cs::RelaxedR1csWitness<C>;
+pub type BigNat<F> = crate::gadget::BigNatAssignment<F>;
+pub use crate::driver::{base_as_scalar, scalar_as_base};
+pub use crate::gadget::verif::*;
+
+pub fn instance<C: CircuitDriver>(commit_w: C::Affine, x: Vec<C::Scalar>) -> Instance<C> {
+    let x = DenseVectors::new(x);
+    Instance { commit_w, x }
+}
+pub fn instance_parts<C: CircuitDriver>(i: &Instance<C>) -> (C::Affine, Vec<C::Scalar>) {
+    (i.commit_w, i.x.get())
+}
+pub fn witness<C: CircuitDriver>(w: Vec<C::Scalar>) -> Witness<C> {
+    let w = DenseVectors::new(w);
+    Witness { w }
+}
+pub fn witness_parts<C: CircuitDriver>(w: &Witness<C>) -> Vec<C::Scalar> {
+    w.w.get()
+}
+pub fn relaxed<C: CircuitDriver>(
+    commit_w: C::Affine,
+    commit_e: C::Affine,
+    u: C::Scalar,
+    x: Vec<C::Scalar>,
+) -> RelaxedInstance<C> {
+    let x = DenseVectors::new(x);
+    RelaxedInstance {
+        commit_w,
+        commit_e,
+        u,
+        x,
+    }
+}
+pub fn relaxed_parts<C: CircuitDriver>(
+    i: &RelaxedInstance<C>,
+) -> (C::Affine, C::Affine, C::Scalar, Vec<C::Scalar>) {
+    (i.commit_w, i.commit_e, i.u, i.x.get())
+}
+pub fn relaxed_witness<C: CircuitDriver>(
+    w: Vec<C::Scalar>,
+    e: Vec<C::Scalar>,
+) -> RelaxedWitness<C> {
+    RelaxedWitness {
+        w: DenseVectors::new(w),
+        e: DenseVectors::new(e),
+    }
+}
+pub fn relaxed_witness_parts<C: CircuitDriver>(
+    w: &RelaxedWitness<C>,
+) -> (Vec<C::Scalar>, Vec<C::Scalar>) {
+    (w.w.get(), w.e.get())
+}
+pub fn dummy_instance<C: CircuitDriver>(l: usize) -> RelaxedInstance<C> {
+    RelaxedInstance::dummy(l)
+}
+pub fn dummy_witness<C: CircuitDriver>(w: usize, m: usize) -> RelaxedWitness<C> {
+    RelaxedWitness::dummy(w, m)
+}
+pub fn instance_and_witness<C: CircuitDriver>(
+    cs: &R1cs<C>,
+    shape: &R1csShape<C>,
+    ck: &PedersenCommitment<C::Affine>,
+) -> (Instance<C>, Witness<C>) {
+    crate::relaxed_r1cs::r1cs_instance_and_witness(cs, shape, ck)
+}
+pub fn commit<A: BNAffine>(ck: &PedersenCommitment<A>, v: Vec<A::Scalar>) -> A {
+    ck.commit(&DenseVectors::new(v))
+}
+pub fn cross_term<C: CircuitDriver>(
+    p: &Prover<C>,
+    i1: &RelaxedInstance<C>,
+    w1: &RelaxedWitness<C>,
+    i2: &Instance<C>,
+    w2: &Witness<C>,
+) -> Vec<C::Scalar> {
+    p.compute_cross_term(i1, w1, i2, w2).get()
+}
+
+/// the random oracle
+pub struct Transcript<C: CircuitDriver>(MimcRO<MIMC_ROUNDS, C>);
+impl<C: CircuitDriver> Default for Transcript<C> {
+    fn default() -> Self {
+        Self(MimcRO::default())
+    }
+}
+impl<C: CircuitDriver> Transcript<C> {
+    pub fn append(&mut self, v: C::Base) {
+        self.0.append(v)
+    }
+    pub fn append_vec(&mut self, v: Vec<C::Base>) {
+        self.0.append_vec(v)
+    }
+    pub fn append_point(&mut self, p: C::Affine) {
+        self.0.append_point(p)
+    }
+    pub fn squeeze(&self, n: usize) -> C::Scalar {
+        self.0.squeeze(n)
+    }
+}
+
+/// the random oracle in a circuit
+pub struct CircuitTranscript<C: CircuitDriver>(MimcROCircuit<MIMC_ROUNDS, C>);
+impl<C: CircuitDriver> Default for CircuitTranscript<C> {
+    fn default() -> Self {
+        Self(MimcROCircuit::default())
+    }
+}
+impl<C: CircuitDriver> CircuitTranscript<C> {
+    pub fn append(&mut self, v: FieldAssignment<C::Base>) {
+        self.0.append(v)
+    }
+    pub fn append_vec(&mut self, v: Vec<FieldAssignment<C::Base>>) {
+        self.0.append_vec(v)
+    }
+    pub fn append_point(&mut self, p: PointAssignment<C::Base>) {
+        self.0.append_point(p)
+    }
+    pub fn squeeze<CS: CircuitDriver<Scalar = C::Base>>(
+        &self,
+        cs: &mut R1cs<CS>,
+        n: usize,
+    ) -> FieldAssignment<C::Base> {
+        self.0.squeeze(cs, n)
+    }
+}
+
+/// an instance inside a circuit: the commitments, u, x0 and x1
+pub type Wires<C> = (
+    PointAssignment<<C as CircuitDriver>::Base>,
+    PointAssignment<<C as CircuitDriver>::Base>,
+    FieldAssignment<<C as CircuitDriver>::Base>,
+    BigNat<<C as CircuitDriver>::Base>,
+    BigNat<<C as CircuitDriver>::Base>,
+);
+fn wires<C: CircuitDriver>(i: RelaxedR1csInstanceAssignment<C>) -> Wires<C> {
+    (i.commit_w, i.commit_e, i.u, i.x0, i.x1)
+}
+fn unwires<C: CircuitDriver>(i: Wires<C>) -> RelaxedR1csInstanceAssignment<C> {
+    RelaxedR1csInstanceAssignment {
+        commit_w: i.0,
+        commit_e: i.1,
+        u: i.2,
+        x0: i.3,
+        x1: i.4,
+    }
+}
+pub fn relaxed_in_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
+    cs: &mut R1cs<CS>,
+    i: &RelaxedInstance<C>,
+) -> Wires<C> {
+    wires(RelaxedR1csInstanceAssignment::witness(cs, i))
+}
+/// E = 0, u = 1
+pub fn relax_in_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
+    cs: &mut R1cs<CS>,
+    i: &Instance<C>,
+) -> Wires<C> {
+    let i = R1csInstanceAssignment::witness(cs, i);
+    wires(RelaxedR1csInstanceAssignment::from_r1cs_instance(cs, i))
+}
+/// the challenge and the folded instance
+pub fn fold_in_circuit<C, CS, FC>(
+    cs: &mut R1cs<CS>,
+    running: &RelaxedInstance<C>,
+    single: &Instance<C>,
+    commit_t: C::Affine,
+) -> (FieldAssignment<C::Base>, Wires<C>)
+where
+    C: CircuitDriver,
+    CS: CircuitDriver<Scalar = C::Base>,
+    FC: FunctionCircuit<C::Base>,
+{
+    let single = R1csInstanceAssignment::witness(cs, single);
+    let running = RelaxedR1csInstanceAssignment::witness(cs, running);
+    let t = PointAssignment::witness(
+        cs,
+        commit_t.get_x(),
+        commit_t.get_y(),
+        commit_t.is_identity(),
+    );
+    let r = AugmentedFCircuit::<C, FC>::get_challenge(cs, &running, t.clone());
+    let folded = crate::circuit::verif::verify(cs, r.clone(), running, single, t);
+    (r, wires(folded))
+}
+pub fn hash_in_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
+    cs: &mut R1cs<CS>,
+    instance: Wires<C>,
+    i: FieldAssignment<C::Base>,
+    z_0: Vec<FieldAssignment<C::Base>>,
+    z_i: Vec<FieldAssignment<C::Base>>,
+) -> FieldAssignment<C::Base> {
+    unwires::<C>(instance).hash(cs, i, z_0, z_i)
+}
+/// the whole augmented circuit
+pub fn augmented<C, CS, FC>(
+    cs: &mut R1cs<CS>,
+    is_primary: bool,
+    i: u64,
+    z_0: Vec<C::Base>,
+    z_i: Option<Vec<C::Base>>,
+    u_single: Option<Instance<C>>,
+    u_range: Option<RelaxedInstance<C>>,
+    commit_t: Option<C::Affine>,
+) -> Vec<FieldAssignment<C::Base>>
+where
+    C: CircuitDriver,
+    CS: CircuitDriver<Scalar = C::Base>,
+    FC: FunctionCircuit<C::Base>,
+{
+    AugmentedFCircuit::<C, FC> {
+        is_primary,
+        i,
+        z_0: DenseVectors::new(z_0),
+        z_i: z_i.map(DenseVectors::new),
+        u_single,
+        u_range,
+        commit_t,
+        f: Default::default(),
+    }
+    .generate(cs)
+}
+
+/// every part of a recursive proof
+#[derive(Clone)]
+pub struct Parts<E1: CircuitDriver, E2: CircuitDriver> {
+    pub i: u64,
+    pub z0_primary: Vec<E1::Scalar>,
+    pub z0_secondary: Vec<E2::Scalar>,
+    pub zi_primary: Vec<E1::Scalar>,
+    pub zi_secondary: Vec<E2::Scalar>,
+    pub single_secondary: (Instance<E2>, Witness<E2>),
+    pub range_primary: (RelaxedInstance<E1>, RelaxedWitness<E1>),
+    pub range_secondary: (RelaxedInstance<E2>, RelaxedWitness<E2>),
+}
+pub fn parts<E1, E2, FC1, FC2>(p: &RecursiveProof<E1, E2, FC1, FC2>) -> Parts<E1, E2>
+where
+    E1: CircuitDriver<Base = <E2 as CircuitDriver>::Scalar>,
+    E2: CircuitDriver<Base = <E1 as CircuitDriver>::Scalar>,
+    FC1: FunctionCircuit<E1::Scalar>,
+    FC2: FunctionCircuit<E2::Scalar>,
+{
+    Parts {
+        i: p.i,
+        z0_primary: p.z0_primary.get(),
+        z0_secondary: p.z0_secondary.get(),
+        zi_primary: p.zi_primary.get(),
+        zi_secondary: p.zi_secondary.get(),
+        single_secondary: p.instances.0.clone(),
+        range_primary: p.instances.1.clone(),
+        range_secondary: p.instances.2.clone(),
+    }
+}
+pub fn from_parts<E1, E2, FC1, FC2>(p: Parts<E1, E2>) -> RecursiveProof<E1, E2, FC1, FC2>
+where
+    E1: CircuitDriver<Base = <E2 as CircuitDriver>::Scalar>,
+    E2: CircuitDriver<Base = <E1 as CircuitDriver>::Scalar>,
+    FC1: FunctionCircuit<E1::Scalar>,
+    FC2: FunctionCircuit<E2::Scalar>,
+{
+    RecursiveProof {
+        i: p.i,
+        z0_primary: DenseVectors::new(p.z0_primary),
+        z0_secondary: DenseVectors::new(p.z0_secondary),
+        zi_primary: DenseVectors::new(p.zi_primary),
+        zi_secondary: DenseVectors::new(p.zi_secondary),
+        instances: (p.single_secondary, p.range_primary, p.range_secondary),
+        marker: Default::default(),
+    }
+}
-- 
2.43.0


From fb4273bce3c2c61652226607667090bb87fc1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:18 +0000
Subject: [PATCH 21/33] fix: satisfaction checks aborted or looked past the end
 on vectors of other dimensions

---
 nova/src/relaxed_r1cs.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index 476e318..41c726d 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -77,6 +77,11 @@ impl<C: CircuitDriver> R1csShape<C> {
         self.witness_length
     }
 
+    /// whether the vectors have the dimensions of this structure
+    fn is_consistent(&self, x: &DenseVectors<C::Scalar>, w: &DenseVectors<C::Scalar>) -> bool {
+        x.len() == self.instance_length as usize && w.len() == self.witness_length as usize
+    }
+
     ///  check (A · Z) ◦ (B · Z) = u · (C · Z) + E
     pub fn is_sat_relaxed(
         &self,
@@ -93,6 +98,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         } = instance;
         let RelaxedR1csWitness { w, e } = witness;
 
+        if !self.is_consistent(x, w) || e.len() != *m as usize {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![*u], x.get(), w.get()].concat());
         // A · Z
@@ -125,6 +134,10 @@ impl<C: CircuitDriver> R1csShape<C> {
         let R1csInstance { commit_w, x } = instance;
         let R1csWitness { w } = witness;
 
+        if !self.is_consistent(x, w) {
+            return false;
+        }
+
         let l = x.len() + 1;
         let z = DenseVectors::new(vec![vec![C::Scalar::one()], x.get(), w.get()].concat());
         // A · Z
-- 
2.43.0


From 411560c559881eecf22f398a4efdbf40cb3e4d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:36 +0000
Subject: [PATCH 22/33] verif: a prover that lies about private wires (guarded
 by cfg kogarashi_verif)

---
 zkstd/src/circuit/gadget/binary.rs |  6 ++++++
 zkstd/src/circuit/gadget/field.rs  |  2 ++
 zkstd/src/lib.rs                   |  3 +++
 zkstd/src/r1cs.rs                  |  2 ++
 zkstd/src/r1cs/verif.rs            | 33 ++++++++++++++++++++++++++++++
 5 files changed, 46 insertions(+)
 create mode 100644 zkstd/src/r1cs/verif.rs

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index dc758c2..b60e2c4 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -32,6 +32,8 @@ impl BinaryAssignment {
     pub fn witness<C: CircuitDriver>(cs: &mut R1cs<C>, bit: u8) -> Self {
         let wire = cs.private_wire();
         cs.w.push(C::Scalar::from(bit as u64));
+        #[cfg(kogarashi_verif)]
+        cs.allocated();
 
         // b * (b - 1) = 0
         let b = SparseRow::from(wire);
@@ -51,6 +53,8 @@ impl BinaryAssignment {
         };
 
         cs.w.push(new_val);
+        #[cfg(kogarashi_verif)]
+        cs.allocated();
         // 1 - b = wire
         cs.sub_gate(
             &SparseRow::one(),
@@ -72,6 +76,8 @@ impl BinaryAssignment {
         };
 
         cs.w.push(a_and_b);
+        #[cfg(kogarashi_verif)]
+        cs.allocated();
         // a * b = wire
         cs.mul_gate(
             &SparseRow::from(a.0),
diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index ba2d90e..4b0d42c 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -21,6 +21,8 @@ impl<F: PrimeField> FieldAssignment<F> {
     pub fn witness<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, witness: F) -> Self {
         let wire = cs.private_wire();
         cs.w.push(witness);
+        #[cfg(kogarashi_verif)]
+        cs.allocated();
 
         Self(SparseRow::from(wire))
     }
diff --git a/zkstd/src/lib.rs b/zkstd/src/lib.rs
index 44cf509..3ec0784 100644
--- a/zkstd/src/lib.rs
+++ b/zkstd/src/lib.rs
@@ -16,6 +16,9 @@
 #![no_std]
 #![doc = include_str!("../README.md")]
 
+#[cfg(kogarashi_verif)]
+extern crate std;
+
 pub mod arithmetic;
 pub mod circuit;
 pub mod common;
diff --git a/zkstd/src/r1cs.rs b/zkstd/src/r1cs.rs
index d83ebdb..8e459b8 100644
--- a/zkstd/src/r1cs.rs
+++ b/zkstd/src/r1cs.rs
@@ -1,4 +1,6 @@
 pub mod test;
+#[cfg(kogarashi_verif)]
+pub mod verif;
 mod wire;
 
 use crate::circuit::CircuitDriver;
diff --git a/zkstd/src/r1cs/verif.rs b/zkstd/src/r1cs/verif.rs
new file mode 100644
index 0000000..feb0c94
--- /dev/null
+++ b/zkstd/src/r1cs/verif.rs
@@ -0,0 +1,33 @@
+//! A prover that lies: replaces chosen private wires right after they are allocated, so that everything computed
+//! afterwards follows from the lie. Compiled only under `--cfg kogarashi_verif`.
+use super::R1cs;
+use crate::circuit::CircuitDriver;
+use crate::common::{PrimeField, Vec};
+use core::cell::RefCell;
+use std::collections::BTreeMap;
+
+std::thread_local! {
+    static LIES: RefCell<BTreeMap<usize, [u8; 64]>> = RefCell::new(BTreeMap::new());
+}
+
+/// the private wires to lie about, each with what is added to its value (64 bytes, little endian)
+pub fn lie(l: Vec<(usize, [u8; 64])>) {
+    LIES.with(|m| *m.borrow_mut() = l.into_iter().collect());
+}
+
+impl<C: CircuitDriver> R1cs<C> {
+    /// called after each allocation of a private wire
+    pub(crate) fn allocated(&mut self) {
+        let at = self.w.len() - 1;
+        if let Some(d) = LIES.with(|m| m.borrow().get(&at).copied()) {
+            let v = self.w[at];
+            self.w[at] = v + C::Scalar::from_bytes_wide(&d);
+        }
+    }
+
+    /// the wire values, replaced
+    pub fn with_w(mut self, w: Vec<C::Scalar>) -> Self {
+        self.w = crate::matrix::DenseVectors::new(w);
+        self
+    }
+}
-- 
2.43.0


From d458a56b267fc3a33e49b77afe6f58f30e88a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:29 +0000
Subject: [PATCH 23/33] fix: constants of the big integer comparison were
 witnesses the prover could choose

---
 nova/src/gadget/big_nat.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 51f486c..b92758c 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -250,12 +250,12 @@ impl<F: PrimeField> BigNatAssignment<F> {
             );
             accumulated_extra += max_word;
 
-            let target_base_ass = FieldAssignment::witness(cs, nat_to_f::<F>(&target_base));
+            let target_base_ass = FieldAssignment::constant(&nat_to_f::<F>(&target_base));
             let target = FieldAssignment::mul(cs, &target_base_ass, &carry);
             let carry_sum = &(&carry_in + &self.limbs[i]) - &other.limbs[i];
             let accumulated =
-                FieldAssignment::witness(cs, nat_to_f::<F>(&(&accumulated_extra % &target_base)));
-            let max_word = FieldAssignment::witness(cs, nat_to_f::<F>(max_word));
+                FieldAssignment::constant(&nat_to_f::<F>(&(&accumulated_extra % &target_base)));
+            let max_word = FieldAssignment::constant(&nat_to_f::<F>(max_word));
 
             FieldAssignment::enforce_eq_constant(
                 cs,
@@ -269,7 +269,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
                 FieldAssignment::range_check_bits(cs, &carry_decomposition, carry_bits as u64);
             } else {
                 let accumulated_extra_ass =
-                    FieldAssignment::witness(cs, nat_to_f(&accumulated_extra));
+                    FieldAssignment::constant(&nat_to_f(&accumulated_extra));
                 FieldAssignment::enforce_eq_constant(
                     cs,
                     &(&carry - &accumulated_extra_ass),
@@ -417,7 +417,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let n_groups = (self.limbs.len() - 1) / limbs_per_group + 1;
         let mut limbs = vec![FieldAssignment::constant(&F::zero()); n_groups];
         let mut shift = FieldAssignment::constant(&F::one());
-        let limb_block = FieldAssignment::witness(cs, F::pow_of_2(self.params.limb_width as u64));
+        let limb_block = FieldAssignment::constant(&F::pow_of_2(self.params.limb_width as u64));
         for (i, limb) in self.limbs.iter().enumerate() {
             if i % limbs_per_group == 0 {
                 shift = FieldAssignment::constant(&F::one());
-- 
2.43.0


From 0ecedd2edb3529a0214270f53e8d370102223f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:38 +0000
Subject: [PATCH 24/33] fix: big integers of different lengths were equal only
 with zeros beyond the shorter one

---
 nova/src/gadget/big_nat.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index b92758c..a0fb81f 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -228,7 +228,8 @@ impl<F: PrimeField> BigNatAssignment<F> {
     ) {
         assert_eq!(self.params.limb_width, other.params.limb_width);
 
-        let n = std::cmp::min(self.limbs.len(), other.limbs.len());
+        let n = std::cmp::max(self.limbs.len(), other.limbs.len());
+        let zero = FieldAssignment::constant(&F::zero());
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
@@ -238,13 +239,16 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let mut carry_in = FieldAssignment::constant(&F::zero());
 
         for i in 0..n {
+            // a missing limb is zero
+            let self_limb = self.limbs.get(i).unwrap_or(&zero);
+            let other_limb = other.limbs.get(i).unwrap_or(&zero);
             let carry = FieldAssignment::witness(
                 cs,
                 nat_to_f(
-                    &((f_to_nat(&self.limbs[i].value(cs))
+                    &((f_to_nat(&self_limb.value(cs))
                         + f_to_nat(&carry_in.value(cs))
                         + max_word
-                        - f_to_nat(&other.limbs[i].value(cs)))
+                        - f_to_nat(&other_limb.value(cs)))
                         / &target_base),
                 ),
             );
@@ -252,7 +256,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
 
             let target_base_ass = FieldAssignment::constant(&nat_to_f::<F>(&target_base));
             let target = FieldAssignment::mul(cs, &target_base_ass, &carry);
-            let carry_sum = &(&carry_in + &self.limbs[i]) - &other.limbs[i];
+            let carry_sum = &(&carry_in + self_limb) - other_limb;
             let accumulated =
                 FieldAssignment::constant(&nat_to_f::<F>(&(&accumulated_extra % &target_base)));
             let max_word = FieldAssignment::constant(&nat_to_f::<F>(max_word));
@@ -278,14 +282,6 @@ impl<F: PrimeField> BigNatAssignment<F> {
             }
             carry_in = carry;
         }
-
-        for limb in self.limbs.iter().skip(n) {
-            FieldAssignment::enforce_eq_constant(cs, limb, &F::zero());
-        }
-
-        for limb in other.limbs.iter().skip(n) {
-            FieldAssignment::enforce_eq_constant(cs, limb, &F::zero());
-        }
     }
 
     pub fn mult_mod<C: CircuitDriver<Scalar = F>>(
-- 
2.43.0


From 3638fe3c19028f404f6cd6e25a38859acd5143e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:07 +0000
Subject: [PATCH 25/33] fix: the modulus of the folded public values was a
 witness the prover could choose

---
 nova/src/circuit/nifs.rs   |  2 +-
 nova/src/gadget/big_nat.rs | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/nova/src/circuit/nifs.rs b/nova/src/circuit/nifs.rs
index 2dd7888..04e6f98 100644
--- a/nova/src/circuit/nifs.rs
+++ b/nova/src/circuit/nifs.rs
@@ -36,7 +36,7 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let m_bn = BigInt::from_str_radix(C::ORDER_STR, 16).unwrap();
         let r_bn_ass =
             BigNatAssignment::witness_from_field_assignment(cs, &r, BN_LIMB_WIDTH, BN_N_LIMBS);
-        let m_bn_ass = BigNatAssignment::witness_from_big_int(cs, m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
+        let m_bn_ass = BigNatAssignment::constant(m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
 
         // u_fold = U.u + r
         let u_fold = FieldAssignment::witness(cs, u_range.u.value(cs) + r.value(cs));
diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index a0fb81f..371efee 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -110,6 +110,17 @@ impl<F: PrimeField> BigNatAssignment<F> {
         }
     }
 
+    /// A number that is part of the circuit
+    pub fn constant(num: BigInt, limb_width: usize, n_limbs: usize) -> Self {
+        Self {
+            limbs: nat_to_limbs::<F>(&num, limb_width, n_limbs)
+                .iter()
+                .map(FieldAssignment::constant)
+                .collect(),
+            params: BigNatParams::new(limb_width, n_limbs),
+        }
+    }
+
     /// Allocates a `BigNat` in the circuit with `n_limbs` limbs of width `limb_width` each.
     /// The `max_word` is guaranteed to be `(2 << limb_width) - 1`.
     /// The value is provided by an allocated number
-- 
2.43.0


From f60f65913abb2cb1579b9611ec7f7e6000c60db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:07 +0000
Subject: [PATCH 26/33] fix: big integers made of a field element could have
 limbs of other bits than its own

---
 nova/src/gadget/big_nat.rs | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 371efee..b6e619e 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -133,10 +133,16 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let big_nat = Self::witness_from_big_int(cs, f_to_nat(&f.value(cs)), limb_width, n_limbs);
 
         // check if bignat equals n
-        // (1) decompose `bignat` into a bitvector `bv`
-        let bv = big_nat.decompose(cs);
-        // (2) recompose bits and check if it equals n
-        FieldAssignment::enforce_eq_bits(cs, f, &bv);
+        // (1) decompose n into its canonical bits
+        let bits = FieldAssignment::to_bits(cs, f, 256);
+        // (2) check that each limb is its own part of them, and that none is left
+        let mut parts = bits.rchunks(limb_width);
+        for limb in &big_nat.limbs {
+            FieldAssignment::enforce_eq_bits(cs, limb, parts.next().unwrap_or(&[]));
+        }
+        for bit in parts.flatten() {
+            FieldAssignment::enforce_eq_constant(cs, &FieldAssignment::from(bit), &F::zero());
+        }
 
         big_nat
     }
@@ -171,26 +177,6 @@ impl<F: PrimeField> BigNatAssignment<F> {
         self.limbs.clone()
     }
 
-    /// Break `self` up into a bit-vector.
-    pub fn decompose<C: CircuitDriver<Scalar = F>>(
-        &self,
-        cs: &mut R1cs<C>,
-    ) -> Vec<BinaryAssignment> {
-        let limb_values_split = self.limbs.iter().map(|limb| limb.value(cs));
-        let bitvectors: Vec<Vec<BinaryAssignment>> = self
-            .limbs
-            .iter()
-            .rev()
-            .map(|limb| FieldAssignment::to_bits::<C>(cs, limb, self.params.limb_width))
-            .collect();
-        let mut bits = Vec::new();
-
-        for bv in bitvectors {
-            bits.extend(bv);
-        }
-        bits
-    }
-
     pub fn enforce_eq<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, x: &Self, y: &Self) {
         assert_eq!(x.limbs.len(), y.limbs.len());
         for (x, y) in x.limbs.iter().zip(y.limbs.iter()) {
-- 
2.43.0


From 566f73e232b4eff0f3745dff45e6e003cbc7ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:07 +0000
Subject: [PATCH 27/33] fix: the public values folded in the circuit were not
 those of the instance

---
 nova/src/circuit/nifs.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nova/src/circuit/nifs.rs b/nova/src/circuit/nifs.rs
index 04e6f98..392d835 100644
--- a/nova/src/circuit/nifs.rs
+++ b/nova/src/circuit/nifs.rs
@@ -2,7 +2,7 @@ use core::marker::PhantomData;
 use num_bigint::BigInt;
 use num_traits::Num;
 
-use crate::gadget::{f_to_nat, BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
+use crate::gadget::{BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::gadget::{R1csInstanceAssignment, RelaxedR1csInstanceAssignment};
 use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, PointAssignment, R1cs};
 use zkstd::common::{Group, IntGroup};
@@ -32,7 +32,6 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let r_t = commit_t.scalar_point(cs, &r);
         let e_fold = u_range.commit_e.add(&r_t, cs);
 
-        let r_bn = f_to_nat(&r.value(cs));
         let m_bn = BigInt::from_str_radix(C::ORDER_STR, 16).unwrap();
         let r_bn_ass =
             BigNatAssignment::witness_from_field_assignment(cs, &r, BN_LIMB_WIDTH, BN_N_LIMBS);
@@ -43,9 +42,9 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         FieldAssignment::enforce_eq_constant(cs, &(&(&u_fold - &u_range.u) - &r), &C::Base::zero());
 
         // Fold U.x0 + r * x0
-        let x0_single_bn = BigNatAssignment::witness_from_big_int(
+        let x0_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x0.value(cs)),
+            &u_single.x0,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
@@ -53,9 +52,9 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let x0_fold = u_range.x0.add(&r_x0).red_mod(cs, &m_bn_ass);
 
         // Fold U.x1 + r * x1
-        let x1_single_bn = BigNatAssignment::witness_from_big_int(
+        let x1_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x1.value(cs)),
+            &u_single.x1,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
-- 
2.43.0


From 3040ba97265dd97b600bec43116a6b0b380f7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:29 +0000
Subject: [PATCH 28/33] fix: the first step could be applied to another state
 than the initial one

---
 nova/src/circuit/augmented.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nova/src/circuit/augmented.rs b/nova/src/circuit/augmented.rs
index c79892e..48ca361 100644
--- a/nova/src/circuit/augmented.rs
+++ b/nova/src/circuit/augmented.rs
@@ -109,6 +109,12 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
             &base_case,
         );
 
+        // the first step is applied to the initial state
+        let z_i = z_0
+            .iter()
+            .zip(z_i.iter())
+            .map(|(z_0, z_i)| FieldAssignment::conditional_select(cs, z_0, z_i, &base_case))
+            .collect::<Vec<_>>();
         let z_next = FC::invoke_cs(cs, z_i);
 
         let u_next_x = u_range_next.hash(
-- 
2.43.0


From 4881c7b80ac46d2f0eb68dbf8c94420217aae95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:36 +0000
Subject: [PATCH 29/33] fix: the instance a proof starts from was a witness the
 prover could choose

---
 nova/src/circuit/augmented.rs       |  2 +-
 nova/src/gadget/relaxed_instance.rs | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/nova/src/circuit/augmented.rs b/nova/src/circuit/augmented.rs
index 48ca361..f008755 100644
--- a/nova/src/circuit/augmented.rs
+++ b/nova/src/circuit/augmented.rs
@@ -59,7 +59,7 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
             .collect::<Vec<_>>();
 
         let u_dummy_native = RelaxedR1csInstance::<C>::dummy(2);
-        let u_dummy = RelaxedR1csInstanceAssignment::witness(cs, &u_dummy_native);
+        let u_dummy = RelaxedR1csInstanceAssignment::dummy();
         let u_single = R1csInstanceAssignment::witness(
             cs,
             &self
diff --git a/nova/src/gadget/relaxed_instance.rs b/nova/src/gadget/relaxed_instance.rs
index 2f9385f..32de2ba 100644
--- a/nova/src/gadget/relaxed_instance.rs
+++ b/nova/src/gadget/relaxed_instance.rs
@@ -5,10 +5,11 @@ use crate::driver::scalar_as_base;
 use crate::gadget::big_nat::{BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::gadget::{f_to_nat, R1csInstanceAssignment};
 use crate::hash::{HASH_BITS, MIMC_ROUNDS};
+use num_bigint::BigInt;
 use zkstd::circuit::prelude::{
     BinaryAssignment, CircuitDriver, FieldAssignment, PointAssignment, R1cs,
 };
-use zkstd::common::{CurveGroup, Ring};
+use zkstd::common::{CurveGroup, IntGroup, Ring};
 
 #[derive(Clone)]
 pub(crate) struct RelaxedR1csInstanceAssignment<C: CircuitDriver> {
@@ -58,6 +59,18 @@ impl<C: CircuitDriver> RelaxedR1csInstanceAssignment<C> {
         }
     }
 
+    /// The instance a proof starts from
+    pub(crate) fn dummy() -> Self {
+        let zero = BigNatAssignment::constant(BigInt::from(0), BN_LIMB_WIDTH, BN_N_LIMBS);
+        Self {
+            commit_w: PointAssignment::identity(),
+            commit_e: PointAssignment::identity(),
+            u: FieldAssignment::constant(&C::Base::zero()),
+            x0: zero.clone(),
+            x1: zero,
+        }
+    }
+
     /// E = 0, u = 1
     pub fn from_r1cs_instance<CS: CircuitDriver<Scalar = C::Base>>(
         cs: &mut R1cs<CS>,
-- 
2.43.0


From 4a34107a915bfcaa71916440b9d49d1c1b4de30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 30/33] fix: a recursive proof was accepted without its relaxed
 witnesses opening the commitments

---
 nova/src/proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index 5bf15cf..ad0dfc0 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -77,5 +77,10 @@ where
                 &u_single_secondary,
                 &w_single_secondary,
             )
+            // the relaxed witnesses are the committed ones
+            && u_range_primary.commit_w == pp.ck_primary.commit(&w_range_primary.w)
+            && u_range_primary.commit_e == pp.ck_primary.commit(&w_range_primary.e)
+            && u_range_secondary.commit_w == pp.ck_secondary.commit(&w_range_secondary.w)
+            && u_range_secondary.commit_e == pp.ck_secondary.commit(&w_range_secondary.e)
     }
 }
-- 
2.43.0


From 80ace5a3499935931a15ab2d6c8cbb5c9744bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:00 +0000
Subject: [PATCH 31/33] fix: a recursive proof was accepted with its initial
 and current states split elsewhere

---
 nova/src/proof.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index ad0dfc0..363347b 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -51,6 +51,9 @@ where
         if u_single_secondary.x.len() != 2
             || u_range_primary.x.len() != 2
             || u_range_secondary.x.len() != 2
+            // the hashes do not tell where the initial state ends
+            || self.z0_primary.len() != self.zi_primary.len()
+            || self.z0_secondary.len() != self.zi_secondary.len()
         {
             return false;
         }
-- 
2.43.0


From 2f814ea49546cf1a3740b01a6ee32744afe01ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:04 +0000
Subject: [PATCH 32/33] verif: the folding circuit hook also returns what the
 circuit was given

---
 nova/src/verif.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/nova/src/verif.rs b/nova/src/verif.rs
index 949158a..26c5d74 100644
--- a/nova/src/verif.rs
+++ b/nova/src/verif.rs
@@ -172,13 +172,23 @@ pub fn relax_in_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
     let i = R1csInstanceAssignment::witness(cs, i);
     wires(RelaxedR1csInstanceAssignment::from_r1cs_instance(cs, i))
 }
+/// what the folding circuit is given
+pub struct FoldIn<C: CircuitDriver> {
+    pub running: Wires<C>,
+    pub single: (
+        PointAssignment<C::Base>,
+        FieldAssignment<C::Base>,
+        FieldAssignment<C::Base>,
+    ),
+    pub commit_t: PointAssignment<C::Base>,
+}
 /// the challenge and the folded instance
 pub fn fold_in_circuit<C, CS, FC>(
     cs: &mut R1cs<CS>,
     running: &RelaxedInstance<C>,
     single: &Instance<C>,
     commit_t: C::Affine,
-) -> (FieldAssignment<C::Base>, Wires<C>)
+) -> (FoldIn<C>, FieldAssignment<C::Base>, Wires<C>)
 where
     C: CircuitDriver,
     CS: CircuitDriver<Scalar = C::Base>,
@@ -192,9 +202,14 @@ where
         commit_t.get_y(),
         commit_t.is_identity(),
     );
+    let given = FoldIn {
+        running: wires(running.clone()),
+        single: (single.commit_w.clone(), single.x0.clone(), single.x1.clone()),
+        commit_t: t.clone(),
+    };
     let r = AugmentedFCircuit::<C, FC>::get_challenge(cs, &running, t.clone());
     let folded = crate::circuit::verif::verify(cs, r.clone(), running, single, t);
-    (r, wires(folded))
+    (given, r, wires(folded))
 }
 pub fn hash_in_circuit<C: CircuitDriver, CS: CircuitDriver<Scalar = C::Base>>(
     cs: &mut R1cs<CS>,
-- 
2.43.0


From ed14dcb6b2e6fd9dd70b1939ac0bc41cf0e90834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:03 +0000
Subject: [PATCH 33/33] verif: expose the instance hash

---
 nova/src/verif.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nova/src/verif.rs b/nova/src/verif.rs
index 26c5d74..65d5d3d 100644
--- a/nova/src/verif.rs
+++ b/nova/src/verif.rs
@@ -64,6 +64,14 @@ pub fn relaxed_witness_parts<C: CircuitDriver>(
 ) -> (Vec<C::Scalar>, Vec<C::Scalar>) {
     (w.w.get(), w.e.get())
 }
+pub fn instance_hash<C: CircuitDriver, E: CircuitDriver<Base = C::Scalar, Scalar = C::Base>>(
+    i: &RelaxedInstance<C>,
+    n: u64,
+    z_0: Vec<C::Base>,
+    z_i: Vec<C::Base>,
+) -> C::Scalar {
+    i.hash::<E>(n, &DenseVectors::new(z_0), &DenseVectors::new(z_i))
+}
 pub fn dummy_instance<C: CircuitDriver>(l: usize) -> RelaxedInstance<C> {
     RelaxedInstance::dummy(l)
 }
-- 
2.43.0

