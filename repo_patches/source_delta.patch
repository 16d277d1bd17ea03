From a1aa732b0f24b8a77cf806f3ce9e6f143b2655d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:03 +0000
Subject: [PATCH 01/11] fix: compare both operands with the identity in curve
 point equality

---
 src/curves/ec0.rs | 2 +-
 src/curves/ec1.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index 2dd161e..fbffee5 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec0 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index f7bffbf..da61392 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec1 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
-- 
2.43.0


From 8ccd82a3e8f4ad65d1f52690fe6ea688a60ceb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 02/11] fix: return the error when the backend refuses the ONE
 input

---
 src/synthesis.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/synthesis.rs b/src/synthesis.rs
index 5299207..39dd80d 100644
--- a/src/synthesis.rs
+++ b/src/synthesis.rs
@@ -258,9 +258,7 @@ impl SynthesisDriver for Basic {
             n: 0,
         };
 
-        let one = tmp
-            .alloc_input(|| "one", || Ok(F::one()))
-            .expect("should have no issues");
+        let one = tmp.alloc_input(|| "one", || Ok(F::one()))?;
 
         match (one, <Synthesizer<F, B> as ConstraintSystem<F>>::ONE) {
             (Variable::A(1), Variable::A(1)) => {}
-- 
2.43.0


From 57d78d5e2bfcfbf66ccf3147d5501309909b525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:15 +0000
Subject: [PATCH 03/11] fix: check the curve equation without branching on the
 point

---
 src/curves/ec0.rs | 10 +++++-----
 src/curves/ec1.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index fbffee5..3438ffa 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -185,12 +185,12 @@ impl Curve for Ec0 {
     }
 
     fn is_on_curve(&self) -> bool {
-        if bool::from(self.is_zero()) {
-            return true;
-        }
+        // Evaluate the projective curve equation y^2 z = x^3 + B z^3 so that
+        // neither a branch nor an inversion depends on the point.
+        let lhs = self.y.square() * self.z;
+        let rhs = self.x.square() * self.x + self.z.square() * self.z * B;
 
-        let (x, y) = self.get_xy().unwrap();
-        (x.square() * x + B) == y.square()
+        (self.is_zero() | lhs.ct_eq(&rhs)).into()
     }
 }
 
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index da61392..48410c0 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -185,12 +185,12 @@ impl Curve for Ec1 {
     }
 
     fn is_on_curve(&self) -> bool {
-        if bool::from(self.is_zero()) {
-            return true;
-        }
+        // Evaluate the projective curve equation y^2 z = x^3 + B z^3 so that
+        // neither a branch nor an inversion depends on the point.
+        let lhs = self.y.square() * self.z;
+        let rhs = self.x.square() * self.x + self.z.square() * self.z * B;
 
-        let (x, y) = self.get_xy().unwrap();
-        (x.square() * x + B) == y.square()
+        (self.is_zero() | lhs.ct_eq(&rhs)).into()
     }
 }
 
-- 
2.43.0


From d7dec60441c5ebbd87e94c09f635232676387dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:11 +0000
Subject: [PATCH 04/11] fix: constrain the output of add_incomplete to the
 computed sum

---
 src/gadgets/ecc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index e7b3bb9..5467397 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -344,6 +344,9 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(lambda) - h_var);
         let y_r_lc = LinearCombination::from(i_var) - &y_p_lc;
 
+        cs.enforce_zero(x_r.lc() - &x_r_lc);
+        cs.enforce_zero(y_r.lc() - &y_r_lc);
+
         Ok(CurvePoint {
             x: x_r.into(),
             y: y_r.into(),
-- 
2.43.0


From 40eea4e9a99d3687976189d36ef8c30a61b35072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:27 +0000
Subject: [PATCH 05/11] fix: constrain the coordinates and the identity flag of
 complete addition

---
 src/gadgets/ecc.rs | 61 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 5467397..72bc073 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -744,21 +744,50 @@ impl<C: Curve> CurvePoint<C> {
         );
         cs.enforce_zero(LinearCombination::from(v_var));
 
-        // // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
-        // let (w_var, _, x_var) = cs.multiply(|| {
-        //     let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
-
-        //     let y1y2inv = (y1 + &y2).invert().unwrap_or(C::Base::zero());
+        // (y2 + y1) * w = (x_is_same - p3_is_identity)
+        //
+        // w is (y2 + y1)^-1 when P1 = P2 and they are not the identity. If
+        // y2 + y1 is zero, or x1 and x2 differ, then the right-hand side is
+        // zero and so is w.
+        let (w_var, _, x_var) = cs.multiply(
+            || "(y2 + y1) * w = (x_is_same - p3_is_identity)",
+            || {
+                let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
 
-        //     let p3_is_identity: C::Base = p3_is_identity.into();
+                let p3_is_identity: C::Base = p3_is_identity.into();
+                let rhs = x_is_same - &p3_is_identity;
+                let y2py1_inv = (y2 + &y1).invert().unwrap_or(C::Base::zero());
 
-        //     Ok((y1 + &y2, y1y2inv, x_is_same - &p3_is_identity))
-        // })?;
-        // cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
-        // cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+                Ok((y2 + &y1, y2py1_inv * &rhs, rhs))
+            },
+        )?;
+        cs.enforce_zero(y2_lc.clone() + &y1_lc - w_var);
+        cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+
+        // If p1 or p2 is the identity, then the chord through the coordinates
+        // of p1 and p2 does not meet the curve at -p3. The selection below
+        // discards it, but the intermediate values have to be the constrained
+        // ones.
+        let x3_val = lambda_sq_val
+            .and_then(|lambda_sq| x1_val.and_then(|x1| x2_val.map(|x2| lambda_sq - &x1 - &x2)));
+        let y3_val = lambda_val.and_then(|lambda| {
+            x3_val.and_then(|x3| {
+                x1_val.and_then(|x1| y1_val.map(|y1| (x1 - &x3) * &lambda - &y1))
+            })
+        });
+        let x4_val =
+            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
+        let y4_val =
+            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
+        let x5_val = x2_val.and_then(|x2| {
+            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
+        });
+        let y5_val = y2_val.and_then(|y2| {
+            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
+        });
 
         let (y_var, z_var, x4_var) = cs.multiply(
             || "x3 * (1 - p3_is_identity) = x4",
@@ -770,8 +799,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((x3, (!p3_is_identity).into(), x4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(x3_lc - y_var);
+        cs.enforce_zero(x3_lc - y_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - z_var);
 
         let (aa_var, bb_var, y4_var) = cs.multiply(
@@ -784,8 +812,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((y3, (!p3_is_identity).into(), y4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(y3_lc - aa_var);
+        cs.enforce_zero(y3_lc - aa_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - bb_var);
 
         let (cc_var, dd_var, ee_var) = cs.multiply(
-- 
2.43.0


From 52796f0a06266cadf5a0318a8c53b908db2fa2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:28 +0000
Subject: [PATCH 06/11] fix: force the coordinates of a witnessed identity to
 (0, 0)

---
 src/gadgets/ecc.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 72bc073..d319f05 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -80,9 +80,14 @@ impl<C: Curve> CurvePoint<C> {
         // h = x
         // i := x^3
         //
+        // i + B * (1 - is_identity) - c = 0
+        //
+        // The identity is represented as (0, 0), which the equation above
+        // implies once x is zero (y^2 = 0):
+        //
         // j * k = l
-        // j = i + B - c
-        // k = (1 - is_identity)
+        // j = x
+        // k = is_identity
         // l = 0
 
         let ysq = y_val.map(|y| y * &y);
@@ -108,22 +113,18 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(f_var) - g_var);
         cs.enforce_zero(x.lc() - h_var);
 
-        let (j_var, k_var, l_var) = cs.multiply(
-            || "(x^3 + B - y^2) * (1 - is_identity) = 0",
-            || {
-                Ok((
-                    xcub? + &C::b() - &ysq?,
-                    (!is_identity_val?).into(),
-                    C::Base::zero(),
-                ))
-            },
-        )?;
-        cs.enforce_zero(
-            LinearCombination::from(i_var) + (Coeff::Full(C::b()), CS::ONE) - c_var - j_var,
-        );
         cs.enforce_zero(
-            LinearCombination::zero() + (Coeff::One, CS::ONE) - is_identity.get_variable() - k_var,
+            LinearCombination::from(i_var) + (Coeff::Full(C::b()), CS::ONE)
+                - (Coeff::Full(C::b()), is_identity.get_variable())
+                - c_var,
         );
+
+        let (j_var, k_var, l_var) = cs.multiply(
+            || "x * is_identity = 0",
+            || Ok((x_val?, is_identity_val?.into(), C::Base::zero())),
+        )?;
+        cs.enforce_zero(x.lc() - j_var);
+        cs.enforce_zero(LinearCombination::from(is_identity.get_variable()) - k_var);
         cs.enforce_zero(LinearCombination::from(l_var));
 
         Ok(CurvePoint {
-- 
2.43.0


From eef2535c6cb4ff94922de7a44c02be0d0bcf1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:07 +0000
Subject: [PATCH 07/11] fix: report missing scalar bits instead of inverting by
 zero bits

---
 src/gadgets/ecc.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index d319f05..634a3d6 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1763,10 +1763,8 @@ impl<C: Curve> CurvePoint<C> {
             let mut cur = C::Scalar::zero();
             for b in other.iter().rev() {
                 cur = cur + &cur;
-                if let Some(b) = b.get_value() {
-                    if b {
-                        cur = cur + &C::Scalar::one();
-                    }
+                if b.get_value().ok_or(SynthesisError::AssignmentMissing)? {
+                    cur = cur + &C::Scalar::one();
                 }
             }
             let cur: C::Scalar = crate::util::get_challenge_scalar(cur);
@@ -1981,19 +1979,19 @@ impl<C: Curve> CurvePoint<C> {
             .and_then(|x| self.y.value().map(|y| C::from_xy(x, y).unwrap()))
             .ok_or(SynthesisError::AssignmentMissing);
 
-        let mut mulby = C::Scalar::zero();
-        for bit in other.iter().rev() {
-            mulby = mulby + &mulby;
-            if let Some(bit) = bit.get_value() {
-                if bit {
-                    mulby = mulby + &C::Scalar::one();
-                }
-            }
-        }
+        let mulby = other.iter().rev().fold(Some(C::Scalar::zero()), |acc, bit| {
+            let acc = acc?;
+            let acc = acc + &acc;
+            Some(if bit.get_value()? {
+                acc + &C::Scalar::one()
+            } else {
+                acc
+            })
+        });
 
-        let inverted_val = p.map(|p| {
-            let inv = mulby.invert();
-            if inv.is_none().into() {
+        let inverted_val = p.and_then(|p| {
+            let inv = mulby.ok_or(SynthesisError::AssignmentMissing)?.invert();
+            Ok(if inv.is_none().into() {
                 (C::Base::zero(), C::Base::zero(), true)
             } else {
                 let inv = p * &inv.unwrap();
@@ -2004,7 +2002,7 @@ impl<C: Curve> CurvePoint<C> {
                 } else {
                     (C::Base::zero(), C::Base::zero(), true)
                 }
-            }
+            })
         });
 
         let x_inv_val = inverted_val.map(|(x, _, _)| x);
-- 
2.43.0


From 2b1b30d14676ecb22e4535f8c6108b271a9af447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:33 +0000
Subject: [PATCH 08/11] fix: constrain the witnessed inverse multiple to be a
 curve point

---
 src/gadgets/ecc.rs | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 634a3d6..2b8de2a 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1992,33 +1992,16 @@ impl<C: Curve> CurvePoint<C> {
         let inverted_val = p.and_then(|p| {
             let inv = mulby.ok_or(SynthesisError::AssignmentMissing)?.invert();
             Ok(if inv.is_none().into() {
-                (C::Base::zero(), C::Base::zero(), true)
+                C::zero()
             } else {
-                let inv = p * &inv.unwrap();
-                let coords = inv.get_xy();
-                if coords.is_some().into() {
-                    let (x, y) = coords.unwrap();
-                    (x, y, false)
-                } else {
-                    (C::Base::zero(), C::Base::zero(), true)
-                }
+                p * &inv.unwrap()
             })
         });
 
-        let x_inv_val = inverted_val.map(|(x, _, _)| x);
-        let y_inv_val = inverted_val.map(|(_, y, _)| y);
-        let is_identity_inv_val = inverted_val.map(|(_, _, b)| b);
-
-        let x_inv = AllocatedNum::alloc(cs.namespace(|| "x_inv"), || x_inv_val)?;
-        let y_inv = AllocatedNum::alloc(cs.namespace(|| "y_inv"), || y_inv_val)?;
-        let is_identity_inv =
-            AllocatedBit::alloc(cs.namespace(|| "inv_is_identity"), || is_identity_inv_val)?;
-
-        let inverted = CurvePoint {
-            x: x_inv.into(),
-            y: y_inv.into(),
-            is_identity: is_identity_inv.into(),
-        };
+        // The multiplication gadgets are only meaningful for points on the curve
+        // (and the identity represented as (0, 0)), so the prover's choice has to
+        // be constrained to be one.
+        let inverted = Self::witness(cs.namespace(|| "inverted"), || inverted_val)?;
 
         let calculated = mul_func(&mut cs, &inverted)?;
 
-- 
2.43.0


From a73b32ab3ff2317d6afbc2e9d90dad3a3ff0e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:49 +0000
Subject: [PATCH 09/11] fix: multiply_fast by a single-bit scalar returns the
 point itself

---
 src/gadgets/ecc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 2b8de2a..870043f 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1813,6 +1813,13 @@ impl<C: Curve> CurvePoint<C> {
         if let Some(b) = other.last().unwrap().get_value() {
             assert_eq!(b, true);
         }
+
+        // A single set bit is the scalar one; the accumulator below starts at
+        // [3] T and already accounts for two bits.
+        if other.len() == 1 {
+            return Ok(self.clone());
+        }
+
         let mut acc = self.double(cs.namespace(|| "[2] Acc"))?;
         acc = acc.add_incomplete(cs.namespace(|| "[3] Acc"), self)?;
 
-- 
2.43.0


From de8d3de366f2f6acaa051d4d8537f53b829131e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:02 +0000
Subject: [PATCH 10/11] fix: the default curve point is the identity

---
 src/curves/ec0.rs | 9 ++++++++-
 src/curves/ec1.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index 3438ffa..c1226af 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -2,13 +2,20 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec0 {
     x: Fq,
     y: Fq,
     z: Fq,
 }
 
+impl Default for Ec0 {
+    #[inline]
+    fn default() -> Self {
+        Self::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec0 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index 48410c0..a73706f 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -2,13 +2,20 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec1 {
     x: Fp,
     y: Fp,
     z: Fp,
 }
 
+impl Default for Ec1 {
+    #[inline]
+    fn default() -> Self {
+        Self::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec1 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
-- 
2.43.0


From f83d742a799c7386d98b009aa6ec7375ce255c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:24 +0000
Subject: [PATCH 11/11] fix: determinism_check rejects a second run that stops
 early

The check compared the operations of the second synthesis only as far as
it went, so a circuit that issued a strict prefix of the operations of its
first run passed. Once the second run has ended, no operation may be left.
---
 src/dev.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dev.rs b/src/dev.rs
index ecbe828..0740667 100644
--- a/src/dev.rs
+++ b/src/dev.rs
@@ -578,6 +578,9 @@ pub fn determinism_check<F: Field, C: Circuit<F>>(circuit: &C) -> Result<(), Syn
 
     circuit.synthesize(&mut enforce)?;
 
+    // The circuit must not have stopped early
+    assert!(enforce.events.next().is_none());
+
     Ok(())
 }
 
-- 
2.43.0

