From 09764c49f43140f96dcb57aa20194a96884bccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 1/9] hook: cfg(festa_mc) takes the parameter module from
 FESTA_MC_FIELDS

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 091f178..f67ad69 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,9 +1,17 @@
 #![allow(non_snake_case)]
+#![allow(unexpected_cfgs)]
 
 pub mod discrete_log;
 pub mod eccore;
 pub mod festa;
+#[cfg(not(festa_mc))]
 pub mod fields;
+/// Model-checking hook (`--cfg festa_mc`): same crate, with the parameters taken from the file named by
+/// the FESTA_MC_FIELDS environment variable at build time instead of src/fields.rs.
+#[cfg(festa_mc)]
+pub mod fields {
+    include!(env!("FESTA_MC_FIELDS"));
+}
 pub mod finitefield;
 pub mod isogeny;
 pub mod pairing;
-- 
2.43.0


From e813d8b8fb394a414f4811c8c26d05684d1b7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:38 +0000
Subject: [PATCH 2/9] fix: sqrt_floor overflowed for n above 65535^2

---
 src/discrete_log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discrete_log.rs b/src/discrete_log.rs
index 31e9b37..63e36fa 100644
--- a/src/discrete_log.rs
+++ b/src/discrete_log.rs
@@ -76,7 +76,7 @@ pub fn sqrt_floor(n: u32) -> u32 {
         }
     }
 
-    if b * b == n {
+    if (b as u64) * (b as u64) == n as u64 {
         return b;
     }
 
-- 
2.43.0


From 8db0ee28cdfccb5cdce157fa71f0f9f192d43871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:03 +0000
Subject: [PATCH 3/9] fix: mul by a zero-length integer read bits beyond the
 length

---
 src/eccore.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index bf6c4f5..b517851 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -638,7 +638,11 @@ macro_rules! define_ec_core {
                 let z1inf = !order1 & !order2 & !z0z & z1z;
                 let p1mp = !order1 & !order2 & !z0z & !z1z & x1ex;
 
-                let n_odd = ((n[0] as u32) & 1).wrapping_neg();
+                let n_odd = if nbitlen > 0 {
+                    ((n[0] as u32) & 1).wrapping_neg()
+                } else {
+                    0
+                };
                 P3.Z.set_cond(&Fq::ZERO, order1 | (order2 & !n_odd) | z0inf);
                 P3.set_cond(&P, z1inf | (order2 & n_odd));
                 P3.set_cond(&dP, p1mp);
-- 
2.43.0


From 3e24f97ac3ebb4fb972ba3327becef836d5b7d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:03 +0000
Subject: [PATCH 4/9] fix: CurveIsomorphism for A' = +-A and for the neutral
 point

---
 src/eccore.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index b517851..e74fdbf 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -811,14 +811,23 @@ macro_rules! define_ec_core {
                     "Given curves are not isomorphic!"
                 );
                 let (A2, A1) = (domain.get_constant(), codomain.get_constant());
-                let v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
-                    / (A1 * (Fq::THREE - A2.square()));
+                // When A1 = +-A2 the isomorphism is x -> +-x; the general
+                // formula would not give v = 0 there.
+                let v = if A1.square().equals(&A2.square()) != 0 {
+                    Fq::ZERO
+                } else {
+                    (A1.square() + A2.square().mul2() - Fq::THREE.square())
+                        / (A1 * (Fq::THREE - A2.square()))
+                };
                 let u = (Fq::THREE * v + A1) / A2;
                 let w = (u * u.square()).sqrt().0;
                 CurveIsomorphism { u, v, w }
             }
 
             pub fn eval(&self, P: &Point) -> Point {
+                if P.isinfinity() != 0 {
+                    return Point::INFINITY;
+                }
                 let (Px, Py) = P.to_xy();
                 let imP = Point::new_xy(&(self.u * Px + self.v), &(self.w * Py));
                 imP
-- 
2.43.0


From 24edf386e9d24afb1475df6fec51e63dde0443fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:23 +0000
Subject: [PATCH 5/9] fix: Weil pairing of neutral, dependent and lower-order
 points

---
 src/pairing.rs | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/pairing.rs b/src/pairing.rs
index bc47a42..bad0c73 100644
--- a/src/pairing.rs
+++ b/src/pairing.rs
@@ -34,14 +34,23 @@ fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
     result
 }
 
-/// Evaluate Tate pairing using Miller's algorithm
-/// If two points P and Q are linearly dependent, it outputs zero.
-/// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
-pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+/// Evaluate Miller's function of P at Q.
+/// The result is zero when Q is a zero or a pole of one of the lines, which
+/// only happens if Q is a multiple of P.
+fn miller(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
     let mut f = Fq::ONE;
     let mut V = P.clone();
 
     for t in (0..order.bits() - 1).rev() {
+        // Once V is the neutral point (the order of P is a proper divisor of
+        // the given order), the lines contribute a trivial factor.
+        if V.isinfinity() != 0 {
+            f = f.square();
+            if order.bit(t) {
+                V = *P;
+            }
+            continue;
+        }
         let S = E.double(&V);
         if S.isinfinity() == 0 {
             f = f.square() * eval_line(E, &V, &V, Q) / eval_line(E, &S, &-S, Q);
@@ -51,6 +60,10 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
         }
         V = S;
         if order.bit(t) {
+            if V.isinfinity() != 0 {
+                V = *P;
+                continue;
+            }
             let S = E.add(&V, P);
             if S.isinfinity() == 0 {
                 f = f * eval_line(E, &V, P, Q) / eval_line(E, &S, &-S, Q);
@@ -64,6 +77,19 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
     debug_assert!(V.isinfinity() != 0, "pairing point is invalid");
 
+    f
+}
+
+/// Evaluate Tate pairing using Miller's algorithm
+/// If P or Q is the neutral point, or Q is a zero or a pole of Miller's
+/// function of P, it outputs one.
+/// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
+pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+    if P.isinfinity() != 0 || Q.isinfinity() != 0 {
+        return Fq::ONE;
+    }
+
+    let f = miller(E, P, Q, order);
     if f.iszero() != 0 {
         return Fq::ONE;
     }
@@ -73,8 +99,17 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
 /// Computing Weil pairing of given two points using Tate pairing(Miller's algorithm).
 pub fn weil_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
-    let ePQ = tate_pairing(E, P, Q, order);
-    let eQP = tate_pairing(E, Q, P, order);
+    if P.isinfinity() != 0 || Q.isinfinity() != 0 {
+        return Fq::ONE;
+    }
+
+    let ePQ = miller(E, P, Q, order);
+    let eQP = miller(E, Q, P, order);
+
+    // The points are linearly dependent
+    if ePQ.iszero() != 0 || eQP.iszero() != 0 {
+        return Fq::ONE;
+    }
 
     if order.bit(0) {
         -ePQ / eQP
-- 
2.43.0


From 979f4187803b0566f3bd8fee1249f14e3497780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:15 +0000
Subject: [PATCH 6/9] fix: split theta points with vanishing coordinates

split_theta_point read both factors from pairs sharing one coordinate of
the other factor; when that coordinate is zero (points of order 4) the
pair is (0 : 0) and the image came out as the neutral element.
---
 src/theta.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 719c22e..b71c86c 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -950,10 +950,20 @@ macro_rules! define_theta_structure {
         /// Models of Kummer lines and Galois representation,
         /// Razvan Barbulescu, Damien Robert and Nicolas Sarkis
         fn split_theta_point(P: &ThetaPoint) -> ((Fq, Fq), (Fq, Fq)) {
-            let (a, b, _, d) = P.coords();
-
-            let P1 = (a, b);
-            let P2 = (b, d);
+            let (a, b, c, d) = P.coords();
+
+            // The coordinates are all the products of a coordinate of P1 with
+            // a coordinate of P2, so when the shared factor of a pair vanishes
+            // we have to read the ratio from the other pair
+            let mut P1 = (a, b);
+            let P1_check = a.iszero() & b.iszero();
+            P1.0.set_cond(&c, P1_check);
+            P1.1.set_cond(&d, P1_check);
+
+            let mut P2 = (b, d);
+            let P2_check = b.iszero() & d.iszero();
+            P2.0.set_cond(&a, P2_check);
+            P2.1.set_cond(&c, P2_check);
 
             (P1, P2)
         }
-- 
2.43.0


From 84cd71f7a25d192b55645120d56ba9249e7c6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 7/9] fix: decoding a malformed key or ciphertext is refused in
 every build profile

---
 src/festa.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/festa.rs b/src/festa.rs
index d7e75a8..71c88f3 100644
--- a/src/festa.rs
+++ b/src/festa.rs
@@ -102,12 +102,12 @@ impl SecretKey {
         let total_len = Fq::ENCODED_LENGTH * 9 + 82 * 2;
         let mut offset: usize = 0;
         let mut var = [Fq::ZERO; 9];
-        debug_assert_eq!(bytearray.len(), total_len);
+        assert_eq!(bytearray.len(), total_len, "wrong length");
 
         for i in 0..9 {
             let r: u32;
             (var[i], r) = Fq::decode(&bytearray[offset..offset + Fq::ENCODED_LENGTH]);
-            debug_assert_eq!(r, u32::MAX);
+            assert_eq!(r, u32::MAX, "not a field element");
             offset += Fq::ENCODED_LENGTH;
         }
         let a11 = BigUint::from_bytes_le(&bytearray[offset..offset + 82]);
@@ -177,12 +177,12 @@ impl TrapdoorOutput {
     pub fn decode(binary: &Vec<u8>) -> Self {
         let mut offset = 0;
         let mut var = [Fq::ZERO; 10];
-        debug_assert_eq!(binary.len(), Fq::ENCODED_LENGTH * 10);
+        assert_eq!(binary.len(), Fq::ENCODED_LENGTH * 10, "wrong length");
 
         for i in 0..10 {
             let r;
             (var[i], r) = Fq::decode(&binary[offset..offset + Fq::ENCODED_LENGTH]);
-            debug_assert_eq!(r, u32::MAX);
+            assert_eq!(r, u32::MAX, "not a field element");
             offset += Fq::ENCODED_LENGTH;
         }
 
-- 
2.43.0


From dcf9d17a7e1b1edeabfa434ed3315d492e0ebfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 8/9] fix: entangled basis: search enough candidates that every
 curve finds a point

---
 src/supersingular.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/supersingular.rs b/src/supersingular.rs
index 4b9a9c8..a9bef23 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -245,7 +245,7 @@ pub fn entangled_torsion_basis(E: &Curve, cofactor: &BigUint) -> (Point, Point)
         let mut T1 = Vec::<(Fq, Fq)>::new();
         let mut T2 = Vec::<(Fq, Fq)>::new();
         let mut r = Fq::ONE;
-        for _ in 0..30 {
+        for _ in 0..128 {
             let v = (Fq::ONE + &u * &r.square()).invert();
             if v.legendre() == 1 {
                 T2.push((r, v));
-- 
2.43.0


From dbbf6bc3a9197164b87482192299447b2e841d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:27 +0000
Subject: [PATCH 9/9] fix: splitting matrix for a theta null point that
 vanishes at (0,0)

Its rows were not independent (the signs of chi were lost), so a
two-isogeny chain whose last codomain has that zero was split into
the wrong pair of curves.
---
 src/theta.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index b71c86c..149cd07 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -891,9 +891,9 @@ macro_rules! define_theta_structure {
                 ],
                 [
                     Fq::ONE, Fq::ZETA, Fq::ONE, Fq::ZETA,
-                    Fq::ONE, Fq::MINUS_ZETA, Fq::ONE, Fq::ZETA,
-                    Fq::ONE, Fq::ZETA, Fq::ONE, Fq::MINUS_ZETA,
-                    Fq::ONE, Fq::ZETA, Fq::ONE, Fq::ZETA,
+                    Fq::ONE, Fq::MINUS_ZETA, Fq::MINUS_ONE, Fq::ZETA,
+                    Fq::ONE, Fq::ZETA, Fq::MINUS_ONE, Fq::MINUS_ZETA,
+                    Fq::MINUS_ONE, Fq::ZETA, Fq::MINUS_ONE, Fq::ZETA,
                 ],
             ];
 
-- 
2.43.0

