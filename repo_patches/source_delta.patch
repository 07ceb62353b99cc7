From db312694ac0ff3b9e4d352d988bcb49d9f8dc13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 01/14] fix: drop cancelled terms when multiplying polynomials

(x+1)*(x-1) kept a stored zero coefficient for x and so compared
unequal to x^2-1.
---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b350937..3266fad 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -117,6 +117,9 @@ impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let l = i.clone() * j;
             if let Some(lv) = pol.terms.get_mut(&l.monomial) {
                 *lv += &l.coef;
+                if lv.is_zero() {
+                    pol.terms.remove(&l.monomial);
+                }
             } else {
                 pol.terms.insert(l.monomial, l.coef);
             }
-- 
2.43.0


From a8c053922fead638e149dec449722d814146bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 02/14] fix: do not store zero coefficients when adding terms

x + (-x) and x + 0 produced polynomials with a stored zero coefficient
that is_zero() and == did not recognise.
---
 src/term.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/term.rs b/src/term.rs
index e39847d..a24a7c3 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -35,13 +35,7 @@ impl One for Term {
 }
 
 impl_op_ex!(+ |a: &Term, b: &Term| -> polynomial::Polynomial {
-    let mut pol = a.clone().to_pol();
-    if let Some(av) = pol.terms.get_mut(&b.monomial) {
-        *av += b.coef.clone(); 
-    } else {
-        pol.terms.insert(b.monomial, b.coef.clone());
-    }
-    pol
+    a.to_pol() + b.to_pol()
 });
 
 impl_op_ex!(* |a: &Term, b: &Term| -> Term {
-- 
2.43.0


From 5d5fb46b8c877e9d5dfb2414a054c5486dcee0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 03/14] fix: do not store a zero coefficient in Polynomial +=
 Term

Adding a zero term, as eval_x and eval_y do for a root, stored a zero
coefficient.
---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 3266fad..090caa9 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -64,7 +64,7 @@ impl_op_ex!(+= |a: &mut Polynomial, b: &term::Term| {
         if av.is_zero() {
             a.terms.remove(&b.monomial.clone());
         }
-    } else {
+    } else if !b.coef.is_zero() {
         a.terms.insert(b.monomial.clone(), b.coef.clone());
     }
 });
-- 
2.43.0


From 793da29ced6cd971a43a2cdb22c1a4924a5a3c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 04/14] fix: drop zero quotients when dividing by a monomial

(x + 4) / 2 stored a zero coefficient for x.
---
 src/polynomial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 090caa9..2fbbc9b 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -157,7 +157,9 @@ impl_op_ex!(/ |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let (m, coef) = b.terms.iter().next().unwrap();
             let u2 = term::Term::from(m, coef); 
             let u = i / &u2;
-            pol.terms.insert(u.monomial, u.coef);
+            if !u.coef.is_zero() {
+                pol.terms.insert(u.monomial, u.coef);
+            }
         }
         pol
     } else {
-- 
2.43.0


From 6ffc8551302512ad81212970d9bf8a805a6fb547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 05/14] fix: terminate polynomial_modular when the divisor is a
 constant

A zero remainder has x-degree 0, which is never below the degree of a
constant divisor, so the loop (and with it gcd of coprime polynomials)
never ended.
---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 2fbbc9b..2c0d30b 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -361,7 +361,7 @@ impl Polynomial {
         let mut r = self.clone();
         loop {
             let rh = r.highest_term_x();
-            if rh.xpow() < oh.xpow() {
+            if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
             let mut q = term_builder::TermBuilder::new()
-- 
2.43.0


From 8a1af16768c6bd43796a3e70c736fa3d596dd412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 06/14] fix: is_gcd_one compares the gcd with one

A gcd is never zero, so the test always answered true.
---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 2c0d30b..9054c54 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -443,7 +443,7 @@ impl Polynomial {
 
     pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
         let m = self.gcd(other, p);
-        return !m.is_zero();
+        return m == One::one();
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-- 
2.43.0


From 6d439383afbfb1c0aece6f6734ce418b3b66466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 07/14] fix: P + O is P

plus(P, O) mixed the x of P with the y and z of O.
---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 5c8e3c8..d191d77 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -103,7 +103,7 @@ impl EllipticCurve {
         if point1.is_infinity() {
             return ECPoint::new(&point2.x, &point2.y, &point2.z);
         } else if point2.is_infinity() {
-            return ECPoint::new(&point1.x, &point2.y, &point2.z);
+            return ECPoint::new(&point1.x, &point1.y, &point1.z);
         }
         let p1 = self.canonicalize(point1);
         let p2 = self.canonicalize(point2);
-- 
2.43.0


From 1ac7cca1e85ca3ad847dd3782635badc746cb37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 08/14] fix: negate the result of multiply_scalar for a
 negative scalar

(-n)P returned nP.
---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index d191d77..64956d0 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -185,7 +185,7 @@ impl EllipticCurve {
             return ECPoint::infinity();
         } else if n < &Zero::zero() {
             let minus_np = self.multiply_scalar(point, &(-n));
-            return self.plus(&ECPoint::infinity(), &minus_np);
+            return self.negate(&minus_np);
         } else if n == &One::one() {
             return point.clone();
         }
-- 
2.43.0


From cb2624dce468232a1e4218a6c60b6452634f80fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 09/14] fix: normalise the first row when solving linear
 equations

2 x = 4 was returned unsolved because back substitution skipped row 0.
---
 src/simultaneous_equation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simultaneous_equation.rs b/src/simultaneous_equation.rs
index c63f21d..4cfdb81 100644
--- a/src/simultaneous_equation.rs
+++ b/src/simultaneous_equation.rs
@@ -56,7 +56,7 @@ pub fn solve(matrix: &Vec<Vec<BigInt>>) -> Vec<Vec<BigInt>> {
 
     // (ii) Substitute
     let col_prim = col_count -1;
-    for i in num_iter::range(1, col_count - 1).rev() {
+    for i in num_iter::range(0, col_count - 1).rev() {
         // diagonal coef
         let diag = a[row[i]][i].clone();
         let prim = a[row[i]][col_prim].clone();
-- 
2.43.0


From cf553b3f1f8c64975bafdc5c1468d6cfbef595ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 10/14] fix: Polynomial::power_modulo with exponent zero is one

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9054c54..26e71b1 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -326,6 +326,9 @@ impl Polynomial {
 
     pub fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
         assert!(*n >= Zero::zero());
+        if n.is_zero() {
+            return One::one();
+        }
         let mut b = self % p;
         let mut r: Polynomial = One::one();
         let mut e = n.clone();
-- 
2.43.0


From b61d55d1dcb288a422071d73d6f4c06db12b7e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:34 +0000
Subject: [PATCH 11/14] fix: schoof y test used the wrong sign of phi in the
 chord slope term

---
 src/schoof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index a8e9c61..01abdf4 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -125,7 +125,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             let d = omg - &g * division_polynomial::psi(a, b, ql).power(3);
             let d = d.reduction_modular(a, b, q);
 
-            let mut e = - division_polynomial::phi(a, b, ql) +
+            let mut e = division_polynomial::phi(a, b, ql) +
                     TermBuilder::new().coef(2).xpow(q.pow(2)).build()
                     * division_polynomial::psi(a, b, ql).power(2);
             e.modular_assign(&qq);
-- 
2.43.0


From 0229f3f2346e93fa7cb991b8569982441dabed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:34 +0000
Subject: [PATCH 12/14] fix: schoof applied the addition formula where phi^2 P
 = +-q P on the l-torsion

---
 src/schoof.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/schoof.rs b/src/schoof.rs
index 01abdf4..89beb4c 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -86,9 +86,18 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
         let psi_l = &division_polynomial::psi(a, b, l) % q;
         println!("{} psi({}):{}", line!(), l, psi_l);
 
+        // (c) is there a point P of order l with x(phi^2 P) = x(ql P)?
+        let pc = TermBuilder::new().xpow(q.pow(2)).build()
+               * division_polynomial::psi(a, b, ql).power(2) - division_polynomial::phi(a, b, ql);
+        let pc = pc.reduction_modular(a, b, q);
+        let addable = pc.is_gcd_one(&psi_l, &qq);
+
         let mut found = false;
         let mut jj: i32 = Zero::zero();
         for j in num_iter::range(1, jmax + 1) {
+            if !addable {
+                break;
+            }
             println!("{} j:{}", line!(), j);
             // x
             let num2 = division_polynomial::phi(a, b, j).to_frob(q);
-- 
2.43.0


From feac5567fe2acc21424373d2b573acbcd24366e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:34 +0000
Subject: [PATCH 13/14] fix: schoof eigenvalue case tested the wrong
 polynomials

---
 src/schoof.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index 89beb4c..892ea97 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -209,25 +209,19 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 p12.modular_assign(&qq);
                 let p13 = p12.reduction_modular(a, b, q);
 
-                let p14 = &division_polynomial::psi(&qq, b, l) % q;
-
-                let qq = BigInt::from(q);
-                let p15 = p13.polynomial_modular(&p14, &qq);
-
-                if !p15.is_zero() {
+                if p13.is_gcd_one(&psi_l, &qq) {
                     mod_result.push(bigint::ModResult { l: BigInt::from(l), r: BigInt::from(0) });
                     println!("(e) y  a = 0 mod {}", l);
                 } else {
                     // (e) y
-                    let aa: i32 = a.clone().to_i32().unwrap();
-                    let mut p16 = (TermBuilder::new().ypow(aa).build()
-                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w)) /
-                            TermBuilder::new().ypow(1).build();
-                    p16.modular_assign(&qq);
-                    let p17 = p16.reduction_modular(a, b, q);
+                    let p16 = TermBuilder::new().ypow(q).build()
+                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w);
+                    let mut p17 = p16.reduction_modular(a, b, q);
+                    if p17.has_y() {
+                        p17 /= TermBuilder::new().ypow(1).build();
+                    }
                     let mut ww: BigInt;
-                    let qq = BigInt::from(q);
-                    if p17.is_gcd_one(&division_polynomial::psi(a, b, l), &qq) {
+                    if p17.is_gcd_one(&psi_l, &qq) {
                         ww = - BigInt::from(2) * w;
                     } else {
                         ww = BigInt::from(2) * w;
-- 
2.43.0


From 8764514bcc1d0409d777d84ebf7f30a28c7662b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:20 +0000
Subject: [PATCH 14/14] fix: isogeny used div_floor for residues and counted u
 twice per pair of points

---
 src/elliptic_curve.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 64956d0..3cd7b59 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -232,23 +232,22 @@ impl EllipticCurve {
     pub fn isogeny(&self, order: &BigInt) -> EllipticCurve {
         let pointvec = self.division_points(order);
         let points: vec::Vec<ECPoint> = pointvec.0.clone();
-        let is_odd_order = order.is_odd();
         let mut v = BigInt::from(0);
         let mut w = BigInt::from(0);
         for point in points {
             if !point.is_infinity() {
-                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).div_floor(&self.p);
-                let gpy = (- BigInt::from(2) * point.y).div_floor(&self.p);
-                let up = gpy.power(2).div_floor(&self.p);
-                let vp = if is_odd_order { gpx } else { gpx * BigInt::from(2) };
-                v += vp.clone();
-                w += up + point.x * vp;
+                // Velu's formulas, summed over the whole kernel: a point and its
+                // negative both occur, so each contributes half of the pair's share.
+                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).mod_floor(&self.p);
+                let up = (BigInt::from(2) * point.y.power(2)).mod_floor(&self.p);
+                v += gpx.clone();
+                w += up + point.x * gpx;
             }
         }
-        v = v.div_floor(&self.p);
-        w = w.div_floor(&self.p);
-        let a = (&self.a - BigInt::from(5) * v).div_floor(&self.p);
-        let b = (&self.b - BigInt::from(7) * w).div_floor(&self.p);
+        v = v.mod_floor(&self.p);
+        w = w.mod_floor(&self.p);
+        let a = (&self.a - BigInt::from(5) * v).mod_floor(&self.p);
+        let b = (&self.b - BigInt::from(7) * w).mod_floor(&self.p);
         EllipticCurve::new(&a, &b, &self.p)
     }
 }
-- 
2.43.0

