From 7467e99762e09986408f5f1bcfdf33764630b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:35 +0000
Subject: [PATCH 01/13] fix: EllStable back-substitution must use the stored
 factor, not the scratch triangle

update_core solved L'q = z with the lower (scratch) triangle of mq, so after the
first cut with a non-axis gradient the centre moved off the direction M*g and
the new ellipsoid lost points the cut keeps.
---
 src/ell_stable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index fcd9cb6..5f750d1 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -93,7 +93,7 @@ impl EllStable {
         let mut g_t = inv_md_inv_ml_g.clone();
         for i in (1..ndim).rev() {
             for j in i..ndim {
-                g_t[i - 1] -= self.mq.at(j, i - 1) * g_t[j];
+                g_t[i - 1] -= self.mq.at(i - 1, j) * g_t[j];
             }
         }
 
-- 
2.43.0


From 25e7332be3fdb571b822516fa9e1d23e5861408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:02 +0000
Subject: [PATCH 02/13] fix: EllStable::new_with_matrix must factor the given
 shape matrix

The matrix was stored as if it already were the factored form, so a non-diagonal
shape matrix described a different ellipsoid than documented (and than Ell).
---
 src/ell_stable.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index 5f750d1..b9a0ccf 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -19,13 +19,45 @@ impl EllStable {
         let helper = EllCalc::new(xc.len());
         EllStable {
             kappa,
-            mq,
+            mq: Self::factorize(mq),
             xc,
             helper,
             tsq: 0.0,
         }
     }
 
+    /// Factor a symmetric positive definite matrix as $$ UDU^T $$ (U unit upper triangular).
+    ///
+    /// Returns the representation `update_core` works on: D on the diagonal and $$ U^{-1} $$
+    /// above it. A diagonal matrix is its own representation.
+    fn factorize(mut mq: Arr) -> Arr {
+        let ndim = mq.rows();
+        for j in (1..ndim).rev() {
+            let pivot = mq.at(j, j);
+            for i in (0..j).rev() {
+                let val = mq.at(i, j);
+                if val == 0.0 {
+                    continue;
+                }
+                for k in 0..=i {
+                    let prod = val * mq.at(k, j) / pivot;
+                    *mq.at_mut(k, i) -= prod;
+                }
+                *mq.at_mut(i, j) = val / pivot;
+            }
+        }
+        for j in (1..ndim).rev() {
+            for i in (0..j).rev() {
+                let mut val = mq.at(i, j);
+                for k in (i + 1)..j {
+                    val += mq.at(i, k) * mq.at(k, j);
+                }
+                *mq.at_mut(i, j) = -val;
+            }
+        }
+        mq
+    }
+
     pub fn new(val: Arr, xc: Arr) -> EllStable {
         EllStable::new_with_matrix(1.0, Arr::from_diag(&val), xc)
     }
-- 
2.43.0


From d2b0651c926e12f356165eac6c86e47d051d617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:18 +0000
Subject: [PATCH 03/13] fix: EllStable keeps its shape when a cut reduces
 nothing (sigma = 0)

A successful cut with sigma = 0 (e.g. a shallow parallel cut with eta = 0) divided
by mu = 0 and filled the factors with NaN.
---
 src/ell_stable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index b9a0ccf..aee6a02 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -135,6 +135,11 @@ impl EllStable {
             self.xc[i] -= rho_over_omega * g_t[i];
         }
 
+        self.kappa *= delta;
+        if sigma == 0.0 {
+            return status; // the shape keeps its proportions
+        }
+
         // Rank-one update
         let mu_val = sigma / (1.0 - sigma);
         let mut oldt = omega / mu_val;
@@ -151,7 +156,6 @@ impl EllStable {
         }
         let temp = oldt + gg_t[last_idx];
         self.mq.data_mut()[last_idx * n + last_idx] *= oldt / temp;
-        self.kappa *= delta;
 
         status
     }
-- 
2.43.0


From 3ebb7827d70e2e9218a6a8ed6f502519d833e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:37 +0000
Subject: [PATCH 04/13] fix: calc_parallel_q handles slabs that reach beyond or
 miss the ellipsoid

A slab wholly behind the ellipsoid (beta1 < -tau) was answered with success or no
effect instead of no solution, and a near bound beyond -tau entered the closed form
although it is inactive, giving a wrong (even negative) scale factor.
---
 src/ell_calc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ell_calc.rs b/src/ell_calc.rs
index 40c7731..db90329 100644
--- a/src/ell_calc.rs
+++ b/src/ell_calc.rs
@@ -798,6 +798,11 @@ impl EllCalc {
             return self.calc_bias_cut_q(beta0, tsq);
         }
 
+        if beta1 < 0.0 && beta1 * beta1 > tsq {
+            return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // no sol'n
+        }
+
+        let beta0 = beta0.max(-tsq.sqrt()); // a bound beyond the ellipsoid is inactive
         let b0b1 = beta0 * beta1;
         let eta = tsq + self.n_f * b0b1;
         if eta <= 0.0 {
-- 
2.43.0


From 5e302c95df4ccfca8b3f6657682ad87eca5a0db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 05/13] fix: bsearch updates the caller's interval

The bounds were copied out of the &mut argument and never written back, so the
bracket that was found was lost.
---
 src/cutting_plane.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cutting_plane.rs b/src/cutting_plane.rs
index 6332811..1dd4cc8 100644
--- a/src/cutting_plane.rs
+++ b/src/cutting_plane.rs
@@ -444,23 +444,23 @@ where
 {
     // assume monotone
     // auto& [lower, upper] = I;
-    let &mut (mut lower, mut upper) = intrvl;
+    let (lower, upper) = intrvl;
     assert!(lower <= upper);
-    let u_orig = upper;
+    let u_orig = *upper;
 
     for niter in 0..options.max_iters {
-        let tau = (upper - lower) / 2.0;
+        let tau = (*upper - *lower) / 2.0;
         if tau < options.tolerance {
-            return (upper != u_orig, niter);
+            return (*upper != u_orig, niter);
         }
-        let mut gamma = lower; // l may be `i32` or `Fraction`
+        let mut gamma = *lower; // l may be `i32` or `Fraction`
         gamma += tau;
         if omega.assess_bs(gamma) {
             // feasible sol'n obtained
-            upper = gamma;
+            *upper = gamma;
         } else {
-            lower = gamma;
+            *lower = gamma;
         }
     }
-    (upper != u_orig, options.max_iters)
+    (*upper != u_orig, options.max_iters)
 }
-- 
2.43.0


From e30b80544f135c0abacddf0b6884f3fe863ce803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:04 +0000
Subject: [PATCH 06/13] fix: conjugate_gradient accepts an initial guess that
 already solves the system

With a zero right-hand side or an exact starting guess the first direction is zero
and the solver reported non-convergence.
---
 src/conjugate_gradient.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conjugate_gradient.rs b/src/conjugate_gradient.rs
index 4e31a21..773d1f6 100644
--- a/src/conjugate_gradient.rs
+++ b/src/conjugate_gradient.rs
@@ -35,6 +35,10 @@ pub fn conjugate_gradient(
     let mut direction = residual.clone();
     let mut residual_norm_sq = residual.dot(&residual);
 
+    if residual_norm_sq.sqrt() < tol {
+        return Ok(x);
+    }
+
     for _iter in 0..max_iter {
         let a_dir = a.dot_mv(&direction);
         let dir_dot_a_dir = direction.dot(&a_dir);
-- 
2.43.0


From 4b0ab8e1022c1e073cc2e646af8e472ff6a17e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:09 +0000
Subject: [PATCH 07/13] fix: power_iteration3 normalises the vector when the
 iteration limit stops it

Like the other variants, it must leave a unit-length vector in its argument.
---
 src/power_iteration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/power_iteration.rs b/src/power_iteration.rs
index 6fdbfa9..3d1d10b 100644
--- a/src/power_iteration.rs
+++ b/src/power_iteration.rs
@@ -169,6 +169,7 @@ pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
             }
         }
     }
+    *x /= x.dot(x).sqrt();
     (eigenval, options.max_iters)
 }
 
-- 
2.43.0


From ff600915d1cf6871b5c4d4853cea4c10bd7836a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 08/13] fix: create_lowpass_case builds a satisfiable
 passband/stopband mask

delta1 = 20 log10(delta*pi) is negative, which made the lower passband bound exceed
the upper one, so the standard case had no solution. Use the ripple 1 + delta for
the passband and delta itself for the stopband attenuation.
---
 src/oracles/lowpass_oracle.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oracles/lowpass_oracle.rs b/src/oracles/lowpass_oracle.rs
index 89a971f..3866600 100644
--- a/src/oracles/lowpass_oracle.rs
+++ b/src/oracles/lowpass_oracle.rs
@@ -1,6 +1,5 @@
 use crate::arr::{linspace, Arr};
 use crate::cutting_plane::{OracleFeas, OracleOptim, ParallelCut};
-use std::f64::consts::PI;
 
 pub type Cut = (Arr, ParallelCut);
 
@@ -151,10 +150,10 @@ impl OracleOptim<Arr> for LowpassOracle {
 }
 
 pub fn create_lowpass_case(ndim: usize) -> LowpassOracle {
-    let delta0_wpass = 0.025;
-    let delta0_wstop = 0.125;
-    let delta1 = 20.0 * (delta0_wpass * PI).log10();
-    let delta2 = 20.0 * (delta0_wstop * PI).log10();
+    let delta0_wpass: f64 = 0.025;
+    let delta0_wstop: f64 = 0.125;
+    let delta1 = 20.0 * (1.0 + delta0_wpass).log10();
+    let delta2 = 20.0 * delta0_wstop.log10();
 
     let low_pass = 10.0f64.powf(-delta1 / 20.0);
     let up_pass = 10.0f64.powf(delta1 / 20.0);
-- 
2.43.0


From f6b86dd0a5321258dbf2ee45ad0027b07ffae086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:10 +0000
Subject: [PATCH 09/13] fix: EllStable rank-one update must use the partial
 residuals of the forward solve

The update of the triangular factor used L[l][j]*w[j] instead of the residual
g[l] - sum_k L[l][k]*w[k], so off-diagonal factors never appeared (starting from a
ball the shape stayed diagonal) and the result was not M - sigma/omega Mg(Mg)'.
---
 src/ell_stable.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index aee6a02..c529291 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -94,9 +94,8 @@ impl EllStable {
         for i in 1..ndim {
             let row_start_i = i * n;
             for j in 0..i {
-                let val = self.mq.at(j, i) * inv_ml_g[j];
-                self.mq.data_mut()[row_start_i + j] = val;
-                inv_ml_g[i] -= val;
+                inv_ml_g[i] -= self.mq.at(j, i) * inv_ml_g[j];
+                self.mq.data_mut()[row_start_i + j] = inv_ml_g[i]; // for the rank-one update
             }
         }
 
-- 
2.43.0


From 5bfdcf5501c2a86fc64b0fe527634fc152429047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:13 +0000
Subject: [PATCH 10/13] fix: EllStable survives a cut that leaves a flat
 ellipsoid

With sigma = 1 (e.g. a cut tangent to the ellipsoid) and a gradient with leading
zeros the rank-one update computed 0/0; the NaN shape then accepted every cut and
the feasibility driver could return a NaN point for an infeasible problem.
---
 src/ell_stable.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index c529291..071d03e 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -144,6 +144,9 @@ impl EllStable {
         let mut oldt = omega / mu_val;
         let last_idx = ndim - 1;
         for j in 0..last_idx {
+            if gg_t[j] == 0.0 {
+                continue; // nothing to update (and 0/0 when oldt is zero as well)
+            }
             let temp = oldt + gg_t[j];
             let beta2 = inv_md_inv_ml_g[j] / temp;
             self.mq.data_mut()[j * n + j] *= oldt / temp;
@@ -153,8 +156,10 @@ impl EllStable {
             }
             oldt = temp;
         }
-        let temp = oldt + gg_t[last_idx];
-        self.mq.data_mut()[last_idx * n + last_idx] *= oldt / temp;
+        if gg_t[last_idx] != 0.0 {
+            let temp = oldt + gg_t[last_idx];
+            self.mq.data_mut()[last_idx * n + last_idx] *= oldt / temp;
+        }
 
         status
     }
-- 
2.43.0


From aed8a8411cb6a63194d37aed4b9b7990e7f7b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:56 +0000
Subject: [PATCH 11/13] fix: power_iteration3 rescales before the iterate
 underflows

---
 src/power_iteration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/power_iteration.rs b/src/power_iteration.rs
index 3d1d10b..ff67218 100644
--- a/src/power_iteration.rs
+++ b/src/power_iteration.rs
@@ -153,7 +153,7 @@ pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
         let eigenval_prev = eigenval;
         x.clone_from(&new_vec);
         dot = x.dot(x);
-        if dot >= 1e150 {
+        if dot >= 1e150 || dot <= 1e-150 {
             *x /= x.dot(x).sqrt();
             new_vec = a.dot_mv(x);
             eigenval = x.dot(&new_vec);
-- 
2.43.0


From 629d9c5bdb6df3fe15748fc0e9c8ca80349a790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:56 +0000
Subject: [PATCH 12/13] fix: Arr::rank_one_update rejects a non-square matrix

---
 src/arr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arr.rs b/src/arr.rs
index dfe616a..efba87d 100644
--- a/src/arr.rs
+++ b/src/arr.rs
@@ -470,6 +470,7 @@ impl Arr {
         assert!(self.is_2d());
         assert!(!u.is_2d());
         let n = self.rows;
+        assert_eq!(n, self.cols);
         assert_eq!(n, u.len());
         for i in 0..n {
             let ui = u[i];
-- 
2.43.0


From 2e766bc506a8ac4746388fd5f50ed7b476f661fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:53 +0000
Subject: [PATCH 13/13] fix: Python ProfitOracle no longer declares
 non-positive plans optimal

---
 python_ai/ellalgo/oracles/profit_oracle.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python_ai/ellalgo/oracles/profit_oracle.py b/python_ai/ellalgo/oracles/profit_oracle.py
index c499c43..13c07ab 100644
--- a/python_ai/ellalgo/oracles/profit_oracle.py
+++ b/python_ai/ellalgo/oracles/profit_oracle.py
@@ -120,6 +120,14 @@ class ProfitOracle(OracleOptim):
             beta = self.capacity - xc[0]  # x₁ - k ≤ 0 → β = k - x₁
             return (grad, beta), False
 
+        # Check positivity: the production function needs x > 0
+        for i in range(2):
+            if xc[i] <= 0.0:
+                # Violates x_i > 0: -x_i <= 0, so beta = x_i
+                grad = np.zeros(2)
+                grad[i] = -1.0
+                return (grad, xc[i]), False
+
         # Compute current profit (negative for minimization)
         current_profit = self._compute_profit(xc)
         current_objective = -current_profit  # Negative profit for minimization
-- 
2.43.0

