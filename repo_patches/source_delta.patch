From 7b19ed5bf66cd9ec8ac0df5b0804a64dc4af2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 01/74] fix: tanh of autodiff scalars saturates instead of
 overflowing to NaN

---
 crates/multicalc/src/scalar/numeric.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index 7b7553f..7ac694c 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -346,7 +346,15 @@ pub trait Numeric:
     /// Hyperbolic tangent.
     #[inline]
     fn tanh(self) -> Self {
-        self.sinh().safe_div(self.cosh())
+        // expm1 of a non-positive argument stays in [-1, 0], so large inputs saturate instead of
+        // overflowing to inf / inf.
+        let decay = (-(Self::TWO * self.abs())).expm1();
+        let magnitude = -decay / (decay + Self::TWO);
+        if self < Self::ZERO {
+            -magnitude
+        } else {
+            magnitude
+        }
     }
 
     /// Euclidean distance `√(self² + other²)`, scaled to avoid overflow and underflow.
-- 
2.43.0


From b795ecb600b14fa387eeb581812c39d17511e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 02/74] fix: integrate with an empty limit list is an error,
 not an index underflow panic

---
 .../src/numerical_integration/gaussian_integration.rs         | 4 ++++
 .../src/numerical_integration/iterative_integration.rs        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/multicalc/src/numerical_integration/gaussian_integration.rs b/crates/multicalc/src/numerical_integration/gaussian_integration.rs
index 2e36fcf..c71cb12 100644
--- a/crates/multicalc/src/numerical_integration/gaussian_integration.rs
+++ b/crates/multicalc/src/numerical_integration/gaussian_integration.rs
@@ -53,6 +53,10 @@ impl GaussianConfig {
         &self,
         integration_limit: &[[T; 2]; NUM_INTEGRATIONS],
     ) -> Result<(), IntegrateError> {
+        // no limits means no integration to perform
+        if integration_limit.is_empty() {
+            return Err(IntegrateError::LimitsIllDefined);
+        }
         for limit in integration_limit {
             let limits_ok = match self.integration_method {
                 GaussianQuadratureMethod::GaussLegendre => {
diff --git a/crates/multicalc/src/numerical_integration/iterative_integration.rs b/crates/multicalc/src/numerical_integration/iterative_integration.rs
index a8d2872..f499390 100644
--- a/crates/multicalc/src/numerical_integration/iterative_integration.rs
+++ b/crates/multicalc/src/numerical_integration/iterative_integration.rs
@@ -67,6 +67,10 @@ impl IterativeConfig {
         if self.total_iterations == 0 {
             return Err(IntegrateError::IterationsZero);
         }
+        // no limits means no integration to perform
+        if integration_limit.is_empty() {
+            return Err(IntegrateError::LimitsIllDefined);
+        }
 
         for limit in integration_limit {
             classify(limit)?;
-- 
2.43.0


From b672ac9046b1ec90ce753702dd0553178915cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 03/74] fix: Cholesky of a matrix with NaN entries is
 NotPositiveDefinite, not a NaN factor

---
 crates/multicalc/src/linear_algebra/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/cholesky.rs b/crates/multicalc/src/linear_algebra/cholesky.rs
index 702922f..19ab02a 100644
--- a/crates/multicalc/src/linear_algebra/cholesky.rs
+++ b/crates/multicalc/src/linear_algebra/cholesky.rs
@@ -47,7 +47,7 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
             for k in 0..j {
                 diag -= lower[(j, k)] * lower[(j, k)];
             }
-            if diag <= T::ZERO {
+            if diag.is_nan() || diag <= T::ZERO {
                 return Err(LinalgError::NotPositiveDefinite);
             }
             let ljj = diag.sqrt();
-- 
2.43.0


From 4c3da56f23bf13b35af56dc670a94f40ad22d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 04/74] fix: left singular vectors of a rank-deficient matrix
 are orthonormal

---
 crates/multicalc/src/linear_algebra/svd.rs | 44 ++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/svd.rs b/crates/multicalc/src/linear_algebra/svd.rs
index 5f24839..f0bc797 100644
--- a/crates/multicalc/src/linear_algebra/svd.rs
+++ b/crates/multicalc/src/linear_algebra/svd.rs
@@ -163,6 +163,36 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
             }
         }
 
+        // A column whose singular value is only rounding noise carries no direction of its own: make
+        // it orthogonal to the columns before it, so that `U` stays orthonormal.
+        // The test is by absorption into a multiple of the largest value, built by doubling.
+        let mut reference = if N == 0 { T::ZERO } else { singular_values[0] };
+        for _ in 0..7 {
+            reference += reference;
+        }
+        for k in 0..N {
+            if reference + singular_values[k] != reference {
+                continue;
+            }
+            let own = Vector::<M, T>::from_fn(|row| left[(row, k)]);
+            let mut best = orthogonal_to_columns(&left, k, own);
+            if best.norm_squared() < T::from_f64(0.25) {
+                for axis in 0..M {
+                    let unit =
+                        Vector::<M, T>::from_fn(|row| if row == axis { T::ONE } else { T::ZERO });
+                    let candidate = orthogonal_to_columns(&left, k, unit);
+                    if candidate.norm_squared() > best.norm_squared() {
+                        best = candidate;
+                    }
+                }
+            }
+            // a second pass removes what rounding left behind in a short remainder
+            let column = orthogonal_to_columns(&left, k, best.normalized()).normalized();
+            for i in 0..M {
+                left[(i, k)] = column[i];
+            }
+        }
+
         // Sign convention: the largest-magnitude entry of each left column is positive.
         for k in 0..N {
             let mut row = 0;
@@ -217,6 +247,20 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
     }
 }
 
+/// What is left of `vector` after removing its components along the first `count` columns.
+fn orthogonal_to_columns<const M: usize, const N: usize, T: Numeric>(
+    columns: &Matrix<M, N, T>,
+    count: usize,
+    vector: Vector<M, T>,
+) -> Vector<M, T> {
+    let mut remainder = vector;
+    for k in 0..count {
+        let column = Vector::<M, T>::from_fn(|row| columns[(row, k)]);
+        remainder -= column.scale(column.dot(remainder));
+    }
+    remainder
+}
+
 impl<const M: usize, const N: usize, T: Numeric> Svd<M, N, T> {
     /// The singular values, descending and non-negative.
     pub fn singular_values(&self) -> Vector<N, T> {
-- 
2.43.0


From ff85ceaaae1adbe257261b7565ed6be8554453bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 05/74] fix: matrix exponential of finite entries whose column
 sum overflows is NonFinite, not an endless loop

---
 crates/multicalc/src/linear_algebra/expm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/expm.rs b/crates/multicalc/src/linear_algebra/expm.rs
index 974f3f9..2e6ac33 100644
--- a/crates/multicalc/src/linear_algebra/expm.rs
+++ b/crates/multicalc/src/linear_algebra/expm.rs
@@ -35,6 +35,10 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
                 nrm = col;
             }
         }
+        // A column sum that overflows would never be halved down to 1/2.
+        if !nrm.is_finite() {
+            return Err(LinalgError::NonFinite);
+        }
         // Scale so ‖A / 2^s‖₁ ≤ 1/2. `squares` is that exponent and depends only on the primal, so it is AD-safe.
         let mut squares: i32 = 0;
         let mut scaled = nrm;
-- 
2.43.0


From c85ccf65067b3bbf817b2d0799673cc25a6c458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 06/74] fix: root finders no longer report an infinite point as
 a converged root

---
 crates/multicalc/src/root_finding/bisection.rs    | 15 +++++++++++----
 crates/multicalc/src/root_finding/brent.rs        |  5 +++--
 crates/multicalc/src/root_finding/newton.rs       |  3 +++
 .../multicalc/src/root_finding/newton_system.rs   |  3 +++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/root_finding/bisection.rs b/crates/multicalc/src/root_finding/bisection.rs
index 171febe..eaa6d07 100644
--- a/crates/multicalc/src/root_finding/bisection.rs
+++ b/crates/multicalc/src/root_finding/bisection.rs
@@ -81,7 +81,8 @@ impl<T: Numeric> Bisection<T> {
     ///
     /// Returns the root estimate and termination reason, or an error:
     /// [`NonFinite`](SolveError::NonFinite) if `f` returns a non-finite value,
-    /// [`InvalidBracket`](SolveError::InvalidBracket) if `f(a)` and `f(b)` share a sign, or
+    /// [`InvalidBracket`](SolveError::InvalidBracket) if `f(a)` and `f(b)` share a sign or an endpoint is
+    /// not finite, or
     /// [`DidNotConverge`](SolveError::DidNotConverge) if the budget is exhausted.
     pub fn solve<F: ScalarFn>(&self, f: &F, a: T, b: T) -> Result<RootReport<T>, SolveError> {
         let value_a = f.eval(a);
@@ -106,7 +107,7 @@ impl<T: Numeric> Bisection<T> {
                 termination: RootTermination::ResidualTolerance,
             });
         }
-        if same_sign(value_a, value_b) {
+        if !a.is_finite() || !b.is_finite() || same_sign(value_a, value_b) {
             return Err(SolveError::InvalidBracket);
         }
 
@@ -119,7 +120,13 @@ impl<T: Numeric> Bisection<T> {
         };
 
         for iter in 1..=self.max_iterations {
-            let mid = lower + (upper - lower) * T::HALF;
+            let width = upper - lower;
+            // A bracket wider than the largest number is halved endpoint by endpoint.
+            let mid = if width.is_finite() {
+                lower + width * T::HALF
+            } else {
+                lower * T::HALF + upper * T::HALF
+            };
             let fmid = f.eval(mid);
             if !fmid.is_finite() {
                 return Err(SolveError::NonFinite);
@@ -132,7 +139,7 @@ impl<T: Numeric> Bisection<T> {
                     termination: RootTermination::ResidualTolerance,
                 });
             }
-            if (upper - lower) <= self.xtol * (T::ONE + mid.abs()) {
+            if width <= self.xtol * (T::ONE + mid.abs()) {
                 return Ok(RootReport {
                     root: mid,
                     residual: fmid,
diff --git a/crates/multicalc/src/root_finding/brent.rs b/crates/multicalc/src/root_finding/brent.rs
index 1d0d8af..941fc32 100644
--- a/crates/multicalc/src/root_finding/brent.rs
+++ b/crates/multicalc/src/root_finding/brent.rs
@@ -80,7 +80,8 @@ impl<T: Numeric> Brent<T> {
     ///
     /// Returns the root estimate and termination reason, or an error:
     /// [`NonFinite`](SolveError::NonFinite) if `f` returns a non-finite value,
-    /// [`InvalidBracket`](SolveError::InvalidBracket) if `f(a)` and `f(b)` share a sign, or
+    /// [`InvalidBracket`](SolveError::InvalidBracket) if `f(a)` and `f(b)` share a sign or an endpoint is
+    /// not finite, or
     /// [`DidNotConverge`](SolveError::DidNotConverge) if the budget is exhausted.
     pub fn solve<F: ScalarFn>(&self, f: &F, a: T, b: T) -> Result<RootReport<T>, SolveError> {
         let mut f_at_a = f.eval(a);
@@ -105,7 +106,7 @@ impl<T: Numeric> Brent<T> {
                 termination: RootTermination::ResidualTolerance,
             });
         }
-        if same_sign(f_at_a, f_at_b) {
+        if !a.is_finite() || !b.is_finite() || same_sign(f_at_a, f_at_b) {
             return Err(SolveError::InvalidBracket);
         }
 
diff --git a/crates/multicalc/src/root_finding/newton.rs b/crates/multicalc/src/root_finding/newton.rs
index 77cd188..c3c6f4a 100644
--- a/crates/multicalc/src/root_finding/newton.rs
+++ b/crates/multicalc/src/root_finding/newton.rs
@@ -178,6 +178,9 @@ impl<D: DerivatorSingleVariable> Newton<D> {
                 tries += 1;
             };
 
+            if !x_new.is_finite() {
+                return Err(SolveError::NonFinite);
+            }
             let step_taken = (x_new - x).abs();
             x = x_new;
             residual = residual_new;
diff --git a/crates/multicalc/src/root_finding/newton_system.rs b/crates/multicalc/src/root_finding/newton_system.rs
index 0744024..181cd36 100644
--- a/crates/multicalc/src/root_finding/newton_system.rs
+++ b/crates/multicalc/src/root_finding/newton_system.rs
@@ -193,6 +193,9 @@ impl<D: DerivatorMultiVariable> NewtonSystem<D> {
                 tries += 1;
             };
 
+            if !all_finite(&x_new) {
+                return Err(SolveError::NonFinite);
+            }
             let step_norm = alpha * enorm(step.as_array());
             let xnorm = enorm(&x_new);
             x = x_new;
-- 
2.43.0


From 01c64f0e738b396f17ced1318e848737c01be028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 07/74] fix: Levenberg-Marquardt with column scaling off uses
 the documented identity scaling

---
 crates/multicalc/src/optimization/levenberg_marquardt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/optimization/levenberg_marquardt.rs b/crates/multicalc/src/optimization/levenberg_marquardt.rs
index e1ef9ab..3eb8f77 100644
--- a/crates/multicalc/src/optimization/levenberg_marquardt.rs
+++ b/crates/multicalc/src/optimization/levenberg_marquardt.rs
@@ -172,7 +172,7 @@ impl<D: DerivatorMultiVariable> LevenbergMarquardt<D> {
 
             if first {
                 for (slot, &column_norm) in diag.iter_mut().zip(dls.column_norms.iter()) {
-                    *slot = if column_norm == zero {
+                    *slot = if !self.scale_diag || column_norm == zero {
                         one
                     } else {
                         column_norm
-- 
2.43.0


From 937c41a648c06cea1fd55d244bd0570a78862d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 08/74] fix: Gauss-Newton no longer reports an infinite iterate
 as converged

---
 crates/multicalc/src/optimization/gauss_newton.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/multicalc/src/optimization/gauss_newton.rs b/crates/multicalc/src/optimization/gauss_newton.rs
index 1577141..30f750d 100644
--- a/crates/multicalc/src/optimization/gauss_newton.rs
+++ b/crates/multicalc/src/optimization/gauss_newton.rs
@@ -209,6 +209,9 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
                 tries += 1;
             };
 
+            if !is_finite(&x_new) {
+                return Err(SolveError::NonFinite);
+            }
             let step_norm = alpha * enorm(step.as_array());
             let previous_fnorm = fnorm;
             x = x_new;
-- 
2.43.0


From 7f8193e7f6e8661486f3c88ebe82a1c287dc16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 09/74] fix: the last RK45 step ends at the final time, so a
 grid ending there is always covered

---
 crates/multicalc/src/ode/rk45.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 3438892..e90dea9 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -366,8 +366,14 @@ impl<T: Numeric> Rk45<T> {
             if accept {
                 // Kahan-compensated time += h.
                 let delta = h - kahan_c;
-                let tnew = time + delta;
+                let mut tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
+                // The last step ends at `time_final` itself, not a rounding error short of it.
+                let finished =
+                    (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs());
+                if finished {
+                    tnew = time_final;
+                }
                 let step = Step {
                     time_start: time,
                     time_end: tnew,
@@ -380,7 +386,7 @@ impl<T: Numeric> Rk45<T> {
                 time = tnew;
                 y = state5;
                 stage1 = stage7; // FSAL
-                if (time_final - time).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                if finished {
                     return Ok(y);
                 }
             }
-- 
2.43.0


From 4ff206c1e5c1024e563b34204f8a7e225e73502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 10/74] fix: dense output of an RK45 step below the time
 resolution is its start state, not NaN

---
 crates/multicalc/src/ode/rk45.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index e90dea9..e9b0a6e 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -27,7 +27,12 @@ impl<const N: usize, T: Numeric> Step<N, T> {
     /// and `state_end` at `time_end` exactly.
     pub fn interpolate(&self, time: T) -> Vector<N, T> {
         let h = self.time_end - self.time_start;
-        let frac = (time - self.time_start) / h; // normalized position in [0, 1]
+        // Normalized position in [0, 1]; a step below the time resolution has no width.
+        let frac = if h == T::ZERO {
+            T::ZERO
+        } else {
+            (time - self.time_start) / h
+        };
         let frac2 = frac * frac;
         let frac3 = frac2 * frac;
         let three = T::from_f64(3.0);
-- 
2.43.0


From d16faa56197382cd43d073ac86a9dc926eff97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 11/74] fix: an RK45 step clipped to the remaining time ends at
 the final time, not past it

---
 crates/multicalc/src/ode/rk45.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index e9b0a6e..c43a4ff 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -373,9 +373,9 @@ impl<T: Numeric> Rk45<T> {
                 let delta = h - kahan_c;
                 let mut tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
-                // The last step ends at `time_final` itself, not a rounding error short of it.
-                let finished =
-                    (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs());
+                // The last step ends at `time_final` itself, not a rounding error short of or past it.
+                let finished = h == remaining
+                    || (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs());
                 if finished {
                     tnew = time_final;
                 }
-- 
2.43.0


From 4d651205adecf618a521d8542b188e0940849dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 12/74] fix: RK45's initial step is not zero when its probe
 leaves the finite range

---
 crates/multicalc/src/ode/rk45.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index c43a4ff..d482041 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -276,7 +276,8 @@ impl<T: Numeric> Rk45<T> {
             T::from_f64(1e-6)
         } else {
             T::from_f64(0.01) * norm0 / norm1
-        };
+        }
+        .min(span);
         let state_end = *state_start + derivative_start.scale(dir * step0);
         let derivative_end = f(time_start + dir * step0, &state_end);
         let norm2 = scaled_norm(
@@ -285,11 +286,17 @@ impl<T: Numeric> Rk45<T> {
             self.atol,
             self.rtol,
         ) / step0;
+        // A probe that left the finite range says nothing about the slope at the start.
+        let norm = if norm2.is_finite() {
+            norm1.max(norm2)
+        } else {
+            norm1
+        };
         // exponent 1/(p+1) with method order p = 5
-        let step1 = if norm1.max(norm2) <= T::from_f64(1e-15) {
+        let step1 = if norm <= T::from_f64(1e-15) {
             (step0 * T::from_f64(1e-3)).max(T::from_f64(1e-6))
         } else {
-            (T::from_f64(0.01) / norm1.max(norm2)).powf(T::ONE / T::from_f64(6.0))
+            (T::from_f64(0.01) / norm).powf(T::ONE / T::from_f64(6.0))
         };
         let h = (T::from_f64(100.0) * step0)
             .min(step1)
-- 
2.43.0


From fee7e7b50c0a72a29900c4900b449fdc47b00e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 13/74] fix: the single real root of a cubic is neither NaN nor
 cancelled away

---
 crates/multicalc/src/polynomial/roots.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4ad3109..c75725a 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -225,12 +225,15 @@ impl<T: Numeric> Polynomial<4, T> {
                 roots.push(radius * (angle / three - turn).cos() + slide);
             }
         } else {
-            // One real root, from the sum of two cube roots.
+            // One real root, from the sum of two cube roots. Their product is known, so only the one
+            // that adds like signs is taken as a cube root: the other would cancel.
             let half_constant = -reduced_constant * T::HALF;
             let spread = (reduced_constant * reduced_constant / four
                 + reduced_linear.powi(3) / twenty_seven)
+                .max(T::ZERO)
                 .sqrt();
-            roots.push((half_constant + spread).cbrt() + (half_constant - spread).cbrt() + slide);
+            let larger = (half_constant + spread.copysign(half_constant)).cbrt();
+            roots.push(larger - reduced_linear / (three * larger) + slide);
         }
         roots.sort_ascending();
         Ok(roots)
-- 
2.43.0


From 2b893234b1b876e93ff111f4aff3f7d7f352e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 14/74] fix: quartics symmetric about the mean of their roots
 keep their real roots

---
 crates/multicalc/src/polynomial/roots.rs | 49 +++++++++++++++++-------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index c75725a..b141f00 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -280,7 +280,22 @@ impl<T: Numeric> Polynomial<5, T> {
             / (two_hundred_fifty_six * quartic.powi(4));
 
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
+        // coefficient is negative unless only even powers are left, so it has a positive root, and
+        // the largest root is the one that works.
+        let helper = Polynomial::<4, T>::new([
+            -reduced_linear * reduced_linear,
+            T::TWO * reduced_quadratic * reduced_quadratic - eight * reduced_constant,
+            eight * reduced_quadratic,
+            eight,
+        ]);
+        let largest = if reduced_linear == T::ZERO {
+            T::ZERO
+        } else {
+            let closed_form = helper.real_roots()?.as_slice().last().copied();
+            refine_root_near_zero(&helper, closed_form.unwrap_or(T::ZERO))
+        };
+        if largest <= T::ZERO {
             // Only even powers are left, so solve for y² and take both square roots of each answer.
             let squares = Polynomial::<3, T>::new([reduced_constant, reduced_quadratic, T::ONE])
                 .real_roots()?;
@@ -292,18 +307,6 @@ impl<T: Numeric> Polynomial<5, T> {
                 }
             }
         } else {
-            // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
-            // coefficient is negative, so it always has a positive root, and the largest root is
-            // the one that works.
-            let helper = Polynomial::<4, T>::new([
-                -reduced_linear * reduced_linear,
-                T::TWO * reduced_quadratic * reduced_quadratic - eight * reduced_constant,
-                eight * reduced_quadratic,
-                eight,
-            ])
-            .real_roots()?;
-            let largest = helper.as_slice().last().copied().unwrap_or(T::ZERO);
-
             let separation = (T::TWO * largest).sqrt();
             let shared = reduced_quadratic * T::HALF + largest;
             let apart = reduced_linear / (T::TWO * separation);
@@ -323,6 +326,26 @@ impl<T: Numeric> Polynomial<5, T> {
     }
 }
 
+/// A root that is known not to be negative, taken from its closed form to full relative accuracy.
+///
+/// The closed form is off by a rounding error of the coefficients, which swamps a root close to zero
+/// and can even flip its sign. Newton steps are kept for as long as they bring the value down.
+fn refine_root_near_zero<T: Numeric>(polynomial: &Polynomial<4, T>, closed_form: T) -> T {
+    let mut root = closed_form.max(T::ZERO);
+    let [mut value, mut slope] = polynomial.evaluate_with_derivatives::<2>(root);
+    for _ in 0..8 {
+        let next = (root - value / slope).max(T::ZERO);
+        let [next_value, next_slope] = polynomial.evaluate_with_derivatives::<2>(next);
+        if next_value.abs() >= value.abs() || !next_value.is_finite() {
+            break;
+        }
+        root = next;
+        value = next_value;
+        slope = next_slope;
+    }
+    root
+}
+
 /// What is left of `dividend` after taking out as many copies of `divisor` as fit.
 ///
 /// Both sides and the answer are the same size, which is what lets a whole chain of these sit in
-- 
2.43.0


From a5da4704ec7cedd59ac104b1acca42aa20bdd053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 15/74] fix: specks left by cancellation no longer count as
 signs when counting roots

---
 crates/multicalc/src/polynomial/roots.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index b141f00..b7658c8 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -349,7 +349,9 @@ fn refine_root_near_zero<T: Numeric>(polynomial: &Polynomial<4, T>, closed_form:
 /// What is left of `dividend` after taking out as many copies of `divisor` as fit.
 ///
 /// Both sides and the answer are the same size, which is what lets a whole chain of these sit in
-/// one array. The answer's coefficients at and above the divisor's degree are zero.
+/// one array. The answer's coefficients at and above the divisor's degree are zero, and so is any
+/// other no larger than the rounding of the numbers it was cancelled from. Those are meant to
+/// vanish, and a speck left in their place would be divided by next, or counted as a sign.
 fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
     dividend: &Polynomial<COEFFICIENT_COUNT, T>,
     divisor: &Polynomial<COEFFICIENT_COUNT, T>,
@@ -358,6 +360,8 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
     let divisor_highest = divisor.coefficient(divisor_degree)?;
 
     let mut working = *dividend.coefficients();
+    // The largest number each coefficient has been, or had taken from it, on the way.
+    let mut largest = working.map(|coefficient| coefficient.abs());
     let mut power = COEFFICIENT_COUNT;
     while power > divisor_degree {
         power -= 1;
@@ -368,8 +372,13 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
         let share = highest / divisor_highest;
         let offset = power - divisor_degree;
         for (divisor_power, divisor_coefficient) in divisor.coefficients().iter().enumerate() {
-            if let Some(slot) = working.get_mut(offset + divisor_power) {
-                *slot -= share * *divisor_coefficient;
+            if let (Some(slot), Some(size)) = (
+                working.get_mut(offset + divisor_power),
+                largest.get_mut(offset + divisor_power),
+            ) {
+                let taken = share * *divisor_coefficient;
+                *slot -= taken;
+                *size = size.max(taken.abs());
             }
         }
         // The subtraction is meant to clear this power exactly; rounding can leave a speck.
@@ -377,6 +386,13 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
             *slot = T::ZERO;
         }
     }
+
+    let rounding = T::from_usize(32 * COEFFICIENT_COUNT) * T::EPSILON;
+    for (slot, size) in working.iter_mut().zip(largest) {
+        if slot.abs() <= rounding * size {
+            *slot = T::ZERO;
+        }
+    }
     Some(Polynomial::new(working))
 }
 
-- 
2.43.0


From 695c91ae3d67718baf77cc697cf49234e5ba2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:41 +0000
Subject: [PATCH 16/74] fix: root counting drops only what rounding left, so
 f32 keeps close roots apart

---
 crates/multicalc/src/polynomial/roots.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index b7658c8..85f585c 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -387,7 +387,7 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
         }
     }
 
-    let rounding = T::from_usize(32 * COEFFICIENT_COUNT) * T::EPSILON;
+    let rounding = T::from_f64(16.0) * T::EPSILON;
     for (slot, size) in working.iter_mut().zip(largest) {
         if slot.abs() <= rounding * size {
             *slot = T::ZERO;
-- 
2.43.0


From edee9d805e74775b97b90e195c92c5254faa823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 17/74] fix: a cubic's tripled root is reported three times

---
 crates/multicalc/src/polynomial/roots.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 85f585c..169596c 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -207,7 +207,12 @@ impl<T: Numeric> Polynomial<4, T> {
             / (twenty_seven * cubic * cubic * cubic);
 
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        if reduced_linear == T::ZERO && reduced_constant == T::ZERO {
+            // A single root repeated three times.
+            for _ in 0..3 {
+                roots.push(slide);
+            }
+        } else if reduced_linear == T::ZERO {
             roots.push((-reduced_constant).cbrt() + slide);
         } else if four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant
             <= T::ZERO
-- 
2.43.0


From 3529403c46efb302e03b70b677e7405e6ef4c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 18/74] fix: closed-form roots keep the derivatives of
 coefficients their shortcuts skip

---
 crates/multicalc/src/polynomial/roots.rs | 28 ++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 169596c..aabeb10 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -240,6 +240,7 @@ impl<T: Numeric> Polynomial<4, T> {
             let larger = (half_constant + spread.copysign(half_constant)).cbrt();
             roots.push(larger - reduced_linear / (three * larger) + slide);
         }
+        refine_simple_roots(self, &mut roots);
         roots.sort_ascending();
         Ok(roots)
     }
@@ -326,11 +327,38 @@ impl<T: Numeric> Polynomial<5, T> {
                 }
             }
         }
+        refine_simple_roots(self, &mut roots);
         roots.sort_ascending();
         Ok(roots)
     }
 }
 
+/// Settles each root against the polynomial itself.
+///
+/// The formulas take a shortcut where a coefficient of the shifted polynomial is zero, and what that
+/// coefficient does to the roots when it moves is lost on the way. A Newton step leaves a root where
+/// it is and puts its derivatives right; the second one carries that to the higher orders. A
+/// repeated root has no derivative, and stays as it is.
+fn refine_simple_roots<const COEFFICIENT_COUNT: usize, const MAX_ROOTS: usize, T: Numeric>(
+    polynomial: &Polynomial<COEFFICIENT_COUNT, T>,
+    roots: &mut RealRoots<MAX_ROOTS, T>,
+) {
+    for root in roots.values.iter_mut().take(roots.length) {
+        for _ in 0..2 {
+            let [value, slope] = polynomial.evaluate_with_derivatives::<2>(*root);
+            let next = *root - value / slope;
+            // How much of a value here can be rounding.
+            let terms = Polynomial::new(polynomial.coefficients().map(|c| c.abs()));
+            let rounding =
+                T::from_usize(COEFFICIENT_COUNT) * T::EPSILON * terms.evaluate(root.abs());
+            if !next.is_finite() || polynomial.evaluate(next).abs() > value.abs().max(rounding) {
+                break;
+            }
+            *root = next;
+        }
+    }
+}
+
 /// A root that is known not to be negative, taken from its closed form to full relative accuracy.
 ///
 /// The closed form is off by a rounding error of the coefficients, which swamps a root close to zero
-- 
2.43.0


From 7024c979bb7a6841a1dd4bde5b1486e2a2af5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 19/74] fix: SE2 exp, log and Jacobians keep their accuracy at
 small angles

---
 crates/multicalc/src/spatial/lie/se2.rs | 99 ++++++++++++-------------
 1 file changed, 47 insertions(+), 52 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/se2.rs b/crates/multicalc/src/spatial/lie/se2.rs
index c5ba7a6..5e1d36f 100644
--- a/crates/multicalc/src/spatial/lie/se2.rs
+++ b/crates/multicalc/src/spatial/lie/se2.rs
@@ -5,7 +5,45 @@ use core::ops::Mul;
 use crate::linear_algebra::{Matrix, Matrix3D, Vector, Vector2D, Vector3D};
 use crate::scalar::Numeric;
 use crate::spatial::lie::SO2;
-use crate::spatial::small_angle_sq;
+use crate::spatial::small_angle_so3_sq;
+
+/// `(sinθ/θ, (1−cosθ)/θ², (θ−sinθ)/θ²)`, the coefficients of the `V(θ)` block and its integral.
+///
+/// The last two subtract nearly equal numbers well before θ reaches zero, so the series takes over
+/// where it is the more accurate of the two, and `1−cosθ` is taken as `2·sin²(θ/2)` past that.
+fn angle_ratios<T: Numeric>(omega: T) -> (T, T, T) {
+    let theta_sq = omega * omega;
+    let (_, threshold) = small_angle_so3_sq::<T>();
+    if theta_sq < threshold {
+        let theta4 = theta_sq * theta_sq;
+        (
+            T::ONE - theta_sq / T::from_f64(6.0) + theta4 / T::from_f64(120.0),
+            T::HALF - theta_sq / T::from_f64(24.0) + theta4 / T::from_f64(720.0),
+            omega
+                * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)
+                    + theta4 / T::from_f64(5040.0)),
+        )
+    } else {
+        let half_ratio = (omega * T::HALF).sin() / omega;
+        (
+            omega.sin() / omega,
+            T::TWO * half_ratio * half_ratio,
+            (omega - omega.sin()) / theta_sq,
+        )
+    }
+}
+
+/// `(θ/2)·cot(θ/2)`, the diagonal of the inverse of the `V(θ)` block.
+fn half_cotangent<T: Numeric>(omega: T) -> T {
+    let theta_sq = omega * omega;
+    let (_, threshold) = small_angle_so3_sq::<T>();
+    if theta_sq < threshold {
+        T::ONE - theta_sq / T::from_f64(12.0) - theta_sq * theta_sq / T::from_f64(720.0)
+    } else {
+        let half = omega * T::HALF;
+        half * (half.cos() / half.sin())
+    }
+}
 
 /// A 2D rigid-body transform: a rotation and a translation. The tangent is `[vx, vy, ω]`.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -82,15 +120,8 @@ impl<T: Numeric> SE2<T> {
     #[must_use]
     pub fn exp(twist: Vector3D<T>) -> Self {
         let [lin_x, lin_y, omega] = *twist.as_array();
-        let theta_sq = omega * omega;
-        let (a, b) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::ONE - theta_sq / T::from_f64(6.0),
-                omega * (T::HALF - theta_sq / T::from_f64(24.0)),
-            )
-        } else {
-            (omega.sin() / omega, (T::ONE - omega.cos()) / omega)
-        };
+        let (a, p_coeff, _) = angle_ratios(omega);
+        let b = omega * p_coeff;
         let translation = Vector::new([a * lin_x - b * lin_y, b * lin_x + a * lin_y]);
         SE2 {
             rotation: SO2::exp(omega),
@@ -102,13 +133,7 @@ impl<T: Numeric> SE2<T> {
     #[inline]
     pub fn log(self) -> Vector3D<T> {
         let omega = self.rotation.log();
-        let theta_sq = omega * omega;
-        let (alpha, beta) = if theta_sq < small_angle_sq::<T>() {
-            (T::ONE - theta_sq / T::from_f64(12.0), omega * T::HALF)
-        } else {
-            let half = omega * T::HALF;
-            (half * (half.cos() / half.sin()), half)
-        };
+        let (alpha, beta) = (half_cotangent(omega), omega * T::HALF);
         let [pos_x, pos_y] = *self.translation.as_array();
         Vector::new([
             alpha * pos_x + beta * pos_y,
@@ -206,24 +231,9 @@ impl<T: Numeric> SE2<T> {
     #[inline]
     pub fn left_jacobian(twist: Vector3D<T>) -> Matrix3D<T> {
         let [rho_x, rho_y, omega] = *twist.as_array();
-        let theta_sq = omega * omega;
-        // a = sinθ/θ, b = (1−cosθ)/θ (the V(θ) block); p = (1−cosθ)/θ², r = (θ−sinθ)/θ² (q).
-        let (a, b, p_coeff, r_coeff) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::ONE - theta_sq / T::from_f64(6.0),
-                omega * (T::HALF - theta_sq / T::from_f64(24.0)),
-                T::HALF - theta_sq / T::from_f64(24.0),
-                omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
-            )
-        } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            (
-                sin / omega,
-                (T::ONE - cos) / omega,
-                (T::ONE - cos) / theta_sq,
-                (omega - sin) / theta_sq,
-            )
-        };
+        // a = sinθ/θ, b = (1−cosθ)/θ (the V(θ) block); p = (1−cosθ)/θ², r = (θ−sinθ)/θ².
+        let (a, p_coeff, r_coeff) = angle_ratios(omega);
+        let b = omega * p_coeff;
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
         Matrix::new([
@@ -244,25 +254,10 @@ impl<T: Numeric> SE2<T> {
     #[inline]
     pub fn left_jacobian_inverse(twist: Vector3D<T>) -> Matrix3D<T> {
         let [rho_x, rho_y, omega] = *twist.as_array();
-        let theta_sq = omega * omega;
-        // p = (1−cosθ)/θ², r = (θ−sinθ)/θ²: the coupling coefficients of the forward Jacobian.
-        let (p_coeff, r_coeff) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::HALF - theta_sq / T::from_f64(24.0),
-                omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
-            )
-        } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            ((T::ONE - cos) / theta_sq, (omega - sin) / theta_sq)
-        };
+        let (_, p_coeff, r_coeff) = angle_ratios(omega);
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
-        let (alpha, beta) = if theta_sq < small_angle_sq::<T>() {
-            (T::ONE - theta_sq / T::from_f64(12.0), omega * T::HALF)
-        } else {
-            let half = omega * T::HALF;
-            (half * (half.cos() / half.sin()), half)
-        };
+        let (alpha, beta) = (half_cotangent(omega), omega * T::HALF);
         let corr_x = -(alpha * coupling_x + beta * coupling_y);
         let corr_y = -(-beta * coupling_x + alpha * coupling_y);
         Matrix::new([
-- 
2.43.0


From c4cf213fb1dbc719ffc4b12e205251c114fb9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 20/74] fix: SO3::from_two_direction_pairs rejects parallel
 directions of any length

---
 crates/multicalc/src/spatial/lie/so3.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/so3.rs b/crates/multicalc/src/spatial/lie/so3.rs
index 53d0f7e..82845b8 100644
--- a/crates/multicalc/src/spatial/lie/so3.rs
+++ b/crates/multicalc/src/spatial/lie/so3.rs
@@ -203,13 +203,11 @@ impl<T: Numeric> SO3<T> {
         }
 
         let observed_first = primary_observed.try_normalized()?;
-        let observed_third = observed_first.cross(secondary_observed).try_normalized()?;
+        let observed_third = perpendicular(observed_first, secondary_observed)?;
         let observed_second = observed_third.cross(observed_first);
 
         let reference_first = primary_reference.try_normalized()?;
-        let reference_third = reference_first
-            .cross(secondary_reference)
-            .try_normalized()?;
+        let reference_third = perpendicular(reference_first, secondary_reference)?;
         let reference_second = reference_third.cross(reference_first);
 
         // Each set of axes goes in as columns, so the product carries body directions to world
@@ -278,6 +276,16 @@ impl<T: Numeric> SO3<T> {
     }
 }
 
+/// The unit direction square to both `first` (already unit) and `second`, or `None` when the two
+/// are parallel to within rounding.
+fn perpendicular<T: Numeric>(first: Vector3D<T>, second: Vector3D<T>) -> Option<Vector3D<T>> {
+    let cross = first.cross(second.try_normalized()?);
+    if cross.norm() <= T::EPSILON_X30 {
+        return None;
+    }
+    cross.try_normalized()
+}
+
 impl<T: Numeric> Mul for SO3<T> {
     type Output = Self;
     #[inline]
-- 
2.43.0


From 8855d4d8b40ee7110a11f7b593afbce4b469d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 21/74] fix: Quaternion::log small-angle branch is relative to
 the norm

---
 crates/multicalc/src/spatial/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/spatial/quaternion.rs b/crates/multicalc/src/spatial/quaternion.rs
index 656acb2..243a3c4 100644
--- a/crates/multicalc/src/spatial/quaternion.rs
+++ b/crates/multicalc/src/spatial/quaternion.rs
@@ -246,7 +246,7 @@ impl<T: Numeric> Quaternion<T> {
         let vector_norm = (self.x * self.x + self.y * self.y + self.z * self.z).sqrt();
         // Restrict the small-vector fallback to w > 0; near the negative real axis θ ≈ π, not 0,
         // so 1/‖q‖ would be the wrong coefficient (see the doc note above).
-        let coeff = if vector_norm < small_angle::<T>() && self.w > T::ZERO {
+        let coeff = if vector_norm < small_angle::<T>() * n && self.w > T::ZERO {
             n.recip()
         } else {
             vector_norm.atan2(self.w) / vector_norm
-- 
2.43.0


From a277cd91c6ad1647efe13f3d7185f3ddf73d35be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 22/74] fix: from_two_vectors turns half way round for
 directions opposite to within rounding

---
 crates/multicalc/src/spatial/quaternion.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/multicalc/src/spatial/quaternion.rs b/crates/multicalc/src/spatial/quaternion.rs
index 243a3c4..f65a276 100644
--- a/crates/multicalc/src/spatial/quaternion.rs
+++ b/crates/multicalc/src/spatial/quaternion.rs
@@ -376,14 +376,13 @@ impl<T: Numeric> Quaternion<T> {
         // each keep theirs to `eps/delta`.
         let h = a + b;
         let h_sq = h.norm_squared();
-        // Only the exactly degenerate case needs the fallback, not a band around it. The axis below
-        // is `a x h`, which is perpendicular to `a` however inaccurate `h` is, so `a` always lands
-        // in the right plane and the leftover error is `delta` times the `eps/delta` relative error
-        // of `h`, i.e. flat in `eps`. That holds until `h` is exactly zero and there is no axis at
-        // all. An `h_sq` that has underflowed to zero from a nonzero `h` lands here too, and is
-        // just as well served: `h_sq = delta^2`, so that needs `delta < 1e-154`, far below the
-        // point where a pi turn is the right answer anyway.
-        if h_sq == T::ZERO {
+        // The axis below is `a x h`, which is perpendicular to `a` however inaccurate `h` is, so `a`
+        // always lands in the right plane and the leftover error is `delta` times the `eps/delta`
+        // relative error of `h`, i.e. flat in `eps`. That holds until `h` is no longer than the
+        // rounding of the two unit vectors: such an `h` can lie along `a` itself, leaving no axis at
+        // all, and a pi turn is right to within that same rounding.
+        let rounding = T::TWO * T::TWO * T::EPSILON;
+        if h_sq <= rounding * rounding {
             // Antiparallel, where the inputs pin down no axis. Build the pi rotation by crossing
             // `a` with the principal axis it is least aligned with, which keeps that cross
             // product's norm at 0.816 or above.
-- 
2.43.0


From 72dfd1d958ec3748ded7e0cbc369a7b3c54ab4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 23/74] fix: measure short and nearly parallel capsules against
 their own length

---
 crates/multicalc/src/kinematics/collision.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index ee65736..849ea17 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -113,7 +113,7 @@ fn closest_point_on_segment<T: Numeric>(
 ) -> Vector3D<T> {
     let segment = end - start;
     let length_squared = segment.dot(segment);
-    if length_squared <= T::EPSILON {
+    if length_squared <= T::ZERO {
         return start;
     }
     let parameter = ((point - start).dot(segment) / length_squared)
@@ -140,11 +140,11 @@ fn closest_points_between_segments<T: Numeric>(
     let second_offset = second_direction.dot(start_offset);
 
     // Both degenerate: two points.
-    if first_length_squared <= T::EPSILON && second_length_squared <= T::EPSILON {
+    if first_length_squared <= T::ZERO && second_length_squared <= T::ZERO {
         return (first_start, second_start);
     }
 
-    let (first_parameter, second_parameter) = if first_length_squared <= T::EPSILON {
+    let (first_parameter, second_parameter) = if first_length_squared <= T::ZERO {
         // First degenerate: project its point onto the second.
         (
             T::ZERO,
@@ -154,7 +154,7 @@ fn closest_points_between_segments<T: Numeric>(
         )
     } else {
         let first_offset = first_direction.dot(start_offset);
-        if second_length_squared <= T::EPSILON {
+        if second_length_squared <= T::ZERO {
             // Second degenerate: project its point onto the first.
             (
                 (-first_offset / first_length_squared)
@@ -164,10 +164,13 @@ fn closest_points_between_segments<T: Numeric>(
             )
         } else {
             let alignment = first_direction.dot(second_direction);
-            let denominator = first_length_squared * second_length_squared - alignment * alignment;
+            // |d1|²|d2|²sin²θ, formed from the common normal so that a small angle does not cancel.
+            let normal = first_direction.cross(second_direction);
+            let denominator = normal.dot(normal);
+            let parallel = T::EPSILON * T::EPSILON * first_length_squared * second_length_squared;
             // Parallel: denominator vanishes, so pin the first parameter and solve the second.
-            let candidate = if denominator > T::EPSILON {
-                ((alignment * second_offset - first_offset * second_length_squared) / denominator)
+            let candidate = if denominator > parallel {
+                (second_direction.cross(start_offset).dot(normal) / denominator)
                     .max(T::ZERO)
                     .min(T::ONE)
             } else {
-- 
2.43.0


From 11290a72f1e3462ec57c17efefefc8ee6204801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 24/74] fix: report a collision pair that is not a number
 instead of skipping it

---
 crates/multicalc/src/kinematics/collision.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index 849ea17..eeb2759 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -457,7 +457,8 @@ impl<const MAX_SELF: usize, const MAX_ENVIRONMENT: usize, const MAX_EXCLUDED: us
     /// self-primitive is placed at `state.pose(frame_index) * local_pose`.
     ///
     /// Errors: [`ToolIndexOutOfRange`](KinematicsError::ToolIndexOutOfRange) where a primitive is
-    /// attached to a frame `state` does not have.
+    /// attached to a frame `state` does not have, and [`NonFinite`](KinematicsError::NonFinite)
+    /// where a checked pair has no clearance because a shape or pose in it is not a number.
     pub fn check<const MAX_JOINTS: usize>(
         &self,
         state: &KinematicTreeState<MAX_JOINTS, T>,
@@ -488,6 +489,9 @@ impl<const MAX_SELF: usize, const MAX_ENVIRONMENT: usize, const MAX_EXCLUDED: us
                 let clearance = first
                     .shape
                     .distance_to(first_pose, second.shape, second_pose);
+                if clearance.is_nan() {
+                    return Err(KinematicsError::NonFinite);
+                }
                 if clearance < minimum_clearance {
                     minimum_clearance = clearance;
                     closest_pair = Some((
@@ -501,6 +505,9 @@ impl<const MAX_SELF: usize, const MAX_ENVIRONMENT: usize, const MAX_EXCLUDED: us
                 let clearance = first
                     .shape
                     .distance_to(first_pose, obstacle.shape, obstacle.pose);
+                if clearance.is_nan() {
+                    return Err(KinematicsError::NonFinite);
+                }
                 if clearance < minimum_clearance {
                     minimum_clearance = clearance;
                     closest_pair = Some((
-- 
2.43.0


From 27a3ac88b18240c6400ce5f274cccdbf0692045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 25/74] fix: step a floating base in its origin's axes during
 inverse kinematics

---
 crates/multicalc/src/kinematics/inverse_kinematics.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 45a6a93..a13d1fd 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -353,10 +353,11 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
                         step.get(velocity_at + 3 + row).copied().unwrap_or(T::ZERO)
                     });
 
-                    // d_linear is already a world-frame slide (matching MuJoCo's own free-joint
-                    // convention and the Jacobian's translational columns, which are the constant
-                    // world basis, not carried by the joint's own orientation), so it adds to a
-                    // world position directly.
+                    // d_linear is a world-frame slide (matching MuJoCo's own free-joint convention
+                    // and the Jacobian's translational columns, which are the constant world
+                    // basis, not carried by the joint's own orientation). The reading is placed by
+                    // the joint's origin, so the slide is turned into the origin's axes first.
+                    let d_linear = joint.origin().rotation().inverse().act(d_linear);
                     let new_position = current_free.pose().translation() + d_linear;
                     let new_orientation = ExponentialMap::attitude_step(
                         current_free.pose().rotation(),
-- 
2.43.0


From e51d919a0f2699495ae3b0f65c74978362e69aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 26/74] fix: report true inverse-kinematics residuals and
 convergence when the budget ends

---
 .../src/kinematics/inverse_kinematics.rs      | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index a13d1fd..e5dd46d 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -273,8 +273,6 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         let mut configuration = *seed;
         self.hold_inside_limits(tree, &mut configuration);
 
-        let mut position_error = T::ZERO;
-        let mut orientation_error = T::ZERO;
         let mut iterations = 0;
 
         for _ in 0..self.maximum_iterations {
@@ -287,7 +285,7 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Body-frame pose error: log(T_current⁻¹ · T_target). The Jacobian below is taken in
             // the same frame so error and columns agree.
             let task_error = (current.inverse() * target).log();
-            (position_error, orientation_error) = split_error(task_error);
+            let (position_error, orientation_error) = split_error(task_error);
 
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
@@ -395,20 +393,24 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         }
 
         // Re-evaluate at the final configuration so the residuals match the returned q.
-        if iterations > 0 {
-            let state = tree.forward_kinematics(&configuration)?;
-            let current = state
-                .pose(tool_index)
-                .ok_or(KinematicsError::ToolIndexOutOfRange)?;
-            (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        }
+        let state = tree.forward_kinematics(&configuration)?;
+        let current = state
+            .pose(tool_index)
+            .ok_or(KinematicsError::ToolIndexOutOfRange)?;
+        let (position_error, orientation_error) = split_error((current.inverse() * target).log());
+        let met = position_error <= self.position_tolerance
+            && orientation_error <= self.orientation_tolerance;
 
         Ok(InverseKinematicsReport {
             joint_positions: configuration,
             position_error,
             orientation_error,
             iterations,
-            termination: InverseKinematicsTermination::IterationBudget,
+            termination: if met {
+                InverseKinematicsTermination::Converged
+            } else {
+                InverseKinematicsTermination::IterationBudget
+            },
         })
     }
 
-- 
2.43.0


From 77ac269475581acb89b4ff255feac58d647f9595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 27/74] fix: keep the coordinated-turn model and its
 derivatives accurate through zero turn rate

---
 crates/multicalc/src/estimation/models.rs | 26 +++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/estimation/models.rs b/crates/multicalc/src/estimation/models.rs
index be8cab7..74d9fdc 100644
--- a/crates/multicalc/src/estimation/models.rs
+++ b/crates/multicalc/src/estimation/models.rs
@@ -7,6 +7,7 @@
 use crate::error::EstimationError;
 use crate::linear_algebra::Vector;
 use crate::scalar::{Numeric, VectorFn};
+use crate::spatial::SE2;
 
 /// Rolls a vehicle's state `[x, y, heading, speed, turn rate]` forward one tick.
 ///
@@ -44,19 +45,18 @@ impl VectorFn<5, 5> for ConstantTurnAndSpeed {
         let [x, y, heading, speed, turn_rate] = *state;
         let timestep = S::from_f64(self.timestep);
         let next_heading = heading + turn_rate * timestep;
-        // Straighten the arc when the turn rate is tiny, so the radius cannot blow up.
-        let (next_x, next_y) = if turn_rate.abs() > S::from_f64(1e-6) {
-            let radius = speed / turn_rate;
-            (
-                x + radius * (next_heading.sin() - heading.sin()),
-                y + radius * (heading.cos() - next_heading.cos()),
-            )
-        } else {
-            (
-                x + speed * heading.cos() * timestep,
-                y + speed * heading.sin() * timestep,
-            )
-        };
+        // The arc's own exponential stays accurate, derivatives included, down to a turn rate of
+        // zero, where dividing by the turn rate cannot.
+        let swept = SE2::exp(Vector::new([
+            speed * timestep,
+            S::ZERO,
+            turn_rate * timestep,
+        ]));
+        let [along, across] = *swept.translation().as_array();
+        let (next_x, next_y) = (
+            x + along * heading.cos() - across * heading.sin(),
+            y + along * heading.sin() + across * heading.cos(),
+        );
         [next_x, next_y, next_heading.wrap_to_pi(), speed, turn_rate]
     }
 }
-- 
2.43.0


From a2f303e2ba32b3925d61bd771c1e1d39fe6fa684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 28/74] fix: leave the unscented filter's points alone when a
 prediction is refused

---
 .../src/estimation/unscented_kalman_filter.rs | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/estimation/unscented_kalman_filter.rs b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
index 8fad1d8..57b6b53 100644
--- a/crates/multicalc/src/estimation/unscented_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
@@ -285,7 +285,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
 
         // Push every point through the model: the estimate itself, then a pair either side of it
         // along each direction. Where they land is kept for the next update.
-        self.propagated_centre = Vector::new(process_model.eval(self.state.as_array()));
+        let propagated_centre = Vector::new(process_model.eval(self.state.as_array()));
         let mut propagated_plus = Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::zeros();
         let mut propagated_minus = Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::zeros();
         for column in 0..STATE_DIMENSION {
@@ -299,22 +299,20 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
                 propagated_minus[(row, column)] = minus[row];
             }
         }
-        self.propagated_plus = propagated_plus;
-        self.propagated_minus = propagated_minus;
 
         // The model is the caller's, so it may have handed back an infinity or a NaN.
-        if !self.propagated_centre.is_finite()
-            || !self.propagated_plus.is_finite()
-            || !self.propagated_minus.is_finite()
+        if !propagated_centre.is_finite()
+            || !propagated_plus.is_finite()
+            || !propagated_minus.is_finite()
         {
             return Err(EstimationError::NonFinite);
         }
 
         // The new estimate is the weighted average of where the points landed.
-        let mut mean = self.propagated_centre.scale(centre_mean);
+        let mut mean = propagated_centre.scale(centre_mean);
         for column in 0..STATE_DIMENSION {
-            let plus = Vector::from_fn(|row| self.propagated_plus[(row, column)]);
-            let minus = Vector::from_fn(|row| self.propagated_minus[(row, column)]);
+            let plus = Vector::from_fn(|row| propagated_plus[(row, column)]);
+            let minus = Vector::from_fn(|row| propagated_minus[(row, column)]);
             mean += (plus + minus).scale(side);
         }
 
@@ -323,12 +321,12 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         let mut covariance = add_weighted_outer_product(
             self.process_noise,
             centre_covariance,
-            self.propagated_centre - mean,
-            self.propagated_centre - mean,
+            propagated_centre - mean,
+            propagated_centre - mean,
         );
         for column in 0..STATE_DIMENSION {
-            let plus = Vector::from_fn(|row| self.propagated_plus[(row, column)]) - mean;
-            let minus = Vector::from_fn(|row| self.propagated_minus[(row, column)]) - mean;
+            let plus = Vector::from_fn(|row| propagated_plus[(row, column)]) - mean;
+            let minus = Vector::from_fn(|row| propagated_minus[(row, column)]) - mean;
             covariance = add_weighted_outer_product(covariance, side, plus, plus);
             covariance = add_weighted_outer_product(covariance, side, minus, minus);
         }
@@ -337,6 +335,9 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !mean.is_finite() || !covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.propagated_centre = propagated_centre;
+        self.propagated_plus = propagated_plus;
+        self.propagated_minus = propagated_minus;
         self.state = mean;
 
         // Rounding leaves the two halves of the sum slightly apart; average them back together.
-- 
2.43.0


From 0bea748c88e1f7104c1ad48bf3d3d9002af41748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 29/74] fix: place the unscented filter's points afresh for a
 second update

---
 .../src/estimation/unscented_kalman_filter.rs | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/estimation/unscented_kalman_filter.rs b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
index 57b6b53..695f115 100644
--- a/crates/multicalc/src/estimation/unscented_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
@@ -83,6 +83,9 @@ pub struct UnscentedKalmanFilter<
     propagated_centre: Vector<STATE_DIMENSION, T>,
     propagated_plus: Matrix<STATE_DIMENSION, STATE_DIMENSION, T>,
     propagated_minus: Matrix<STATE_DIMENSION, STATE_DIMENSION, T>,
+    // Whether predict has ever placed the points, and whether an update has used them since.
+    points_placed: bool,
+    points_used: bool,
     alpha: T,
     beta: T,
     kappa: T,
@@ -127,6 +130,8 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
             propagated_centre: initial_state,
             propagated_plus: seeded,
             propagated_minus: seeded,
+            points_placed: false,
+            points_used: false,
             alpha: T::from_f64(1e-3),
             beta: T::TWO,
             kappa: T::ZERO,
@@ -338,6 +343,8 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         self.propagated_centre = propagated_centre;
         self.propagated_plus = propagated_plus;
         self.propagated_minus = propagated_minus;
+        self.points_placed = true;
+        self.points_used = false;
         self.state = mean;
 
         // Rounding leaves the two halves of the sum slightly apart; average them back together.
@@ -345,6 +352,22 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         Ok(())
     }
 
+    /// Places the points around the current estimate when an earlier update has already used the
+    /// ones [`predict`](Self::predict) left behind: those still carry the spread that update
+    /// resolved, and folding it in twice drives the covariance negative.
+    fn refresh_used_points(&mut self) -> Result<(), EstimationError> {
+        if !self.points_used {
+            return Ok(());
+        }
+        let directions = self.offset_directions()?;
+        self.propagated_centre = self.state;
+        self.propagated_plus =
+            Matrix::from_fn(|row, column| self.state[row] + directions[(row, column)]);
+        self.propagated_minus =
+            Matrix::from_fn(|row, column| self.state[row] - directions[(row, column)]);
+        Ok(())
+    }
+
     /// Pushes the points [`predict`](Self::predict) left behind through the measurement model, and
     /// returns where they landed together with their average.
     fn measurement_sigma_points<MeasurementModel>(
@@ -482,6 +505,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         self.covariance = (self.covariance
             - kalman_gain * innovation_covariance * kalman_gain.transpose())
         .symmetrized();
+        self.points_used = self.points_placed;
         Ok(())
     }
 
@@ -491,13 +515,16 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
     /// a filter that has never predicted, the points all sit on the initial estimate, the gain
     /// works out to zero, and the estimate is left where it was.
     ///
+    /// A further update with no predict in between places the points afresh around the estimate the
+    /// last one left.
+    ///
     /// Use [`update_with_residual`](Self::update_with_residual) when any measurement component is
     /// an angle: plain subtraction is wrong across the ±π wrap.
     ///
     /// Returns [`NonFinite`](EstimationError::NonFinite) when the measurement, a predicted
     /// measurement, or the formed innovation covariance holds an infinity or NaN, and
     /// [`NotPositiveDefinite`](EstimationError::NotPositiveDefinite) when the innovation covariance
-    /// cannot be factorized — the gain is undefined.
+    /// cannot be factorized — the gain is undefined — or, placing the points afresh, the covariance.
     pub fn update<MeasurementModel>(
         &mut self,
         measurement_model: &MeasurementModel,
@@ -509,6 +536,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !measurement.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.refresh_used_points()?;
         let (centre, plus_side, minus_side, predicted) =
             self.measurement_sigma_points(measurement_model)?;
         self.fold_in(
@@ -593,6 +621,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !residual.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.refresh_used_points()?;
         let (centre, plus_side, minus_side, predicted) =
             self.measurement_sigma_points(measurement_model)?;
         self.fold_in(centre, plus_side, minus_side, predicted, residual)
-- 
2.43.0


From 7a40c502fa0d96f1cab9f07b954171b31b12e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 30/74] fix: refuse error-state filter steps that would leave
 the estimate non-finite

---
 .../estimation/error_state_kalman_filter.rs   | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/estimation/error_state_kalman_filter.rs b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
index 822956b..fdf5a19 100644
--- a/crates/multicalc/src/estimation/error_state_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
@@ -547,11 +547,13 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
             return Err(EstimationError::NonFinite);
         }
 
-        self.nominal_state = propagated;
-        self.propagate_covariance(transition, timestep);
-        if !self.covariance.is_finite() {
+        let mut rolled = *self;
+        rolled.nominal_state = propagated;
+        rolled.propagate_covariance(transition, timestep);
+        if !rolled.covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        *self = rolled;
         Ok(())
     }
 
@@ -627,7 +629,8 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
     /// an angle: plain subtraction is wrong across the ±π wrap.
     ///
     /// Returns [`NonFinite`](EstimationError::NonFinite) when the measurement, the residual, the
-    /// measurement Jacobian, or the formed innovation covariance holds an infinity or NaN, and
+    /// measurement Jacobian, the formed innovation covariance, or the corrected estimate holds an
+    /// infinity or NaN, and
     /// [`NotPositiveDefinite`](EstimationError::NotPositiveDefinite) when the innovation covariance
     /// cannot be factorized — the gain is undefined.
     /// [`Diff`](EstimationError::Diff) is never returned: the Jacobian is always exact.
@@ -780,7 +783,8 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
 
         let residual_transfer = Matrix::<ERROR_DIMENSION, ERROR_DIMENSION, T>::identity()
             - kalman_gain * measurement_jacobian;
-        self.covariance = match self.covariance_update {
+        let mut corrected = *self;
+        corrected.covariance = match self.covariance_update {
             CovarianceUpdate::Joseph => {
                 residual_transfer * self.covariance * residual_transfer.transpose()
                     + kalman_gain * measurement_noise * kalman_gain.transpose()
@@ -788,8 +792,12 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
             CovarianceUpdate::Naive => residual_transfer * self.covariance,
         };
 
-        self.inject_error_and_reset(error);
-        self.covariance = self.covariance.symmetrized();
+        corrected.inject_error_and_reset(error);
+        corrected.covariance = corrected.covariance.symmetrized();
+        if !corrected.nominal_state.is_finite() || !corrected.covariance.is_finite() {
+            return Err(EstimationError::NonFinite);
+        }
+        *self = corrected;
         Ok(innovation_covariance)
     }
 
-- 
2.43.0


From 073315858090e2003b3e82f738ca911b86dd2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 31/74] fix: keep the particle weights when an update is
 refused

---
 .../multicalc/src/estimation/particle_filter.rs   | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 1556cb2..8901c12 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -636,12 +636,13 @@ where
             return Err(EstimationError::WeightsDegenerate);
         }
 
-        // Back to plain weights, measured relative to the heaviest particle, and total them.
+        // Back to plain weights, measured relative to the heaviest particle, and total them. They stay
+        // in the scratch buffer until the total is known to be usable, so a failed update leaves the
+        // cloud as it was.
         let mut sum = T::ZERO;
-        for i in 0..self.weights.len() {
-            let weight = (self.log_weight_scratch[i] - largest).exp();
-            self.weights[i] = weight;
-            sum += weight;
+        for slot in self.log_weight_scratch.iter_mut() {
+            *slot = (*slot - largest).exp();
+            sum += *slot;
         }
 
         // A zero or non-finite total leaves nothing to divide by, so the cloud has degenerated.
@@ -650,8 +651,8 @@ where
         }
 
         // Scale so the weights sum to one.
-        for weight in self.weights.iter_mut() {
-            *weight /= sum;
+        for (weight, relative) in self.weights.iter_mut().zip(&self.log_weight_scratch) {
+            *weight = *relative / sum;
         }
 
         // If the weight has piled onto too few particles, refresh the cloud before it collapses.
-- 
2.43.0


From 5f596a5dbb1d30b49c03605ce90777cec033ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 32/74] fix: resample any number of slots without indexing past
 the weights

---
 crates/multicalc/src/estimation/particle_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 8901c12..b210e94 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -93,7 +93,7 @@ fn systematic<T: RandomScalar, R: RandomSource<T>>(
     let mut source = 0;
     for (step, slot) in indices.iter_mut().enumerate() {
         let position = (offset + T::from_usize(step)) / count_scalar;
-        while position >= running_sum && source + 1 < count {
+        while position >= running_sum && source + 1 < weights.len() {
             source += 1;
             running_sum += weights[source];
         }
@@ -117,7 +117,7 @@ fn stratified<T: RandomScalar, R: RandomSource<T>>(
     for (step, slot) in indices.iter_mut().enumerate() {
         let offset = random.next_unit();
         let position = (offset + T::from_usize(step)) / count_scalar;
-        while position >= running_sum && source + 1 < count {
+        while position >= running_sum && source + 1 < weights.len() {
             source += 1;
             running_sum += weights[source];
         }
-- 
2.43.0


From ecd3a12e5b2aee4ade87d48975f9ce491a446d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 33/74] fix: never resample a particle that carries no weight
 on a zero draw

---
 crates/multicalc/src/estimation/particle_filter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index b210e94..687d23a 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -174,20 +174,20 @@ fn residual<T: RandomScalar, R: RandomSource<T>>(
     }
 }
 
-/// The smallest source whose cumulative weight reaches `draw`.
+/// The smallest source whose cumulative weight passes `draw`, so one carrying no weight is never picked.
 #[must_use]
 fn draw_from_weights<T: Numeric>(weights: &[T], draw: T) -> usize {
     let mut running_sum = T::ZERO;
     for (source, &weight) in weights.iter().enumerate() {
         running_sum += weight;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
     weights.len() - 1
 }
 
-/// The smallest source whose cumulative fractional remainder reaches `draw`.
+/// The smallest source whose cumulative fractional remainder passes `draw`.
 #[must_use]
 fn draw_from_remainders<T: Numeric>(
     weights: &[T],
@@ -199,7 +199,7 @@ fn draw_from_remainders<T: Numeric>(
     for (source, &weight) in weights.iter().enumerate() {
         let scaled = count_scalar * weight;
         running_sum += (scaled - scaled.floor()) / remainder_sum;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
-- 
2.43.0


From 82c1e07db6a02aef4e3be4aebb7dc40d1f79b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 34/74] fix: hold a saturated integral that a negative gain
 would wind up

---
 crates/multicalc/src/control/pid.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/control/pid.rs b/crates/multicalc/src/control/pid.rs
index e205e01..f3ddca6 100644
--- a/crates/multicalc/src/control/pid.rs
+++ b/crates/multicalc/src/control/pid.rs
@@ -199,7 +199,8 @@ impl<T: Numeric> Pid<T> {
         self.previous_error = error;
         self.has_previous_measurement = true;
 
-        let candidate_integral = self.integral + self.integral_gain * error * self.timestep;
+        let integral_step = self.integral_gain * error * self.timestep;
+        let candidate_integral = self.integral + integral_step;
         let unsaturated = proportional_term + candidate_integral + derivative_term;
         let output = unsaturated
             .max(self.output_minimum)
@@ -207,8 +208,9 @@ impl<T: Numeric> Pid<T> {
 
         let saturated_high = unsaturated > self.output_maximum;
         let saturated_low = unsaturated < self.output_minimum;
-        let pushing_deeper =
-            (saturated_high && error > T::ZERO) || (saturated_low && error < T::ZERO);
+        // Judged by the step itself rather than the error: with a negative gain the two disagree.
+        let pushing_deeper = (saturated_high && integral_step > T::ZERO)
+            || (saturated_low && integral_step < T::ZERO);
         if !pushing_deeper {
             self.integral = candidate_integral;
         }
-- 
2.43.0


From a163ffe391d203675a261447528422e680cc07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 35/74] fix: an opening wider than half a turn is not too
 narrow to enter

---
 crates/multicalc/src/control/follow_the_gap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/control/follow_the_gap.rs b/crates/multicalc/src/control/follow_the_gap.rs
index 8eb52e5..4e3efbd 100644
--- a/crates/multicalc/src/control/follow_the_gap.rs
+++ b/crates/multicalc/src/control/follow_the_gap.rs
@@ -443,7 +443,7 @@ impl<const BEAMS: usize, T: Numeric> FollowTheGap<BEAMS, T> {
 
     /// The straight-line distance in metres between the two obstacles on either side of the open
     /// run `[start, end]`, or `None` if the run reaches the edge of the scan and has no obstacle on
-    /// that side.
+    /// that side, or spans more than half a turn and so is open all the way across.
     ///
     /// The two obstacles and the sensor form a triangle: we know both nearby sides (the obstacle
     /// ranges) and the angle between them, and the third side is the gap. Measuring it in metres is
@@ -456,6 +456,9 @@ impl<const BEAMS: usize, T: Numeric> FollowTheGap<BEAMS, T> {
         let range_a = self.sanitized_range(beam_ranges, before);
         let range_b = self.sanitized_range(beam_ranges, after);
         let separation = self.beam_angle_unchecked(after) - self.beam_angle_unchecked(before);
+        if separation > T::PI {
+            return None; // Both obstacles lie behind the opening, so they cannot pinch it.
+        }
         let squared =
             range_a * range_a + range_b * range_b - T::TWO * range_a * range_b * separation.cos();
         // A very thin triangle can round to a tiny negative here, which would make `sqrt` NaN.
-- 
2.43.0


From 4e8f2d7fd64ec434c9dc11078db574aad3d140f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 36/74] fix: a lookahead reaching back past the start of a path
 stays on it

---
 crates/multicalc/src/motion/polyline_path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/motion/polyline_path.rs b/crates/multicalc/src/motion/polyline_path.rs
index fde6930..24601f2 100644
--- a/crates/multicalc/src/motion/polyline_path.rs
+++ b/crates/multicalc/src/motion/polyline_path.rs
@@ -299,7 +299,8 @@ impl<const MAX_POINTS: usize, const DIMENSION: usize, T: Numeric>
     /// The point a given arc length ahead of a starting arc length along the path.
     ///
     /// The end-of-path mode decides what happens once the target runs past the end: [`EndOfPath::Stop`]
-    /// clamps to the last waypoint and [`EndOfPath::Loop`] wraps around. Returns
+    /// clamps to the last waypoint and [`EndOfPath::Loop`] wraps around. A target before the start is
+    /// treated the same way at the other end. Returns
     /// [`MotionError::PathTooShort`] if the path has no waypoints, or
     /// [`MotionError::OutOfSync`] if the path cannot get the cumulative arc length.
     pub fn lookahead_point(
@@ -324,6 +325,8 @@ impl<const MAX_POINTS: usize, const DIMENSION: usize, T: Numeric>
                 if target >= total {
                     return Ok(last);
                 }
+                // Reaching back past the start stops there rather than running off the first leg.
+                target = target.max(T::ZERO);
             }
             EndOfPath::Loop => {
                 if total > T::ZERO {
-- 
2.43.0


From 8e247c6c0aa34f43c9ba916448a0623a62d126f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 37/74] fix: a point or bearing that is not a number meets no
 cell

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7ef7c61..faf9310 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -83,7 +83,7 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         let row = ((point[1] - origin[1]) / self.resolution())
             .floor()
             .to_f64();
-        if column < 0.0 || row < 0.0 {
+        if column.is_nan() || row.is_nan() || column < 0.0 || row < 0.0 {
             return None;
         }
         let (row, column) = (row as usize, column as usize);
@@ -152,6 +152,10 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         if self.columns() == 0 || self.rows() == 0 {
             return None;
         }
+        if !bearing.is_finite() || !start_position[0].is_finite() || !start_position[1].is_finite()
+        {
+            return None;
+        }
         let direction = [bearing.cos(), bearing.sin()];
 
         // Where the beam meets the map. A beam starting inside enters at zero.
-- 
2.43.0


From f41ded4e1ac44097f3efe582e79fe125ec7297f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 38/74] fix: an edge reaching far off the map is not walked
 step by step out there

---
 .../multicalc/src/mapping/occupancy_grid.rs   | 47 ++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index faf9310..bc4942a 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -331,8 +331,16 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
                 continue;
             };
             let length = (end[0] - start[0]).hypot(end[1] - start[1]);
+            if !length.is_finite() {
+                continue;
+            }
             let samples = (length / step).ceil().max(T::ONE).to_f64() as usize;
-            for sample in 0..=samples {
+            // Only the stretch that crosses the map can mark anything, and the rest of a long edge
+            // would be walked for nothing.
+            let Some((first, last)) = samples_on_map(self, start, end, samples) else {
+                continue;
+            };
+            for sample in first..=last {
                 let fraction = T::from_usize(sample) / T::from_usize(samples);
                 self.occupy_point([
                     start[0] + fraction * (end[0] - start[0]),
@@ -629,6 +637,43 @@ fn entry_distance<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
     Some(near.max(T::ZERO))
 }
 
+/// The first and last of an edge's samples, numbered from `0` at `start` to `samples` at `end`, that
+/// can fall on the map or within a cell of it, or `None` when the edge passes it by.
+fn samples_on_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
+    map: &M,
+    start: [T; 2],
+    end: [T; 2],
+    samples: usize,
+) -> Option<(usize, usize)> {
+    let origin = map.origin();
+    let mut near = T::ZERO;
+    let mut far = T::ONE;
+    for (from, to, corner, count) in [
+        (start[0], end[0], origin[0], map.columns()),
+        (start[1], end[1], origin[1], map.rows()),
+    ] {
+        let low = corner - map.resolution();
+        let high = corner + T::from_usize(count + 1) * map.resolution();
+        let run = to - from;
+        if run == T::ZERO {
+            if from < low || from > high {
+                return None;
+            }
+        } else {
+            let (first, second) = ((low - from) / run, (high - from) / run);
+            near = near.max(first.min(second));
+            far = far.min(first.max(second));
+        }
+    }
+    if near > far {
+        return None;
+    }
+    let count = T::from_usize(samples);
+    let first = (near * count).floor().to_f64() as usize;
+    let last = (far * count).ceil().to_f64() as usize;
+    Some((first, last.min(samples)))
+}
+
 /// Which way an index moves as the beam advances along one axis. A component of zero never steps,
 /// because the stride along that axis is infinite, so either answer serves.
 fn axis_step<T: Numeric>(component: T) -> isize {
-- 
2.43.0


From f96d19700b249c48a783f57921e82995d96a44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 39/74] fix: a circle of more than a thousand cells across its
 radius is drawn without gaps

---
 .../multicalc/src/mapping/occupancy_grid.rs   | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index bc4942a..a0a2004 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -397,7 +397,11 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
     /// }
     /// ```
     fn occupy_circle(&mut self, center: [T; 2], radius: T) {
-        let step = (T::from_f64(0.4) * self.resolution() / radius).max(T::from_f64(1e-3));
+        if !radius.is_finite() || !rim_reaches_map(self, center, radius) {
+            return;
+        }
+        // The floor only bounds the walk: a rim that needs a finer step is a million cells round.
+        let step = (T::from_f64(0.4) * self.resolution() / radius.abs()).max(T::from_f64(1e-6));
         let mut angle = T::ZERO;
         while angle < T::TWO_PI {
             self.occupy_point([
@@ -637,6 +641,33 @@ fn entry_distance<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
     Some(near.max(T::ZERO))
 }
 
+/// Whether any of a circle's rim can fall on the map, to within a cell.
+fn rim_reaches_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
+    map: &M,
+    center: [T; 2],
+    radius: T,
+) -> bool {
+    let origin = map.origin();
+    let margin = map.resolution();
+    let mut nearest = [T::ZERO; 2];
+    let mut farthest = [T::ZERO; 2];
+    for ((middle, corner, count), (near, far)) in [
+        (center[0], origin[0], map.columns()),
+        (center[1], origin[1], map.rows()),
+    ]
+    .into_iter()
+    .zip(nearest.iter_mut().zip(farthest.iter_mut()))
+    {
+        let low = corner - middle;
+        let high = corner + T::from_usize(count) * map.resolution() - middle;
+        *near = low.max(-high).max(T::ZERO);
+        *far = low.abs().max(high.abs());
+    }
+    let reach = radius.abs();
+    reach + margin >= nearest[0].hypot(nearest[1])
+        && reach - margin <= farthest[0].hypot(farthest[1])
+}
+
 /// The first and last of an edge's samples, numbered from `0` at `start` to `samples` at `end`, that
 /// can fall on the map or within a cell of it, or `None` when the edge passes it by.
 fn samples_on_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
-- 
2.43.0


From 2a421b034fd9f7a4aeefbe66a66b799096ae7738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 40/74] fix: a grid too large to hold is refused instead of
 aborting

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index a0a2004..222eed0 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -3,7 +3,7 @@
 //! A map of free and blocked cells, and walking a beam across it.
 
 #[cfg(feature = "alloc")]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 #[cfg(feature = "alloc")]
 use crate::error::MappingError;
@@ -511,8 +511,8 @@ impl<T: Numeric + Primal> DynamicOccupancyGrid<T> {
     ///
     /// Returns [`MappingError::EmptyGrid`] with no columns or no rows,
     /// [`MappingError::GridTooLarge`] when the two multiplied out are more cells than can be
-    /// counted, [`MappingError::NonFinite`] if the cell size or origin is not finite, and
-    /// [`MappingError::NonPositiveResolution`] if the cell size is zero or negative.
+    /// counted or held in memory, [`MappingError::NonFinite`] if the cell size or origin is not
+    /// finite, and [`MappingError::NonPositiveResolution`] if the cell size is zero or negative.
     pub fn try_new(
         columns: usize,
         rows: usize,
@@ -531,12 +531,17 @@ impl<T: Numeric + Primal> DynamicOccupancyGrid<T> {
         if resolution <= T::ZERO {
             return Err(MappingError::NonPositiveResolution);
         }
+        let mut cells = Vec::new();
+        cells
+            .try_reserve_exact(count)
+            .map_err(|_| MappingError::GridTooLarge)?;
+        cells.resize(count, false);
         Ok(DynamicOccupancyGrid {
             columns,
             rows,
             resolution,
             origin,
-            cells: vec![false; count],
+            cells,
         })
     }
 
-- 
2.43.0


From 4651eac174561e3ad2389081fddd5d4c99886951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 41/74] fix: a ray entering the map on a cell edge is not
 reported nearer than it entered

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 222eed0..3b22ae5 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -225,14 +225,15 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
             if self.is_occupied(row_index, column_index) {
                 return Some(entered);
             }
-            // Cross whichever edge comes first.
+            // Cross whichever edge comes first. A ray entering on an edge may already be past one, and
+            // is never nearer for crossing it.
             if next_column < next_row {
                 column += step_column;
-                entered = next_column;
+                entered = entered.max(next_column);
                 next_column += stride_column;
             } else {
                 row += step_row;
-                entered = next_row;
+                entered = entered.max(next_row);
                 next_row += stride_row;
             }
         }
-- 
2.43.0


From 79a7bca0e7c8d4f7b74e9a6a6c3b5f75bffb4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 42/74] fix: a band as wide as half the sampling rate is
 refused instead of running away

---
 crates/multicalc/src/signal_processing/biquad.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/signal_processing/biquad.rs b/crates/multicalc/src/signal_processing/biquad.rs
index 4127e6b..f1d0933 100644
--- a/crates/multicalc/src/signal_processing/biquad.rs
+++ b/crates/multicalc/src/signal_processing/biquad.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the band, `center_hz / quality_factor` wide, does.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -146,7 +146,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the band, `center_hz / quality_factor` wide, does.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -328,7 +328,14 @@ impl<T: Numeric> BiquadCoefficients<T> {
         // which is a different filter rather than a rounding difference.
         let alpha = match design {
             Design::LowPass | Design::HighPass => angle.sin() / (T::TWO * quality_factor),
-            Design::BandPass | Design::Notch => (angle / (T::TWO * quality_factor)).tan(),
+            Design::BandPass | Design::Notch => {
+                // Past a quarter turn the tangent changes sign and the filter would run away.
+                let half_band = angle / (T::TWO * quality_factor);
+                if half_band >= T::HALF * T::PI {
+                    return Err(SignalError::FrequencyOutOfRange);
+                }
+                half_band.tan()
+            }
         };
 
         let feed_forward = match design {
-- 
2.43.0


From 77144aae95343165ad73a400676969d0ca4b0cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 43/74] fix: a smoother with an empty window is refused instead
 of underflowing

---
 crates/multicalc/src/signal_processing/savitzky_golay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/signal_processing/savitzky_golay.rs b/crates/multicalc/src/signal_processing/savitzky_golay.rs
index 018564e..b352fc0 100644
--- a/crates/multicalc/src/signal_processing/savitzky_golay.rs
+++ b/crates/multicalc/src/signal_processing/savitzky_golay.rs
@@ -90,7 +90,7 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
     /// [`SignalError::PolynomialOrderTooHigh`] if there are more terms than samples to fit them,
     /// and [`SignalError::Linalg`] if the fit cannot be worked out.
     pub fn latest(timestep: T) -> Result<Self, SignalError> {
-        Self::build(timestep, WINDOW - 1)
+        Self::build(timestep, WINDOW.saturating_sub(1))
     }
 
     /// Feeds one sample and returns the smoothed value of the window it now sits in.
-- 
2.43.0


From 692e25d7e4e40f746ff516275915089b901d25db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 44/74] fix: a reading that is not a number cannot come out of
 the running median

---
 crates/multicalc/src/signal_processing/window.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/signal_processing/window.rs b/crates/multicalc/src/signal_processing/window.rs
index 392b3a7..1529960 100644
--- a/crates/multicalc/src/signal_processing/window.rs
+++ b/crates/multicalc/src/signal_processing/window.rs
@@ -177,7 +177,8 @@ impl<const WINDOW: usize, T: Numeric> RunningMedian<WINDOW, T> {
         for placed in 1..WINDOW {
             let moving = sorted[placed];
             let mut slot = placed;
-            while slot > 0 && sorted[slot - 1] > moving {
+            // A reading that is not a number goes last, with the other wild ones.
+            while slot > 0 && (sorted[slot - 1] > moving || sorted[slot - 1].is_nan()) {
                 sorted[slot] = sorted[slot - 1];
                 slot -= 1;
             }
-- 
2.43.0


From e683ac49535689c50847781c530d81fa98707300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 45/74] fix: a line integral of a component that is not there
 is an error, not a panic

---
 crates/multicalc/src/vector_field/line_integral.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index 79bb42d..f566740 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -27,6 +27,9 @@ fn get_partial<T: Numeric, const N: usize>(
     if total_iterations == 0 {
         return Err(IntegrateError::IterationsZero);
     }
+    if idx >= N {
+        return Err(IntegrateError::IndexOutOfRange);
+    }
     // rejects NaN, equal, and reversed limits (partial_cmp is None for NaN)
     if !matches!(
         integration_limit[0].partial_cmp(&integration_limit[1]),
@@ -133,7 +136,8 @@ pub fn line_integral_2d_custom<T: Numeric>(
 /// [`line_integral_2d_custom`] and the flux integral.
 ///
 /// # Errors
-/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
+/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero,
+/// [`IntegrateError::IndexOutOfRange`] if there is no component at `idx`, or
 /// [`IntegrateError::LimitsIllDefined`] if the lower limit is not strictly less than the
 /// upper limit.
 pub fn line_integral_partial_2d<T: Numeric>(
@@ -208,7 +212,8 @@ pub fn line_integral_3d_custom<T: Numeric>(
 /// [`line_integral_3d_custom`] and the flux integral.
 ///
 /// # Errors
-/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
+/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero,
+/// [`IntegrateError::IndexOutOfRange`] if there is no component at `idx`, or
 /// [`IntegrateError::LimitsIllDefined`] if the lower limit is not strictly less than the
 /// upper limit.
 pub fn line_integral_partial_3d<T: Numeric>(
-- 
2.43.0


From 22df382ad3892655c94ba7c2ce92d24837bca233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 46/74] fix: a plane flux integral measures what crosses the
 curve

---
 .../src/vector_field/flux_integral.rs         | 12 +++++++---
 .../src/vector_field/line_integral.rs         | 23 +++++++++++--------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/vector_field/flux_integral.rs b/crates/multicalc/src/vector_field/flux_integral.rs
index 9c6de36..52ca8cc 100644
--- a/crates/multicalc/src/vector_field/flux_integral.rs
+++ b/crates/multicalc/src/vector_field/flux_integral.rs
@@ -2,7 +2,7 @@ use crate::error::IntegrateError;
 use crate::numerical_integration::DEFAULT_TOTAL_ITERATIONS;
 use crate::scalar::Numeric;
 
-use crate::vector_field::line_integral::{line_integral_partial_2d, line_integral_partial_3d};
+use crate::vector_field::line_integral::{get_partial, line_integral_partial_3d};
 
 /// Computes the flux integral of a 2D vector field across a parametrized curve.
 ///
@@ -10,6 +10,9 @@ use crate::vector_field::line_integral::{line_integral_partial_2d, line_integral
 /// the field is sampled at the resulting curve position. Uses the default iteration count;
 /// see [`flux_integral_2d_custom`] to set it.
 ///
+/// Flow counts as positive towards the right of the direction of travel, which is outward for a
+/// closed curve run counter-clockwise.
+///
 /// # Arguments
 /// * `vector_field` - the two field components, each taking the curve position `[x, y]`.
 /// * `transformations` - the two transforms mapping `t` to `x` and to `y`.
@@ -59,18 +62,21 @@ pub fn flux_integral_2d_custom<T: Numeric>(
     integration_limit: &[T; 2],
     total_iterations: u64,
 ) -> Result<T, IntegrateError> {
-    Ok(line_integral_partial_2d(
+    // The curve's right-hand normal is (dy, -dx), so each component pairs with the other coordinate.
+    Ok(get_partial(
         vector_field,
         transformations,
         integration_limit,
         total_iterations,
         0,
-    )? - line_integral_partial_2d(
+        1,
+    )? - get_partial(
         vector_field,
         transformations,
         integration_limit,
         total_iterations,
         1,
+        0,
     )?)
 }
 
diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index f566740..89ba2d5 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -15,19 +15,20 @@ fn curve_point<T: Numeric, const N: usize>(
     point
 }
 
-/// Trapezoidal integration of the `idx`-th field component along the parametrized curve.
-/// Generic over the dimension `N`, so the 2D and 3D paths share one body.
-fn get_partial<T: Numeric, const N: usize>(
+/// Trapezoidal integration of one field component against one coordinate of the parametrized
+/// curve. Generic over the dimension `N`, so the 2D and 3D paths share one body.
+pub(super) fn get_partial<T: Numeric, const N: usize>(
     vector_field: &[&dyn Fn(&[T; N]) -> T; N],
     transformations: &[&dyn Fn(T) -> T; N],
     integration_limit: &[T; 2],
     total_iterations: u64,
-    idx: usize,
+    component: usize,
+    coordinate: usize,
 ) -> Result<T, IntegrateError> {
     if total_iterations == 0 {
         return Err(IntegrateError::IterationsZero);
     }
-    if idx >= N {
+    if component >= N || coordinate >= N {
         return Err(IntegrateError::IndexOutOfRange);
     }
     // rejects NaN, equal, and reversed limits (partial_cmp is None for NaN)
@@ -46,13 +47,13 @@ fn get_partial<T: Numeric, const N: usize>(
     //curve point and field value is evaluated once per node rather than twice
     //https://ocw.mit.edu/ans7870/18/18.013a/textbook/HTML/chapter25/section04.html
     let mut left = curve_point(transformations, parameter);
-    let mut left_value = vector_field[idx](&left);
+    let mut left_value = vector_field[component](&left);
 
     for _ in 0..total_iterations {
         let right = curve_point(transformations, parameter + delta);
-        let right_value = vector_field[idx](&right);
+        let right_value = vector_field[component](&right);
 
-        ans += (right[idx] - left[idx]) * (left_value + right_value) / T::TWO;
+        ans += (right[coordinate] - left[coordinate]) * (left_value + right_value) / T::TWO;
 
         parameter += delta;
         left = right;
@@ -132,8 +133,8 @@ pub fn line_integral_2d_custom<T: Numeric>(
     )?)
 }
 
-/// Line integral of a single field component (`idx`) along the 2D curve. Used by both
-/// [`line_integral_2d_custom`] and the flux integral.
+/// Line integral of a single field component (`idx`) along the 2D curve. Used by
+/// [`line_integral_2d_custom`].
 ///
 /// # Errors
 /// [`IntegrateError::IterationsZero`] if `total_iterations` is zero,
@@ -153,6 +154,7 @@ pub fn line_integral_partial_2d<T: Numeric>(
         integration_limit,
         total_iterations,
         idx,
+        idx,
     )
 }
 
@@ -229,5 +231,6 @@ pub fn line_integral_partial_3d<T: Numeric>(
         integration_limit,
         total_iterations,
         idx,
+        idx,
     )
 }
-- 
2.43.0


From 9a2568ccaefc14c7a0e24a95ab07acdd01f4abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 47/74] fix: an attribute holding nan, infinity or an
 overflowing number is refused

---
 crates/multicalc-robot-model/src/xml.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc-robot-model/src/xml.rs b/crates/multicalc-robot-model/src/xml.rs
index 5a2f0de..2f214ae 100644
--- a/crates/multicalc-robot-model/src/xml.rs
+++ b/crates/multicalc-robot-model/src/xml.rs
@@ -62,8 +62,8 @@ pub(crate) fn parse_list(node: Node, attribute: &str) -> Result<Option<Vec<f64>>
     let mut values = Vec::new();
     for field in text.split_ascii_whitespace() {
         match field.parse::<f64>() {
-            Ok(value) => values.push(value),
-            Err(_) => return Err(bad_attribute(node, attribute, text)),
+            Ok(value) if value.is_finite() => values.push(value),
+            _ => return Err(bad_attribute(node, attribute, text)),
         }
     }
     Ok(Some(values))
-- 
2.43.0


From 02dc4dbbeae7321a393d158816150ad18119c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 48/74] fix: a long chain of URDF links is read without
 overflowing the stack

---
 crates/multicalc-robot-model/src/urdf/tree.rs | 56 +++++++------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/crates/multicalc-robot-model/src/urdf/tree.rs b/crates/multicalc-robot-model/src/urdf/tree.rs
index 00bc86c..aaf603c 100644
--- a/crates/multicalc-robot-model/src/urdf/tree.rs
+++ b/crates/multicalc-robot-model/src/urdf/tree.rs
@@ -76,8 +76,6 @@ pub(crate) fn build(
     let mut visited = vec![false; links.len()];
     walk(
         root,
-        None,
-        None,
         links,
         joints,
         &children,
@@ -112,18 +110,13 @@ pub(crate) fn build(
     Ok(bodies)
 }
 
-/// Emits one body, then recurses into its children.
+/// Emits the bodies under `root`, depth-first in joint document order.
 ///
-/// `incoming` is the link's parent joint, which supplies its pose and joint; the root has none and
-/// sits at identity.
-#[expect(
-    clippy::too_many_arguments,
-    reason = "the recursion threads both source lists, the resolved topology, and the output"
-)]
+/// A link's parent joint supplies its pose and joint; the root has none and sits at identity. The
+/// links still to visit are kept on a list rather than the call stack, so a chain of any length
+/// is read.
 fn walk(
-    link_index: usize,
-    parent_body: Option<usize>,
-    incoming: Option<usize>,
+    root: usize,
     links: &[ParsedLink],
     joints: &[ParsedJoint],
     children: &[Vec<usize>],
@@ -131,30 +124,23 @@ fn walk(
     visited: &mut [bool],
     bodies: &mut Vec<BodyDescription>,
 ) {
-    visited[link_index] = true;
-    let link = &links[link_index];
-    let joint = incoming.map(|index| &joints[index]);
+    let mut pending: Vec<(usize, Option<usize>, Option<usize>)> = vec![(root, None, None)];
+    while let Some((link_index, parent_body, incoming)) = pending.pop() {
+        visited[link_index] = true;
+        let link = &links[link_index];
+        let joint = incoming.map(|index| &joints[index]);
 
-    let body_index = bodies.len();
-    bodies.push(BodyDescription {
-        name: link.name.clone(),
-        parent: parent_body,
-        pose: joint.map_or_else(SE3::identity, |joint| joint.origin),
-        inertia: link.inertia,
-        joint: joint.and_then(|joint| joint.description.clone()),
-    });
+        let body_index = bodies.len();
+        bodies.push(BodyDescription {
+            name: link.name.clone(),
+            parent: parent_body,
+            pose: joint.map_or_else(SE3::identity, |joint| joint.origin),
+            inertia: link.inertia,
+            joint: joint.and_then(|joint| joint.description.clone()),
+        });
 
-    for &joint_index in &children[link_index] {
-        walk(
-            driven[joint_index],
-            Some(body_index),
-            Some(joint_index),
-            links,
-            joints,
-            children,
-            driven,
-            visited,
-            bodies,
-        );
+        for &joint_index in children[link_index].iter().rev() {
+            pending.push((driven[joint_index], Some(body_index), Some(joint_index)));
+        }
     }
 }
-- 
2.43.0


From e53a50bec42ec9b054390d4782dbd46d7cf4197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 49/74] fix: bodies and default blocks nested to any depth are
 read without overflowing the stack

---
 crates/multicalc-robot-model/src/mjcf/body.rs | 82 +++++++++++--------
 .../src/mjcf/defaults.rs                      | 30 +++++--
 2 files changed, 69 insertions(+), 43 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 77da9f7..011858f 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -40,6 +40,14 @@ pub(crate) struct ParsedBody {
     pub joint: Option<JointDescription>,
 }
 
+/// A body still to be read. `inherited_class` is the nearest enclosing `childclass`, carried down
+/// until overridden.
+struct PendingBody<'doc, 'input> {
+    node: Node<'doc, 'input>,
+    parent: Option<usize>,
+    inherited_class: Option<&'doc str>,
+}
+
 /// Parses the body tree, rejecting anything outside the supported subset by name.
 pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     let root = document.root_element();
@@ -50,16 +58,34 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
 
     let mut bodies = Vec::new();
     let mut floating_base = false;
-    for node in top_level_bodies(worldbody) {
-        walk_body(
+    // Kept on a list rather than the call stack, so bodies nested to any depth are read.
+    let mut pending: Vec<PendingBody> = top_level_bodies(worldbody)
+        .into_iter()
+        .rev()
+        .map(|node| PendingBody {
             node,
-            None,
-            None,
+            parent: None,
+            inherited_class: None,
+        })
+        .collect();
+    while let Some(next) = pending.pop() {
+        let index = bodies.len();
+        let class_chain = next.node.attribute("childclass").or(next.inherited_class);
+        bodies.push(read_body(
+            next.node,
+            next.parent,
+            class_chain,
             &table,
             &settings,
-            &mut bodies,
             &mut floating_base,
-        )?;
+        )?);
+        let first_child = pending.len();
+        pending.extend(elements(next.node, "body").map(|node| PendingBody {
+            node,
+            parent: Some(index),
+            inherited_class: class_chain,
+        }));
+        pending[first_child..].reverse();
     }
 
     if bodies.is_empty() {
@@ -80,28 +106,32 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
 /// wrapped this way, so recursion below the top level is a plain child scan.
 fn top_level_bodies<'doc, 'input>(worldbody: Node<'doc, 'input>) -> Vec<Node<'doc, 'input>> {
     let mut found = Vec::new();
-    for child in worldbody.children().filter(Node::is_element) {
-        match child.tag_name().name() {
-            "body" => found.push(child),
-            "worldbody" => found.extend(top_level_bodies(child)),
+    let mut pending = vec![worldbody];
+    while let Some(node) = pending.pop() {
+        match node.tag_name().name() {
+            "body" => found.push(node),
+            "worldbody" => {
+                let first_child = pending.len();
+                pending.extend(node.children().filter(Node::is_element));
+                pending[first_child..].reverse();
+            }
             _ => {}
         }
     }
     found
 }
 
-/// Parses one body, emits it, then recurses into its `<body>` children.
+/// Parses one body, leaving its `<body>` children to the caller.
 ///
-/// `inherited_class` is the nearest enclosing `childclass`, carried down until overridden.
-fn walk_body(
+/// `class_chain` is its own `childclass`, or else the nearest enclosing one.
+fn read_body(
     node: Node,
     parent: Option<usize>,
-    inherited_class: Option<&str>,
+    class_chain: Option<&str>,
     table: &DefaultTable,
     settings: &CompilerSettings,
-    bodies: &mut Vec<ParsedBody>,
     floating_base: &mut bool,
-) -> Result<(), ModelError> {
+) -> Result<ParsedBody, ModelError> {
     let name = node.attribute("name").unwrap_or("body").to_owned();
     reject_orientation_attributes(node, "body")?;
 
@@ -112,8 +142,6 @@ fn walk_body(
         Vector::new(position),
     );
 
-    let class_chain = node.attribute("childclass").or(inherited_class);
-
     let joint_like: Vec<Node> = node
         .children()
         .filter(|child| {
@@ -148,27 +176,13 @@ fn walk_body(
         },
     };
 
-    let index = bodies.len();
-    bodies.push(ParsedBody {
+    Ok(ParsedBody {
         name,
         parent,
         pose,
         inertia,
         joint,
-    });
-
-    for child in elements(node, "body") {
-        walk_body(
-            child,
-            Some(index),
-            class_chain,
-            table,
-            settings,
-            bodies,
-            floating_base,
-        )?;
-    }
-    Ok(())
+    })
 }
 
 /// Whether an element is a free joint: `<freejoint/>` or `<joint type="free">`.
diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index c457afd..5a94773 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -126,7 +126,7 @@ impl DefaultTable {
     pub(crate) fn build(root: Node) -> Result<Self, ModelError> {
         let mut table = DefaultTable::default();
         for node in elements(root, "default") {
-            table.walk(node, &ClassDefaults::default())?;
+            table.walk(node)?;
         }
         Ok(table)
     }
@@ -144,9 +144,25 @@ impl DefaultTable {
         }
     }
 
-    /// Flattens one block, then its nested blocks, each starting from what it inherits.
-    fn walk(&mut self, node: Node, inherited: &ClassDefaults) -> Result<(), ModelError> {
-        let mut settings = inherited.clone();
+    /// Flattens one block, then its nested blocks, each starting from what it inherits. The blocks
+    /// still to flatten are kept on a list rather than the call stack, so any nesting is read.
+    fn walk(&mut self, node: Node) -> Result<(), ModelError> {
+        let mut pending = vec![(node, ClassDefaults::default())];
+        while let Some((block, inherited)) = pending.pop() {
+            let settings = self.flatten(block, inherited)?;
+            let first_nested = pending.len();
+            pending.extend(elements(block, "default").map(|nested| (nested, settings.clone())));
+            pending[first_nested..].reverse();
+        }
+        Ok(())
+    }
+
+    /// Records one block's own settings over what it inherits, and returns them.
+    fn flatten(
+        &mut self,
+        node: Node,
+        mut settings: ClassDefaults,
+    ) -> Result<ClassDefaults, ModelError> {
         for geom in elements(node, "geom") {
             settings.geom = settings.geom.overridden_by(&GeomDefaults::read(geom)?);
         }
@@ -160,11 +176,7 @@ impl DefaultTable {
             }
             None => self.root = settings.clone(),
         }
-
-        for nested in elements(node, "default") {
-            self.walk(nested, &settings)?;
-        }
-        Ok(())
+        Ok(settings)
     }
 }
 
-- 
2.43.0


From a21e3f5ae9cb1144ab1671f4d75279ff669cb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 50/74] fix: every worldbody and compiler section is read, not
 only the first

---
 crates/multicalc-robot-model/src/mjcf/body.rs | 13 ++--
 .../src/mjcf/compiler.rs                      | 61 +++++++++----------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 011858f..90ffe22 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -54,12 +54,14 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     let name = root.attribute("model").unwrap_or("model").to_owned();
     let settings = CompilerSettings::read(root)?;
     let table = DefaultTable::build(root)?;
-    let worldbody = element(root, "worldbody").ok_or(ModelError::MissingWorldbody)?;
+    if element(root, "worldbody").is_none() {
+        return Err(ModelError::MissingWorldbody);
+    }
 
     let mut bodies = Vec::new();
     let mut floating_base = false;
     // Kept on a list rather than the call stack, so bodies nested to any depth are read.
-    let mut pending: Vec<PendingBody> = top_level_bodies(worldbody)
+    let mut pending: Vec<PendingBody> = top_level_bodies(root)
         .into_iter()
         .rev()
         .map(|node| PendingBody {
@@ -100,13 +102,14 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     })
 }
 
-/// The `<body>` children of `<worldbody>`, seeing through a nested `<worldbody>` spliced in by an
+/// The `<body>` children of every `<worldbody>` section, seeing through a nested `<worldbody>` spliced in by an
 /// `<include>`. Splicing reinserts the included file's `<mujoco>` contents verbatim, so an
 /// included body list arrives wrapped in its own `<worldbody>`. Nested `<body>` elements are never
 /// wrapped this way, so recursion below the top level is a plain child scan.
-fn top_level_bodies<'doc, 'input>(worldbody: Node<'doc, 'input>) -> Vec<Node<'doc, 'input>> {
+fn top_level_bodies<'doc, 'input>(root: Node<'doc, 'input>) -> Vec<Node<'doc, 'input>> {
     let mut found = Vec::new();
-    let mut pending = vec![worldbody];
+    let mut pending: Vec<Node> = elements(root, "worldbody").collect();
+    pending.reverse();
     while let Some(node) = pending.pop() {
         match node.tag_name().name() {
             "body" => found.push(node),
diff --git a/crates/multicalc-robot-model/src/mjcf/compiler.rs b/crates/multicalc-robot-model/src/mjcf/compiler.rs
index ca257a5..5b2e494 100644
--- a/crates/multicalc-robot-model/src/mjcf/compiler.rs
+++ b/crates/multicalc-robot-model/src/mjcf/compiler.rs
@@ -3,7 +3,7 @@
 use roxmltree::Node;
 
 use crate::ModelError;
-use crate::xml::{bad_attribute, element};
+use crate::xml::{bad_attribute, elements};
 
 /// File-wide settings governing how the rest of the document parses.
 pub(crate) struct CompilerSettings {
@@ -26,39 +26,36 @@ pub(crate) enum InertiaFromGeom {
 }
 
 impl CompilerSettings {
-    /// The first `<compiler>` child of `root`, with MJCF's defaults (`angle="degree"`,
-    /// `autolimits="true"`, `inertiafromgeom="auto"`) for absent attributes.
+    /// Every `<compiler>` child of `root`, later attributes over earlier ones, with MJCF's defaults
+    /// (`angle="degree"`, `autolimits="true"`, `inertiafromgeom="auto"`) for absent attributes.
     pub(crate) fn read(root: Node) -> Result<Self, ModelError> {
-        let Some(compiler) = element(root, "compiler") else {
-            return Ok(CompilerSettings {
-                angle_in_degrees: true,
-                auto_limits: true,
-                inertia_from_geom: InertiaFromGeom::Auto,
-            });
+        let mut settings = CompilerSettings {
+            angle_in_degrees: true,
+            auto_limits: true,
+            inertia_from_geom: InertiaFromGeom::Auto,
         };
-
-        let angle_in_degrees = match compiler.attribute("angle").unwrap_or("degree") {
-            "degree" => true,
-            "radian" => false,
-            value => return Err(bad_attribute(compiler, "angle", value)),
-        };
-        let auto_limits = match compiler.attribute("autolimits").unwrap_or("true") {
-            "true" => true,
-            "false" => false,
-            value => return Err(bad_attribute(compiler, "autolimits", value)),
-        };
-        let inertia_from_geom = match compiler.attribute("inertiafromgeom").unwrap_or("auto") {
-            "false" => InertiaFromGeom::Never,
-            "auto" => InertiaFromGeom::Auto,
-            "true" => InertiaFromGeom::Always,
-            value => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
-        };
-
-        Ok(CompilerSettings {
-            angle_in_degrees,
-            auto_limits,
-            inertia_from_geom,
-        })
+        for compiler in elements(root, "compiler") {
+            match compiler.attribute("angle") {
+                None => {}
+                Some("degree") => settings.angle_in_degrees = true,
+                Some("radian") => settings.angle_in_degrees = false,
+                Some(value) => return Err(bad_attribute(compiler, "angle", value)),
+            }
+            match compiler.attribute("autolimits") {
+                None => {}
+                Some("true") => settings.auto_limits = true,
+                Some("false") => settings.auto_limits = false,
+                Some(value) => return Err(bad_attribute(compiler, "autolimits", value)),
+            }
+            match compiler.attribute("inertiafromgeom") {
+                None => {}
+                Some("false") => settings.inertia_from_geom = InertiaFromGeom::Never,
+                Some("auto") => settings.inertia_from_geom = InertiaFromGeom::Auto,
+                Some("true") => settings.inertia_from_geom = InertiaFromGeom::Always,
+                Some(value) => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
+            }
+        }
+        Ok(settings)
     }
 
     /// An angle in the file's units, in radians.
-- 
2.43.0


From 27c18d110f72ed0369461546f935679b1be4ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 51/74] fix: settings in the main default block apply, and a
 second block adds to the first

---
 crates/multicalc-robot-model/src/mjcf/defaults.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index 5a94773..03f9718 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -126,7 +126,8 @@ impl DefaultTable {
     pub(crate) fn build(root: Node) -> Result<Self, ModelError> {
         let mut table = DefaultTable::default();
         for node in elements(root, "default") {
-            table.walk(node)?;
+            let inherited = table.root.clone();
+            table.walk(node, inherited)?;
         }
         Ok(table)
     }
@@ -134,7 +135,7 @@ impl DefaultTable {
     /// A class's settings, or the unnamed block's where no class is named.
     pub(crate) fn resolve(&self, class: Option<&str>) -> Result<&ClassDefaults, ModelError> {
         match class {
-            None => Ok(&self.root),
+            Some("main") | None => Ok(&self.root),
             Some(name) => self
                 .classes
                 .get(name)
@@ -146,8 +147,8 @@ impl DefaultTable {
 
     /// Flattens one block, then its nested blocks, each starting from what it inherits. The blocks
     /// still to flatten are kept on a list rather than the call stack, so any nesting is read.
-    fn walk(&mut self, node: Node) -> Result<(), ModelError> {
-        let mut pending = vec![(node, ClassDefaults::default())];
+    fn walk(&mut self, node: Node, inherited: ClassDefaults) -> Result<(), ModelError> {
+        let mut pending = vec![(node, inherited)];
         while let Some((block, inherited)) = pending.pop() {
             let settings = self.flatten(block, inherited)?;
             let first_nested = pending.len();
@@ -171,10 +172,11 @@ impl DefaultTable {
         }
 
         match node.attribute("class") {
+            // MJCF calls the outermost block `main`, and it reads the same with or without its name.
+            Some("main") | None => self.root = settings.clone(),
             Some(name) => {
                 self.classes.insert(name.to_owned(), settings.clone());
             }
-            None => self.root = settings.clone(),
         }
         Ok(settings)
     }
-- 
2.43.0


From 93a22e2a7c0672b5e4d5c4071f509fc6fea649aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 52/74] fix: an unnamed block inside a named default class is
 refused, not applied everywhere

---
 crates/multicalc-robot-model/src/mjcf/defaults.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index 03f9718..31f03ef 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -10,7 +10,8 @@ use roxmltree::Node;
 
 use crate::ModelError;
 use crate::xml::{
-    elements, fixed, parse_list, parse_scalar, parse_vector2, parse_vector3, parse_vector4,
+    bad_attribute, elements, fixed, parse_list, parse_scalar, parse_vector2, parse_vector3,
+    parse_vector4,
 };
 
 /// Geom settings from one default class. `None` means unset at this level.
@@ -171,7 +172,14 @@ impl DefaultTable {
             settings.joint = settings.joint.overridden_by(&JointDefaults::read(joint)?);
         }
 
+        let enclosing = node
+            .parent_element()
+            .and_then(|outer| outer.attribute("class"));
         match node.attribute("class") {
+            // A block inside a named class is a class of its own, and needs a name of its own.
+            None if enclosing.is_some_and(|name| name != "main") => {
+                return Err(bad_attribute(node, "class", ""));
+            }
             // MJCF calls the outermost block `main`, and it reads the same with or without its name.
             Some("main") | None => self.root = settings.clone(),
             Some(name) => {
-- 
2.43.0


From a3af7870aae18ae9d93066f742b2e4071d1a713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 53/74] fix: a class named on a joint or shape replaces the
 inherited childclass

---
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 9 +++------
 crates/multicalc-robot-model/src/mjcf/joint.rs    | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index d85a3d5..693fbe2 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -157,18 +157,15 @@ pub(crate) fn read_geom(
     }))
 }
 
-/// A shape's settings, with the shape's own winning over the class it names, that over the class
-/// its body names, and that over the unnamed block.
+/// A shape's settings, with the shape's own winning over the class it names, and that over the
+/// unnamed block. The class its body names stands in where the shape names none.
 fn effective(
     node: Node,
     table: &DefaultTable,
     class_chain: Option<&str>,
 ) -> Result<GeomDefaults, ModelError> {
     let mut settings = table.resolve(None)?.geom.clone();
-    if let Some(name) = class_chain {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.geom);
-    }
-    if let Some(name) = node.attribute("class") {
+    if let Some(name) = node.attribute("class").or(class_chain) {
         settings = settings.overridden_by(&table.resolve(Some(name))?.geom);
     }
     Ok(settings.overridden_by(&GeomDefaults::read(node)?))
diff --git a/crates/multicalc-robot-model/src/mjcf/joint.rs b/crates/multicalc-robot-model/src/mjcf/joint.rs
index 49e12e6..034388e 100644
--- a/crates/multicalc-robot-model/src/mjcf/joint.rs
+++ b/crates/multicalc-robot-model/src/mjcf/joint.rs
@@ -122,18 +122,15 @@ fn read_limits(
     }
 }
 
-/// Joint settings in precedence order: own attributes, named class, inherited `childclass`,
-/// unnamed default block.
+/// Joint settings in precedence order: own attributes, named class or else inherited
+/// `childclass`, unnamed default block.
 fn effective(
     node: Node,
     table: &DefaultTable,
     class_chain: Option<&str>,
 ) -> Result<JointDefaults, ModelError> {
     let mut settings = table.resolve(None)?.joint.clone();
-    if let Some(name) = class_chain {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.joint);
-    }
-    if let Some(name) = node.attribute("class") {
+    if let Some(name) = node.attribute("class").or(class_chain) {
         settings = settings.overridden_by(&table.resolve(Some(name))?.joint);
     }
     Ok(settings.overridden_by(&JointDefaults::read(node)?))
-- 
2.43.0


From 67771b0f45ad91da4cefec2a2f3945b775d27955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 54/74] fix: a shape with negative mass, density or size is
 refused

---
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index 693fbe2..118e829 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -52,6 +52,8 @@ pub(crate) fn read_geom(
 ) -> Result<Option<GeomMass>, ModelError> {
     reject_orientation_attributes(node, "geom")?;
     let settings = effective(node, table, class_chain)?;
+    reject_negative(node, "mass", settings.mass.as_slice())?;
+    reject_negative(node, "density", settings.density.as_slice())?;
 
     // A geom stated massless is dropped before its type is checked, so a model may use a geom
     // type this reader cannot integrate as long as it carries no mass.
@@ -157,6 +159,18 @@ pub(crate) fn read_geom(
     }))
 }
 
+/// Refuses a quantity below zero, which would take mass away from the body's other shapes.
+fn reject_negative(node: Node, attribute: &str, values: &[f64]) -> Result<(), ModelError> {
+    if values.iter().any(|value| *value < 0.0) {
+        return Err(bad_attribute(
+            node,
+            attribute,
+            node.attribute(attribute).unwrap_or_default(),
+        ));
+    }
+    Ok(())
+}
+
 /// A shape's settings, with the shape's own winning over the class it names, and that over the
 /// unnamed block. The class its body names stands in where the shape names none.
 fn effective(
@@ -275,6 +289,7 @@ fn extents(
     axis: Option<&Axis>,
 ) -> Result<[f64; 3], ModelError> {
     let size = settings.size.as_deref().unwrap_or_default();
+    reject_negative(node, "size", size)?;
     let reach = match (shape, size, axis) {
         // A shape whose ends are stated has already been measured along its axis, and MuJoCo
         // discards whatever the size says about that, so only the radius is read from it here.
-- 
2.43.0


From 07798c1355c71faf92d792e5c4e724908637f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 55/74] fix: an orientation stated by angles in a default class
 is refused, not dropped

---
 crates/multicalc-robot-model/src/mjcf/defaults.rs | 6 ++++++
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index 31f03ef..cb93cf1 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -24,6 +24,8 @@ pub(crate) struct GeomDefaults {
     pub quat: Option<[f64; 4]>,
     pub mass: Option<f64>,
     pub density: Option<f64>,
+    /// An orientation attribute this reader does not handle, refused once a shape relies on it.
+    pub unread_orientation: Option<&'static str>,
 }
 
 impl GeomDefaults {
@@ -37,6 +39,9 @@ impl GeomDefaults {
             quat: parse_vector4(node, "quat")?,
             mass: parse_scalar(node, "mass")?,
             density: parse_scalar(node, "density")?,
+            unread_orientation: UNSUPPORTED_ORIENTATION_ATTRIBUTES
+                .into_iter()
+                .find(|attribute| node.has_attribute(*attribute)),
         })
     }
 
@@ -51,6 +56,7 @@ impl GeomDefaults {
             quat: other.quat.or(self.quat),
             mass: other.mass.or(self.mass),
             density: other.density.or(self.density),
+            unread_orientation: other.unread_orientation.or(self.unread_orientation),
         }
     }
 }
diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index 118e829..d66ac18 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -52,6 +52,12 @@ pub(crate) fn read_geom(
 ) -> Result<Option<GeomMass>, ModelError> {
     reject_orientation_attributes(node, "geom")?;
     let settings = effective(node, table, class_chain)?;
+    if let Some(attribute) = settings.unread_orientation {
+        return Err(ModelError::UnsupportedOrientation {
+            element: "geom".to_owned(),
+            attribute: attribute.to_owned(),
+        });
+    }
     reject_negative(node, "mass", settings.mass.as_slice())?;
     reject_negative(node, "density", settings.density.as_slice())?;
 
-- 
2.43.0


From f7e49909bb0b647fbde3d9cf53c299fd1ef6accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 56/74] fix: a construct that adds bodies or settings inside a
 body tree is refused, not dropped

---
 crates/multicalc-robot-model/src/error.rs     | 22 +++++++++++
 crates/multicalc-robot-model/src/mjcf/body.rs | 37 +++++++++++++++++--
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc-robot-model/src/error.rs b/crates/multicalc-robot-model/src/error.rs
index 0cef9f3..cdc1d10 100644
--- a/crates/multicalc-robot-model/src/error.rs
+++ b/crates/multicalc-robot-model/src/error.rs
@@ -40,6 +40,20 @@ pub enum ModelError {
         /// The attribute name.
         attribute: String,
     },
+    /// An element this reader does not read, sitting where it can add bodies or change masses.
+    UnsupportedElement {
+        /// The element it was found in.
+        parent: String,
+        /// The element as written in the file.
+        element: String,
+    },
+    /// An attribute this reader does not read, set to a value that changes masses.
+    UnsupportedAttribute {
+        /// The element carrying the attribute.
+        element: String,
+        /// The attribute name.
+        attribute: String,
+    },
     /// A joint is limited, explicitly or by default, but states no `range`.
     LimitsNeedRange {
         /// The body's name.
@@ -199,6 +213,14 @@ impl core::fmt::Display for ModelError {
                 f,
                 "the joint on body {body} is limited but states no range"
             ),
+            ModelError::UnsupportedElement { parent, element } => write!(
+                f,
+                "{element} inside {parent} can add bodies or change masses, and this loader does not read it"
+            ),
+            ModelError::UnsupportedAttribute { element, attribute } => write!(
+                f,
+                "the {attribute} attribute on {element} changes masses, and this loader does not read it"
+            ),
             ModelError::NoInertiaSource { body } => write!(
                 f,
                 "body {body} states no mass properties and has no shapes to work them out from"
diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 90ffe22..dc20377 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -61,7 +61,7 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     let mut bodies = Vec::new();
     let mut floating_base = false;
     // Kept on a list rather than the call stack, so bodies nested to any depth are read.
-    let mut pending: Vec<PendingBody> = top_level_bodies(root)
+    let mut pending: Vec<PendingBody> = top_level_bodies(root)?
         .into_iter()
         .rev()
         .map(|node| PendingBody {
@@ -102,11 +102,37 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     })
 }
 
+/// Elements this reader does not read in a body tree, each of which can add bodies or change what
+/// the bodies weigh.
+const UNREAD_ELEMENTS: [&str; 7] = [
+    "frame",
+    "replicate",
+    "attach",
+    "composite",
+    "flexcomp",
+    "default",
+    "compiler",
+];
+
+/// Rejects an element the tree cannot be read without.
+fn reject_unread_element(node: Node, parent: &str) -> Result<(), ModelError> {
+    let element = node.tag_name().name();
+    if UNREAD_ELEMENTS.contains(&element) {
+        return Err(ModelError::UnsupportedElement {
+            parent: parent.to_owned(),
+            element: element.to_owned(),
+        });
+    }
+    Ok(())
+}
+
 /// The `<body>` children of every `<worldbody>` section, seeing through a nested `<worldbody>` spliced in by an
 /// `<include>`. Splicing reinserts the included file's `<mujoco>` contents verbatim, so an
 /// included body list arrives wrapped in its own `<worldbody>`. Nested `<body>` elements are never
 /// wrapped this way, so recursion below the top level is a plain child scan.
-fn top_level_bodies<'doc, 'input>(root: Node<'doc, 'input>) -> Vec<Node<'doc, 'input>> {
+fn top_level_bodies<'doc, 'input>(
+    root: Node<'doc, 'input>,
+) -> Result<Vec<Node<'doc, 'input>>, ModelError> {
     let mut found = Vec::new();
     let mut pending: Vec<Node> = elements(root, "worldbody").collect();
     pending.reverse();
@@ -118,10 +144,10 @@ fn top_level_bodies<'doc, 'input>(root: Node<'doc, 'input>) -> Vec<Node<'doc, 'i
                 pending.extend(node.children().filter(Node::is_element));
                 pending[first_child..].reverse();
             }
-            _ => {}
+            _ => reject_unread_element(node, "worldbody")?,
         }
     }
-    found
+    Ok(found)
 }
 
 /// Parses one body, leaving its `<body>` children to the caller.
@@ -137,6 +163,9 @@ fn read_body(
 ) -> Result<ParsedBody, ModelError> {
     let name = node.attribute("name").unwrap_or("body").to_owned();
     reject_orientation_attributes(node, "body")?;
+    for child in node.children().filter(Node::is_element) {
+        reject_unread_element(child, "body")?;
+    }
 
     let position = parse_vector3(node, "pos")?.unwrap_or([0.0; 3]);
     let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
-- 
2.43.0


From d438ee8b54e7b13ffce7ad7e168b57feefe5f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 57/74] fix: a compiler setting that changes masses is refused,
 not dropped

---
 .../src/mjcf/compiler.rs                      | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/compiler.rs b/crates/multicalc-robot-model/src/mjcf/compiler.rs
index 5b2e494..a7387c2 100644
--- a/crates/multicalc-robot-model/src/mjcf/compiler.rs
+++ b/crates/multicalc-robot-model/src/mjcf/compiler.rs
@@ -5,6 +5,17 @@ use roxmltree::Node;
 use crate::ModelError;
 use crate::xml::{bad_attribute, elements};
 
+/// Attributes this reader does not apply, each changing masses or placements unless it holds one of
+/// the values listed beside it.
+const MASS_CHANGING_ATTRIBUTES: [(&str, &[&str]); 6] = [
+    ("settotalmass", &["-1"]),
+    ("boundmass", &["0"]),
+    ("boundinertia", &["0"]),
+    ("balanceinertia", &["false"]),
+    ("inertiagrouprange", &["0 5"]),
+    ("coordinate", &["local"]),
+];
+
 /// File-wide settings governing how the rest of the document parses.
 pub(crate) struct CompilerSettings {
     /// Angles are in degrees rather than radians.
@@ -35,6 +46,17 @@ impl CompilerSettings {
             inertia_from_geom: InertiaFromGeom::Auto,
         };
         for compiler in elements(root, "compiler") {
+            for (attribute, inert) in MASS_CHANGING_ATTRIBUTES {
+                if compiler
+                    .attribute(attribute)
+                    .is_some_and(|value| !inert.contains(&value))
+                {
+                    return Err(ModelError::UnsupportedAttribute {
+                        element: "compiler".to_owned(),
+                        attribute: attribute.to_owned(),
+                    });
+                }
+            }
             match compiler.attribute("angle") {
                 None => {}
                 Some("degree") => settings.angle_in_degrees = true,
-- 
2.43.0


From c874f66bc45db6d6573ab8b0e7d200ae3c8b2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 58/74] fix: an include written inside another include is
 replaced with it, not spliced twice

---
 crates/multicalc-robot-model/src/mjcf/document.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/document.rs b/crates/multicalc-robot-model/src/mjcf/document.rs
index 0689783..84b340b 100644
--- a/crates/multicalc-robot-model/src/mjcf/document.rs
+++ b/crates/multicalc-robot-model/src/mjcf/document.rs
@@ -29,6 +29,13 @@ fn read(path: &Path, depth: usize) -> Result<String, ModelError> {
     let mut includes: Vec<(Range<usize>, String)> = Vec::new();
     for node in document.descendants() {
         if node.is_element() && node.tag_name().name() == "include" {
+            // An include inside another goes with it, since the outer one is replaced whole.
+            if includes
+                .last()
+                .is_some_and(|(outer, _)| outer.contains(&node.range().start))
+            {
+                continue;
+            }
             let file = node
                 .attribute("file")
                 .ok_or_else(|| bad_attribute(node, "file", ""))?;
-- 
2.43.0


From 1f6c50a5b0a60a2248089df148c7bfdac0264a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 59/74] fix: a shape whose mass sits on its shell is refused,
 not read as solid

---
 crates/multicalc-robot-model/src/mjcf/defaults.rs |  6 ++++++
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index cb93cf1..948daf5 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -26,6 +26,7 @@ pub(crate) struct GeomDefaults {
     pub density: Option<f64>,
     /// An orientation attribute this reader does not handle, refused once a shape relies on it.
     pub unread_orientation: Option<&'static str>,
+    pub shell_inertia: Option<String>,
 }
 
 impl GeomDefaults {
@@ -42,6 +43,7 @@ impl GeomDefaults {
             unread_orientation: UNSUPPORTED_ORIENTATION_ATTRIBUTES
                 .into_iter()
                 .find(|attribute| node.has_attribute(*attribute)),
+            shell_inertia: node.attribute("shellinertia").map(str::to_owned),
         })
     }
 
@@ -57,6 +59,10 @@ impl GeomDefaults {
             mass: other.mass.or(self.mass),
             density: other.density.or(self.density),
             unread_orientation: other.unread_orientation.or(self.unread_orientation),
+            shell_inertia: other
+                .shell_inertia
+                .clone()
+                .or_else(|| self.shell_inertia.clone()),
         }
     }
 }
diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index d66ac18..1812bea 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -67,6 +67,17 @@ pub(crate) fn read_geom(
         return Ok(None);
     }
 
+    if settings
+        .shell_inertia
+        .as_deref()
+        .is_some_and(|value| value != "false")
+    {
+        return Err(ModelError::UnsupportedAttribute {
+            element: "geom".to_owned(),
+            attribute: "shellinertia".to_owned(),
+        });
+    }
+
     let shape = match settings.geom_type.as_deref().unwrap_or(ASSUMED_TYPE) {
         "sphere" => Shape::Sphere,
         "ellipsoid" => Shape::Ellipsoid,
-- 
2.43.0


From 962183574b1e872859d05d8523f0ad1799c843bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 60/74] fix: a configuration capacity too small for the model
 is refused before source is written

---
 crates/multicalc-robot-model/src/codegen.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index 42f5e48..e77b7f9 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -3,6 +3,7 @@
 
 use std::fmt::Write as _;
 
+use multicalc::error::KinematicsError;
 use multicalc::kinematics::{Joint, JointKind, JointParent, KinematicTree};
 
 use crate::{ModelError, RobotModel};
@@ -148,10 +149,16 @@ impl RobotModel {
         };
 
         let (joints, parents) = self.joints_and_parents(&slots);
-        KinematicTree::<VALIDATION_CAPACITY, VALIDATION_CONFIGURATION_CAPACITY, f64>::try_from_joints(
-            &joints, &parents,
-        )
-        .map_err(ModelError::Kinematics)?;
+        let tree =
+            KinematicTree::<VALIDATION_CAPACITY, VALIDATION_CONFIGURATION_CAPACITY, f64>::try_from_joints(
+                &joints, &parents,
+            )
+            .map_err(ModelError::Kinematics)?;
+        if tree.config_len() > configuration_capacity {
+            return Err(ModelError::Kinematics(
+                KinematicsError::ConfigurationCapacityExceeded,
+            ));
+        }
 
         let names: Vec<&str> = slots
             .iter()
-- 
2.43.0


From 134f2055b3451b9d15965523a1357198c0a0e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 61/74] fix: a model too large for f32 is refused instead of
 written out as inf

---
 crates/multicalc-robot-model/src/codegen.rs | 25 +++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index e77b7f9..91e6b0b 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -160,6 +160,10 @@ impl RobotModel {
             ));
         }
 
+        if options.scalar == GeneratedScalar::F32 && !joints.iter().all(fits_in_f32) {
+            return Err(ModelError::Kinematics(KinematicsError::NonFinite));
+        }
+
         let names: Vec<&str> = slots
             .iter()
             .map(|&index| {
@@ -179,6 +183,27 @@ impl RobotModel {
     }
 }
 
+/// Whether every number a joint is written out with stays finite as an `f32`.
+fn fits_in_f32(joint: &Joint<f64>) -> bool {
+    let (lower, upper) = joint.limits().unwrap_or_default();
+    let stated = [
+        lower,
+        upper,
+        joint.zero_offset(),
+        joint.armature(),
+        joint.damping(),
+        joint.friction_loss(),
+    ];
+    joint
+        .origin()
+        .translation()
+        .into_array()
+        .into_iter()
+        .chain(joint.anchor().into_array())
+        .chain(stated)
+        .all(|value| (value as f32).is_finite())
+}
+
 fn render(
     joints: &[Joint<f64>],
     parents: &[JointParent],
-- 
2.43.0


From ecf68179017b6e137de585f8fb8e1676718315e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 62/74] fix: a line break in a body name stays inside its
 comment in generated source

---
 crates/multicalc-robot-model/src/codegen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index 91e6b0b..5cadc1c 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -302,7 +302,9 @@ fn render_push(
         JointParent::Joint(index) => format!("JointParent::Joint({index})"),
     };
 
-    let _ = writeln!(out, "    // {name}");
+    // A name may hold a line break, which would end the comment early.
+    let comment = name.replace(|letter: char| letter.is_control(), " ");
+    let _ = writeln!(out, "    // {comment}");
     match joint.kind() {
         JointKind::Fixed => {
             let _ = writeln!(out, "    tree.push(");
-- 
2.43.0


From d3eae4c685bfd0090e9fdfefe8ca4046ecd8cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 63/74] fix: an inertia turned into body axes stays symmetric,
 so a heavy body is not refused

---
 crates/multicalc-robot-model/src/mjcf/body.rs     | 2 +-
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 3 ++-
 crates/multicalc-robot-model/src/urdf/link.rs     | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index dc20377..e314423 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -240,7 +240,7 @@ fn stated_inertia(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
             // into body axes.
             let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
             let rotation = unit_quaternion(node, quat, "quat")?.to_rotation_matrix();
-            rotation * Matrix::from_diagonal(principal) * rotation.transpose()
+            (rotation * Matrix::from_diagonal(principal) * rotation.transpose()).symmetrized()
         }
         // `quat` does not apply to a full tensor; MuJoCo ignores it there too.
         (None, Some([ixx, iyy, izz, ixy, ixz, iyz])) => {
diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index 1812bea..d46a732 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -162,7 +162,8 @@ pub(crate) fn read_geom(
         None => unit_quaternion(node, settings.quat.unwrap_or([1.0, 0.0, 0.0, 0.0]), "quat")?,
     };
     let rotation = turn.to_rotation_matrix();
-    let inertia = rotation * Matrix::from_diagonal(principal) * rotation.transpose();
+    let inertia =
+        (rotation * Matrix::from_diagonal(principal) * rotation.transpose()).symmetrized();
 
     let center = match &axis {
         Some(axis) => axis.center,
diff --git a/crates/multicalc-robot-model/src/urdf/link.rs b/crates/multicalc-robot-model/src/urdf/link.rs
index 2bf72db..db884a1 100644
--- a/crates/multicalc-robot-model/src/urdf/link.rs
+++ b/crates/multicalc-robot-model/src/urdf/link.rs
@@ -61,7 +61,7 @@ fn read_inertial(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
     ]);
 
     let rotation = origin.rotation().to_matrix();
-    let tensor = rotation * stated * rotation.transpose();
+    let tensor = (rotation * stated * rotation.transpose()).symmetrized();
 
     SpatialInertia::new(mass, origin.translation(), tensor).map_err(ModelError::Inertia)
 }
-- 
2.43.0


From 89c72af0345480bb886f085594a0a4cba305f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 64/74] fix: a vector whose norm overflows is refused by
 try_normalized, not turned into the zero vector

---
 crates/multicalc/src/linear_algebra/vector.rs | 9 +++++----
 crates/multicalc/src/spatial/quaternion.rs    | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/vector.rs b/crates/multicalc/src/linear_algebra/vector.rs
index e10ffda..6c3a216 100644
--- a/crates/multicalc/src/linear_algebra/vector.rs
+++ b/crates/multicalc/src/linear_algebra/vector.rs
@@ -266,7 +266,8 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     }
 
     /// Attempts to return a normalized copy of the vector (i.e. one where the norm is equal to 1),
-    /// returning `None` in the case of a zero vector or a vector with a `NAN` entry.
+    /// returning `None` in the case of a zero vector, a vector with a `NAN` or infinite entry, or one
+    /// so long that its norm is not representable.
     ///
     /// ```
     /// use multicalc::linear_algebra::Vector;
@@ -278,7 +279,7 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     #[must_use]
     pub fn try_normalized(self) -> Option<Self> {
         let norm = self.norm();
-        if norm.is_nan() || norm == T::ZERO {
+        if !norm.is_finite() || norm == T::ZERO {
             return None;
         }
         Some(self / norm)
@@ -299,7 +300,7 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     }
 
     /// Attempt to normalize the vector in-place (i.e. after this operation the norm is equal to 1).
-    /// This method returns `None` and leaves the vector unchanged if the norm is zero or NAN.
+    /// This method returns `None` and leaves the vector unchanged if the norm is zero, infinite or NAN.
     ///
     /// ```
     /// use multicalc::linear_algebra::Vector;
@@ -320,7 +321,7 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     #[must_use]
     pub fn try_normalize(&mut self) -> Option<()> {
         let norm = self.norm();
-        if norm.is_nan() || norm == T::ZERO {
+        if !norm.is_finite() || norm == T::ZERO {
             return None;
         }
         self.do_normalize(norm);
diff --git a/crates/multicalc/src/spatial/quaternion.rs b/crates/multicalc/src/spatial/quaternion.rs
index f65a276..23154bf 100644
--- a/crates/multicalc/src/spatial/quaternion.rs
+++ b/crates/multicalc/src/spatial/quaternion.rs
@@ -44,8 +44,8 @@ pub struct Quaternion<T: Numeric = f64> {
 /// Components are divided by the largest of them in magnitude before the norm is taken, which
 /// keeps the direction of inputs whose squared norm is not representable. Normalizing straight
 /// through `Vector::try_normalized` does not: `norm()` squares first, so `[1e200, 0, 0]` overflows
-/// to an infinite norm and comes back as the zero vector, and `[1e-200, 0, 0]` underflows to a
-/// zero norm and comes back as `None`, though both name a perfectly good axis.
+/// to an infinite norm and `[1e-200, 0, 0]` underflows to a zero one, and both come back as `None`
+/// though they name a perfectly good axis.
 #[inline]
 #[must_use]
 fn unit_direction<T: Numeric>(vector: Vector<3, T>) -> Option<Vector<3, T>> {
-- 
2.43.0


From dd77fede389fb932264e5f3ce640ca7a5dd4f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 65/74] fix: a finite angle in degrees never overflows to an
 infinite one in radians

---
 crates/multicalc-robot-model/src/mjcf/compiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/compiler.rs b/crates/multicalc-robot-model/src/mjcf/compiler.rs
index a7387c2..0cbeb1e 100644
--- a/crates/multicalc-robot-model/src/mjcf/compiler.rs
+++ b/crates/multicalc-robot-model/src/mjcf/compiler.rs
@@ -83,7 +83,8 @@ impl CompilerSettings {
     /// An angle in the file's units, in radians.
     pub(crate) fn to_radians(&self, value: f64) -> f64 {
         if self.angle_in_degrees {
-            value * std::f64::consts::PI / 180.0
+            // Divided first, so that no finite angle overflows on the way.
+            value / 180.0 * std::f64::consts::PI
         } else {
             value
         }
-- 
2.43.0


From 1a60cd7799bb1fa09620e8b36e7e6d362404cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 66/74] fix: counting the real roots of a constant polynomial
 no longer underflows

---
 crates/multicalc/src/polynomial/roots.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index aabeb10..82a34b9 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -522,7 +522,8 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             }
         }
 
-        while length < COEFFICIENT_COUNT {
+        // A flat line has no derivative, so its chain is just itself.
+        while length >= 2 && length < COEFFICIENT_COUNT {
             // Each new entry is what is left over from dividing the two before it, with the sign
             // turned around.
             let previous = chain.get(length - 2).copied().unwrap_or_default();
-- 
2.43.0


From 9be7d5d7b7df4c28dd8e70bd3df4da20c8356532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 67/74] fix: clamping a plain number never panics, as clamping
 a dual number never did

---
 crates/multicalc/src/scalar/numeric.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index 7ac694c..3f06706 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -215,6 +215,9 @@ pub trait Numeric:
 
     /// Restrict a value to the interval `[min, max]` unless it is NaN.
     ///
+    /// Never panics: a bound that is NaN does not restrict the value, and with the bounds the wrong
+    /// way round a value below `min` gives `min` and any other above `max` gives `max`.
+    ///
     /// ```
     /// use multicalc::Numeric;
     ///
@@ -558,7 +561,13 @@ impl Numeric for f64 {
     }
     #[inline]
     fn clamp(self, min: Self::Constant, max: Self::Constant) -> Self {
-        self.clamp(min, max)
+        if self < min {
+            min
+        } else if max < self {
+            max
+        } else {
+            self
+        }
     }
     #[inline]
     fn max(self, other: Self) -> Self {
@@ -741,7 +750,13 @@ impl Numeric for f32 {
     }
     #[inline]
     fn clamp(self, min: Self::Constant, max: Self::Constant) -> Self {
-        self.clamp(min, max)
+        if self < min {
+            min
+        } else if max < self {
+            max
+        } else {
+            self
+        }
     }
     #[inline]
     fn max(self, other: Self) -> Self {
-- 
2.43.0


From cb99b2370c2d5f1f74e2b46511e75105a2ecf1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 68/74] fix: a bracket with an end that is not finite is
 refused even when the function is zero there

---
 crates/multicalc/src/root_finding/bisection.rs | 5 ++++-
 crates/multicalc/src/root_finding/brent.rs     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/root_finding/bisection.rs b/crates/multicalc/src/root_finding/bisection.rs
index eaa6d07..0bd9278 100644
--- a/crates/multicalc/src/root_finding/bisection.rs
+++ b/crates/multicalc/src/root_finding/bisection.rs
@@ -91,6 +91,9 @@ impl<T: Numeric> Bisection<T> {
         if !value_a.is_finite() || !value_b.is_finite() {
             return Err(SolveError::NonFinite);
         }
+        if !a.is_finite() || !b.is_finite() {
+            return Err(SolveError::InvalidBracket);
+        }
         if value_a == T::ZERO {
             return Ok(RootReport {
                 root: a,
@@ -107,7 +110,7 @@ impl<T: Numeric> Bisection<T> {
                 termination: RootTermination::ResidualTolerance,
             });
         }
-        if !a.is_finite() || !b.is_finite() || same_sign(value_a, value_b) {
+        if same_sign(value_a, value_b) {
             return Err(SolveError::InvalidBracket);
         }
 
diff --git a/crates/multicalc/src/root_finding/brent.rs b/crates/multicalc/src/root_finding/brent.rs
index 941fc32..852db1b 100644
--- a/crates/multicalc/src/root_finding/brent.rs
+++ b/crates/multicalc/src/root_finding/brent.rs
@@ -90,6 +90,9 @@ impl<T: Numeric> Brent<T> {
         if !f_at_a.is_finite() || !f_at_b.is_finite() {
             return Err(SolveError::NonFinite);
         }
+        if !a.is_finite() || !b.is_finite() {
+            return Err(SolveError::InvalidBracket);
+        }
         if f_at_a == T::ZERO {
             return Ok(RootReport {
                 root: a,
@@ -106,7 +109,7 @@ impl<T: Numeric> Brent<T> {
                 termination: RootTermination::ResidualTolerance,
             });
         }
-        if !a.is_finite() || !b.is_finite() || same_sign(f_at_a, f_at_b) {
+        if same_sign(f_at_a, f_at_b) {
             return Err(SolveError::InvalidBracket);
         }
 
-- 
2.43.0


From 6d2597eb264c4dff6f261aae6c5135a24d718c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 69/74] fix: a particle count too large for memory is refused,
 not a panic

---
 crates/multicalc/src/error.rs                 |  5 +++
 .../src/estimation/monte_carlo_localizer.rs   |  3 +-
 .../src/estimation/particle_filter.rs         | 36 +++++++++++++------
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/crates/multicalc/src/error.rs b/crates/multicalc/src/error.rs
index 0828355..eb0856a 100644
--- a/crates/multicalc/src/error.rs
+++ b/crates/multicalc/src/error.rs
@@ -161,6 +161,8 @@ pub enum EstimationError {
     InvalidTuning,
     /// A measurement model was asked to read a state component that does not exist.
     StateIndexOutOfRange,
+    /// More particles were requested than there is memory to hold.
+    TooManyParticles,
 }
 
 /// Errors from the signal-processing module (filters, smoothers, and signal conditioning).
@@ -684,6 +686,9 @@ impl core::fmt::Display for EstimationError {
             EstimationError::StateIndexOutOfRange => {
                 f.write_str("measurement model refers to a state component that does not exist")
             }
+            EstimationError::TooManyParticles => {
+                f.write_str("not enough memory for that many particles")
+            }
         }
     }
 }
diff --git a/crates/multicalc/src/estimation/monte_carlo_localizer.rs b/crates/multicalc/src/estimation/monte_carlo_localizer.rs
index 03c65a0..81c97e8 100644
--- a/crates/multicalc/src/estimation/monte_carlo_localizer.rs
+++ b/crates/multicalc/src/estimation/monte_carlo_localizer.rs
@@ -112,7 +112,8 @@ impl<const NUM_BEAMS: usize, T: RandomScalar + Primal> MonteCarloLocalizer<NUM_B
     /// and heading; [`set_motion_noise`](Self::set_motion_noise) changes it.
     ///
     /// Returns [`EstimationError::NotPositiveDefinite`] if the spreads do not describe a usable
-    /// cloud, and [`EstimationError::WeightsDegenerate`] if the particle count is zero.
+    /// cloud, [`EstimationError::WeightsDegenerate`] if the particle count is zero, and
+    /// [`EstimationError::TooManyParticles`] if a cloud that size does not fit in memory.
     pub fn new(
         hint: [T; 3],
         cloud: InitialParticleCloud<T>,
diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 687d23a..04e41ff 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -19,7 +19,6 @@
 //! a heap, std/`alloc` type — the bare-metal target does not build it.
 //!
 
-use alloc::vec;
 use alloc::vec::Vec;
 
 use crate::error::EstimationError;
@@ -215,6 +214,15 @@ fn recoverable_log_weight<T: Numeric>(weight: T) -> T {
     }
 }
 
+/// An empty buffer with room for one value per particle.
+fn reserved<V>(particle_count: usize) -> Result<Vec<V>, EstimationError> {
+    let mut buffer = Vec::new();
+    buffer
+        .try_reserve_exact(particle_count)
+        .map_err(|_| EstimationError::TooManyParticles)?;
+    Ok(buffer)
+}
+
 /// Scores how well a particle's predicted measurement matches the real one, as a log-weight.
 ///
 /// Implement this for a custom sensor; [`GaussianLikelihood`] is the ready-made default.
@@ -350,8 +358,9 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Random
     /// Gaussian `initial_mean`/`initial_covariance`.
     ///
     /// Returns [`NotPositiveDefinite`](EstimationError::NotPositiveDefinite) if either covariance
-    /// cannot be factorized, and [`WeightsDegenerate`](EstimationError::WeightsDegenerate) if
-    /// `particle_count` is zero.
+    /// cannot be factorized, [`WeightsDegenerate`](EstimationError::WeightsDegenerate) if
+    /// `particle_count` is zero, and [`TooManyParticles`](EstimationError::TooManyParticles) if a
+    /// cloud that size does not fit in memory.
     pub fn new(
         particle_count: usize,
         initial_mean: Vector<STATE_DIMENSION, T>,
@@ -378,8 +387,9 @@ where
     /// [`RandomSource`]. [`new`](Self::new) is the seeded-`Pcg32` default.
     ///
     /// Returns [`NotPositiveDefinite`](EstimationError::NotPositiveDefinite) if either covariance
-    /// cannot be factorized, and [`WeightsDegenerate`](EstimationError::WeightsDegenerate) if
-    /// `particle_count` is zero.
+    /// cannot be factorized, [`WeightsDegenerate`](EstimationError::WeightsDegenerate) if
+    /// `particle_count` is zero, and [`TooManyParticles`](EstimationError::TooManyParticles) if a
+    /// cloud that size does not fit in memory.
     pub fn from_random(
         particle_count: usize,
         initial_mean: Vector<STATE_DIMENSION, T>,
@@ -418,10 +428,16 @@ where
             .map_err(|_| EstimationError::NotPositiveDefinite)?
             .lower();
 
+        // Ask for all the memory before drawing anything, so a cloud that does not fit is refused.
+        let mut particles = reserved(particle_count)?;
+        let mut weights = reserved(particle_count)?;
+        let mut particle_scratch = reserved(particle_count)?;
+        let mut index_scratch = reserved(particle_count)?;
+        let mut log_weight_scratch = reserved(particle_count)?;
+
         // Scatter the starting cloud around the mean: each particle is the mean plus the initial
         // factor applied to a vector of standard normal draws, which reshapes those draws to match
         // the requested covariance.
-        let mut particles = Vec::with_capacity(particle_count);
         for _ in 0..particle_count {
             let sample = Vector::from_fn(|_| random.standard_normal());
             particles.push(initial_mean + initial_factor * sample);
@@ -429,10 +445,10 @@ where
 
         // Start every particle equally likely, and size the reusable scratch buffers once so a
         // steady run never allocates again.
-        let weights = vec![T::ONE / T::from_usize(particle_count); particle_count];
-        let particle_scratch = particles.clone();
-        let index_scratch = vec![0usize; particle_count];
-        let log_weight_scratch = vec![T::ZERO; particle_count];
+        weights.resize(particle_count, T::ONE / T::from_usize(particle_count));
+        particle_scratch.extend_from_slice(&particles);
+        index_scratch.resize(particle_count, 0usize);
+        log_weight_scratch.resize(particle_count, T::ZERO);
 
         Ok(ParticleFilter {
             particles,
-- 
2.43.0


From da4e86bd4278351cf4d6d31f8d0a3ee6c9ab0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 70/74] fix: a filter whose weights overflow is refused, not
 handed back with NaN weights

---
 crates/multicalc/src/signal_processing/biquad.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/signal_processing/biquad.rs b/crates/multicalc/src/signal_processing/biquad.rs
index f1d0933..47c0e42 100644
--- a/crates/multicalc/src/signal_processing/biquad.rs
+++ b/crates/multicalc/src/signal_processing/biquad.rs
@@ -82,7 +82,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
 
     /// Builds a low-pass, which keeps content below the cutoff and fades out what is above it.
     ///
-    /// Returns [`SignalError::NonFinite`] if any argument is not finite,
+    /// Returns [`SignalError::NonFinite`] if any argument is not finite or a weight overflows,
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `cutoff_hz` is not strictly positive or reaches half
@@ -100,7 +100,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
 
     /// Builds a high-pass, which keeps content above the cutoff and fades out what is below it.
     ///
-    /// Returns [`SignalError::NonFinite`] if any argument is not finite,
+    /// Returns [`SignalError::NonFinite`] if any argument is not finite or a weight overflows,
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `cutoff_hz` is not strictly positive or reaches half
@@ -121,7 +121,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// Builds a band-pass, which keeps a band of frequencies around the centre and fades out
     /// everything to either side of it.
     ///
-    /// Returns [`SignalError::NonFinite`] if any argument is not finite,
+    /// Returns [`SignalError::NonFinite`] if any argument is not finite or a weight overflows,
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
@@ -142,7 +142,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// Builds a notch, which removes a narrow band of frequencies around the centre and leaves
     /// everything to either side of it alone.
     ///
-    /// Returns [`SignalError::NonFinite`] if any argument is not finite,
+    /// Returns [`SignalError::NonFinite`] if any argument is not finite or a weight overflows,
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
@@ -351,11 +351,13 @@ impl<T: Numeric> BiquadCoefficients<T> {
             Design::Notch => [T::ONE, -(T::TWO * cosine), T::ONE],
         };
 
-        Ok(Self::from_unnormalized(
+        let weights = Self::from_unnormalized(
             feed_forward,
             [T::ONE + alpha, -(T::TWO * cosine), T::ONE - alpha],
             timestep,
-        ))
+        );
+        // An argument at the edge of what a number can hold overflows on the way here.
+        Self::new(weights.feed_forward, weights.feedback, timestep)
     }
 
     /// Divides the six raw weights through by the leading output weight and keeps the five that
-- 
2.43.0


From d469f8cfda6902335cd465c959fa4d2e761f2324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 71/74] fix: the middle of a very wide root range does not
 overflow

---
 crates/multicalc/src/polynomial/roots.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 82a34b9..0f58494 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -429,6 +429,16 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
     Some(Polynomial::new(working))
 }
 
+/// Halfway between two points, even ones so far from zero that their sum is not representable.
+fn midpoint<T: Numeric>(low: T, high: T) -> T {
+    let sum = low + high;
+    if sum.is_finite() {
+        sum * T::HALF
+    } else {
+        low * T::HALF + high * T::HALF
+    }
+}
+
 /// Adds a range to the waiting list, when there is still room for one.
 fn add_range<T: Numeric>(pending: &mut [(T, T)], length: &mut usize, range: (T, T)) {
     if let Some(slot) = pending.get_mut(*length) {
@@ -641,7 +651,7 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
                     }
                     steps += 1;
                     // Cut the range in two and keep whichever half still holds the root.
-                    let middle = (low + high) * T::HALF;
+                    let middle = midpoint(low, high);
                     if count_between(low, middle) == 1 {
                         high = middle;
                     } else {
@@ -649,7 +659,7 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
                     }
                 }
                 // Near enough now, so take the middle as the answer.
-                roots.push((low + high) * T::HALF);
+                roots.push(midpoint(low, high));
                 continue;
             }
 
@@ -658,7 +668,7 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
                 return Err(PolynomialError::DidNotConverge { steps });
             }
             steps += 1;
-            let middle = (range_lower + range_upper) * T::HALF;
+            let middle = midpoint(range_lower, range_upper);
             for (piece_lower, piece_upper) in [(range_lower, middle), (middle, range_upper)] {
                 // An empty half is dropped here rather than pushed and thrown away later, which is
                 // what keeps the waiting list short enough to fit.
-- 
2.43.0


From 25cfef3353be1b029b887882d015b9f72d8789c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 72/74] fix: copysign of an autodiff number with a negative
 zero flips the derivative with the value

---
 crates/multicalc/src/scalar/dual.rs       |  6 ++++--
 crates/multicalc/src/scalar/hyper_dual.rs | 10 ++++------
 crates/multicalc/src/scalar/jet.rs        |  6 ++++--
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc/src/scalar/dual.rs b/crates/multicalc/src/scalar/dual.rs
index bebd0f5..cc97f90 100644
--- a/crates/multicalc/src/scalar/dual.rs
+++ b/crates/multicalc/src/scalar/dual.rs
@@ -360,9 +360,11 @@ impl<T: Numeric> Numeric for Dual<T> {
     /// sign when `self` and `sign` disagree; the sign argument carries no derivative.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let same = (self.value < T::ZERO) == (sign.value < T::ZERO);
+        let value = self.value.copysign(sign.value);
+        // Judged by the result rather than by comparing signs, so a negative zero counts.
+        let same = value == self.value;
         Dual {
-            value: self.value.copysign(sign.value),
+            value,
             deriv: if same { self.deriv } else { -self.deriv },
         }
     }
diff --git a/crates/multicalc/src/scalar/hyper_dual.rs b/crates/multicalc/src/scalar/hyper_dual.rs
index c67551e..0acca5a 100644
--- a/crates/multicalc/src/scalar/hyper_dual.rs
+++ b/crates/multicalc/src/scalar/hyper_dual.rs
@@ -443,12 +443,10 @@ impl<T: Numeric> Numeric for HyperDual<T> {
     /// univariate `chain` helper with slope `s` and zero curvature.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.real < T::ZERO) == (sign.real < T::ZERO) {
-            T::ONE
-        } else {
-            -T::ONE
-        };
-        self.chain(self.real.copysign(sign.real), sign_scale, T::ZERO)
+        let real = self.real.copysign(sign.real);
+        // Judged by the result rather than by comparing signs, so a negative zero counts.
+        let sign_scale = if real == self.real { T::ONE } else { -T::ONE };
+        self.chain(real, sign_scale, T::ZERO)
     }
     /// Largest integer `<= self`; the derivatives of a step function are zero.
     #[inline]
diff --git a/crates/multicalc/src/scalar/jet.rs b/crates/multicalc/src/scalar/jet.rs
index f5b0b27..88b4134 100644
--- a/crates/multicalc/src/scalar/jet.rs
+++ b/crates/multicalc/src/scalar/jet.rs
@@ -440,13 +440,15 @@ impl<T: Numeric, const N: usize> Numeric for Jet<T, N> {
     /// scaled by `s = ±1`; the value coefficient is set by `copysign` so signed zero is exact.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.coeffs[0] < T::ZERO) == (sign.coeffs[0] < T::ZERO) {
+        let value = self.coeffs[0].copysign(sign.coeffs[0]);
+        // Judged by the result rather than by comparing signs, so a negative zero counts.
+        let sign_scale = if value == self.coeffs[0] {
             T::ONE
         } else {
             -T::ONE
         };
         let mut coeffs = core::array::from_fn(|k| sign_scale * self.coeffs[k]);
-        coeffs[0] = self.coeffs[0].copysign(sign.coeffs[0]);
+        coeffs[0] = value;
         Jet { coeffs }
     }
 
-- 
2.43.0


From 6bdce810d58ca44faff244fda2792390e53548a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 73/74] fix: the SVD of a matrix of very large or very small
 entries neither stops early nor turns NaN

---
 crates/multicalc/src/linear_algebra/svd.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/svd.rs b/crates/multicalc/src/linear_algebra/svd.rs
index f0bc797..81e8274 100644
--- a/crates/multicalc/src/linear_algebra/svd.rs
+++ b/crates/multicalc/src/linear_algebra/svd.rs
@@ -76,7 +76,18 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
             return Err(LinalgError::NonFinite);
         }
 
+        // The columns are squared below. Entries too large or too small for that are brought to
+        // order one first, and the singular values taken back at the end.
+        let largest_entry = self.max_abs();
+        let rescaled = largest_entry > T::ZERO
+            && (largest_entry > T::MAX.sqrt().sqrt()
+                || largest_entry < T::MIN_POSITIVE.sqrt().sqrt());
         let mut left = self;
+        if rescaled {
+            for entry in left.as_mut_slice_rows().iter_mut().flatten() {
+                *entry /= largest_entry;
+            }
+        }
         let mut right = Matrix::<N, N, T>::identity();
 
         // One-sided Jacobi: rotate column pairs of left until its columns are orthogonal.
@@ -93,7 +104,7 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
                     if alpha == T::ZERO || beta == T::ZERO {
                         continue;
                     }
-                    let scale = (alpha * beta).sqrt();
+                    let scale = alpha.sqrt() * beta.sqrt();
                     let off = gamma.abs() / scale;
                     if off > off_max {
                         off_max = off;
@@ -214,6 +225,10 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
             }
         }
 
+        if rescaled {
+            singular_values = singular_values.scale(largest_entry);
+        }
+
         Ok(Svd {
             left,
             singular_values,
-- 
2.43.0


From 93744d1a7c1391278c45a52f9afe1b03a8a9c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 74/74] fix: the inverse of a small matrix whose determinant
 leaves the number range

---
 crates/multicalc/src/linear_algebra/matrix.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/matrix.rs b/crates/multicalc/src/linear_algebra/matrix.rs
index 52dc02c..78f59b5 100644
--- a/crates/multicalc/src/linear_algebra/matrix.rs
+++ b/crates/multicalc/src/linear_algebra/matrix.rs
@@ -440,6 +440,16 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
     /// ```
     #[inline]
     pub fn inverse(self) -> Result<Self, LinalgError> {
+        // The closed forms multiply up to four entries together. Entries whose product would leave
+        // the number range are brought to order one first.
+        let unit = self.max_abs();
+        let in_range =
+            unit < T::MAX.sqrt().sqrt().sqrt() && unit > T::MIN_POSITIVE.sqrt().sqrt().sqrt();
+        if (2..=4).contains(&N) && !in_range && unit > T::ZERO && unit.is_finite() {
+            let normalized = Self::from_fn(|row, column| self[(row, column)] / unit);
+            let inverse = normalized.inverse()?;
+            return Ok(Self::from_fn(|row, column| inverse[(row, column)] / unit));
+        }
         match N {
             0 => Ok(self),
             1 => self.inverse_1x1(),
-- 
2.43.0

