From 84fe7a1ef404c0b9fdd68089bae4c1674cd09f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 01/23] fix: PID anti-windup holds the integral for a negative
 integral gain too

---
 crates/multicalc/src/control/pid.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/control/pid.rs b/crates/multicalc/src/control/pid.rs
index e205e01..a2a7796 100644
--- a/crates/multicalc/src/control/pid.rs
+++ b/crates/multicalc/src/control/pid.rs
@@ -199,7 +199,8 @@ impl<T: Numeric> Pid<T> {
         self.previous_error = error;
         self.has_previous_measurement = true;
 
-        let candidate_integral = self.integral + self.integral_gain * error * self.timestep;
+        let integral_step = self.integral_gain * error * self.timestep;
+        let candidate_integral = self.integral + integral_step;
         let unsaturated = proportional_term + candidate_integral + derivative_term;
         let output = unsaturated
             .max(self.output_minimum)
@@ -207,8 +208,10 @@ impl<T: Numeric> Pid<T> {
 
         let saturated_high = unsaturated > self.output_maximum;
         let saturated_low = unsaturated < self.output_minimum;
-        let pushing_deeper =
-            (saturated_high && error > T::ZERO) || (saturated_low && error < T::ZERO);
+        // Judged on the step itself rather than on the error, so a reverse-acting loop (a negative
+        // integral gain) is held on the side it really winds up towards.
+        let pushing_deeper = (saturated_high && integral_step > T::ZERO)
+            || (saturated_low && integral_step < T::ZERO);
         if !pushing_deeper {
             self.integral = candidate_integral;
         }
-- 
2.43.0


From 9d518d8f65417507ecba16fba3d7ec5bc7ed7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 02/23] fix: band-pass and notch designs reject a bandwidth at
 or past half the sampling rate

The damping term is the tangent of half the bandwidth angle; past a quarter turn it turns
negative and the designed filter is unstable, although every design is documented as stable.
---
 crates/multicalc/src/signal_processing/biquad.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/signal_processing/biquad.rs b/crates/multicalc/src/signal_processing/biquad.rs
index 4127e6b..e85e80a 100644
--- a/crates/multicalc/src/signal_processing/biquad.rs
+++ b/crates/multicalc/src/signal_processing/biquad.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the bandwidth `center_hz / quality_factor` does.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -146,7 +146,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the bandwidth `center_hz / quality_factor` does.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -317,6 +317,14 @@ impl<T: Numeric> BiquadCoefficients<T> {
         timestep: T,
     ) -> Result<Self, SignalError> {
         Self::check_design(frequency_hz, quality_factor, timestep)?;
+        // The band-pass and notch damping is the tangent of half the bandwidth angle, which only
+        // means something below a quarter turn: past it the tangent turns negative and the poles
+        // leave the unit circle.
+        if matches!(design, Design::BandPass | Design::Notch)
+            && frequency_hz * timestep >= T::HALF * quality_factor
+        {
+            return Err(SignalError::FrequencyOutOfRange);
+        }
 
         let angle = T::TWO * T::PI * frequency_hz * timestep;
         let cosine = angle.cos();
-- 
2.43.0


From e9afec998787b7064a47fea2417d90cee5ecc37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 03/23] fix: SavitzkyGolay::latest reports WindowTooShort for a
 window of zero instead of underflowing

---
 crates/multicalc/src/signal_processing/savitzky_golay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/signal_processing/savitzky_golay.rs b/crates/multicalc/src/signal_processing/savitzky_golay.rs
index 018564e..b352fc0 100644
--- a/crates/multicalc/src/signal_processing/savitzky_golay.rs
+++ b/crates/multicalc/src/signal_processing/savitzky_golay.rs
@@ -90,7 +90,7 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
     /// [`SignalError::PolynomialOrderTooHigh`] if there are more terms than samples to fit them,
     /// and [`SignalError::Linalg`] if the fit cannot be worked out.
     pub fn latest(timestep: T) -> Result<Self, SignalError> {
-        Self::build(timestep, WINDOW - 1)
+        Self::build(timestep, WINDOW.saturating_sub(1))
     }
 
     /// Feeds one sample and returns the smoothed value of the window it now sits in.
-- 
2.43.0


From 39950a9e35e4c2683dd4fe37de18da45c177a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 04/23] fix: reject a NaN radicand in the Cholesky
 factorization

---
 crates/multicalc/src/linear_algebra/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/cholesky.rs b/crates/multicalc/src/linear_algebra/cholesky.rs
index 702922f..19ab02a 100644
--- a/crates/multicalc/src/linear_algebra/cholesky.rs
+++ b/crates/multicalc/src/linear_algebra/cholesky.rs
@@ -47,7 +47,7 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
             for k in 0..j {
                 diag -= lower[(j, k)] * lower[(j, k)];
             }
-            if diag <= T::ZERO {
+            if diag.is_nan() || diag <= T::ZERO {
                 return Err(LinalgError::NotPositiveDefinite);
             }
             let ljj = diag.sqrt();
-- 
2.43.0


From 5ba41961c074ef49f8d718735f5a72edbdacc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 05/23] fix: a resampling draw of zero no longer picks a
 particle of zero weight

---
 crates/multicalc/src/estimation/particle_filter.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 1556cb2..a4ec966 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -174,20 +174,21 @@ fn residual<T: RandomScalar, R: RandomSource<T>>(
     }
 }
 
-/// The smallest source whose cumulative weight reaches `draw`.
+/// The smallest source whose cumulative weight passes `draw`, so a draw of exactly zero never lands
+/// on a source that carries no weight.
 #[must_use]
 fn draw_from_weights<T: Numeric>(weights: &[T], draw: T) -> usize {
     let mut running_sum = T::ZERO;
     for (source, &weight) in weights.iter().enumerate() {
         running_sum += weight;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
     weights.len() - 1
 }
 
-/// The smallest source whose cumulative fractional remainder reaches `draw`.
+/// The smallest source whose cumulative fractional remainder passes `draw`.
 #[must_use]
 fn draw_from_remainders<T: Numeric>(
     weights: &[T],
@@ -199,7 +200,7 @@ fn draw_from_remainders<T: Numeric>(
     for (source, &weight) in weights.iter().enumerate() {
         let scaled = count_scalar * weight;
         running_sum += (scaled - scaled.floor()) / remainder_sum;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
-- 
2.43.0


From 4686d5664fdab7c497739cb200bf34a8bf27bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 06/23] fix: a particle score that is not a number no longer
 spoils the weights it is refused for

---
 crates/multicalc/src/estimation/particle_filter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index a4ec966..dd09b61 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -639,10 +639,9 @@ where
 
         // Back to plain weights, measured relative to the heaviest particle, and total them.
         let mut sum = T::ZERO;
-        for i in 0..self.weights.len() {
-            let weight = (self.log_weight_scratch[i] - largest).exp();
-            self.weights[i] = weight;
-            sum += weight;
+        for log_weight in self.log_weight_scratch.iter_mut() {
+            *log_weight = (*log_weight - largest).exp();
+            sum += *log_weight;
         }
 
         // A zero or non-finite total leaves nothing to divide by, so the cloud has degenerated.
@@ -651,8 +650,8 @@ where
         }
 
         // Scale so the weights sum to one.
-        for weight in self.weights.iter_mut() {
-            *weight /= sum;
+        for (weight, &scaled) in self.weights.iter_mut().zip(&self.log_weight_scratch) {
+            *weight = scaled / sum;
         }
 
         // If the weight has piled onto too few particles, refresh the cloud before it collapses.
-- 
2.43.0


From 141aebedd0b10d12d009516de3496d6f59e75ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 07/23] fix: from_two_direction_pairs refuses parallel
 directions that differ only by rounding

---
 crates/multicalc/src/spatial/lie/so3.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/so3.rs b/crates/multicalc/src/spatial/lie/so3.rs
index 53d0f7e..0c2efd4 100644
--- a/crates/multicalc/src/spatial/lie/so3.rs
+++ b/crates/multicalc/src/spatial/lie/so3.rs
@@ -203,13 +203,11 @@ impl<T: Numeric> SO3<T> {
         }
 
         let observed_first = primary_observed.try_normalized()?;
-        let observed_third = observed_first.cross(secondary_observed).try_normalized()?;
+        let observed_third = perpendicular_direction(observed_first, secondary_observed)?;
         let observed_second = observed_third.cross(observed_first);
 
         let reference_first = primary_reference.try_normalized()?;
-        let reference_third = reference_first
-            .cross(secondary_reference)
-            .try_normalized()?;
+        let reference_third = perpendicular_direction(reference_first, secondary_reference)?;
         let reference_second = reference_third.cross(reference_first);
 
         // Each set of axes goes in as columns, so the product carries body directions to world
@@ -301,3 +299,16 @@ impl<T: Numeric> Default for SO3<T> {
         Self::identity()
     }
 }
+
+/// The unit direction at right angles to a unit `first` and to `second`, or `None` when `second`
+/// points the same way up to rounding.
+fn perpendicular_direction<T: Numeric>(
+    first: Vector3D<T>,
+    second: Vector3D<T>,
+) -> Option<Vector3D<T>> {
+    let across = first.cross(second.try_normalized()?);
+    if across.norm() <= T::EPSILON_X4 {
+        return None;
+    }
+    across.try_normalized()
+}
-- 
2.43.0


From 0e773ecb040f73095869aefe445a9cc81e5cd3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 08/23] fix: attitude filters keep their reference directions
 when the given pair is parallel up to rounding

---
 crates/multicalc/src/estimation/madgwick_filter.rs | 4 ++++
 crates/multicalc/src/estimation/mahony_filter.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/multicalc/src/estimation/madgwick_filter.rs b/crates/multicalc/src/estimation/madgwick_filter.rs
index 87f0acd..7ac93c9 100644
--- a/crates/multicalc/src/estimation/madgwick_filter.rs
+++ b/crates/multicalc/src/estimation/madgwick_filter.rs
@@ -124,6 +124,10 @@ impl<T: Numeric> MadgwickFilter<T> {
             return self;
         };
         let levelled = north_reference - upward * north_reference.dot(upward);
+        // Two directions that are the same up to rounding leave only noise behind.
+        if levelled.norm() <= north_reference.norm() * T::EPSILON_X4 {
+            return self;
+        }
         let Some(north) = levelled.try_normalized() else {
             return self;
         };
diff --git a/crates/multicalc/src/estimation/mahony_filter.rs b/crates/multicalc/src/estimation/mahony_filter.rs
index 5bb30a3..ca06814 100644
--- a/crates/multicalc/src/estimation/mahony_filter.rs
+++ b/crates/multicalc/src/estimation/mahony_filter.rs
@@ -120,6 +120,10 @@ impl<T: Numeric> MahonyFilter<T> {
             return self;
         };
         let levelled = north_reference - upward * north_reference.dot(upward);
+        // Two directions that are the same up to rounding leave only noise behind.
+        if levelled.norm() <= north_reference.norm() * T::EPSILON_X4 {
+            return self;
+        }
         let Some(north) = levelled.try_normalized() else {
             return self;
         };
-- 
2.43.0


From c83c5fd32ab6bd5e020832c0d748028c11f28577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 09/23] fix: Rk45 ends its last step on the final time

The last step could end a rounding error short of the final time and still
be taken as the arrival, so solve_on_grid found no step containing a sample
asked for at the final time and refused a valid grid with LimitsIllDefined.
---
 crates/multicalc/src/ode/rk45.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 3438892..8bb9151 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -366,8 +366,13 @@ impl<T: Numeric> Rk45<T> {
             if accept {
                 // Kahan-compensated time += h.
                 let delta = h - kahan_c;
-                let tnew = time + delta;
+                let mut tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
+                // Land on the final time itself, so a sample asked for there lies inside the step.
+                let arrived = (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs());
+                if arrived {
+                    tnew = time_final;
+                }
                 let step = Step {
                     time_start: time,
                     time_end: tnew,
@@ -380,7 +385,7 @@ impl<T: Numeric> Rk45<T> {
                 time = tnew;
                 y = state5;
                 stage1 = stage7; // FSAL
-                if (time_final - time).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                if arrived {
                     return Ok(y);
                 }
             }
-- 
2.43.0


From 00ae4d2192d297a30f62113207a79f9eb15f589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 10/23] fix: flux_integral_2d integrates Vx dy - Vy dx, the
 flux across the curve

---
 .../src/vector_field/flux_integral.rs         | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/multicalc/src/vector_field/flux_integral.rs b/crates/multicalc/src/vector_field/flux_integral.rs
index 9c6de36..92a9ae5 100644
--- a/crates/multicalc/src/vector_field/flux_integral.rs
+++ b/crates/multicalc/src/vector_field/flux_integral.rs
@@ -2,7 +2,7 @@ use crate::error::IntegrateError;
 use crate::numerical_integration::DEFAULT_TOTAL_ITERATIONS;
 use crate::scalar::Numeric;
 
-use crate::vector_field::line_integral::{line_integral_partial_2d, line_integral_partial_3d};
+use crate::vector_field::line_integral::{line_integral_2d_custom, line_integral_partial_3d};
 
 /// Computes the flux integral of a 2D vector field across a parametrized curve.
 ///
@@ -59,19 +59,16 @@ pub fn flux_integral_2d_custom<T: Numeric>(
     integration_limit: &[T; 2],
     total_iterations: u64,
 ) -> Result<T, IntegrateError> {
-    Ok(line_integral_partial_2d(
-        vector_field,
+    // Across a curve traversed with the normal to its right: the integral of Vx dy - Vy dx, which is
+    // the line integral of the field turned a quarter turn counterclockwise.
+    let turned: [&dyn Fn(&[T; 2]) -> T; 2] =
+        [&|point| -vector_field[1](point), &|point| vector_field[0](point)];
+    line_integral_2d_custom(
+        &turned,
         transformations,
         integration_limit,
         total_iterations,
-        0,
-    )? - line_integral_partial_2d(
-        vector_field,
-        transformations,
-        integration_limit,
-        total_iterations,
-        1,
-    )?)
+    )
 }
 
 pub fn flux_integral_3d<T: Numeric>(
-- 
2.43.0


From 376205307efd2d6a10218ddc1a287909c2b7270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 11/23] fix: a cubic's triple root is reported three times, as
 repeats are

---
 crates/multicalc/src/polynomial/roots.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4ad3109..edca304 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -208,7 +208,12 @@ impl<T: Numeric> Polynomial<4, T> {
 
         let mut roots = RealRoots::new();
         if reduced_linear == T::ZERO {
-            roots.push((-reduced_constant).cbrt() + slide);
+            let root = (-reduced_constant).cbrt() + slide;
+            // With nothing but the cube left, all three roots are the same one.
+            let repeats = if reduced_constant == T::ZERO { 3 } else { 1 };
+            for _ in 0..repeats {
+                roots.push(root);
+            }
         } else if four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant
             <= T::ZERO
         {
-- 
2.43.0


From 8e1041a89fd29027a918766f2db7fc0ec8e7a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 12/23] fix: root counting holds at repeated roots by dividing
 out their common factor

---
 crates/multicalc/src/polynomial/roots.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index edca304..ad078b8 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -469,6 +469,20 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             }
             length += 1;
         }
+        // A chain that ends above a constant ends on the factor its repeated roots have in common,
+        // and every entry is zero there. Dividing it out leaves the same sign changes elsewhere
+        // and makes each of those roots an ordinary one.
+        if let Some(shared) = chain.get(length - 1).copied() {
+            if shared.degree().is_some_and(|degree| degree > 0) {
+                for entry in chain.iter_mut().take(length) {
+                    let (quotient, _) = entry
+                        .divide::<COEFFICIENT_COUNT, COEFFICIENT_COUNT, COEFFICIENT_COUNT>(
+                            &shared,
+                        )?;
+                    *entry = quotient;
+                }
+            }
+        }
         Ok((chain, length))
     }
 
-- 
2.43.0


From cd7ab78c384323850fffb6b0c492bb44f3dfce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 13/23] fix: quartic roots keep their accuracy when the two
 factors nearly share a middle

---
 crates/multicalc/src/polynomial/roots.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index ad078b8..e6aca7f 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -306,9 +306,18 @@ impl<T: Numeric> Polynomial<5, T> {
             .real_roots()?;
             let largest = helper.as_slice().last().copied().unwrap_or(T::ZERO);
 
-            let separation = (T::TWO * largest).sqrt();
+            // Twice the separation times the distance apart is the `y` coefficient, so the smaller
+            // of the two follows from the larger. Taking the smaller one as it comes would keep
+            // mostly rounding when the pairs nearly share a middle and `largest` is close to zero.
             let shared = reduced_quadratic * T::HALF + largest;
-            let apart = reduced_linear / (T::TWO * separation);
+            let apart_squared = shared * shared - reduced_constant;
+            let (separation, apart) = if four * largest * largest < apart_squared {
+                let apart = apart_squared.sqrt().copysign(reduced_linear);
+                (reduced_linear / (T::TWO * apart), apart)
+            } else {
+                let separation = (T::TWO * largest).sqrt();
+                (separation, reduced_linear / (T::TWO * separation))
+            };
 
             for factor in [
                 Polynomial::<3, T>::new([shared + apart, -separation, T::ONE]),
-- 
2.43.0


From 80f0c3a2a3228ae655993b75d8994c0155356660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 14/23] fix: formatting of the flux integral's turned field

---
 crates/multicalc/src/vector_field/flux_integral.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/vector_field/flux_integral.rs b/crates/multicalc/src/vector_field/flux_integral.rs
index 92a9ae5..bf2ed6d 100644
--- a/crates/multicalc/src/vector_field/flux_integral.rs
+++ b/crates/multicalc/src/vector_field/flux_integral.rs
@@ -61,8 +61,9 @@ pub fn flux_integral_2d_custom<T: Numeric>(
 ) -> Result<T, IntegrateError> {
     // Across a curve traversed with the normal to its right: the integral of Vx dy - Vy dx, which is
     // the line integral of the field turned a quarter turn counterclockwise.
-    let turned: [&dyn Fn(&[T; 2]) -> T; 2] =
-        [&|point| -vector_field[1](point), &|point| vector_field[0](point)];
+    let turned: [&dyn Fn(&[T; 2]) -> T; 2] = [&|point| -vector_field[1](point), &|point| {
+        vector_field[0](point)
+    }];
     line_integral_2d_custom(
         &turned,
         transformations,
-- 
2.43.0


From 7ad9aa23e0cc17aac8a7fa84bf20c98103fecf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 15/23] fix: a position that is not a number is off the map

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7ef7c61..9879b43 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -83,7 +83,8 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         let row = ((point[1] - origin[1]) / self.resolution())
             .floor()
             .to_f64();
-        if column < 0.0 || row < 0.0 {
+        // A coordinate that is not a number is nowhere on the map.
+        if column < 0.0 || row < 0.0 || column.is_nan() || row.is_nan() {
             return None;
         }
         let (row, column) = (row as usize, column as usize);
@@ -153,6 +154,14 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
             return None;
         }
         let direction = [bearing.cos(), bearing.sin()];
+        // A beam from nowhere, or pointing nowhere, meets nothing.
+        if ![start_position, direction]
+            .as_flattened()
+            .iter()
+            .all(|value| value.is_finite())
+        {
+            return None;
+        }
 
         // Where the beam meets the map. A beam starting inside enters at zero.
         let entry = entry_distance(self, start_position, direction)?;
-- 
2.43.0


From 3d31568b2895ca17c5969f1e578868055353125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 16/23] fix: the rim of a circle a thousand cells across is
 drawn without gaps

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 9879b43..b54d45d 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -394,7 +394,12 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
     /// }
     /// ```
     fn occupy_circle(&mut self, center: [T; 2], radius: T) {
-        let step = (T::from_f64(0.4) * self.resolution() / radius).max(T::from_f64(1e-3));
+        if !radius.is_finite() {
+            return;
+        }
+        // The floor keeps a step from being lost in the angle it is added to, and no higher, or the
+        // rim of a circle many cells across would be left with gaps.
+        let step = (T::from_f64(0.4) * self.resolution() / radius.abs()).max(T::EPSILON.sqrt());
         let mut angle = T::ZERO;
         while angle < T::TWO_PI {
             self.occupy_point([
-- 
2.43.0


From 2b7d58c7de728cb89b765cfb373e9c95555c1aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:35 +0000
Subject: [PATCH 17/23] fix: the end beams of a scan sit exactly on the ends of
 its arc

---
 crates/multicalc/src/mapping/scan_geometry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/scan_geometry.rs b/crates/multicalc/src/mapping/scan_geometry.rs
index 55b1f2c..b7d73d7 100644
--- a/crates/multicalc/src/mapping/scan_geometry.rs
+++ b/crates/multicalc/src/mapping/scan_geometry.rs
@@ -299,5 +299,8 @@ impl<const NUM_BEAMS: usize, T: Numeric + Primal> ScanGeometry<NUM_BEAMS, T> {
 #[must_use]
 pub(crate) fn beam_angle_across<T: Numeric>(field_of_view: T, num_beams: usize, index: usize) -> T {
     let span = T::from_usize(num_beams - 1);
-    -field_of_view * T::HALF + field_of_view * T::from_usize(index) / span
+    // Measured out from the middle, so the end beams sit on the ends of the arc exactly and rounding
+    // never carries one past them.
+    let twice_the_offset = T::TWO * T::from_usize(index) - span;
+    field_of_view * (twice_the_offset / (T::TWO * span))
 }
-- 
2.43.0


From ca1a3d6aa4cb4b26c74257827b749219ae88fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 18/23] fix: a floating joint's slide columns follow the turn
 of its origin

---
 .../src/kinematics/inverse_kinematics.rs          |  7 +++----
 crates/multicalc/src/kinematics/kinematic_tree.rs | 15 ++++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 45a6a93..b61ca01 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -353,10 +353,9 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
                         step.get(velocity_at + 3 + row).copied().unwrap_or(T::ZERO)
                     });
 
-                    // d_linear is already a world-frame slide (matching MuJoCo's own free-joint
-                    // convention and the Jacobian's translational columns, which are the constant
-                    // world basis, not carried by the joint's own orientation), so it adds to a
-                    // world position directly.
+                    // d_linear is already a slide in the axes of the joint's origin (the
+                    // Jacobian's translational columns are those axes, not carried by the joint's
+                    // own orientation), so it adds to the position reading directly.
                     let new_position = current_free.pose().translation() + d_linear;
                     let new_orientation = ExponentialMap::attitude_step(
                         current_free.pose().rotation(),
diff --git a/crates/multicalc/src/kinematics/kinematic_tree.rs b/crates/multicalc/src/kinematics/kinematic_tree.rs
index 5386a61..24cbb84 100644
--- a/crates/multicalc/src/kinematics/kinematic_tree.rs
+++ b/crates/multicalc/src/kinematics/kinematic_tree.rs
@@ -541,14 +541,15 @@ impl<const MAX_JOINTS: usize, const MAX_CONFIG: usize, T: Numeric>
                         let basis = Vector::<3, T>::from_fn(|row| {
                             if row == local_axis { T::ONE } else { T::ZERO }
                         });
-                        // Sliding along a world axis carries every point in the subtree, tool
-                        // included, by the same amount, in that fixed world direction — no
-                        // turning. Unlike every other joint's own axis, this one is not carried
-                        // by the joint's own orientation: a floating joint's slide reading is a
-                        // world position directly (MuJoCo's own free-joint convention), so world
-                        // axis 0 always means world axis 0, whichever way the body is turned.
+                        // Sliding carries every point in the subtree, tool included, by the same
+                        // amount, with no turning. Unlike every other joint's own axis, this one
+                        // is not carried by the joint's own orientation: a floating joint's slide
+                        // reading is a position in the axes of the joint's origin (MuJoCo's own
+                        // free-joint convention, where those are the world's), so axis 0 always
+                        // means the origin's axis 0, whichever way the body is turned.
+                        let slide_in_world = joint.origin().rotation().act(basis);
                         if let Some(slot) = columns.get_mut(local_axis) {
-                            *slot = Some((basis, Vector::zeros()));
+                            *slot = Some((slide_in_world, Vector::zeros()));
                         }
                         // Turning about this axis sweeps the tool around the joint's own origin,
                         // the same formula a revolute joint's single axis already uses. The turn
-- 
2.43.0


From c7597d68789cf93b99e6de19b835222766c2a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 19/23] fix: inverse kinematics that arrives on its last step
 says so

---
 .../src/kinematics/inverse_kinematics.rs      | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index b61ca01..937354f 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -273,8 +273,6 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         let mut configuration = *seed;
         self.hold_inside_limits(tree, &mut configuration);
 
-        let mut position_error = T::ZERO;
-        let mut orientation_error = T::ZERO;
         let mut iterations = 0;
 
         for _ in 0..self.maximum_iterations {
@@ -287,7 +285,7 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Body-frame pose error: log(T_current⁻¹ · T_target). The Jacobian below is taken in
             // the same frame so error and columns agree.
             let task_error = (current.inverse() * target).log();
-            (position_error, orientation_error) = split_error(task_error);
+            let (position_error, orientation_error) = split_error(task_error);
 
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
@@ -392,21 +390,26 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             configuration = next;
         }
 
-        // Re-evaluate at the final configuration so the residuals match the returned q.
-        if iterations > 0 {
-            let state = tree.forward_kinematics(&configuration)?;
-            let current = state
-                .pose(tool_index)
-                .ok_or(KinematicsError::ToolIndexOutOfRange)?;
-            (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        }
+        // Re-evaluate at the final configuration so the residuals match the returned q, and so a
+        // budget spent on the very step that arrived still counts as arriving.
+        let state = tree.forward_kinematics(&configuration)?;
+        let current = state
+            .pose(tool_index)
+            .ok_or(KinematicsError::ToolIndexOutOfRange)?;
+        let (position_error, orientation_error) = split_error((current.inverse() * target).log());
+        let arrived = position_error <= self.position_tolerance
+            && orientation_error <= self.orientation_tolerance;
 
         Ok(InverseKinematicsReport {
             joint_positions: configuration,
             position_error,
             orientation_error,
             iterations,
-            termination: InverseKinematicsTermination::IterationBudget,
+            termination: if arrived {
+                InverseKinematicsTermination::Converged
+            } else {
+                InverseKinematicsTermination::IterationBudget
+            },
         })
     }
 
-- 
2.43.0


From 003dcf066003c9eeb123fc8782dc18e895980317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 20/23] fix: short capsules are no longer taken for parallel
 ones

---
 crates/multicalc/src/kinematics/collision.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index ee65736..d04f080 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -165,8 +165,11 @@ fn closest_points_between_segments<T: Numeric>(
         } else {
             let alignment = first_direction.dot(second_direction);
             let denominator = first_length_squared * second_length_squared - alignment * alignment;
-            // Parallel: denominator vanishes, so pin the first parameter and solve the second.
-            let candidate = if denominator > T::EPSILON {
+            // Parallel: denominator vanishes against the lengths it is made of, so pin the first
+            // parameter and solve the second.
+            let candidate = if denominator
+                > T::EPSILON * first_length_squared * second_length_squared
+            {
                 ((alignment * second_offset - first_offset * second_length_squared) / denominator)
                     .max(T::ZERO)
                     .min(T::ONE)
-- 
2.43.0


From 1462097730ec096451b724b88e635712a5730929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:11 +0000
Subject: [PATCH 21/23] fix: keep full precision in SE2 exp and Jacobians at
 small angles

---
 crates/multicalc/src/spatial/lie/se2.rs | 37 +++++++++++++++++++------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/se2.rs b/crates/multicalc/src/spatial/lie/se2.rs
index c5ba7a6..903279f 100644
--- a/crates/multicalc/src/spatial/lie/se2.rs
+++ b/crates/multicalc/src/spatial/lie/se2.rs
@@ -5,7 +5,7 @@ use core::ops::Mul;
 use crate::linear_algebra::{Matrix, Matrix3D, Vector, Vector2D, Vector3D};
 use crate::scalar::Numeric;
 use crate::spatial::lie::SO2;
-use crate::spatial::small_angle_sq;
+use crate::spatial::{small_angle_so3_sq, small_angle_sq};
 
 /// A 2D rigid-body transform: a rotation and a translation. The tangent is `[vx, vy, ω]`.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -89,7 +89,7 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::HALF - theta_sq / T::from_f64(24.0)),
             )
         } else {
-            (omega.sin() / omega, (T::ONE - omega.cos()) / omega)
+            (omega.sin() / omega, omega * coupling_p(omega))
         };
         let translation = Vector::new([a * lin_x - b * lin_y, b * lin_x + a * lin_y]);
         SE2 {
@@ -216,12 +216,12 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
             )
         } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
+            let p_coeff = coupling_p(omega);
             (
-                sin / omega,
-                (T::ONE - cos) / omega,
-                (T::ONE - cos) / theta_sq,
-                (omega - sin) / theta_sq,
+                omega.sin() / omega,
+                omega * p_coeff,
+                p_coeff,
+                coupling_r(omega),
             )
         };
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
@@ -252,8 +252,7 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
             )
         } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            ((T::ONE - cos) / theta_sq, (omega - sin) / theta_sq)
+            (coupling_p(omega), coupling_r(omega))
         };
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
@@ -279,6 +278,26 @@ impl<T: Numeric> SE2<T> {
     }
 }
 
+/// `(1−cosθ)/θ²` for θ ≠ 0. The half-angle form keeps full precision where `1 − cosθ` would cancel.
+#[inline]
+fn coupling_p<T: Numeric>(omega: T) -> T {
+    let half = omega * T::HALF;
+    let sinc_half = half.sin() / half;
+    T::HALF * sinc_half * sinc_half
+}
+
+/// `(θ−sinθ)/θ²` for θ ≠ 0, on its Taylor series below the angle where `θ − sinθ` starts to cancel.
+#[inline]
+fn coupling_r<T: Numeric>(omega: T) -> T {
+    let theta_sq = omega * omega;
+    let (_, threshold) = small_angle_so3_sq::<T>();
+    if theta_sq < threshold {
+        omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0))
+    } else {
+        (omega - omega.sin()) / theta_sq
+    }
+}
+
 impl<T: Numeric> Mul for SE2<T> {
     type Output = Self;
     #[inline]
-- 
2.43.0


From e048c917bac0651aa5870ff7183fd01fb888c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:34 +0000
Subject: [PATCH 22/23] fix: keep turned inertia tensors exactly symmetric when
 loading models

---
 crates/multicalc-robot-model/src/mjcf/body.rs     | 2 +-
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 3 ++-
 crates/multicalc-robot-model/src/urdf/link.rs     | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 77da9f7..9e06f8f 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -194,7 +194,7 @@ fn stated_inertia(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
             // into body axes.
             let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
             let rotation = unit_quaternion(node, quat, "quat")?.to_rotation_matrix();
-            rotation * Matrix::from_diagonal(principal) * rotation.transpose()
+            (rotation * Matrix::from_diagonal(principal) * rotation.transpose()).symmetrized()
         }
         // `quat` does not apply to a full tensor; MuJoCo ignores it there too.
         (None, Some([ixx, iyy, izz, ixy, ixz, iyz])) => {
diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index d85a3d5..5b7d093 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -143,7 +143,8 @@ pub(crate) fn read_geom(
         None => unit_quaternion(node, settings.quat.unwrap_or([1.0, 0.0, 0.0, 0.0]), "quat")?,
     };
     let rotation = turn.to_rotation_matrix();
-    let inertia = rotation * Matrix::from_diagonal(principal) * rotation.transpose();
+    let inertia =
+        (rotation * Matrix::from_diagonal(principal) * rotation.transpose()).symmetrized();
 
     let center = match &axis {
         Some(axis) => axis.center,
diff --git a/crates/multicalc-robot-model/src/urdf/link.rs b/crates/multicalc-robot-model/src/urdf/link.rs
index 2bf72db..db884a1 100644
--- a/crates/multicalc-robot-model/src/urdf/link.rs
+++ b/crates/multicalc-robot-model/src/urdf/link.rs
@@ -61,7 +61,7 @@ fn read_inertial(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
     ]);
 
     let rotation = origin.rotation().to_matrix();
-    let tensor = rotation * stated * rotation.transpose();
+    let tensor = (rotation * stated * rotation.transpose()).symmetrized();
 
     SpatialInertia::new(mass, origin.translation(), tensor).map_err(ModelError::Inertia)
 }
-- 
2.43.0


From e9d3dfde64516755147a3162ac5c36139d1b3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:09 +0000
Subject: [PATCH 23/23] fix: keep line breaks in a body's name inside its
 generated comment

---
 crates/multicalc-robot-model/src/codegen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index 42f5e48..847b5f7 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -270,7 +270,9 @@ fn render_push(
         JointParent::Joint(index) => format!("JointParent::Joint({index})"),
     };
 
-    let _ = writeln!(out, "    // {name}");
+    // A name may hold line breaks, which would end the comment early.
+    let label = name.replace(['\n', '\r'], " ");
+    let _ = writeln!(out, "    // {label}");
     match joint.kind() {
         JointKind::Fixed => {
             let _ = writeln!(out, "    tree.push(");
-- 
2.43.0

