From 17144461e9d5eeb46faa07fff6a22b4de527a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 01/51] fix: particle filter keeps its weights when an update
 is rejected

---
 crates/multicalc/src/estimation/particle_filter.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 1556cb2..a7ebf6c 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -636,11 +636,13 @@ where
             return Err(EstimationError::WeightsDegenerate);
         }
 
-        // Back to plain weights, measured relative to the heaviest particle, and total them.
+        // Back to plain weights, measured relative to the heaviest particle, and total them. They
+        // stay in the scratch buffer until the total is known to be usable, so a rejected score
+        // leaves the current weights as they were.
         let mut sum = T::ZERO;
-        for i in 0..self.weights.len() {
-            let weight = (self.log_weight_scratch[i] - largest).exp();
-            self.weights[i] = weight;
+        for log_weight in self.log_weight_scratch.iter_mut() {
+            let weight = (*log_weight - largest).exp();
+            *log_weight = weight;
             sum += weight;
         }
 
@@ -650,8 +652,8 @@ where
         }
 
         // Scale so the weights sum to one.
-        for weight in self.weights.iter_mut() {
-            *weight /= sum;
+        for (weight, &unnormalized) in self.weights.iter_mut().zip(&self.log_weight_scratch) {
+            *weight = unnormalized / sum;
         }
 
         // If the weight has piled onto too few particles, refresh the cloud before it collapses.
-- 
2.43.0


From e7f986f7393119b97e45e84a53f3edffa083059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 02/51] fix: unscented filter keeps its sampled points when a
 predict is rejected

---
 .../src/estimation/unscented_kalman_filter.rs | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/crates/multicalc/src/estimation/unscented_kalman_filter.rs b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
index 8fad1d8..e8c91a4 100644
--- a/crates/multicalc/src/estimation/unscented_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
@@ -284,8 +284,9 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         let (centre_mean, centre_covariance, side) = self.weights();
 
         // Push every point through the model: the estimate itself, then a pair either side of it
-        // along each direction. Where they land is kept for the next update.
-        self.propagated_centre = Vector::new(process_model.eval(self.state.as_array()));
+        // along each direction. Where they land is kept for the next update once the step is
+        // known to be good.
+        let propagated_centre = Vector::new(process_model.eval(self.state.as_array()));
         let mut propagated_plus = Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::zeros();
         let mut propagated_minus = Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::zeros();
         for column in 0..STATE_DIMENSION {
@@ -299,22 +300,20 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
                 propagated_minus[(row, column)] = minus[row];
             }
         }
-        self.propagated_plus = propagated_plus;
-        self.propagated_minus = propagated_minus;
 
         // The model is the caller's, so it may have handed back an infinity or a NaN.
-        if !self.propagated_centre.is_finite()
-            || !self.propagated_plus.is_finite()
-            || !self.propagated_minus.is_finite()
+        if !propagated_centre.is_finite()
+            || !propagated_plus.is_finite()
+            || !propagated_minus.is_finite()
         {
             return Err(EstimationError::NonFinite);
         }
 
         // The new estimate is the weighted average of where the points landed.
-        let mut mean = self.propagated_centre.scale(centre_mean);
+        let mut mean = propagated_centre.scale(centre_mean);
         for column in 0..STATE_DIMENSION {
-            let plus = Vector::from_fn(|row| self.propagated_plus[(row, column)]);
-            let minus = Vector::from_fn(|row| self.propagated_minus[(row, column)]);
+            let plus = Vector::from_fn(|row| propagated_plus[(row, column)]);
+            let minus = Vector::from_fn(|row| propagated_minus[(row, column)]);
             mean += (plus + minus).scale(side);
         }
 
@@ -323,12 +322,12 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         let mut covariance = add_weighted_outer_product(
             self.process_noise,
             centre_covariance,
-            self.propagated_centre - mean,
-            self.propagated_centre - mean,
+            propagated_centre - mean,
+            propagated_centre - mean,
         );
         for column in 0..STATE_DIMENSION {
-            let plus = Vector::from_fn(|row| self.propagated_plus[(row, column)]) - mean;
-            let minus = Vector::from_fn(|row| self.propagated_minus[(row, column)]) - mean;
+            let plus = Vector::from_fn(|row| propagated_plus[(row, column)]) - mean;
+            let minus = Vector::from_fn(|row| propagated_minus[(row, column)]) - mean;
             covariance = add_weighted_outer_product(covariance, side, plus, plus);
             covariance = add_weighted_outer_product(covariance, side, minus, minus);
         }
@@ -337,6 +336,9 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !mean.is_finite() || !covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.propagated_centre = propagated_centre;
+        self.propagated_plus = propagated_plus;
+        self.propagated_minus = propagated_minus;
         self.state = mean;
 
         // Rounding leaves the two halves of the sum slightly apart; average them back together.
-- 
2.43.0


From 022f1aafeec7489c3640f8d6cdc82c1742886c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 03/51] fix: error-state filter keeps its guess and covariance
 when a predict is rejected

---
 .../estimation/error_state_kalman_filter.rs   | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc/src/estimation/error_state_kalman_filter.rs b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
index 822956b..38b3917 100644
--- a/crates/multicalc/src/estimation/error_state_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
@@ -547,11 +547,12 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
             return Err(EstimationError::NonFinite);
         }
 
-        self.nominal_state = propagated;
-        self.propagate_covariance(transition, timestep);
-        if !self.covariance.is_finite() {
+        let covariance = self.propagated_covariance(transition, timestep);
+        if !covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.nominal_state = propagated;
+        self.covariance = covariance;
         Ok(())
     }
 
@@ -593,12 +594,12 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
     }
 
     /// Carries the spread through the step and adds what the IMU's own noise put into it.
-    fn propagate_covariance(
-        &mut self,
+    fn propagated_covariance(
+        &self,
         transition: Matrix<ERROR_DIMENSION, ERROR_DIMENSION, T>,
         timestep: T,
-    ) {
-        self.covariance = transition * self.covariance * transition.transpose();
+    ) -> Matrix<ERROR_DIMENSION, ERROR_DIMENSION, T> {
+        let mut covariance = transition * self.covariance * transition.transpose();
 
         // The noise goes straight onto four diagonal blocks: what carries sensor noise into the
         // error only picks blocks out, so there is no product to form. Jitter in a reading is
@@ -609,14 +610,14 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
         let gyroscope_walk = self.imu_noise.gyroscope_bias_random_walk;
         let accelerometer_walk = self.imu_noise.accelerometer_bias_random_walk;
         for offset in 0..3 {
-            self.covariance[(3 + offset, 3 + offset)] += velocity_noise * velocity_noise;
-            self.covariance[(6 + offset, 6 + offset)] += rotation_noise * rotation_noise;
-            self.covariance[(9 + offset, 9 + offset)] += gyroscope_walk * gyroscope_walk * timestep;
-            self.covariance[(12 + offset, 12 + offset)] +=
+            covariance[(3 + offset, 3 + offset)] += velocity_noise * velocity_noise;
+            covariance[(6 + offset, 6 + offset)] += rotation_noise * rotation_noise;
+            covariance[(9 + offset, 9 + offset)] += gyroscope_walk * gyroscope_walk * timestep;
+            covariance[(12 + offset, 12 + offset)] +=
                 accelerometer_walk * accelerometer_walk * timestep;
         }
 
-        self.covariance = self.covariance.symmetrized();
+        covariance.symmetrized()
     }
 
     // ----- Update -----
-- 
2.43.0


From d9193f59cc3f2695368ad63f6ea4b165de447bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 04/51] fix: occupancy maps ignore points, edges and beams that
 are not finite

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7ef7c61..66073a6 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -83,7 +83,8 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         let row = ((point[1] - origin[1]) / self.resolution())
             .floor()
             .to_f64();
-        if column < 0.0 || row < 0.0 {
+        // A NaN coordinate compares false and so lies in no cell either.
+        if !(column >= 0.0 && row >= 0.0) {
             return None;
         }
         let (row, column) = (row as usize, column as usize);
@@ -152,6 +153,10 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         if self.columns() == 0 || self.rows() == 0 {
             return None;
         }
+        if !bearing.is_finite() || !start_position[0].is_finite() || !start_position[1].is_finite()
+        {
+            return None;
+        }
         let direction = [bearing.cos(), bearing.sin()];
 
         // Where the beam meets the map. A beam starting inside enters at zero.
@@ -327,6 +332,10 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
                 continue;
             };
             let length = (end[0] - start[0]).hypot(end[1] - start[1]);
+            // An edge with an infinite or NaN end lies in no cells, and cannot be sampled.
+            if !length.is_finite() {
+                continue;
+            }
             let samples = (length / step).ceil().max(T::ONE).to_f64() as usize;
             for sample in 0..=samples {
                 let fraction = T::from_usize(sample) / T::from_usize(samples);
-- 
2.43.0


From 15c49b0885b73fc9581cce2364f59957827417e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 05/51] fix: oversized occupancy grid is reported as too large,
 not a panic

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 66073a6..bf5ea23 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -517,6 +517,7 @@ impl<T: Numeric + Primal> DynamicOccupancyGrid<T> {
         }
         let count = columns
             .checked_mul(rows)
+            .filter(|&count| count <= isize::MAX as usize)
             .ok_or(MappingError::GridTooLarge)?;
         if !resolution.is_finite() || !origin[0].is_finite() || !origin[1].is_finite() {
             return Err(MappingError::NonFinite);
-- 
2.43.0


From bd721c2768a59610dd4b0b6c3e0fc6aa9e666d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 06/51] fix: a nested MJCF include no longer corrupts the
 spliced document

---
 crates/multicalc-robot-model/src/mjcf/document.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/document.rs b/crates/multicalc-robot-model/src/mjcf/document.rs
index 0689783..bc3d7c7 100644
--- a/crates/multicalc-robot-model/src/mjcf/document.rs
+++ b/crates/multicalc-robot-model/src/mjcf/document.rs
@@ -28,7 +28,11 @@ fn read(path: &Path, depth: usize) -> Result<String, ModelError> {
 
     let mut includes: Vec<(Range<usize>, String)> = Vec::new();
     for node in document.descendants() {
-        if node.is_element() && node.tag_name().name() == "include" {
+        if is_include(&node) {
+            // One inside another goes with the outer one, which is replaced whole.
+            if node.ancestors().skip(1).any(|outer| is_include(&outer)) {
+                continue;
+            }
             let file = node
                 .attribute("file")
                 .ok_or_else(|| bad_attribute(node, "file", ""))?;
@@ -45,6 +49,11 @@ fn read(path: &Path, depth: usize) -> Result<String, ModelError> {
     Ok(text)
 }
 
+/// Whether this node is an `<include>` element.
+fn is_include(node: &Node) -> bool {
+    node.is_element() && node.tag_name().name() == "include"
+}
+
 /// The source text of the root's element children, joined with `"\n"`: the contents of the
 /// `<mujoco>` wrapper, without the wrapper.
 fn inner_source(xml: &str) -> Result<String, ModelError> {
-- 
2.43.0


From 8a7b7213b2b11a3a622ea393ee858b2d573da088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 07/51] fix: particle filter keeps its cloud when a predict is
 rejected

---
 .../src/estimation/particle_filter.rs         | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index a7ebf6c..d73a717 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -501,22 +501,23 @@ where
         ProcessModel: VectorFn<STATE_DIMENSION, STATE_DIMENSION>,
     {
         // Move each particle on its own: run it through the model, then add a random kick shaped by
-        // the process-noise factor so the cloud spreads the way the noise says it should. One bad
-        // particle does not stop the others, so finish the whole pass and report afterwards.
+        // the process-noise factor so the cloud spreads the way the noise says it should. The moved
+        // cloud is built in the spare buffer and only becomes the live one once all of it is known
+        // to be finite, so one bad particle cannot poison every later step.
         let mut finite = true;
-        for particle in self.particles.iter_mut() {
+        for (moved, particle) in self.particle_scratch.iter_mut().zip(&self.particles) {
             let propagated = Vector::new(process_model.eval(particle.as_array()));
             let noise = Vector::from_fn(|_| self.random.standard_normal());
-            *particle = propagated + self.process_noise_factor * noise;
-            if !particle.is_finite() {
+            *moved = propagated + self.process_noise_factor * noise;
+            if !moved.is_finite() {
                 finite = false;
             }
         }
-        if finite {
-            Ok(())
-        } else {
-            Err(EstimationError::NonFinite)
+        if !finite {
+            return Err(EstimationError::NonFinite);
         }
+        core::mem::swap(&mut self.particles, &mut self.particle_scratch);
+        Ok(())
     }
 
     /// Reweights every particle by how well it explains `measurement`, normalizes, and resamples if
-- 
2.43.0


From 7f19789b409147fe8056ba7ae37ab1b8dcbc85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 08/51] fix: multinomial and residual resampling never pick a
 source of zero weight

---
 crates/multicalc/src/estimation/particle_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index d73a717..6fdcc67 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -180,7 +180,7 @@ fn draw_from_weights<T: Numeric>(weights: &[T], draw: T) -> usize {
     let mut running_sum = T::ZERO;
     for (source, &weight) in weights.iter().enumerate() {
         running_sum += weight;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
@@ -199,7 +199,7 @@ fn draw_from_remainders<T: Numeric>(
     for (source, &weight) in weights.iter().enumerate() {
         let scaled = count_scalar * weight;
         running_sum += (scaled - scaled.floor()) / remainder_sum;
-        if running_sum >= draw {
+        if running_sum > draw {
             return source;
         }
     }
-- 
2.43.0


From dd1bab22ec4395b54c8ee4a2832fab89f6ed683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 09/51] fix: Cholesky rejects a matrix whose radicand is not a
 number

---
 crates/multicalc/src/linear_algebra/cholesky.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/cholesky.rs b/crates/multicalc/src/linear_algebra/cholesky.rs
index 702922f..6a0ea0f 100644
--- a/crates/multicalc/src/linear_algebra/cholesky.rs
+++ b/crates/multicalc/src/linear_algebra/cholesky.rs
@@ -47,7 +47,8 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
             for k in 0..j {
                 diag -= lower[(j, k)] * lower[(j, k)];
             }
-            if diag <= T::ZERO {
+            // A NaN radicand is not strictly positive either, though it compares false with zero.
+            if diag <= T::ZERO || diag.is_nan() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
             let ljj = diag.sqrt();
-- 
2.43.0


From 1a02c06411428ded74b8f76f9cbb7f1015836f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 10/51] fix: a beam entering the map on a cell edge never
 reports a distance short of the map

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index bf5ea23..5bdd359 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -226,14 +226,15 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
             if self.is_occupied(row_index, column_index) {
                 return Some(entered);
             }
-            // Cross whichever edge comes first.
+            // Cross whichever edge comes first. An edge the beam enters the map on sits behind that
+            // entry, so the distance never runs backward.
             if next_column < next_row {
                 column += step_column;
-                entered = next_column;
+                entered = entered.max(next_column);
                 next_column += stride_column;
             } else {
                 row += step_row;
-                entered = next_row;
+                entered = entered.max(next_row);
                 next_row += stride_row;
             }
         }
-- 
2.43.0


From 79f94836e5c1a13786d2e23157c6a24b8616803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 11/51] fix: a stretched motion profile is at rest from its end
 onwards

Its phases can add up to a hair more than its duration, and the last phase's
deceleration and jerk were then reported for every time past the end.
---
 crates/multicalc/src/motion/motion_profile.rs | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/motion/motion_profile.rs b/crates/multicalc/src/motion/motion_profile.rs
index 826fbb1..bde5a9f 100644
--- a/crates/multicalc/src/motion/motion_profile.rs
+++ b/crates/multicalc/src/motion/motion_profile.rs
@@ -263,7 +263,12 @@ impl<T: Numeric> MotionProfile<T> {
         if !time.is_finite() {
             return Err(MotionError::NonFinite);
         }
-        let clamped = time.max(T::ZERO).min(self.duration);
+        // Decided by the duration itself: a stretched profile's phases can add up to a hair more,
+        // and the last of them must not be read for ever after the end.
+        if time >= self.duration {
+            return Ok(self.final_state());
+        }
+        let clamped = time.max(T::ZERO);
 
         let mut phase_start = T::ZERO;
         for phase in self.phases.iter() {
@@ -285,13 +290,20 @@ impl<T: Numeric> MotionProfile<T> {
             phase_start = phase_end;
         }
 
-        // Past the final phase: on target, at rest.
-        Ok(ProfileState {
+        // Past the final phase by rounding.
+        Ok(self.final_state())
+    }
+
+    /// On target, at rest.
+    #[inline]
+    #[must_use]
+    fn final_state(&self) -> ProfileState<T> {
+        ProfileState {
             position: self.distance,
             velocity: T::ZERO,
             acceleration: T::ZERO,
             jerk: T::ZERO,
-        })
+        }
     }
 }
 
-- 
2.43.0


From f91fa54ff784e92119ada14bb73ebf358ae962f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 12/51] fix: an adaptive integration ends on the end time
 itself, so a grid up to it is never refused

---
 crates/multicalc/src/ode/rk45.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 3438892..1e288eb 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -366,8 +366,12 @@ impl<T: Numeric> Rk45<T> {
             if accept {
                 // Kahan-compensated time += h.
                 let delta = h - kahan_c;
-                let tnew = time + delta;
+                let mut tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
+                // Rounding may leave the last step a hair off; it ends on the end time itself.
+                if (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                    tnew = time_final;
+                }
                 let step = Step {
                     time_start: time,
                     time_end: tnew,
@@ -380,7 +384,7 @@ impl<T: Numeric> Rk45<T> {
                 time = tnew;
                 y = state5;
                 stage1 = stage7; // FSAL
-                if (time_final - time).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                if time == time_final {
                     return Ok(y);
                 }
             }
-- 
2.43.0


From 3c6a79c9b5c50a07e0e0780fa62c2be095f09e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 13/51] fix: a time grid out of order is refused whatever the
 step sizes

---
 crates/multicalc/src/ode/rk45.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 1e288eb..946c3e6 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -464,6 +464,19 @@ impl<T: Numeric> Rk45<T> {
             return Ok(());
         }
         let time_final = times[times.len() - 1];
+        // Out of order would otherwise go unnoticed whenever one step covers both times.
+        let mut previous = time_start;
+        for &time_query in times {
+            let in_order = if time_final >= time_start {
+                time_query >= previous
+            } else {
+                time_query <= previous
+            };
+            if !in_order {
+                return Err(IntegrateError::LimitsIllDefined);
+            }
+            previous = time_query;
+        }
         let mut next = 0usize;
         let _ = self.for_each_step(f, time_start, state_start, time_final, |step| {
             // Consume every requested time that falls in this accepted step (times are sorted).
-- 
2.43.0


From 6b8e3709b849a5837c4743c3429853765b1b2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 14/51] fix: an infinite probe no longer makes the first
 integration step zero long

---
 crates/multicalc/src/ode/rk45.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 946c3e6..723bd10 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -280,11 +280,18 @@ impl<T: Numeric> Rk45<T> {
             self.atol,
             self.rtol,
         ) / step0;
+        // A probe that lands where `f` is not finite says nothing; an infinite one would ask for a
+        // step of zero.
+        let largest_norm = if norm2.is_finite() {
+            norm1.max(norm2)
+        } else {
+            norm1
+        };
         // exponent 1/(p+1) with method order p = 5
-        let step1 = if norm1.max(norm2) <= T::from_f64(1e-15) {
+        let step1 = if largest_norm <= T::from_f64(1e-15) {
             (step0 * T::from_f64(1e-3)).max(T::from_f64(1e-6))
         } else {
-            (T::from_f64(0.01) / norm1.max(norm2)).powf(T::ONE / T::from_f64(6.0))
+            (T::from_f64(0.01) / largest_norm).powf(T::ONE / T::from_f64(6.0))
         };
         let h = (T::from_f64(100.0) * step0)
             .min(step1)
-- 
2.43.0


From 8b67f794dbb80fd4d9b9e6e766cb46f0b965ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:54 +0000
Subject: [PATCH 15/51] fix: a floating joint with a turned origin slides along
 the axes its reading is taken in

---
 crates/multicalc/src/kinematics/kinematic_tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/kinematics/kinematic_tree.rs b/crates/multicalc/src/kinematics/kinematic_tree.rs
index 5386a61..50189b8 100644
--- a/crates/multicalc/src/kinematics/kinematic_tree.rs
+++ b/crates/multicalc/src/kinematics/kinematic_tree.rs
@@ -547,8 +547,10 @@ impl<const MAX_JOINTS: usize, const MAX_CONFIG: usize, T: Numeric>
                         // by the joint's own orientation: a floating joint's slide reading is a
                         // world position directly (MuJoCo's own free-joint convention), so world
                         // axis 0 always means world axis 0, whichever way the body is turned.
+                        // An origin with a turn of its own turns those axes with it, since the
+                        // reading is a position in the origin's frame.
                         if let Some(slot) = columns.get_mut(local_axis) {
-                            *slot = Some((basis, Vector::zeros()));
+                            *slot = Some((joint.origin().rotation().act(basis), Vector::zeros()));
                         }
                         // Turning about this axis sweeps the tool around the joint's own origin,
                         // the same formula a revolute joint's single axis already uses. The turn
-- 
2.43.0


From d8a16c66fdb24208ad717d3de3fc38c46ce78ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 16/51] fix: an inverse-kinematics solve whose last step lands
 on the target says so, and reports its true residual

---
 .../src/kinematics/inverse_kinematics.rs      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 45a6a93..c08ff1f 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -273,8 +273,6 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         let mut configuration = *seed;
         self.hold_inside_limits(tree, &mut configuration);
 
-        let mut position_error = T::ZERO;
-        let mut orientation_error = T::ZERO;
         let mut iterations = 0;
 
         for _ in 0..self.maximum_iterations {
@@ -287,7 +285,7 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Body-frame pose error: log(T_current⁻¹ · T_target). The Jacobian below is taken in
             // the same frame so error and columns agree.
             let task_error = (current.inverse() * target).log();
-            (position_error, orientation_error) = split_error(task_error);
+            let (position_error, orientation_error) = split_error(task_error);
 
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
@@ -393,21 +391,27 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             configuration = next;
         }
 
-        // Re-evaluate at the final configuration so the residuals match the returned q.
-        if iterations > 0 {
-            let state = tree.forward_kinematics(&configuration)?;
-            let current = state
-                .pose(tool_index)
-                .ok_or(KinematicsError::ToolIndexOutOfRange)?;
-            (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        }
+        // Re-evaluate at the final configuration so the residuals match the returned q, and so a
+        // last step that lands on the target is reported as having reached it.
+        let state = tree.forward_kinematics(&configuration)?;
+        let current = state
+            .pose(tool_index)
+            .ok_or(KinematicsError::ToolIndexOutOfRange)?;
+        let (position_error, orientation_error) = split_error((current.inverse() * target).log());
+        let termination = if position_error <= self.position_tolerance
+            && orientation_error <= self.orientation_tolerance
+        {
+            InverseKinematicsTermination::Converged
+        } else {
+            InverseKinematicsTermination::IterationBudget
+        };
 
         Ok(InverseKinematicsReport {
             joint_positions: configuration,
             position_error,
             orientation_error,
             iterations,
-            termination: InverseKinematicsTermination::IterationBudget,
+            termination,
         })
     }
 
-- 
2.43.0


From c03003d360296ec20d27b458496971a316aa780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 17/51] fix: a Savitzky-Golay window of nothing is refused as
 too short instead of panicking

---
 crates/multicalc/src/signal_processing/savitzky_golay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/signal_processing/savitzky_golay.rs b/crates/multicalc/src/signal_processing/savitzky_golay.rs
index 018564e..b352fc0 100644
--- a/crates/multicalc/src/signal_processing/savitzky_golay.rs
+++ b/crates/multicalc/src/signal_processing/savitzky_golay.rs
@@ -90,7 +90,7 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
     /// [`SignalError::PolynomialOrderTooHigh`] if there are more terms than samples to fit them,
     /// and [`SignalError::Linalg`] if the fit cannot be worked out.
     pub fn latest(timestep: T) -> Result<Self, SignalError> {
-        Self::build(timestep, WINDOW - 1)
+        Self::build(timestep, WINDOW.saturating_sub(1))
     }
 
     /// Feeds one sample and returns the smoothed value of the window it now sits in.
-- 
2.43.0


From 574e68fbfa190693e74633d1f2c01b9f10c1dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 18/51] fix: a heavy body's turned inertia is evened out
 instead of being refused as not symmetric

---
 crates/multicalc-robot-model/src/mjcf/body.rs | 6 ++++--
 crates/multicalc-robot-model/src/urdf/link.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 77da9f7..03be9d9 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -194,7 +194,8 @@ fn stated_inertia(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
             // into body axes.
             let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
             let rotation = unit_quaternion(node, quat, "quat")?.to_rotation_matrix();
-            rotation * Matrix::from_diagonal(principal) * rotation.transpose()
+            // Rounding leaves the two halves a step apart, more the heavier the body.
+            (rotation * Matrix::from_diagonal(principal) * rotation.transpose()).symmetrized()
         }
         // `quat` does not apply to a full tensor; MuJoCo ignores it there too.
         (None, Some([ixx, iyy, izz, ixy, ixz, iyz])) => {
@@ -247,7 +248,8 @@ fn synthesized_inertia(
         running + shape.inertia + shifted(shape.mass, shape.center - center_of_mass)
     });
 
-    SpatialInertia::new(total_mass, center_of_mass, summed).map_err(ModelError::Inertia)
+    SpatialInertia::new(total_mass, center_of_mass, summed.symmetrized())
+        .map_err(ModelError::Inertia)
 }
 
 /// The parallel-axis term for a mass displaced by `offset` from its COM.
diff --git a/crates/multicalc-robot-model/src/urdf/link.rs b/crates/multicalc-robot-model/src/urdf/link.rs
index 2bf72db..0079cdf 100644
--- a/crates/multicalc-robot-model/src/urdf/link.rs
+++ b/crates/multicalc-robot-model/src/urdf/link.rs
@@ -61,7 +61,8 @@ fn read_inertial(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
     ]);
 
     let rotation = origin.rotation().to_matrix();
-    let tensor = rotation * stated * rotation.transpose();
+    // Rounding leaves the two halves a step apart, more the heavier the link.
+    let tensor = (rotation * stated * rotation.transpose()).symmetrized();
 
     SpatialInertia::new(mass, origin.translation(), tensor).map_err(ModelError::Inertia)
 }
-- 
2.43.0


From 0a07685d8199fa58c8912c08f3271ff4d515b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 19/51] fix: top-level default blocks add up instead of the
 last one replacing the rest, and main names the outermost

---
 crates/multicalc-robot-model/src/mjcf/defaults.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index c457afd..cdbfee6 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -114,6 +114,9 @@ pub(crate) struct ClassDefaults {
     pub joint: JointDefaults,
 }
 
+/// MuJoCo's own name for the unnamed outermost block.
+const OUTERMOST: &str = "main";
+
 /// Every named class, pre-flattened so lookup needs no traversal.
 #[derive(Debug, Default)]
 pub(crate) struct DefaultTable {
@@ -122,11 +125,12 @@ pub(crate) struct DefaultTable {
 }
 
 impl DefaultTable {
-    /// Parses every `<default>` block.
+    /// Parses every `<default>` block. Several at the top level, as an `<include>` brings, add up.
     pub(crate) fn build(root: Node) -> Result<Self, ModelError> {
         let mut table = DefaultTable::default();
         for node in elements(root, "default") {
-            table.walk(node, &ClassDefaults::default())?;
+            let inherited = table.root.clone();
+            table.walk(node, &inherited)?;
         }
         Ok(table)
     }
@@ -134,7 +138,7 @@ impl DefaultTable {
     /// A class's settings, or the unnamed block's where no class is named.
     pub(crate) fn resolve(&self, class: Option<&str>) -> Result<&ClassDefaults, ModelError> {
         match class {
-            None => Ok(&self.root),
+            None | Some(OUTERMOST) => Ok(&self.root),
             Some(name) => self
                 .classes
                 .get(name)
@@ -155,10 +159,10 @@ impl DefaultTable {
         }
 
         match node.attribute("class") {
+            None | Some(OUTERMOST) => self.root = settings.clone(),
             Some(name) => {
                 self.classes.insert(name.to_owned(), settings.clone());
             }
-            None => self.root = settings.clone(),
         }
 
         for nested in elements(node, "default") {
-- 
2.43.0


From 80bbff80518debce5311e0aec0551f15f44ee560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 20/51] fix: a second compiler section adds to the first
 instead of being passed over

---
 .../src/mjcf/compiler.rs                      | 61 +++++++++----------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/compiler.rs b/crates/multicalc-robot-model/src/mjcf/compiler.rs
index ca257a5..176da06 100644
--- a/crates/multicalc-robot-model/src/mjcf/compiler.rs
+++ b/crates/multicalc-robot-model/src/mjcf/compiler.rs
@@ -3,7 +3,7 @@
 use roxmltree::Node;
 
 use crate::ModelError;
-use crate::xml::{bad_attribute, element};
+use crate::xml::{bad_attribute, elements};
 
 /// File-wide settings governing how the rest of the document parses.
 pub(crate) struct CompilerSettings {
@@ -26,39 +26,36 @@ pub(crate) enum InertiaFromGeom {
 }
 
 impl CompilerSettings {
-    /// The first `<compiler>` child of `root`, with MJCF's defaults (`angle="degree"`,
-    /// `autolimits="true"`, `inertiafromgeom="auto"`) for absent attributes.
+    /// Every `<compiler>` child of `root`, later settings over earlier ones, with MJCF's defaults
+    /// (`angle="degree"`, `autolimits="true"`, `inertiafromgeom="auto"`) for absent attributes.
     pub(crate) fn read(root: Node) -> Result<Self, ModelError> {
-        let Some(compiler) = element(root, "compiler") else {
-            return Ok(CompilerSettings {
-                angle_in_degrees: true,
-                auto_limits: true,
-                inertia_from_geom: InertiaFromGeom::Auto,
-            });
+        let mut settings = CompilerSettings {
+            angle_in_degrees: true,
+            auto_limits: true,
+            inertia_from_geom: InertiaFromGeom::Auto,
         };
-
-        let angle_in_degrees = match compiler.attribute("angle").unwrap_or("degree") {
-            "degree" => true,
-            "radian" => false,
-            value => return Err(bad_attribute(compiler, "angle", value)),
-        };
-        let auto_limits = match compiler.attribute("autolimits").unwrap_or("true") {
-            "true" => true,
-            "false" => false,
-            value => return Err(bad_attribute(compiler, "autolimits", value)),
-        };
-        let inertia_from_geom = match compiler.attribute("inertiafromgeom").unwrap_or("auto") {
-            "false" => InertiaFromGeom::Never,
-            "auto" => InertiaFromGeom::Auto,
-            "true" => InertiaFromGeom::Always,
-            value => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
-        };
-
-        Ok(CompilerSettings {
-            angle_in_degrees,
-            auto_limits,
-            inertia_from_geom,
-        })
+        for compiler in elements(root, "compiler") {
+            match compiler.attribute("angle") {
+                None => {}
+                Some("degree") => settings.angle_in_degrees = true,
+                Some("radian") => settings.angle_in_degrees = false,
+                Some(value) => return Err(bad_attribute(compiler, "angle", value)),
+            }
+            match compiler.attribute("autolimits") {
+                None => {}
+                Some("true") => settings.auto_limits = true,
+                Some("false") => settings.auto_limits = false,
+                Some(value) => return Err(bad_attribute(compiler, "autolimits", value)),
+            }
+            match compiler.attribute("inertiafromgeom") {
+                None => {}
+                Some("false") => settings.inertia_from_geom = InertiaFromGeom::Never,
+                Some("auto") => settings.inertia_from_geom = InertiaFromGeom::Auto,
+                Some("true") => settings.inertia_from_geom = InertiaFromGeom::Always,
+                Some(value) => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
+            }
+        }
+        Ok(settings)
     }
 
     /// An angle in the file's units, in radians.
-- 
2.43.0


From 4d7a34df89b486b7df0d637d95fba36e0980970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 21/51] fix: bodies in a second worldbody, as an include beside
 the first brings, are read instead of dropped

---
 crates/multicalc-robot-model/src/mjcf/body.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 03be9d9..1bb0c15 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -46,11 +46,15 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     let name = root.attribute("model").unwrap_or("model").to_owned();
     let settings = CompilerSettings::read(root)?;
     let table = DefaultTable::build(root)?;
-    let worldbody = element(root, "worldbody").ok_or(ModelError::MissingWorldbody)?;
+    // An `<include>` beside the main file's own `<worldbody>` brings a second one.
+    let worldbodies: Vec<Node> = elements(root, "worldbody").collect();
+    if worldbodies.is_empty() {
+        return Err(ModelError::MissingWorldbody);
+    }
 
     let mut bodies = Vec::new();
     let mut floating_base = false;
-    for node in top_level_bodies(worldbody) {
+    for node in worldbodies.into_iter().flat_map(top_level_bodies) {
         walk_body(
             node,
             None,
-- 
2.43.0


From dfc1b907bc975acb2d653d0525940453c5a70bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 22/51] fix: a frame or another element carrying bodies is
 refused by name instead of being left out of the model

---
 crates/multicalc-robot-model/README.md        |  2 +-
 crates/multicalc-robot-model/src/error.rs     |  9 ++++
 crates/multicalc-robot-model/src/mjcf/body.rs | 49 +++++++++++++------
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/crates/multicalc-robot-model/README.md b/crates/multicalc-robot-model/README.md
index 9029022..9334b2d 100644
--- a/crates/multicalc-robot-model/README.md
+++ b/crates/multicalc-robot-model/README.md
@@ -155,7 +155,7 @@ sorted and deduplicated.
 
 | | Skipped | Rejected |
 | --- | --- | --- |
-| MJCF | tendons, equality constraints, actuators, sensors, contact pairs, keyframes, assets, `<option>` | joints other than `hinge`/`slide`; a free joint off the root; several joints on one body; a mesh as a mass source; `euler`/`axisangle`/`xyaxes`/`zaxis` orientation; a limited joint with no `range`; a body with neither inertial nor mass-bearing geoms; a geom giving both `fromto` and `pos` |
+| MJCF | tendons, equality constraints, actuators, sensors, contact pairs, keyframes, assets, `<option>` | joints other than `hinge`/`slide`; a free joint off the root; several joints on one body; a mesh as a mass source; `euler`/`axisangle`/`xyaxes`/`zaxis` orientation; a limited joint with no `range`; a body with neither inertial nor mass-bearing geoms; a geom giving both `fromto` and `pos`; `frame`, `replicate`, `composite`, `flexcomp` and `attach` |
 | URDF | top-level elements other than `<link>`/`<joint>` (`<transmission>`, `<gazebo>`, `<material>`); `<visual>`, `<collision>` and their `package://` meshes; `<safety_controller>` | `planar` and unrecognised joint types; `floating`; `revolute`/`prismatic` with no `<limit lower upper>`; a joint naming an undeclared link; a link claimed by two joints; zero or several root links; a cycle; an unparseable attribute; an `<inertial>` the core rejects, `mass="0"` included |
 
 `<visual>`, `<collision>` and `<safety_controller>` are link or joint children rather than top-level
diff --git a/crates/multicalc-robot-model/src/error.rs b/crates/multicalc-robot-model/src/error.rs
index 0cef9f3..f0eb0d2 100644
--- a/crates/multicalc-robot-model/src/error.rs
+++ b/crates/multicalc-robot-model/src/error.rs
@@ -40,6 +40,11 @@ pub enum ModelError {
         /// The attribute name.
         attribute: String,
     },
+    /// An element that holds or makes bodies in a way this reader does not follow.
+    UnsupportedElement {
+        /// The element as written in the file.
+        element: String,
+    },
     /// A joint is limited, explicitly or by default, but states no `range`.
     LimitsNeedRange {
         /// The body's name.
@@ -195,6 +200,10 @@ impl core::fmt::Display for ModelError {
                 f,
                 "the {attribute} attribute on {element} states a turn in a form this loader does not read; write it as a quaternion"
             ),
+            ModelError::UnsupportedElement { element } => write!(
+                f,
+                "the {element} element carries bodies, and this loader does not read them"
+            ),
             ModelError::LimitsNeedRange { body } => write!(
                 f,
                 "the joint on body {body} is limited but states no range"
diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 1bb0c15..379732c 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -54,16 +54,18 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
 
     let mut bodies = Vec::new();
     let mut floating_base = false;
-    for node in worldbodies.into_iter().flat_map(top_level_bodies) {
-        walk_body(
-            node,
-            None,
-            None,
-            &table,
-            &settings,
-            &mut bodies,
-            &mut floating_base,
-        )?;
+    for worldbody in worldbodies {
+        for node in top_level_bodies(worldbody)? {
+            walk_body(
+                node,
+                None,
+                None,
+                &table,
+                &settings,
+                &mut bodies,
+                &mut floating_base,
+            )?;
+        }
     }
 
     if bodies.is_empty() {
@@ -82,16 +84,32 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
 /// `<include>`. Splicing reinserts the included file's `<mujoco>` contents verbatim, so an
 /// included body list arrives wrapped in its own `<worldbody>`. Nested `<body>` elements are never
 /// wrapped this way, so recursion below the top level is a plain child scan.
-fn top_level_bodies<'doc, 'input>(worldbody: Node<'doc, 'input>) -> Vec<Node<'doc, 'input>> {
+fn top_level_bodies<'doc, 'input>(
+    worldbody: Node<'doc, 'input>,
+) -> Result<Vec<Node<'doc, 'input>>, ModelError> {
     let mut found = Vec::new();
     for child in worldbody.children().filter(Node::is_element) {
         match child.tag_name().name() {
             "body" => found.push(child),
-            "worldbody" => found.extend(top_level_bodies(child)),
-            _ => {}
+            "worldbody" => found.extend(top_level_bodies(child)?),
+            _ => reject_body_carrier(child)?,
         }
     }
-    found
+    Ok(found)
+}
+
+/// Elements that hold or make bodies, joints or mass in a way this reader does not follow.
+const BODY_CARRIERS: [&str; 5] = ["attach", "composite", "flexcomp", "frame", "replicate"];
+
+/// Rejects an element whose bodies or mass would otherwise be left out of the model.
+fn reject_body_carrier(node: Node) -> Result<(), ModelError> {
+    let element = node.tag_name().name();
+    if BODY_CARRIERS.contains(&element) {
+        return Err(ModelError::UnsupportedElement {
+            element: element.to_owned(),
+        });
+    }
+    Ok(())
 }
 
 /// Parses one body, emits it, then recurses into its `<body>` children.
@@ -108,6 +126,9 @@ fn walk_body(
 ) -> Result<(), ModelError> {
     let name = node.attribute("name").unwrap_or("body").to_owned();
     reject_orientation_attributes(node, "body")?;
+    for child in node.children().filter(Node::is_element) {
+        reject_body_carrier(child)?;
+    }
 
     let position = parse_vector3(node, "pos")?.unwrap_or([0.0; 3]);
     let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
-- 
2.43.0


From 8051bc7dcd5865053274525c724ef500c564dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 23/51] fix: an element naming its own class takes nothing from
 the body's childclass

---
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 9 +++------
 crates/multicalc-robot-model/src/mjcf/joint.rs    | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index d85a3d5..e3018bd 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -157,18 +157,15 @@ pub(crate) fn read_geom(
     }))
 }
 
-/// A shape's settings, with the shape's own winning over the class it names, that over the class
-/// its body names, and that over the unnamed block.
+/// A shape's settings, with the shape's own winning over the class it names, and that over the
+/// unnamed block. The class its body names counts only where the shape names none.
 fn effective(
     node: Node,
     table: &DefaultTable,
     class_chain: Option<&str>,
 ) -> Result<GeomDefaults, ModelError> {
     let mut settings = table.resolve(None)?.geom.clone();
-    if let Some(name) = class_chain {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.geom);
-    }
-    if let Some(name) = node.attribute("class") {
+    if let Some(name) = node.attribute("class").or(class_chain) {
         settings = settings.overridden_by(&table.resolve(Some(name))?.geom);
     }
     Ok(settings.overridden_by(&GeomDefaults::read(node)?))
diff --git a/crates/multicalc-robot-model/src/mjcf/joint.rs b/crates/multicalc-robot-model/src/mjcf/joint.rs
index 49e12e6..31fc2af 100644
--- a/crates/multicalc-robot-model/src/mjcf/joint.rs
+++ b/crates/multicalc-robot-model/src/mjcf/joint.rs
@@ -122,18 +122,15 @@ fn read_limits(
     }
 }
 
-/// Joint settings in precedence order: own attributes, named class, inherited `childclass`,
-/// unnamed default block.
+/// Joint settings in precedence order: own attributes, named class — the inherited `childclass`
+/// where none is named — and the unnamed default block.
 fn effective(
     node: Node,
     table: &DefaultTable,
     class_chain: Option<&str>,
 ) -> Result<JointDefaults, ModelError> {
     let mut settings = table.resolve(None)?.joint.clone();
-    if let Some(name) = class_chain {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.joint);
-    }
-    if let Some(name) = node.attribute("class") {
+    if let Some(name) = node.attribute("class").or(class_chain) {
         settings = settings.overridden_by(&table.resolve(Some(name))?.joint);
     }
     Ok(settings.overridden_by(&JointDefaults::read(node)?))
-- 
2.43.0


From e02c60f669e5bec0da98e5b8a7d2b5cdc6260feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 24/51] fix: a shape of negative mass, density or size is
 refused instead of lightening its body

---
 .../src/mjcf/geometry.rs                      | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index e3018bd..1a02aa3 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -121,9 +121,21 @@ pub(crate) fn read_geom(
         Shape::Capsule => capsule(first, third),
     };
 
+    let (source, amount) = match settings.mass {
+        Some(mass) => ("mass", mass),
+        None => ("density", settings.density.unwrap_or(ASSUMED_DENSITY)),
+    };
+    // Less than nothing in one shape would be hidden by the others on the same body.
+    if amount < 0.0 {
+        return Err(bad_attribute(
+            node,
+            source,
+            node.attribute(source).unwrap_or_default(),
+        ));
+    }
     let mass = match settings.mass {
-        Some(stated) => stated,
-        None => settings.density.unwrap_or(ASSUMED_DENSITY) * volume,
+        Some(mass) => mass,
+        None => amount * volume,
     };
     if mass == 0.0 {
         return Ok(None);
@@ -288,5 +300,7 @@ fn extents(
         (Shape::Sphere | Shape::Cylinder | Shape::Capsule, _, _) => None,
         (_, _, _) => <[f64; 3]>::try_from(size).ok(),
     };
-    reach.ok_or_else(|| bad_attribute(node, "size", node.attribute("size").unwrap_or_default()))
+    reach
+        .filter(|reach| !reach.iter().any(|&along| along < 0.0))
+        .ok_or_else(|| bad_attribute(node, "size", node.attribute("size").unwrap_or_default()))
 }
-- 
2.43.0


From 50350176bb51a9030019f8fa8e2ffdbcf05540ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:31 +0000
Subject: [PATCH 25/51] fix: a regulator's costs counted in small units are
 solved as closely as any others

---
 crates/multicalc/src/linear_algebra/lyapunov.rs | 2 +-
 crates/multicalc/src/linear_algebra/riccati.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/lyapunov.rs b/crates/multicalc/src/linear_algebra/lyapunov.rs
index ea3689e..24680ac 100644
--- a/crates/multicalc/src/linear_algebra/lyapunov.rs
+++ b/crates/multicalc/src/linear_algebra/lyapunov.rs
@@ -78,7 +78,7 @@ pub fn solve_discrete_lyapunov<const N: usize, T: Numeric>(
         if !total.is_finite() || !increment_size.is_finite() || !total_size.is_finite() {
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
-        let settled = increment_size <= T::EPSILON_X30 * total_size.max(T::ONE);
+        let settled = increment_size <= T::EPSILON_X30 * total_size;
         if settled {
             return Ok(total);
         }
diff --git a/crates/multicalc/src/linear_algebra/riccati.rs b/crates/multicalc/src/linear_algebra/riccati.rs
index 6081080..cc3947f 100644
--- a/crates/multicalc/src/linear_algebra/riccati.rs
+++ b/crates/multicalc/src/linear_algebra/riccati.rs
@@ -100,7 +100,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
         {
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
-        if increment_size <= T::EPSILON_X30 * cost_size.max(T::ONE) {
+        if increment_size <= T::EPSILON_X30 * cost_size {
             passes_taken = pass + 1;
             break;
         }
@@ -117,7 +117,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
     // Deliberately looser than the settling test the passes use: the leftover is built from
     // several matrix products, so it carries far more rounding than the answer itself, and a
     // tighter bound would turn away correct answers on badly scaled systems.
-    let allowed = T::EPSILON.sqrt() * cost.frobenius_norm().max(T::ONE);
+    let allowed = T::EPSILON.sqrt() * cost.frobenius_norm();
     if !residual.is_finite() || residual.frobenius_norm() > allowed {
         return Err(LinalgError::DidNotConverge {
             iters: passes_taken,
-- 
2.43.0


From ecb71fd365595e984fa0f8c637654991b454324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 26/51] fix: a wall or rim reaching far past the map is drawn
 without gaps and in bounded time

---
 .../multicalc/src/mapping/occupancy_grid.rs   | 91 +++++++++++++++++--
 1 file changed, 84 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 5bdd359..2d32d8d 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -332,19 +332,28 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
             ) else {
                 continue;
             };
-            let length = (end[0] - start[0]).hypot(end[1] - start[1]);
             // An edge with an infinite or NaN end lies in no cells, and cannot be sampled.
-            if !length.is_finite() {
+            if !(end[0] - start[0]).hypot(end[1] - start[1]).is_finite() {
                 continue;
             }
+            // However long the edge, only the part of it on the map has cells to block.
+            let Some((start, end)) = part_on_map(self, start, end) else {
+                continue;
+            };
+            let length = (end[0] - start[0]).hypot(end[1] - start[1]);
+            // It is no longer than two sides of the map, so it never takes more samples than this.
+            let most = self.columns().saturating_add(self.rows()).saturating_add(4);
             let samples = (length / step).ceil().max(T::ONE).to_f64() as usize;
-            for sample in 0..=samples {
+            let samples = samples.min(most.saturating_mul(3));
+            for sample in 0..samples {
                 let fraction = T::from_usize(sample) / T::from_usize(samples);
                 self.occupy_point([
                     start[0] + fraction * (end[0] - start[0]),
                     start[1] + fraction * (end[1] - start[1]),
                 ]);
             }
+            // The end itself, as given: rounding on the way there may fall a cell short of it.
+            self.occupy_point(end);
         }
     }
 
@@ -395,14 +404,23 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
     /// }
     /// ```
     fn occupy_circle(&mut self, center: [T; 2], radius: T) {
-        let step = (T::from_f64(0.4) * self.resolution() / radius).max(T::from_f64(1e-3));
+        let reach = radius.abs();
+        // A rim that is infinite or NaN lies in no cells.
+        if !(center[0].hypot(center[1]) + reach).is_finite() {
+            return;
+        }
+        // Never so fine a step that rounding could leave the walk, or the point, where it was.
+        let finest = T::EPSILON * T::from_f64(4.0) * (T::ONE + center[0].hypot(center[1]) / reach);
+        let step = (T::from_f64(0.4) * self.resolution() / reach).max(finest);
         let mut angle = T::ZERO;
         while angle < T::TWO_PI {
-            self.occupy_point([
+            let point = [
                 center[0] + radius * angle.cos(),
                 center[1] + radius * angle.sin(),
-            ]);
-            angle += step;
+            ];
+            self.occupy_point(point);
+            // Off the map, the rim has at least the distance back to it to go first.
+            angle += step.max(distance_off_map(self, point) / reach);
         }
     }
 }
@@ -636,6 +654,65 @@ fn entry_distance<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
     Some(near.max(T::ZERO))
 }
 
+/// The map's lowest and highest coordinate along each axis, a cell outside its edges.
+fn one_cell_beyond<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(map: &M) -> [[T; 2]; 2] {
+    let resolution = map.resolution();
+    let [x, y] = map.origin();
+    [
+        [
+            x - resolution,
+            x + T::from_usize(map.columns()) * resolution + resolution,
+        ],
+        [
+            y - resolution,
+            y + T::from_usize(map.rows()) * resolution + resolution,
+        ],
+    ]
+}
+
+/// The part of an edge lying on the map or within a cell of it, or `None` if none of it does.
+fn part_on_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
+    map: &M,
+    start: [T; 2],
+    end: [T; 2],
+) -> Option<([T; 2], [T; 2])> {
+    let along = [end[0] - start[0], end[1] - start[1]];
+    let mut enter = T::ZERO;
+    let mut leave = T::ONE;
+    for (axis, [low, high]) in one_cell_beyond(map).into_iter().enumerate() {
+        if along[axis] == T::ZERO {
+            if start[axis] < low || start[axis] > high {
+                return None;
+            }
+        } else {
+            let first = (low - start[axis]) / along[axis];
+            let second = (high - start[axis]) / along[axis];
+            enter = enter.max(first.min(second));
+            leave = leave.min(first.max(second));
+        }
+    }
+    if enter > leave {
+        return None;
+    }
+    let at = |fraction: T| {
+        [
+            start[0] + fraction * along[0],
+            start[1] + fraction * along[1],
+        ]
+    };
+    Some((
+        if enter > T::ZERO { at(enter) } else { start },
+        if leave < T::ONE { at(leave) } else { end },
+    ))
+}
+
+/// How far a point lies from the map and the cell around it. Zero within them.
+fn distance_off_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(map: &M, point: [T; 2]) -> T {
+    let [across, up] = one_cell_beyond(map);
+    let beyond = |value: T, [low, high]: [T; 2]| (low - value).max(value - high).max(T::ZERO);
+    beyond(point[0], across).hypot(beyond(point[1], up))
+}
+
 /// Which way an index moves as the beam advances along one axis. A component of zero never steps,
 /// because the stride along that axis is infinite, so either answer serves.
 fn axis_step<T: Numeric>(component: T) -> isize {
-- 
2.43.0


From 5cd60025cde5b0818239a4fc651797b6bb7cfb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 27/51] fix: a model nested thousands deep is read instead of
 overflowing the stack

---
 crates/multicalc-robot-model/src/mjcf/body.rs | 66 ++++++++-------
 .../src/mjcf/defaults.rs                      | 38 +++++----
 crates/multicalc-robot-model/src/urdf/tree.rs | 80 +++++--------------
 3 files changed, 82 insertions(+), 102 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 379732c..f965321 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -56,15 +56,7 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     let mut floating_base = false;
     for worldbody in worldbodies {
         for node in top_level_bodies(worldbody)? {
-            walk_body(
-                node,
-                None,
-                None,
-                &table,
-                &settings,
-                &mut bodies,
-                &mut floating_base,
-            )?;
+            walk_bodies(node, &table, &settings, &mut bodies, &mut floating_base)?;
         }
     }
 
@@ -83,15 +75,19 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
 /// The `<body>` children of `<worldbody>`, seeing through a nested `<worldbody>` spliced in by an
 /// `<include>`. Splicing reinserts the included file's `<mujoco>` contents verbatim, so an
 /// included body list arrives wrapped in its own `<worldbody>`. Nested `<body>` elements are never
-/// wrapped this way, so recursion below the top level is a plain child scan.
+/// wrapped this way, so the walk below the top level is a plain child scan.
 fn top_level_bodies<'doc, 'input>(
     worldbody: Node<'doc, 'input>,
 ) -> Result<Vec<Node<'doc, 'input>>, ModelError> {
     let mut found = Vec::new();
-    for child in worldbody.children().filter(Node::is_element) {
+    let mut waiting: Vec<Node> = worldbody.children().rev().collect();
+    while let Some(child) = waiting.pop() {
+        if !child.is_element() {
+            continue;
+        }
         match child.tag_name().name() {
             "body" => found.push(child),
-            "worldbody" => found.extend(top_level_bodies(child)?),
+            "worldbody" => waiting.extend(child.children().rev()),
             _ => reject_body_carrier(child)?,
         }
     }
@@ -112,10 +108,39 @@ fn reject_body_carrier(node: Node) -> Result<(), ModelError> {
     Ok(())
 }
 
-/// Parses one body, emits it, then recurses into its `<body>` children.
+/// Parses one body and every body below it, depth-first. The bodies still to come wait in a list
+/// rather than on the call stack, which a deep enough model would overflow.
+fn walk_bodies(
+    top: Node,
+    table: &DefaultTable,
+    settings: &CompilerSettings,
+    bodies: &mut Vec<ParsedBody>,
+    floating_base: &mut bool,
+) -> Result<(), ModelError> {
+    let mut waiting = vec![(top, None, None)];
+    while let Some((node, parent, inherited_class)) = waiting.pop() {
+        let index = bodies.len();
+        read_body(
+            node,
+            parent,
+            inherited_class,
+            table,
+            settings,
+            bodies,
+            floating_base,
+        )?;
+        let class_chain = node.attribute("childclass").or(inherited_class);
+        let first = waiting.len();
+        waiting.extend(elements(node, "body").map(|child| (child, Some(index), class_chain)));
+        waiting[first..].reverse();
+    }
+    Ok(())
+}
+
+/// Parses one body and emits it.
 ///
 /// `inherited_class` is the nearest enclosing `childclass`, carried down until overridden.
-fn walk_body(
+fn read_body(
     node: Node,
     parent: Option<usize>,
     inherited_class: Option<&str>,
@@ -173,7 +198,6 @@ fn walk_body(
         },
     };
 
-    let index = bodies.len();
     bodies.push(ParsedBody {
         name,
         parent,
@@ -181,18 +205,6 @@ fn walk_body(
         inertia,
         joint,
     });
-
-    for child in elements(node, "body") {
-        walk_body(
-            child,
-            Some(index),
-            class_chain,
-            table,
-            settings,
-            bodies,
-            floating_base,
-        )?;
-    }
     Ok(())
 }
 
diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index cdbfee6..7f9f050 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -148,25 +148,29 @@ impl DefaultTable {
         }
     }
 
-    /// Flattens one block, then its nested blocks, each starting from what it inherits.
-    fn walk(&mut self, node: Node, inherited: &ClassDefaults) -> Result<(), ModelError> {
-        let mut settings = inherited.clone();
-        for geom in elements(node, "geom") {
-            settings.geom = settings.geom.overridden_by(&GeomDefaults::read(geom)?);
-        }
-        for joint in elements(node, "joint") {
-            settings.joint = settings.joint.overridden_by(&JointDefaults::read(joint)?);
-        }
-
-        match node.attribute("class") {
-            None | Some(OUTERMOST) => self.root = settings.clone(),
-            Some(name) => {
-                self.classes.insert(name.to_owned(), settings.clone());
+    /// Flattens one block and every block nested in it, each starting from what it inherits. The
+    /// blocks still to come wait in a list rather than on the call stack, which deep nesting would
+    /// overflow.
+    fn walk(&mut self, top: Node, inherited: &ClassDefaults) -> Result<(), ModelError> {
+        let mut waiting = vec![(top, inherited.clone())];
+        while let Some((node, mut settings)) = waiting.pop() {
+            for geom in elements(node, "geom") {
+                settings.geom = settings.geom.overridden_by(&GeomDefaults::read(geom)?);
             }
-        }
+            for joint in elements(node, "joint") {
+                settings.joint = settings.joint.overridden_by(&JointDefaults::read(joint)?);
+            }
+
+            let first = waiting.len();
+            waiting.extend(elements(node, "default").map(|nested| (nested, settings.clone())));
+            waiting[first..].reverse();
 
-        for nested in elements(node, "default") {
-            self.walk(nested, &settings)?;
+            match node.attribute("class") {
+                None | Some(OUTERMOST) => self.root = settings,
+                Some(name) => {
+                    self.classes.insert(name.to_owned(), settings);
+                }
+            }
         }
         Ok(())
     }
diff --git a/crates/multicalc-robot-model/src/urdf/tree.rs b/crates/multicalc-robot-model/src/urdf/tree.rs
index 00bc86c..ee7e34e 100644
--- a/crates/multicalc-robot-model/src/urdf/tree.rs
+++ b/crates/multicalc-robot-model/src/urdf/tree.rs
@@ -74,17 +74,28 @@ pub(crate) fn build(
 
     let mut bodies = Vec::with_capacity(links.len());
     let mut visited = vec![false; links.len()];
-    walk(
-        root,
-        None,
-        None,
-        links,
-        joints,
-        &children,
-        &driven,
-        &mut visited,
-        &mut bodies,
-    );
+    // The links still to come wait in a list rather than on the call stack, which a long enough
+    // chain would overflow. A link's parent joint supplies its pose and joint; the root has none
+    // and sits at identity.
+    let mut waiting: Vec<(usize, Option<usize>, Option<usize>)> = vec![(root, None, None)];
+    while let Some((link_index, parent, incoming)) = waiting.pop() {
+        visited[link_index] = true;
+        let link = &links[link_index];
+        let joint = incoming.map(|index| &joints[index]);
+
+        let body_index = bodies.len();
+        bodies.push(BodyDescription {
+            name: link.name.clone(),
+            parent,
+            pose: joint.map_or_else(SE3::identity, |joint| joint.origin),
+            inertia: link.inertia,
+            joint: joint.and_then(|joint| joint.description.clone()),
+        });
+
+        for &joint_index in children[link_index].iter().rev() {
+            waiting.push((driven[joint_index], Some(body_index), Some(joint_index)));
+        }
+    }
 
     // The walk reaches every link unless some form a cycle disconnected from the root.
     if let Some(stranded) = visited.iter().position(|seen| !seen) {
@@ -111,50 +122,3 @@ pub(crate) fn build(
 
     Ok(bodies)
 }
-
-/// Emits one body, then recurses into its children.
-///
-/// `incoming` is the link's parent joint, which supplies its pose and joint; the root has none and
-/// sits at identity.
-#[expect(
-    clippy::too_many_arguments,
-    reason = "the recursion threads both source lists, the resolved topology, and the output"
-)]
-fn walk(
-    link_index: usize,
-    parent_body: Option<usize>,
-    incoming: Option<usize>,
-    links: &[ParsedLink],
-    joints: &[ParsedJoint],
-    children: &[Vec<usize>],
-    driven: &[usize],
-    visited: &mut [bool],
-    bodies: &mut Vec<BodyDescription>,
-) {
-    visited[link_index] = true;
-    let link = &links[link_index];
-    let joint = incoming.map(|index| &joints[index]);
-
-    let body_index = bodies.len();
-    bodies.push(BodyDescription {
-        name: link.name.clone(),
-        parent: parent_body,
-        pose: joint.map_or_else(SE3::identity, |joint| joint.origin),
-        inertia: link.inertia,
-        joint: joint.and_then(|joint| joint.description.clone()),
-    });
-
-    for &joint_index in &children[link_index] {
-        walk(
-            driven[joint_index],
-            Some(body_index),
-            Some(joint_index),
-            links,
-            joints,
-            children,
-            driven,
-            visited,
-            bodies,
-        );
-    }
-}
-- 
2.43.0


From f4920128cbb8fb2d775b85a8e89c80f712a17422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 28/51] fix: counting the roots of a flat line gives none
 instead of overflowing

---
 crates/multicalc/src/polynomial/roots.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4ad3109..d51d639 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -447,7 +447,8 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             }
         }
 
-        while length < COEFFICIENT_COUNT {
+        // A flat line is a chain of its own, with no pair to divide.
+        while length >= 2 && length < COEFFICIENT_COUNT {
             // Each new entry is what is left over from dividing the two before it, with the sign
             // turned around.
             let previous = chain.get(length - 2).copied().unwrap_or_default();
-- 
2.43.0


From bcb50e9425cc1507f9908ef2b450b5b9e2f05c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 29/51] fix: the exponential of a matrix too large to measure
 is refused instead of never ending

---
 crates/multicalc/src/linear_algebra/expm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/expm.rs b/crates/multicalc/src/linear_algebra/expm.rs
index 974f3f9..37caabc 100644
--- a/crates/multicalc/src/linear_algebra/expm.rs
+++ b/crates/multicalc/src/linear_algebra/expm.rs
@@ -9,7 +9,8 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
     /// approximant. Exact derivatives flow through: the scaling exponent is chosen from the
     /// (primal) 1-norm, an integer that is never differentiated.
     ///
-    /// Returns [`LinalgError::NonFinite`] if the input or result has a non-finite entry.
+    /// Returns [`LinalgError::NonFinite`] if the input or result has a non-finite entry, or if the
+    /// entries of a column are too large to add up.
     ///
     /// ```
     /// use multicalc::linear_algebra::Matrix;
@@ -35,6 +36,10 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
                 nrm = col;
             }
         }
+        // Halving an infinite norm would never bring it down.
+        if !nrm.is_finite() {
+            return Err(LinalgError::NonFinite);
+        }
         // Scale so ‖A / 2^s‖₁ ≤ 1/2. `squares` is that exponent and depends only on the primal, so it is AD-safe.
         let mut squares: i32 = 0;
         let mut scaled = nrm;
-- 
2.43.0


From 8d235dea9c24f8de8d16e93543d6773e7d7f4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 30/51] fix: capsules a few millimetres long keep their true
 clearance when they cross

---
 crates/multicalc/src/kinematics/collision.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index ee65736..6d1d155 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -113,7 +113,7 @@ fn closest_point_on_segment<T: Numeric>(
 ) -> Vector3D<T> {
     let segment = end - start;
     let length_squared = segment.dot(segment);
-    if length_squared <= T::EPSILON {
+    if length_squared <= T::ZERO {
         return start;
     }
     let parameter = ((point - start).dot(segment) / length_squared)
@@ -140,11 +140,11 @@ fn closest_points_between_segments<T: Numeric>(
     let second_offset = second_direction.dot(start_offset);
 
     // Both degenerate: two points.
-    if first_length_squared <= T::EPSILON && second_length_squared <= T::EPSILON {
+    if first_length_squared <= T::ZERO && second_length_squared <= T::ZERO {
         return (first_start, second_start);
     }
 
-    let (first_parameter, second_parameter) = if first_length_squared <= T::EPSILON {
+    let (first_parameter, second_parameter) = if first_length_squared <= T::ZERO {
         // First degenerate: project its point onto the second.
         (
             T::ZERO,
@@ -154,7 +154,7 @@ fn closest_points_between_segments<T: Numeric>(
         )
     } else {
         let first_offset = first_direction.dot(start_offset);
-        if second_length_squared <= T::EPSILON {
+        if second_length_squared <= T::ZERO {
             // Second degenerate: project its point onto the first.
             (
                 (-first_offset / first_length_squared)
@@ -164,9 +164,12 @@ fn closest_points_between_segments<T: Numeric>(
             )
         } else {
             let alignment = first_direction.dot(second_direction);
-            let denominator = first_length_squared * second_length_squared - alignment * alignment;
-            // Parallel: denominator vanishes, so pin the first parameter and solve the second.
-            let candidate = if denominator > T::EPSILON {
+            let lengths_squared = first_length_squared * second_length_squared;
+            let denominator = lengths_squared - alignment * alignment;
+            // Parallel: denominator vanishes beside the lengths, so pin the first parameter and
+            // solve the second. Measured against the lengths, short segments that cross still count
+            // as crossing.
+            let candidate = if denominator > T::EPSILON * lengths_squared {
                 ((alignment * second_offset - first_offset * second_length_squared) / denominator)
                     .max(T::ZERO)
                     .min(T::ONE)
-- 
2.43.0


From 5958d4cf312034195eb97b94e270dff84b4b92fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 31/51] fix: a collision check refuses an obstacle whose place
 is not a number instead of calling it clear

---
 crates/multicalc/src/kinematics/collision.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index 6d1d155..bbe55c9 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -457,7 +457,8 @@ impl<const MAX_SELF: usize, const MAX_ENVIRONMENT: usize, const MAX_EXCLUDED: us
     /// self-primitive is placed at `state.pose(frame_index) * local_pose`.
     ///
     /// Errors: [`ToolIndexOutOfRange`](KinematicsError::ToolIndexOutOfRange) where a primitive is
-    /// attached to a frame `state` does not have.
+    /// attached to a frame `state` does not have, or [`NonFinite`](KinematicsError::NonFinite) where
+    /// a shape or pose holds a NaN, so that a clearance nobody can measure never reads as clear.
     pub fn check<const MAX_JOINTS: usize>(
         &self,
         state: &KinematicTreeState<MAX_JOINTS, T>,
@@ -488,6 +489,9 @@ impl<const MAX_SELF: usize, const MAX_ENVIRONMENT: usize, const MAX_EXCLUDED: us
                 let clearance = first
                     .shape
                     .distance_to(first_pose, second.shape, second_pose);
+                if clearance.is_nan() {
+                    return Err(KinematicsError::NonFinite);
+                }
                 if clearance < minimum_clearance {
                     minimum_clearance = clearance;
                     closest_pair = Some((
@@ -501,6 +505,9 @@ impl<const MAX_SELF: usize, const MAX_ENVIRONMENT: usize, const MAX_EXCLUDED: us
                 let clearance = first
                     .shape
                     .distance_to(first_pose, obstacle.shape, obstacle.pose);
+                if clearance.is_nan() {
+                    return Err(KinematicsError::NonFinite);
+                }
                 if clearance < minimum_clearance {
                     minimum_clearance = clearance;
                     closest_pair = Some((
-- 
2.43.0


From 8d2a3a617fc8b0b0e9db0b7c759540b0c5b7e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 32/51] fix: a curve through two ends is found however short or
 long its span

---
 crates/multicalc/src/polynomial/construction.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/construction.rs b/crates/multicalc/src/polynomial/construction.rs
index edba7c7..414a6c1 100644
--- a/crates/multicalc/src/polynomial/construction.rs
+++ b/crates/multicalc/src/polynomial/construction.rs
@@ -330,7 +330,21 @@ pub(crate) fn endpoint_mapping<T: Numeric>(span: T) -> Matrix<8, 8, T> {
 pub(crate) fn endpoint_mapping_inverse<T: Numeric>(
     span: T,
 ) -> Result<Matrix<8, 8, T>, LinalgError> {
-    endpoint_mapping(span).inverse()
+    // On the piece's own clock the conditions are the same whatever the span. Inverting them there
+    // and putting the powers of the span back afterwards keeps a short or long piece solvable.
+    let mut inverse = endpoint_mapping(T::ONE).inverse()?;
+    let mut span_raised = T::ONE;
+    for order in 0..4 {
+        for row in 0..8 {
+            for column in [order, 4 + order] {
+                if let Some(slot) = inverse.get_mut(row, column) {
+                    *slot *= span_raised;
+                }
+            }
+        }
+        span_raised *= span;
+    }
+    Ok(inverse)
 }
 
 impl<T: Numeric> Polynomial<4, T> {
-- 
2.43.0


From 74ac4f4bcaea05d4d276af05733cda80740a7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:52 +0000
Subject: [PATCH 33/51] fix: a smooth path is planned whatever unit its
 durations come in

---
 crates/multicalc/src/motion/minimum_snap.rs | 36 +++++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/motion/minimum_snap.rs b/crates/multicalc/src/motion/minimum_snap.rs
index 5974013..6f78893 100644
--- a/crates/multicalc/src/motion/minimum_snap.rs
+++ b/crates/multicalc/src/motion/minimum_snap.rs
@@ -209,6 +209,7 @@ impl<
         order: usize,
         waypoints: &[Vector<DIMENSION, T>],
         segments: usize,
+        time_unit: T,
     ) -> EndpointDerivative<DIMENSION, T> {
         // Where the path goes is given, at every waypoint.
         if order == 0 {
@@ -218,10 +219,16 @@ impl<
         }
         // How it is moving is given at the two ends of the path, and chosen everywhere between.
         if waypoint == 0 {
-            return EndpointDerivative::Fixed(self.start.at_order(order));
+            return EndpointDerivative::Fixed(
+                self.start
+                    .at_order(order)
+                    .scale(time_unit.powi(order as i32)),
+            );
         }
         if waypoint == segments {
-            return EndpointDerivative::Fixed(self.end.at_order(order));
+            return EndpointDerivative::Fixed(
+                self.end.at_order(order).scale(time_unit.powi(order as i32)),
+            );
         }
         EndpointDerivative::Free(FREE_DERIVATIVES_PER_WAYPOINT * (waypoint - 1) + (order - 1))
     }
@@ -272,6 +279,14 @@ impl<
             return Err(MotionError::WorkspaceTooSmall);
         }
 
+        // Velocity, acceleration and jerk come in powers of time, so short or long segments spread the
+        // system over many magnitudes and a well-posed path reads as ill-conditioned. Counting time
+        // in average segments keeps them alike; the pieces run from 0 to 1 whatever the unit.
+        let mut time_unit = T::ZERO;
+        for duration in durations {
+            time_unit += *duration / T::from_usize(segments);
+        }
+
         // Build the system that chooses the free values. Everything already known moves to the other
         // side, so the global system never has to exist.
         let cost = snap_cost::<T>();
@@ -281,7 +296,8 @@ impl<
         for (segment, duration) in durations.iter().enumerate() {
             // The segment's cost is written against its coefficients; this restates it against the
             // values at its two ends, which is what neighbouring segments share.
-            let inverse_mapping = endpoint_mapping_inverse(*duration)?;
+            let duration = *duration / time_unit;
+            let inverse_mapping = endpoint_mapping_inverse(duration)?;
             let in_endpoint_terms =
                 inverse_mapping.transpose() * cost.scale(duration.powi(-7)) * inverse_mapping;
 
@@ -290,7 +306,7 @@ impl<
                 let row_order = local_row % DERIVATIVES_PER_WAYPOINT;
                 // A row for something already known contributes nothing to choose.
                 let EndpointDerivative::Free(free_row) =
-                    self.classify(row_waypoint, row_order, waypoints, segments)
+                    self.classify(row_waypoint, row_order, waypoints, segments, time_unit)
                 else {
                     continue;
                 };
@@ -303,7 +319,13 @@ impl<
                         .copied()
                         .unwrap_or(T::ZERO);
 
-                    match self.classify(column_waypoint, column_order, waypoints, segments) {
+                    match self.classify(
+                        column_waypoint,
+                        column_order,
+                        waypoints,
+                        segments,
+                        time_unit,
+                    ) {
                         EndpointDerivative::Free(free_column) => {
                             // Adjacent segments write the same entry, which is what makes the path
                             // continuous without any condition saying so.
@@ -351,7 +373,7 @@ impl<
         for waypoint in 0..=segments {
             let mut block = [Vector::<DIMENSION, T>::zeros(); DERIVATIVES_PER_WAYPOINT];
             for (order, slot) in block.iter_mut().enumerate() {
-                *slot = match self.classify(waypoint, order, waypoints, segments) {
+                *slot = match self.classify(waypoint, order, waypoints, segments, time_unit) {
                     EndpointDerivative::Fixed(value) => value,
                     EndpointDerivative::Free(row) => {
                         Vector::from_fn(|axis| solved.get(row, axis).copied().unwrap_or(T::ZERO))
@@ -384,7 +406,7 @@ impl<
                 let piece = Polynomial::<COEFFICIENTS_PER_SEGMENT, T>::from_endpoint_derivatives(
                     &along_one_axis(&start_block, axis),
                     &along_one_axis(&end_block, axis),
-                    duration,
+                    duration / time_unit,
                 )?;
                 if let Some(slot) = pieces.get_mut(segment).and_then(|row| row.get_mut(axis)) {
                     *slot = piece;
-- 
2.43.0


From 044ec9ea093839edbdbd94f13dc800501e64d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 34/51] fix: plane motions keep their digits for small turns

SE2's exponential and its Jacobians took 1 - cos(omega) over omega and
omega squared down to omega = 7e-15, where the subtraction has nothing left:
at 1e-8 the Jacobian's coupling came out as 0 instead of one half. They now
switch to the series at the angles the SO(3) Jacobians use.
---
 crates/multicalc/src/spatial/lie/se2.rs | 63 +++++++++++--------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/se2.rs b/crates/multicalc/src/spatial/lie/se2.rs
index c5ba7a6..c5d9f0c 100644
--- a/crates/multicalc/src/spatial/lie/se2.rs
+++ b/crates/multicalc/src/spatial/lie/se2.rs
@@ -5,7 +5,26 @@ use core::ops::Mul;
 use crate::linear_algebra::{Matrix, Matrix3D, Vector, Vector2D, Vector3D};
 use crate::scalar::Numeric;
 use crate::spatial::lie::SO2;
-use crate::spatial::small_angle_sq;
+use crate::spatial::{small_angle_so3_sq, small_angle_sq};
+
+/// `(1−cosθ)/θ²` and `(θ−sinθ)/θ²`, each on its Taylor series in θ² below the angle where the
+/// subtraction starts to cost more digits than the series leaves out.
+#[inline]
+fn coupling_coefficients<T: Numeric>(omega: T) -> (T, T) {
+    let theta_sq = omega * omega;
+    let (cosine_cutoff, sine_cutoff) = small_angle_so3_sq::<T>();
+    let p_coeff = if theta_sq < cosine_cutoff {
+        T::HALF - theta_sq / T::from_f64(24.0)
+    } else {
+        (T::ONE - omega.cos()) / theta_sq
+    };
+    let r_coeff = if theta_sq < sine_cutoff {
+        omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0))
+    } else {
+        (omega - omega.sin()) / theta_sq
+    };
+    (p_coeff, r_coeff)
+}
 
 /// A 2D rigid-body transform: a rotation and a translation. The tangent is `[vx, vy, ω]`.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -82,15 +101,9 @@ impl<T: Numeric> SE2<T> {
     #[must_use]
     pub fn exp(twist: Vector3D<T>) -> Self {
         let [lin_x, lin_y, omega] = *twist.as_array();
-        let theta_sq = omega * omega;
-        let (a, b) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::ONE - theta_sq / T::from_f64(6.0),
-                omega * (T::HALF - theta_sq / T::from_f64(24.0)),
-            )
-        } else {
-            (omega.sin() / omega, (T::ONE - omega.cos()) / omega)
-        };
+        let (p_coeff, r_coeff) = coupling_coefficients(omega);
+        let a = T::ONE - omega * r_coeff;
+        let b = omega * p_coeff;
         let translation = Vector::new([a * lin_x - b * lin_y, b * lin_x + a * lin_y]);
         SE2 {
             rotation: SO2::exp(omega),
@@ -206,24 +219,10 @@ impl<T: Numeric> SE2<T> {
     #[inline]
     pub fn left_jacobian(twist: Vector3D<T>) -> Matrix3D<T> {
         let [rho_x, rho_y, omega] = *twist.as_array();
-        let theta_sq = omega * omega;
         // a = sinθ/θ, b = (1−cosθ)/θ (the V(θ) block); p = (1−cosθ)/θ², r = (θ−sinθ)/θ² (q).
-        let (a, b, p_coeff, r_coeff) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::ONE - theta_sq / T::from_f64(6.0),
-                omega * (T::HALF - theta_sq / T::from_f64(24.0)),
-                T::HALF - theta_sq / T::from_f64(24.0),
-                omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
-            )
-        } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            (
-                sin / omega,
-                (T::ONE - cos) / omega,
-                (T::ONE - cos) / theta_sq,
-                (omega - sin) / theta_sq,
-            )
-        };
+        let (p_coeff, r_coeff) = coupling_coefficients(omega);
+        let a = T::ONE - omega * r_coeff;
+        let b = omega * p_coeff;
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
         Matrix::new([
@@ -246,15 +245,7 @@ impl<T: Numeric> SE2<T> {
         let [rho_x, rho_y, omega] = *twist.as_array();
         let theta_sq = omega * omega;
         // p = (1−cosθ)/θ², r = (θ−sinθ)/θ²: the coupling coefficients of the forward Jacobian.
-        let (p_coeff, r_coeff) = if theta_sq < small_angle_sq::<T>() {
-            (
-                T::HALF - theta_sq / T::from_f64(24.0),
-                omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
-            )
-        } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            ((T::ONE - cos) / theta_sq, (omega - sin) / theta_sq)
-        };
+        let (p_coeff, r_coeff) = coupling_coefficients(omega);
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
         let (alpha, beta) = if theta_sq < small_angle_sq::<T>() {
-- 
2.43.0


From 95ae14c75533ef8f00b2fff33d8b9fa6353948d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 35/51] fix: the turn between two opposite directions turns the
 one onto the other

from_two_vectors crossed a with a + b whenever the sum was not exactly zero.
At the size of the unit vectors' own rounding that sum may lie along a, and
the cross product is noise: opposite inputs came out up to 6e-4 rad off. A
sum within that rounding now takes the antiparallel branch.
---
 crates/multicalc/src/spatial/quaternion.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/spatial/quaternion.rs b/crates/multicalc/src/spatial/quaternion.rs
index 656acb2..239ba06 100644
--- a/crates/multicalc/src/spatial/quaternion.rs
+++ b/crates/multicalc/src/spatial/quaternion.rs
@@ -376,14 +376,14 @@ impl<T: Numeric> Quaternion<T> {
         // each keep theirs to `eps/delta`.
         let h = a + b;
         let h_sq = h.norm_squared();
-        // Only the exactly degenerate case needs the fallback, not a band around it. The axis below
+        // Only the degenerate case needs the fallback, not a band around it. The axis below
         // is `a x h`, which is perpendicular to `a` however inaccurate `h` is, so `a` always lands
         // in the right plane and the leftover error is `delta` times the `eps/delta` relative error
-        // of `h`, i.e. flat in `eps`. That holds until `h` is exactly zero and there is no axis at
-        // all. An `h_sq` that has underflowed to zero from a nonzero `h` lands here too, and is
-        // just as well served: `h_sq = delta^2`, so that needs `delta < 1e-154`, far below the
-        // point where a pi turn is the right answer anyway.
-        if h_sq == T::ZERO {
+        // of `h`, i.e. flat in `eps`. That holds until `h` is no larger than the rounding of the
+        // two unit vectors it is the sum of: then it may lie along `a` rather than across it, and
+        // `a x h` is noise. A pi turn is within that same rounding of the right answer.
+        let rounding = T::EPSILON * T::from_f64(4.0);
+        if h_sq <= rounding * rounding {
             // Antiparallel, where the inputs pin down no axis. Build the pi rotation by crossing
             // `a` with the principal axis it is least aligned with, which keeps that cross
             // product's norm at 0.816 or above.
-- 
2.43.0


From 3fdd6cddfc29b5a53ef6e72e598fc3bb14396ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 36/51] fix: the flux across a plane curve is the flow through
 it, not the difference of its line integrals

---
 .../src/vector_field/flux_integral.rs         | 23 ++++++++-----------
 .../src/vector_field/line_integral.rs         |  4 ++--
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/crates/multicalc/src/vector_field/flux_integral.rs b/crates/multicalc/src/vector_field/flux_integral.rs
index 9c6de36..49e68f3 100644
--- a/crates/multicalc/src/vector_field/flux_integral.rs
+++ b/crates/multicalc/src/vector_field/flux_integral.rs
@@ -2,13 +2,14 @@ use crate::error::IntegrateError;
 use crate::numerical_integration::DEFAULT_TOTAL_ITERATIONS;
 use crate::scalar::Numeric;
 
-use crate::vector_field::line_integral::{line_integral_partial_2d, line_integral_partial_3d};
+use crate::vector_field::line_integral::{line_integral_2d_custom, line_integral_partial_3d};
 
 /// Computes the flux integral of a 2D vector field across a parametrized curve.
 ///
 /// The curve is described by a parameter `t`: the transforms map `t` to each coordinate, and
-/// the field is sampled at the resulting curve position. Uses the default iteration count;
-/// see [`flux_integral_2d_custom`] to set it.
+/// the field is sampled at the resulting curve position. Flow across the curve from its left to
+/// its right counts as positive, so outward across a curve run counterclockwise. Uses the default
+/// iteration count; see [`flux_integral_2d_custom`] to set it.
 ///
 /// # Arguments
 /// * `vector_field` - the two field components, each taking the curve position `[x, y]`.
@@ -59,19 +60,15 @@ pub fn flux_integral_2d_custom<T: Numeric>(
     integration_limit: &[T; 2],
     total_iterations: u64,
 ) -> Result<T, IntegrateError> {
-    Ok(line_integral_partial_2d(
-        vector_field,
+    // Across the curve is along it with the field turned a quarter: ∫ Fx dy − Fy dx.
+    let along_x = |point: &[T; 2]| -vector_field[1](point);
+    let along_y = |point: &[T; 2]| vector_field[0](point);
+    line_integral_2d_custom(
+        &[&along_x, &along_y],
         transformations,
         integration_limit,
         total_iterations,
-        0,
-    )? - line_integral_partial_2d(
-        vector_field,
-        transformations,
-        integration_limit,
-        total_iterations,
-        1,
-    )?)
+    )
 }
 
 pub fn flux_integral_3d<T: Numeric>(
diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index 79bb42d..606d697 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -129,8 +129,8 @@ pub fn line_integral_2d_custom<T: Numeric>(
     )?)
 }
 
-/// Line integral of a single field component (`idx`) along the 2D curve. Used by both
-/// [`line_integral_2d_custom`] and the flux integral.
+/// Line integral of a single field component (`idx`) along the 2D curve. Used by
+/// [`line_integral_2d_custom`].
 ///
 /// # Errors
 /// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
-- 
2.43.0


From 1eae4424722419d8177c72388e797ad44bcfe7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 37/51] fix: the beam's clipping to the map keeps the crate's
 lint rules

---
 .../multicalc/src/mapping/occupancy_grid.rs   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 2d32d8d..a51f85c 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -679,14 +679,15 @@ fn part_on_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
     let along = [end[0] - start[0], end[1] - start[1]];
     let mut enter = T::ZERO;
     let mut leave = T::ONE;
-    for (axis, [low, high]) in one_cell_beyond(map).into_iter().enumerate() {
-        if along[axis] == T::ZERO {
-            if start[axis] < low || start[axis] > high {
+    let origins_and_runs = start.into_iter().zip(along);
+    for ((origin, run), [low, high]) in origins_and_runs.zip(one_cell_beyond(map)) {
+        if run == T::ZERO {
+            if origin < low || origin > high {
                 return None;
             }
         } else {
-            let first = (low - start[axis]) / along[axis];
-            let second = (high - start[axis]) / along[axis];
+            let first = (low - origin) / run;
+            let second = (high - origin) / run;
             enter = enter.max(first.min(second));
             leave = leave.min(first.max(second));
         }
@@ -694,23 +695,27 @@ fn part_on_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(
     if enter > leave {
         return None;
     }
-    let at = |fraction: T| {
+    let point_at = |fraction: T| {
         [
             start[0] + fraction * along[0],
             start[1] + fraction * along[1],
         ]
     };
     Some((
-        if enter > T::ZERO { at(enter) } else { start },
-        if leave < T::ONE { at(leave) } else { end },
+        if enter > T::ZERO {
+            point_at(enter)
+        } else {
+            start
+        },
+        if leave < T::ONE { point_at(leave) } else { end },
     ))
 }
 
 /// How far a point lies from the map and the cell around it. Zero within them.
 fn distance_off_map<T: Numeric + Primal, M: OccupancyMap<T> + ?Sized>(map: &M, point: [T; 2]) -> T {
-    let [across, up] = one_cell_beyond(map);
+    let [across, upward] = one_cell_beyond(map);
     let beyond = |value: T, [low, high]: [T; 2]| (low - value).max(value - high).max(T::ZERO);
-    beyond(point[0], across).hypot(beyond(point[1], up))
+    beyond(point[0], across).hypot(beyond(point[1], upward))
 }
 
 /// Which way an index moves as the beam advances along one axis. A component of zero never steps,
-- 
2.43.0


From 02161819f67af3816e8d22f55ed91cf4487093d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 38/51] fix: an integral reads its function within its limits,
 however many steps it takes

---
 .../numerical_integration/iterative_integration.rs  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/numerical_integration/iterative_integration.rs b/crates/multicalc/src/numerical_integration/iterative_integration.rs
index a8d2872..1efd2dd 100644
--- a/crates/multicalc/src/numerical_integration/iterative_integration.rs
+++ b/crates/multicalc/src/numerical_integration/iterative_integration.rs
@@ -94,6 +94,13 @@ fn integrate_rule<T: Numeric, G: FnMut(T) -> Result<T, IntegrateError>>(
     }
 }
 
+/// The next sample, held at the upper limit: the rounding of many steps must not carry a sample
+/// out of the range, where the integrand need not exist.
+fn next_point<T: Numeric>(point: T, delta: T, upper: T) -> T {
+    let next = point + delta;
+    if next > upper { upper } else { next }
+}
+
 /// Boole's composite rule over `[lower, upper]`.
 fn booles<T: Numeric, G: FnMut(T) -> Result<T, IntegrateError>>(
     iterations: u64,
@@ -110,7 +117,7 @@ fn booles<T: Numeric, G: FnMut(T) -> Result<T, IntegrateError>>(
     let mut multiplier = T::from_f64(32.0);
 
     for iter in 0..iterations - 1 {
-        point += delta;
+        point = next_point(point, delta, upper);
         ans.add(multiplier * integrand(point)?);
 
         if (iter + 2) % 2 != 0 {
@@ -143,7 +150,7 @@ fn simpsons<T: Numeric, G: FnMut(T) -> Result<T, IntegrateError>>(
     let mut multiplier = T::from_f64(3.0);
 
     for iter in 0..iterations - 1 {
-        point += delta;
+        point = next_point(point, delta, upper);
         ans.add(multiplier * integrand(point)?);
 
         if (iter + 2) % 3 == 0 {
@@ -173,7 +180,7 @@ fn trapezoidal<T: Numeric, G: FnMut(T) -> Result<T, IntegrateError>>(
     ans.add(integrand(point)?);
 
     for _ in 0..iterations - 1 {
-        point += delta;
+        point = next_point(point, delta, upper);
         ans.add(T::TWO * integrand(point)?);
     }
 
-- 
2.43.0


From 3a5c6927a066e805c869de878340a029022d800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 39/51] fix: a line integral follows its curve to its limit and
 no further

---
 crates/multicalc/src/vector_field/line_integral.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index 606d697..4143958 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -45,13 +45,20 @@ fn get_partial<T: Numeric, const N: usize>(
     let mut left = curve_point(transformations, parameter);
     let mut left_value = vector_field[idx](&left);
 
-    for _ in 0..total_iterations {
-        let right = curve_point(transformations, parameter + delta);
+    for step in 1..=total_iterations {
+        // The last parameter is the limit itself, and none is beyond it, where the curve need
+        // not exist.
+        let next = parameter + delta;
+        parameter = if step == total_iterations || next > integration_limit[1] {
+            integration_limit[1]
+        } else {
+            next
+        };
+        let right = curve_point(transformations, parameter);
         let right_value = vector_field[idx](&right);
 
         ans += (right[idx] - left[idx]) * (left_value + right_value) / T::TWO;
 
-        parameter += delta;
         left = right;
         left_value = right_value;
     }
-- 
2.43.0


From b191c43e819ae3c3d8c37fef64a03cde6cc6e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 40/51] fix: a forced model that overflows is refused instead
 of handed out

---
 crates/multicalc/src/discretization/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/multicalc/src/discretization/mod.rs b/crates/multicalc/src/discretization/mod.rs
index 3d7e355..0dd23bb 100644
--- a/crates/multicalc/src/discretization/mod.rs
+++ b/crates/multicalc/src/discretization/mod.rs
@@ -97,6 +97,9 @@ pub fn van_loan<const N: usize, const N2: usize, T: Numeric>(
     let g22 = Matrix::<N, N, T>::from_fn(|i, j| expm_result[(N + i, N + j)]);
     let f = g22.transpose();
     let discrete_q = f * g12;
+    if !f.is_finite() || !discrete_q.is_finite() {
+        return Err(LinalgError::NonFinite);
+    }
     Ok((f, discrete_q))
 }
 
-- 
2.43.0


From a6ccb97270001f3e41591bbcd7d258bbf83f9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 41/51] fix: a fit of a constant truth has no R squared,
 whatever its mean rounds to

---
 crates/multicalc/src/approximation/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/approximation/mod.rs b/crates/multicalc/src/approximation/mod.rs
index 080137e..cbdae70 100644
--- a/crates/multicalc/src/approximation/mod.rs
+++ b/crates/multicalc/src/approximation/mod.rs
@@ -39,8 +39,13 @@ where
     let n = T::from_usize(NUM_POINTS);
 
     let mut mean_y = Acc::new(summation);
+    let mut first_y = None;
+    // Asked of the values themselves: the rounded mean of equal values may differ from them.
+    let mut is_constant = true;
     for point in points {
-        mean_y.add(original_function(point));
+        let y = original_function(point);
+        is_constant &= y == *first_y.get_or_insert(y);
+        mean_y.add(y);
     }
     let mean_y = mean_y.total() / n;
 
@@ -60,7 +65,7 @@ where
     let mse = ss_res / n;
     let rmse = mse.sqrt();
 
-    let r_squared = if ss_tot == T::ZERO {
+    let r_squared = if is_constant || ss_tot == T::ZERO {
         T::NAN
     } else {
         T::ONE - ss_res / ss_tot
-- 
2.43.0


From fe2d8bd89756b109eaf92c4fafad37bc371c0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 42/51] fix: a slope follows the sign of a zero when its value
 does

---
 crates/multicalc/src/scalar/dual.rs       | 4 +++-
 crates/multicalc/src/scalar/hyper_dual.rs | 4 +++-
 crates/multicalc/src/scalar/jet.rs        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/scalar/dual.rs b/crates/multicalc/src/scalar/dual.rs
index bebd0f5..df5ea46 100644
--- a/crates/multicalc/src/scalar/dual.rs
+++ b/crates/multicalc/src/scalar/dual.rs
@@ -360,7 +360,9 @@ impl<T: Numeric> Numeric for Dual<T> {
     /// sign when `self` and `sign` disagree; the sign argument carries no derivative.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let same = (self.value < T::ZERO) == (sign.value < T::ZERO);
+        // The sign of a zero counts too, as it does for the value.
+        let negative = T::ONE.copysign(sign.value) < T::ZERO;
+        let same = (self.value < T::ZERO) == negative;
         Dual {
             value: self.value.copysign(sign.value),
             deriv: if same { self.deriv } else { -self.deriv },
diff --git a/crates/multicalc/src/scalar/hyper_dual.rs b/crates/multicalc/src/scalar/hyper_dual.rs
index c67551e..9bdf985 100644
--- a/crates/multicalc/src/scalar/hyper_dual.rs
+++ b/crates/multicalc/src/scalar/hyper_dual.rs
@@ -443,7 +443,9 @@ impl<T: Numeric> Numeric for HyperDual<T> {
     /// univariate `chain` helper with slope `s` and zero curvature.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.real < T::ZERO) == (sign.real < T::ZERO) {
+        // The sign of a zero counts too, as it does for the value.
+        let negative = T::ONE.copysign(sign.real) < T::ZERO;
+        let sign_scale = if (self.real < T::ZERO) == negative {
             T::ONE
         } else {
             -T::ONE
diff --git a/crates/multicalc/src/scalar/jet.rs b/crates/multicalc/src/scalar/jet.rs
index f5b0b27..97399c4 100644
--- a/crates/multicalc/src/scalar/jet.rs
+++ b/crates/multicalc/src/scalar/jet.rs
@@ -440,7 +440,9 @@ impl<T: Numeric, const N: usize> Numeric for Jet<T, N> {
     /// scaled by `s = ±1`; the value coefficient is set by `copysign` so signed zero is exact.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.coeffs[0] < T::ZERO) == (sign.coeffs[0] < T::ZERO) {
+        // The sign of a zero counts too, as it does for the value.
+        let negative = T::ONE.copysign(sign.coeffs[0]) < T::ZERO;
+        let sign_scale = if (self.coeffs[0] < T::ZERO) == negative {
             T::ONE
         } else {
             -T::ONE
-- 
2.43.0


From 3144aaa9eeb08a81ba53347e3c8e5302e7024a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 43/51] fix: the hyperbolic tangent levels off on scalars that
 carry derivatives

---
 crates/multicalc/src/scalar/numeric.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index 7b7553f..d711109 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -346,7 +346,11 @@ pub trait Numeric:
     /// Hyperbolic tangent.
     #[inline]
     fn tanh(self) -> Self {
-        self.sinh().safe_div(self.cosh())
+        // By e^(-2|x|), which only shrinks: sinh and cosh both overflow far from zero.
+        let size = self.abs();
+        let shrunk = (-(size + size)).expm1();
+        let out = -shrunk / (shrunk + Self::TWO);
+        if self < Self::ZERO { -out } else { out }
     }
 
     /// Euclidean distance `√(self² + other²)`, scaled to avoid overflow and underflow.
-- 
2.43.0


From 77c61cd468c6caad1aed886409622bf9bada7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:29 +0000
Subject: [PATCH 44/51] fix: singular values of large entries no longer take an
 overflowed scale for orthogonal

---
 crates/multicalc/src/linear_algebra/svd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/svd.rs b/crates/multicalc/src/linear_algebra/svd.rs
index 5f24839..90ec4cd 100644
--- a/crates/multicalc/src/linear_algebra/svd.rs
+++ b/crates/multicalc/src/linear_algebra/svd.rs
@@ -93,7 +93,9 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
                     if alpha == T::ZERO || beta == T::ZERO {
                         continue;
                     }
-                    let scale = (alpha * beta).sqrt();
+                    // Rooted before multiplying: the product of the squared norms can overflow
+                    // where the norms themselves do not, and an infinite scale reads as orthogonal.
+                    let scale = alpha.sqrt() * beta.sqrt();
                     let off = gamma.abs() / scale;
                     if off > off_max {
                         off_max = off;
-- 
2.43.0


From 81d41dfa64d310d8e11bf39a2ede81585b4e75ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 45/51] fix: a direction the singular values lose still gets a
 left column square to the rest

---
 crates/multicalc/src/linear_algebra/svd.rs | 34 ++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/svd.rs b/crates/multicalc/src/linear_algebra/svd.rs
index 90ec4cd..641d84f 100644
--- a/crates/multicalc/src/linear_algebra/svd.rs
+++ b/crates/multicalc/src/linear_algebra/svd.rs
@@ -165,6 +165,40 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
             }
         }
 
+        // A direction the matrix loses, one whose stretch rounds away beside the largest, leaves its
+        // left column at zero or at round-off, which is not square to the others. Any direction
+        // square to them belongs there: take the axis they cover least and strip them from it,
+        // twice so that rounding does not creep back.
+        for k in 0..N {
+            if singular_values[0] + singular_values[k] > singular_values[0] {
+                continue;
+            }
+            let mut axis = 0;
+            let mut least = T::INFINITY;
+            for i in 0..M {
+                let mut covered = T::ZERO;
+                for j in 0..k {
+                    covered += left[(i, j)] * left[(i, j)];
+                }
+                if covered < least {
+                    least = covered;
+                    axis = i;
+                }
+            }
+            let mut fresh =
+                Vector::<M, T>::from_fn(|row| if row == axis { T::ONE } else { T::ZERO });
+            for _ in 0..2 {
+                for j in 0..k {
+                    let column = Vector::<M, T>::from_fn(|row| left[(row, j)]);
+                    fresh -= column.scale(column.dot(fresh));
+                }
+                fresh = fresh.normalized();
+            }
+            for i in 0..M {
+                left[(i, k)] = fresh[i];
+            }
+        }
+
         // Sign convention: the largest-magnitude entry of each left column is positive.
         for k in 0..N {
             let mut row = 0;
-- 
2.43.0


From 374346d24fe85b2c69177a1359b536ccdb744581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 46/51] fix: a quartic close to even in its powers keeps its
 real roots

---
 crates/multicalc/src/polynomial/roots.rs | 50 ++++++++++++++++++------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index d51d639..53d9a0e 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -237,6 +237,40 @@ impl<T: Numeric> Polynomial<4, T> {
     }
 }
 
+/// The number that splits `y⁴ + quadratic·y² + linear·y + constant` into two quadratics.
+///
+/// It is the largest root of a helper cubic, whose lowest coefficient is not positive, so the root
+/// is never negative. Zero means the odd term is as good as gone and there is nothing to split.
+fn largest_splitting_root<T: Numeric>(
+    quadratic: T,
+    linear: T,
+    constant: T,
+) -> Result<T, PolynomialError> {
+    if linear == T::ZERO {
+        return Ok(T::ZERO);
+    }
+    let eight = T::from_f64(8.0);
+    let helper = Polynomial::<4, T>::new([
+        -linear * linear,
+        T::TWO * quadratic * quadratic - eight * constant,
+        eight * quadratic,
+        eight,
+    ]);
+    let found = helper.real_roots()?;
+    let mut largest = found.as_slice().last().copied().unwrap_or(T::ZERO);
+    // A root much smaller than the slide in the cubic formula comes out of it as rounding alone,
+    // even below zero, and the split then falls apart. Newton's steps bring back its digits.
+    let small = (quadratic.abs() + constant.abs().sqrt()) * T::from_f64(1e-3);
+    for _ in 0..4 {
+        let [value, slope] = helper.evaluate_with_derivatives(largest);
+        if largest.abs() > small || value.abs() >= small * slope {
+            break;
+        }
+        largest -= value / slope;
+    }
+    Ok(largest)
+}
+
 impl<T: Numeric> Polynomial<5, T> {
     /// The real roots: four, two, or none, with repeats included.
     ///
@@ -276,8 +310,10 @@ impl<T: Numeric> Polynomial<5, T> {
             + T::from_f64(16.0) * quartic * cubic * cubic * quadratic)
             / (two_hundred_fifty_six * quartic.powi(4));
 
+        let largest = largest_splitting_root(reduced_quadratic, reduced_linear, reduced_constant)?;
+
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        if largest <= T::ZERO {
             // Only even powers are left, so solve for y² and take both square roots of each answer.
             let squares = Polynomial::<3, T>::new([reduced_constant, reduced_quadratic, T::ONE])
                 .real_roots()?;
@@ -289,18 +325,6 @@ impl<T: Numeric> Polynomial<5, T> {
                 }
             }
         } else {
-            // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
-            // coefficient is negative, so it always has a positive root, and the largest root is
-            // the one that works.
-            let helper = Polynomial::<4, T>::new([
-                -reduced_linear * reduced_linear,
-                T::TWO * reduced_quadratic * reduced_quadratic - eight * reduced_constant,
-                eight * reduced_quadratic,
-                eight,
-            ])
-            .real_roots()?;
-            let largest = helper.as_slice().last().copied().unwrap_or(T::ZERO);
-
             let separation = (T::TWO * largest).sqrt();
             let shared = reduced_quadratic * T::HALF + largest;
             let apart = reduced_linear / (T::TWO * separation);
-- 
2.43.0


From 1dc1adbf6380526cd567e8a3172e5631a72cc262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 47/51] fix: a tripled cubic root is listed three times

---
 crates/multicalc/src/polynomial/roots.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 53d9a0e..78e15ef 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -208,7 +208,13 @@ impl<T: Numeric> Polynomial<4, T> {
 
         let mut roots = RealRoots::new();
         if reduced_linear == T::ZERO {
-            roots.push((-reduced_constant).cbrt() + slide);
+            let root = (-reduced_constant).cbrt() + slide;
+            roots.push(root);
+            if reduced_constant == T::ZERO {
+                // All three roots are the same one.
+                roots.push(root);
+                roots.push(root);
+            }
         } else if four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant
             <= T::ZERO
         {
-- 
2.43.0


From 4a177a42f6a2825229b3a2122afbc9e5e0e7f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 48/51] fix: the lone root of a cubic keeps its digits

---
 crates/multicalc/src/polynomial/roots.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 78e15ef..61e1824 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -231,12 +231,16 @@ impl<T: Numeric> Polynomial<4, T> {
                 roots.push(radius * (angle / three - turn).cos() + slide);
             }
         } else {
-            // One real root, from the sum of two cube roots.
+            // One real root, from the sum of two cube roots. Only the larger is taken as a cube
+            // root, where like signs add; the smaller follows from it by division, or subtracting
+            // two close numbers would lose its digits.
             let half_constant = -reduced_constant * T::HALF;
             let spread = (reduced_constant * reduced_constant / four
                 + reduced_linear.powi(3) / twenty_seven)
+                .max(T::ZERO)
                 .sqrt();
-            roots.push((half_constant + spread).cbrt() + (half_constant - spread).cbrt() + slide);
+            let larger = (half_constant + spread.copysign(half_constant)).cbrt();
+            roots.push(larger - reduced_linear / (three * larger) + slide);
         }
         roots.sort_ascending();
         Ok(roots)
-- 
2.43.0


From 82061e089330734ecbbceb15fc513dc0035ff026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 49/51] fix: counting roots no longer takes a speck of rounding
 for a highest power

---
 crates/multicalc/src/polynomial/roots.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 61e1824..53ccfd5 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -357,7 +357,8 @@ impl<T: Numeric> Polynomial<5, T> {
 /// What is left of `dividend` after taking out as many copies of `divisor` as fit.
 ///
 /// Both sides and the answer are the same size, which is what lets a whole chain of these sit in
-/// one array. The answer's coefficients at and above the divisor's degree are zero.
+/// one array. The answer's coefficients at and above the divisor's degree are zero, and so are ones
+/// no larger than the rounding in the subtractions they came from.
 fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
     dividend: &Polynomial<COEFFICIENT_COUNT, T>,
     divisor: &Polynomial<COEFFICIENT_COUNT, T>,
@@ -365,7 +366,15 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
     let divisor_degree = divisor.degree()?;
     let divisor_highest = divisor.coefficient(divisor_degree)?;
 
+    let largest_of = |coefficients: &[T; COEFFICIENT_COUNT]| {
+        coefficients.iter().fold(T::ZERO, |largest, coefficient| {
+            largest.max(coefficient.abs())
+        })
+    };
+    let divisor_largest = largest_of(divisor.coefficients());
+
     let mut working = *dividend.coefficients();
+    let mut largest_term = largest_of(&working);
     let mut power = COEFFICIENT_COUNT;
     while power > divisor_degree {
         power -= 1;
@@ -374,6 +383,7 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
             continue;
         }
         let share = highest / divisor_highest;
+        largest_term = largest_term.max(share.abs() * divisor_largest);
         let offset = power - divisor_degree;
         for (divisor_power, divisor_coefficient) in divisor.coefficients().iter().enumerate() {
             if let Some(slot) = working.get_mut(offset + divisor_power) {
@@ -385,6 +395,14 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
             *slot = T::ZERO;
         }
     }
+    // A term that should have cancelled leaves a speck too, and one taken for the highest power
+    // sends every division after it astray.
+    let speck = T::from_f64(16.0) * T::EPSILON * largest_term;
+    for slot in &mut working {
+        if slot.abs() <= speck {
+            *slot = T::ZERO;
+        }
+    }
     Some(Polynomial::new(working))
 }
 
-- 
2.43.0


From da854379dd9c509ff1d1613531682ad8819cf6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:40 +0000
Subject: [PATCH 50/51] fix: polynomials in several variables with the same
 terms compare equal

---
 crates/multicalc/src/polynomial/multivariate.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/polynomial/multivariate.rs b/crates/multicalc/src/polynomial/multivariate.rs
index 6ea3706..59c1b52 100644
--- a/crates/multicalc/src/polynomial/multivariate.rs
+++ b/crates/multicalc/src/polynomial/multivariate.rs
@@ -80,7 +80,7 @@ impl<const VARIABLES: usize, T: Numeric> MultivariateTerm<VARIABLES, T> {
 /// // At x = 2, y = 3: 3·4·3 + 2·2·3 - 1 = 47
 /// assert!((p.evaluate(&[2.0, 3.0]) - 47.0).abs() < 1e-12);
 /// ```
-#[derive(Debug, Clone, Copy, PartialEq)]
+#[derive(Debug, Clone, Copy)]
 pub struct MultivariatePolynomial<const VARIABLES: usize, const MAX_TERMS: usize, T: Numeric = f64>
 {
     terms: [MultivariateTerm<VARIABLES, T>; MAX_TERMS],
@@ -95,6 +95,15 @@ impl<const VARIABLES: usize, const MAX_TERMS: usize, T: Numeric> Default
     }
 }
 
+impl<const VARIABLES: usize, const MAX_TERMS: usize, T: Numeric> PartialEq
+    for MultivariatePolynomial<VARIABLES, MAX_TERMS, T>
+{
+    /// Compares the terms held, not what merging may have left in the unused slots.
+    fn eq(&self, other: &Self) -> bool {
+        self.terms() == other.terms()
+    }
+}
+
 impl<const VARIABLES: usize, const MAX_TERMS: usize, T: Numeric>
     MultivariatePolynomial<VARIABLES, MAX_TERMS, T>
 {
-- 
2.43.0


From 894e97c1e7e678b89bdd706c9e38465c6408d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 51/51] fix: counting roots allows for coefficients that were
 rounded before it

---
 crates/multicalc/src/polynomial/roots.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 53ccfd5..a0cbd17 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -395,9 +395,10 @@ fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
             *slot = T::ZERO;
         }
     }
-    // A term that should have cancelled leaves a speck too, and one taken for the highest power
+    // A term that should have cancelled leaves a speck too, a little larger when the coefficients
+    // were rounded on their way here, and one taken for the highest power
     // sends every division after it astray.
-    let speck = T::from_f64(16.0) * T::EPSILON * largest_term;
+    let speck = T::from_f64(64.0) * T::EPSILON * largest_term;
     for slot in &mut working {
         if slot.abs() <= speck {
             *slot = T::ZERO;
-- 
2.43.0

