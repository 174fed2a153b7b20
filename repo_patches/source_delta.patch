From 0d9a27ff90287cd97fedc8f9beb8b209b20a1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 01/13] fix: use the configured displacer diameter in the
 rhombic drive

RhombicDrive::from(Config) took D_d from D_p, so the displacer diameter given
in a configuration was silently ignored.
---
 src/ws/rhombic_drive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 968d5af..68d1ab7 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -199,7 +199,7 @@ impl From<Config> for RhombicDrive {
             eccentricity: config.eccentricity,
             r_crank: config.r_crank,
             D_p: config.D_p,
-            D_d: config.D_p,
+            D_d: config.D_d,
             L_conn: config.L_conn,
         };
         let parasitics = Parasitics {
-- 
2.43.0


From 55448439af0b07ec6e76106688e9a4e033a599bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 02/13] fix: report the pressure, mass flow and heat flow of
 the converged cycle

On convergence State::update returned the state of the previous outer
iteration, so the reported pressures and flows did not belong to the reported
cycle (and were the initial hint, with zero flows, for an engine that converged
in the first iteration).
---
 src/engine/state.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index a899b36..d0c8a64 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,10 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the `State` within `tol`, then the original
-    /// `State` is returned as `Err(self)`.
+    /// `values` do not change the temperatures within `tol`, then the
+    /// `State` is returned as `Err(self)` with its temperatures unchanged.
+    /// In both cases the pressure, mass flow rates, and heat flow rates are
+    /// those that correspond to `values`.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
         self,
@@ -163,11 +165,8 @@ impl<T: Fluid> State<T> {
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
         if self.temp.is_converged(new_temp, tol) {
-            // Temperatures are converged and we return `self` unchanged
-            Err(Self {
-                fluid: new_state.fluid,
-                ..self
-            })
+            // Temperatures are converged and we keep those used to calculate `values`
+            Err(new_state)
         } else {
             // Approach temperatures have changed and we return the new `State`
             Ok(Self {
-- 
2.43.0


From bafa4cee70dfee207dc019ad1ec146a8419067fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 03/13] fix: apply the wall heat transfer, not the parasitic
 loss, to the working space gas

The energy balances of the compression and expansion spaces were given the
thermal parasitics as their heat flow, while the thermal resistance to the
heat exchangers, which the reported heat flows and the performance figures do
account for, never reached the gas.  Thermal parasitics are external losses
that the performance figures already add to both the heat input and the heat
rejection; taking them from the gas as well made the reported figures violate
the first law.
---
 src/engine/run.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index e1b434b..f6a3434 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -25,7 +25,7 @@ pub(super) struct Run<'a, T: Fluid, U: MatrixDecomposition> {
     vol_chx: f64,
     vol_hhx: f64,
     vol_regen: f64,
-    ws_parasitics: ws::Parasitics,
+    ws_thermal_res: ws::ThermalResistance,
     ws_vol_fn: Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>,
 }
 
@@ -47,7 +47,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         let ws_state = state.ws();
         let period = 1.0 / components.ws.frequency(&ws_state);
         let ws_vol_fn = components.ws.volumes(&ws_state);
-        let ws_parasitics = components.ws.parasitics(&ws_state);
+        let ws_thermal_res = components.ws.thermal_resistance(&ws_state);
 
         Self {
             enth_norm,
@@ -59,7 +59,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             vol_chx,
             vol_hhx,
             vol_regen,
-            ws_parasitics,
+            ws_thermal_res,
             ws_vol_fn,
         }
     }
@@ -75,7 +75,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.comp.thermal,
+            Q_dot: (temp - self.temp.chx) / self.ws_thermal_res.comp,
         }
     }
 
@@ -127,7 +127,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.exp.thermal,
+            Q_dot: (temp - self.temp.hhx) / self.ws_thermal_res.exp,
         }
     }
 }
-- 
2.43.0


From c80dda55f8643e857e23d579fe5ae012f95844b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 04/13] fix: always report the final point of the cycle

The slack of 1e-14 s that lets the last time point through is smaller than the
rounding error of the accumulated time grid for slow engines or fine
resolutions, so the last point was silently dropped and the cycle ended one
time step early.
---
 src/state_equations/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index efffb33..818078d 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -35,7 +35,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         let mut stepper = Dopri5::new(
             state,
             0.0,
-            period + 1e-14, // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
+            period + 1e-3 * dx, // slack so that rounding cannot drop the final point
             dx,
             y0,
             tol.rel,
-- 
2.43.0


From 3125b6961c132d45799d273057f675fd8e96332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 05/13] fix: return an error when the state equations cannot be
 solved

A cycle whose state equations have no solution (for example because no
consistent set of flow directions is found) made the engine run panic instead
of returning a RunError.  An unsolvable trial step is now rejected by the
integrator, which retries with a smaller one and finally gives up with an
error.
---
 src/state_equations/cycle.rs      |  2 +-
 src/state_equations/integrator.rs | 46 +++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/state_equations/cycle.rs b/src/state_equations/cycle.rs
index 57f3bdc..6cbe3bc 100644
--- a/src/state_equations/cycle.rs
+++ b/src/state_equations/cycle.rs
@@ -52,7 +52,7 @@ pub trait Cycle: Sized {
             let integration = Integration::try_from(self, ic, 2, ode_tol)?; // using 2 points here is faster and doesn't affect integration
             if integration.is_converged(conv_tol) {
                 let integration = Integration::try_from(self, ic, num_points, ode_tol)?;
-                return Ok(integration.into_state_values());
+                return integration.try_into_state_values();
             }
             ic = Conditions {
                 P: pres_zero,
diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 818078d..901ae73 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -85,22 +85,36 @@ impl<'a, T: Cycle> Integration<'a, T> {
 
     /// Calculate state equation values at each point
     ///
-    /// This function consumes the `Integration`.
+    /// # Panics
+    ///
+    /// Will panic if the state equations cannot be solved at a point.
+    #[cfg(test)]
     pub fn into_state_values(self) -> Vec<Values> {
+        self.try_into_state_values()
+            .expect("state equations should be solvable")
+    }
+
+    /// Attempt to calculate state equation values at each point
+    ///
+    /// This function consumes the `Integration`.
+    ///
+    /// # Errors
+    ///
+    /// Will return `Err` if the state equations cannot be solved at a point.
+    pub fn try_into_state_values(self) -> Result<Vec<Values>> {
         let mut flow_dir = FlowDirection::default();
         self.points
             .into_iter()
             .map(|point| {
                 let Point { time, conditions } = point;
                 let inputs = self.cycle.calculate_inputs(time, conditions);
-                let solution = solve::<T::Solver>(inputs, flow_dir)
-                    .expect("TODO: what do we do if this fails?");
+                let solution = solve::<T::Solver>(inputs, flow_dir)?;
                 flow_dir = FlowDirection::from_solution(&solution);
-                Values {
+                Ok(Values {
                     time,
                     conditions,
                     solution,
-                }
+                })
             })
             .collect()
     }
@@ -131,14 +145,18 @@ impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
         };
         let inputs = self.cycle.calculate_inputs(time, conditions);
         let flow_dir_hint = *self.last_flow_dir.borrow();
-        let solution = solve::<T::Solver>(inputs, flow_dir_hint)
-            .expect("TODO: what should we do if this fails?");
-
-        let flow_dir = FlowDirection::from_solution(&solution);
-        self.last_flow_dir.replace(flow_dir);
-
-        dy[0] = solution.dP_dt;
-        dy[1] = solution.dTc_dt;
-        dy[2] = solution.dTe_dt;
+        match solve::<T::Solver>(inputs, flow_dir_hint) {
+            Ok(solution) => {
+                let flow_dir = FlowDirection::from_solution(&solution);
+                self.last_flow_dir.replace(flow_dir);
+
+                dy[0] = solution.dP_dt;
+                dy[1] = solution.dTc_dt;
+                dy[2] = solution.dTe_dt;
+            }
+            // The integrator rejects any step that is not a number and retries
+            // with a smaller one, until it gives up and returns an error
+            Err(_) => dy.fill(f64::NAN),
+        }
     }
 }
-- 
2.43.0


From 4da887a60194c34dc16b78d79b7a425f72146e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 06/13] fix: normalise the energy balances by a magnitude that
 does not vanish

The normalising enthalpy was the mean of the sink and source enthalpies, which
is zero when they are opposite (for example helium between 200 K and 300 K,
with its reference at 250 K), so the state equations were divided by zero.
Use the mean of their magnitudes.
---
 src/engine/run.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index f6a3434..7dacf26 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -36,7 +36,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         // Calculate an average enthalpy using the sink and source temperatures
         let h_sink = state.fluid.enth(state.temp.sink, state.pres.avg);
         let h_source = state.fluid.enth(state.temp.source, state.pres.avg);
-        let enth_norm = 0.5 * (h_sink + h_source);
+        let enth_norm = 0.5 * (h_sink.abs() + h_source.abs());
 
         // Ask heat exchanger components for their volumes
         let vol_chx = components.chx.volume();
-- 
2.43.0


From 06c58625b95a85504c3bfa614f1b2fa8f9dbc3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 07/13] fix: bound the SVD iteration and scale its singular
 value threshold

With a matrix that is not finite the decomposition never returned, hanging the
engine run, and the absolute threshold of 1e-12 on the singular values treated
the pressure equation of a small engine as singular.
---
 src/state_equations/solver.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ffaa885..f42d9d2 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -232,9 +232,11 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
-        let eps = 1e-12;
-        a.svd_unordered(true, true)
-            .solve(b, eps)
+        let max_iters = 1000; // without a limit, a matrix that is not finite iterates forever
+        let svd = a
+            .try_svd_unordered(true, true, 5. * f64::EPSILON, max_iters)
+            .context("unable to compute SVD decomposition")?;
+        svd.solve(b, f64::EPSILON * svd.singular_values.max())
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
     }
 }
-- 
2.43.0


From df4f4d969974e7230862c776b0560931e2789402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 08/13] fix: keep the compression volume of a rhombic drive
 above its clearance

With an eccentricity below the crank radius the connecting rods stand
upright between the dead centres, so the smallest volume is not the one at
half a turn and the volume fell below the configured clearance.
---
 src/ws/rhombic_drive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 68d1ab7..56c2e9d 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -104,7 +104,9 @@ impl WorkingSpaces for RhombicDrive {
             let theta = omega * time;
 
             let b_theta = (L_conn.powi(2) - (eccentricity + r_crank * theta.cos()).powi(2)).sqrt();
-            let b_1 = (L_conn.powi(2) - (eccentricity - r_crank).powi(2)).sqrt();
+            // The rods are steepest at this offset (upright if the cranks can reach below the yoke pins)
+            let b_1_offset = (eccentricity - r_crank).max(0.);
+            let b_1 = (L_conn.powi(2) - b_1_offset.powi(2)).sqrt();
             let b_2 = ((L_conn - r_crank).powi(2) - eccentricity.powi(2)).sqrt();
 
             let dVc_dtheta =
-- 
2.43.0


From 938f6f53cd1435bf348225be0984a68289e7ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 09/13] fix: refine the solution of the SVD solver

The decomposition of the badly scaled state equations of ordinary engines
can be inaccurate by several parts per billion, enough to change the
reported flows by almost one percent.
---
 src/state_equations/solver.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index f42d9d2..2da91eb 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -236,8 +236,22 @@ impl MatrixDecomposition for SvdDefault {
         let svd = a
             .try_svd_unordered(true, true, 5. * f64::EPSILON, max_iters)
             .context("unable to compute SVD decomposition")?;
-        svd.solve(b, f64::EPSILON * svd.singular_values.max())
-            .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
+        let eps = f64::EPSILON * svd.singular_values.max();
+        let solve = |rhs: &Vector| {
+            svd.solve(rhs, eps)
+                .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
+        };
+
+        // The decomposition of a badly scaled matrix can be inaccurate, so refine the solution
+        let mut x = solve(b)?;
+        for _ in 0..100 {
+            let residual = b - a * x;
+            if residual.norm() <= 1e-9 * b.norm() {
+                return Ok(x);
+            }
+            x += solve(&residual)?;
+        }
+        bail!("unable to solve matrix accurately with SVD decomposition")
     }
 }
 
-- 
2.43.0


From 27fd42d1e36e8e0af190ac5373e58b0791efe5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 10/13] fix: regenerator mean temperature when its ends
 (nearly) coincide

The logarithmic mean was 0/0 for equal mid-gap temperatures, so an engine
without a temperature difference could never run, and lost its accuracy to
cancellation for nearly equal ones.
---
 src/engine/state.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index d0c8a64..79e8a9f 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -515,13 +515,27 @@ impl RegenImbalance {
 
         let cold = temp_chx + cold_approach;
         let hot = temp_hhx - hot_approach;
-        let avg = (temp_hhx - 0.5 * hot_approach - temp_chx - 0.5 * cold_approach)
-            / ((temp_hhx - 0.5 * hot_approach) / (temp_chx + 0.5 * cold_approach)).ln();
+        let avg = log_mean(
+            temp_chx + 0.5 * cold_approach,
+            temp_hhx - 0.5 * hot_approach,
+        );
 
         RegenTemp { cold, avg, hot }
     }
 }
 
+/// Calculate the logarithmic mean of two temperatures
+///
+/// `ln_1p` keeps the result accurate for temperatures that are nearly equal.
+fn log_mean(cold: f64, hot: f64) -> f64 {
+    let rel_diff = (hot - cold) / cold;
+    if rel_diff == 0. {
+        cold
+    } else {
+        cold * (rel_diff / rel_diff.ln_1p())
+    }
+}
+
 /// Integrate `y` over `x` using the trapezoidal rule
 fn integrate(x: &[f64], y: &[f64]) -> f64 {
     let xs = x.iter().tuple_windows();
-- 
2.43.0


From f774face759a3b1feff3489959ab37119a45289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 11/13] fix: report a singular system with the SVD solver

---
 src/state_equations/solver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index 2da91eb..2ac9928 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -232,6 +232,11 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
+        // The pseudo-inverse would give one of many (or no) solutions of a singular system
+        if !a.lu().is_invertible() {
+            bail!("unable to solve singular matrix with SVD decomposition")
+        }
+
         let max_iters = 1000; // without a limit, a matrix that is not finite iterates forever
         let svd = a
             .try_svd_unordered(true, true, 5. * f64::EPSILON, max_iters)
-- 
2.43.0


From 49ba5147361ff64b7e35a2297075e68811b3c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 12/13] fix: refuse counts that do not fit instead of
 truncating them

---
 src/chx/gpu3.rs    |  2 ++
 src/chx/mod2.rs    |  1 +
 src/hhx/gpu3.rs    |  1 +
 src/hhx/mod2.rs    |  1 +
 src/hhx/ni_gpu3.rs |  1 +
 src/hhx/ni_mod2.rs |  1 +
 src/regen/gpu3.rs  |  1 +
 src/types.rs       | 12 +++++++++++-
 8 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/chx/gpu3.rs b/src/chx/gpu3.rs
index f99057a..a190526 100644
--- a/src/chx/gpu3.rs
+++ b/src/chx/gpu3.rs
@@ -14,7 +14,9 @@ pub struct Config {
     length_ht: f64,
     D_inner: f64,
     D_outer: f64,
+    #[serde(deserialize_with = "crate::types::checked_u32")]
     N_total: u32,
+    #[serde(deserialize_with = "crate::types::checked_u32")]
     N_shell: u32,
     D_sh: f64,
     Ac_d: f64,
diff --git a/src/chx/mod2.rs b/src/chx/mod2.rs
index 3aaa41e..168208a 100644
--- a/src/chx/mod2.rs
+++ b/src/chx/mod2.rs
@@ -32,6 +32,7 @@ pub struct Tubes {
     length_ht: f64,
     D_outer: f64,
     D_inner: f64,
+    #[serde(deserialize_with = "crate::types::checked_u32")]
     N_total: u32,
     roughness: f64,
     material: Material,
diff --git a/src/hhx/gpu3.rs b/src/hhx/gpu3.rs
index 44dad20..0f0dfa5 100644
--- a/src/hhx/gpu3.rs
+++ b/src/hhx/gpu3.rs
@@ -15,6 +15,7 @@ pub struct Config {
     D_outer: f64,
     D_inner: f64,
     roughness: f64,
+    #[serde(deserialize_with = "crate::types::checked_u32")]
     N_total: u32,
     vol_h: f64,
     eta_comb: f64,
diff --git a/src/hhx/mod2.rs b/src/hhx/mod2.rs
index c1ed09e..c95f5a6 100644
--- a/src/hhx/mod2.rs
+++ b/src/hhx/mod2.rs
@@ -31,6 +31,7 @@ pub struct Tubes {
     D_outer: f64,
     D_inner: f64,
     roughness: f64,
+    #[serde(deserialize_with = "crate::types::checked_u32")]
     N_total: u32,
     materialtube: Material,
     materialfin: Material,
diff --git a/src/hhx/ni_gpu3.rs b/src/hhx/ni_gpu3.rs
index d96228a..1393b99 100644
--- a/src/hhx/ni_gpu3.rs
+++ b/src/hhx/ni_gpu3.rs
@@ -16,6 +16,7 @@ pub struct Config {
     D_inner: f64,
     k_f: f64,
     roughness: f64,
+    #[serde(deserialize_with = "crate::types::checked_u32")]
     N_total: u32,
     vol_h: f64,
     R_ins: f64,
diff --git a/src/hhx/ni_mod2.rs b/src/hhx/ni_mod2.rs
index ce692e7..11c86f7 100644
--- a/src/hhx/ni_mod2.rs
+++ b/src/hhx/ni_mod2.rs
@@ -16,6 +16,7 @@ pub struct Config {
     D_inner: f64,
     k_f: f64,
     roughness: f64,
+    #[serde(deserialize_with = "crate::types::checked_u32")]
     N_total: u32,
     vol_h: f64,
     R_ins: f64,
diff --git a/src/regen/gpu3.rs b/src/regen/gpu3.rs
index 9032901..b99c4e1 100644
--- a/src/regen/gpu3.rs
+++ b/src/regen/gpu3.rs
@@ -39,6 +39,7 @@ pub struct Mesh {
 pub struct Shell {
     diameter: f64,
     length: f64,
+    #[serde(deserialize_with = "crate::types::checked_u32")]
     number: u32,
 }
 
diff --git a/src/types.rs b/src/types.rs
index 634de9e..9999434 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1,4 +1,4 @@
-use serde::Deserialize;
+use serde::{de::Error, Deserialize, Deserializer};
 
 pub const DEFAULT_MAX_ITERS: u32 = 20;
 
@@ -92,6 +92,7 @@ pub struct LegacySolverConfig {
     pub outer_loop_tolerance: ToleranceConfig,
     pub ode_tolerance: ToleranceConfig,
     pub ode_solver: LegacyOdeSolver,
+    #[serde(deserialize_with = "checked_u32")]
     pub time_resolution: u32,
 }
 
@@ -104,21 +105,30 @@ pub enum LegacyOdeSolver {
 #[derive(Debug, Deserialize, PartialEq)]
 pub struct InnerLoopConfig {
     pub tolerance: ToleranceConfig,
+    #[serde(deserialize_with = "checked_u32")]
     pub max_iterations: u32,
 }
 
 #[derive(Debug, Deserialize, PartialEq)]
 pub struct OuterLoopConfig {
     pub tolerance: ToleranceConfig,
+    #[serde(deserialize_with = "checked_u32")]
     pub max_iterations: u32,
 }
 
 #[derive(Debug, Deserialize, PartialEq)]
 pub struct OdeConfig {
     pub tolerance: ToleranceConfig,
+    #[serde(deserialize_with = "checked_u32")]
     pub num_timesteps: u32,
 }
 
+/// Read a `u32` without silently truncating values that do not fit
+pub(crate) fn checked_u32<'de, D: Deserializer<'de>>(deserializer: D) -> Result<u32, D::Error> {
+    let value = u64::deserialize(deserializer)?;
+    u32::try_from(value).map_err(|_| D::Error::custom(format!("{value} is out of range")))
+}
+
 #[derive(Debug, Deserialize, PartialEq)]
 pub struct ToleranceConfig {
     pub abs: f64,
-- 
2.43.0


From 3da2425029dda85daa0ee24719fdf6020f287dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:38 +0000
Subject: [PATCH 13/13] fix: report state equations without a finite solution
 as an error

---
 src/state_equations/solver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index 2ac9928..263c031 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -144,6 +144,9 @@ impl System {
     fn solve<T: MatrixDecomposition>(&self, flow_dir: FlowDirection) -> Result<Solution> {
         let a = self.stencil.create_matrix(flow_dir);
         let x = T::solve(&a, &self.b)?;
+        if !x.iter().all(|value| value.is_finite()) {
+            bail!("the state equations have no finite solution")
+        }
         Ok(Solution {
             m_dot_ck: x[0],
             m_dot_kr: x[1],
-- 
2.43.0

