From d62d8b1a4d14f6635367ca5d8a85ed6676485f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:01 +0000
Subject: [PATCH 01/34] fix: start backward integrations in the direction of
 the final time

The initial step was always positive. When the final time lies before the
initial time the solver stepped away from it.
---
 src/ode/integrator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 59ddcf7..c6e7769 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -207,6 +207,8 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         self
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
+        let tdir = 1f64.copysign(self.tfinal - self.t);
+        self.dt = self.dt.abs().copysign(tdir);
         let cache = Alg::new_cache(&mut self);
 
         let mut sol = OdeSolution::new();
@@ -224,7 +226,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
             uprev: self.u,
             tprev: self.t,
             dtprev: self.dt,
-            tdir: 1f64.copysign(self.tfinal - self.t),
+            tdir,
             tfinal: self.tfinal,
             opts: self.opts,
             stats: OdeStatistics::new(),
-- 
2.43.0


From 1c966ad84a5500ff7be7f85269601df73771f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:02 +0000
Subject: [PATCH 02/34] fix: use the requested initial step size

The dtstart setter stored the value in the options but the first step always
used the default of 1e-6.
---
 src/ode/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index c6e7769..a8a20fd 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -144,6 +144,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
     }
     pub fn dtstart(mut self, val: f64) -> Self {
         self.opts.dtstart = val;
+        self.dt = val;
         self
     }
     pub fn dtmax(mut self, val: f64) -> Self {
-- 
2.43.0


From 9b53f892f7025ddbd388bd5b07ab9420ee7ca78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:03 +0000
Subject: [PATCH 03/34] fix: cap the initial step at the maximum step size

---
 src/ode/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index a8a20fd..9f2dedf 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -209,7 +209,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
         let tdir = 1f64.copysign(self.tfinal - self.t);
-        self.dt = self.dt.abs().copysign(tdir);
+        self.dt = self.dt.abs().min(self.opts.dtmax).copysign(tdir);
         let cache = Alg::new_cache(&mut self);
 
         let mut sol = OdeSolution::new();
-- 
2.43.0


From 182425eeb75db8474863f79d614c76878f8cea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:04 +0000
Subject: [PATCH 04/34] fix: correct the end-of-interval test of Radau5

Only the final time was multiplied by the direction of integration, so the
test was wrong for backward integrations.
---
 src/radau/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index e6c8cf4..91eb340 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,7 +98,7 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
-        if integrator.t + integrator.dt * 1.0001 - integrator.tfinal * integrator.tdir >= 0.0 {
+        if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
         }
-- 
2.43.0


From 0b99a3478fe457c39bf73375ce7b363d806e7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:05 +0000
Subject: [PATCH 05/34] fix: stepping a finished integrator does nothing

Calling step() or integrate() again after the final time was reached appended
duplicate points (DormandPrince5) or overwrote the return code (Radau5).
---
 src/ode/integrator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 9f2dedf..1a52d25 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -243,6 +243,9 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
     /// Step the ODE to the next state. Returns solution if finished and
     /// None otherwise.
     pub fn step(&mut self) -> Option<usize> {
+        if self.sol.retcode != super::code::OdeRetCode::Continue {
+            return None;
+        }
         Alg::step(self);
         match self.callback {
             Some(f) => f(self),
-- 
2.43.0


From c7f54643b0eb2b8572f3c77e1c05b48942b83900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:06 +0000
Subject: [PATCH 06/34] fix: yield the final point from the integrator
 iterators

The step that reaches the final time ends the integration, so both iterators
stopped without yielding the state at the final time.
---
 src/ode/integrator.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 1a52d25..0ad2278 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -306,10 +306,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorIterator<'a, Param
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
+        let npoints = self.integrator.sol.ts.len();
         let res = self.integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        if res.is_some() || self.integrator.sol.ts.len() > npoints {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
@@ -357,10 +359,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorMutIterator<'a, Pa
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
+        let npoints = self.integrator.sol.ts.len();
         let res = (*self).integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        if res.is_some() || self.integrator.sol.ts.len() > npoints {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
-- 
2.43.0


From d2e6204b538662b82bc548e60656f83fa16745ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:07 +0000
Subject: [PATCH 07/34] fix: stop DormandPrince5 when the step size underflows

The return code was set inside the retry loop, but the loop only ended once a
step was accepted. A right-hand side that returns NaN, or a solution that blows
up, made it loop forever.
---
 src/dorm_prince/dp5/algorithm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5de0b3d..5af823e 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -63,15 +63,19 @@ impl OdeAlgorithm for DormandPrince5 {
             integrator.cache.last = true;
         }
         loop {
+            // The step size must be large enough to advance the time
+            if !integrator.cache.last
+                && integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON
+            {
+                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
+            }
             DormandPrince5::compute_stages(integrator);
             let err = DormandPrince5::error(integrator);
             DormandPrince5::prepare_next_step(err, integrator);
             if !integrator.cache.reject {
                 break;
             }
-            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
-                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
-            }
         }
 
         integrator.stats.steps += 1;
-- 
2.43.0


From c186a5cc9f9fd2ff2df43c3655a41014717f3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:08 +0000
Subject: [PATCH 08/34] fix: DormandPrince5 takes at most max_steps steps

It took one more step than allowed before reporting MaxIters.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5af823e..4f073d5 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -82,7 +82,7 @@ impl OdeAlgorithm for DormandPrince5 {
         integrator.sol.ts.push(integrator.t);
         integrator.sol.us.push(integrator.u.clone());
 
-        if integrator.stats.steps > integrator.opts.max_steps {
+        if integrator.stats.steps >= integrator.opts.max_steps {
             integrator.sol.retcode = OdeRetCode::MaxIters;
         }
         if integrator.cache.last {
-- 
2.43.0


From 0f90f8c29705742e46010d95f21d3641281a4286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:09 +0000
Subject: [PATCH 09/34] fix: Radau5 may use all of max_steps steps

It reported MaxIters one attempt too early, so a run that needs exactly
max_steps attempts failed.
---
 src/radau/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 91eb340..e7671ed 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -115,13 +115,13 @@ impl OdeAlgorithm for Radau5 {
                 }
             }
 
-            integrator.stats.steps += 1;
-
             // Check that we haven't passed max allowed steps
             if integrator.stats.steps >= integrator.opts.max_steps {
                 integrator.sol.retcode = OdeRetCode::MaxIters;
                 return;
             }
+            integrator.stats.steps += 1;
+
             // Check that the step size isn't too small
             if 0.1 * (integrator.dt).abs() <= (integrator.t).abs() * f64::EPSILON {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
-- 
2.43.0


From 2025079d5beae6fb488f5d0c1a497aed98e48404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:10 +0000
Subject: [PATCH 10/34] fix: use the correct exponent in the DormandPrince5
 step size controller

The exponent of the error is 0.2 - 0.75*beta. It was computed as
0.2 - beta^0.75, which becomes negative for beta above 0.117.
---
 src/dorm_prince/dp5/prepare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index 2e62a90..c5d154c 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -9,7 +9,7 @@ impl DormandPrince5 {
         integrator: &mut OdeIntegrator<Params, DormandPrince5>,
     ) {
         let beta = integrator.opts.beta;
-        let expo1 = 0.2 - beta.powf(0.75);
+        let expo1 = 0.2 - beta * 0.75;
         let safe = integrator.opts.safe;
         let fac1 = 1.0 / integrator.opts.facl;
         let fac2 = 1.0 / integrator.opts.facr;
-- 
2.43.0


From 08b6cff2e9f71ce66be15b0130f720ceb34fd7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:10 +0000
Subject: [PATCH 11/34] fix: initial error memory of the DormandPrince5 step
 size controller

Starting from zero made the stabilisation term infinite, so the second step was
always cut by the largest allowed ratio.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 4f073d5..fcdfddd 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -33,7 +33,7 @@ impl OdeAlgorithm for DormandPrince5 {
             n_nonstiff: 0,
             reject: false,
             last: false,
-            facold: 0.0, // previous ratio of dtnew/dt
+            facold: 1e-4, // previous ratio of dtnew/dt
             dtlamb: 0.0,
             k2: Array1::<f64>::zeros(n),
             k3: Array1::<f64>::zeros(n),
-- 
2.43.0


From 093fc398738a051ab193edb9b7323d4187912a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:11 +0000
Subject: [PATCH 12/34] fix: max_stiff = 0 no longer divides by zero

---
 src/dorm_prince/dp5/prepare.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index c5d154c..c67862e 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -30,7 +30,8 @@ impl DormandPrince5 {
             integrator.stats.accepts += 1;
 
             /* stiffness detection */
-            if integrator.stats.accepts % integrator.opts.max_stiff == 0
+            if (integrator.opts.max_stiff > 0
+                && integrator.stats.accepts % integrator.opts.max_stiff == 0)
                 || integrator.cache.n_stiff > 0
             {
                 let mut stnum = 0.0;
-- 
2.43.0


From 1806ba60d0e983d48f31d24e05dd46292980f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:12 +0000
Subject: [PATCH 13/34] fix: Radau5 redoes the decompositions when the step
 size changes

After a failed Newton iteration on a step that reused the decompositions the
step size was reduced but the matrices of the old step size were kept.
---
 src/radau/algorithm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index e7671ed..c6b10f0 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -101,6 +101,7 @@ impl OdeAlgorithm for Radau5 {
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
+            integrator.cache.decompose = true;
         }
         loop {
             if integrator.cache.decompose {
@@ -130,6 +131,7 @@ impl OdeAlgorithm for Radau5 {
 
             // Solve the non-linear systems using a simplified Newton's method.
             if !Self::newton(integrator) {
+                integrator.cache.decompose = true;
                 continue;
             }
 
-- 
2.43.0


From 0a0eab48f083f7668f9b006a5428fbfc941d18fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:13 +0000
Subject: [PATCH 14/34] fix: Radau5 recomputes an outdated Jacobian when Newton
 converges slowly

The condition was inverted with respect to every other failure path.
---
 src/radau/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 8eae3fd..371d551 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -167,7 +167,7 @@ impl Radau5 {
                         integrator.dt *= integrator.cache.dtfac;
                         integrator.cache.reject = true;
                         integrator.cache.last = false;
-                        if integrator.cache.caljac {
+                        if !integrator.cache.caljac {
                             jacobian_u(
                                 integrator.dudt,
                                 integrator.dfdu,
-- 
2.43.0


From bfd5f5be6bece8276efcd4d5ff62473706ba74d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:14 +0000
Subject: [PATCH 15/34] fix: Radau5 updates the previous state on every
 accepted step

---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 64dd753..0b872a3 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -37,6 +37,7 @@ impl Radau5 {
                 integrator.cache.dtacc = integrator.dt;
                 integrator.cache.erracc = 1e-2f64.max(integrator.cache.err);
             }
+            integrator.uprev.assign(&integrator.u);
             integrator.tprev = integrator.t;
             integrator.dtprev = integrator.dt;
             integrator.t += integrator.dt;
-- 
2.43.0


From 99863ffaee4860f8c9e927dc05f2fd1a833d80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:15 +0000
Subject: [PATCH 16/34] fix: scale the Jacobian increment with the magnitude of
 the state

For negative components the increment ignored their size, so large negative
states gave inaccurate numerical Jacobians.
---
 src/ode/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index 81ee302..e93af89 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -21,7 +21,7 @@ pub(crate) fn jacobian_u<Dudt, Dfdu, Params>(
             dudt(du0.view_mut(), u.view(), t, p);
             for i in 0..u.len() {
                 let usafe = utemp[i];
-                let del = (f64::EPSILON * usafe.max(1e-5)).sqrt();
+                let del = (f64::EPSILON * usafe.abs().max(1e-5)).sqrt();
                 utemp[i] = usafe + del;
                 dudt(du1.view_mut(), utemp.view(), t, p);
                 for j in 0..u.len() {
-- 
2.43.0


From 6e74cf3afecb8e75a0506e0f1cb76644618952c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:16 +0000
Subject: [PATCH 17/34] fix: perturb the time in the numerical time derivative

Both evaluations used the same time, so the result was always zero.
---
 src/ode/jacobian.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index e93af89..5746837 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -49,8 +49,8 @@ pub(crate) fn jacobian_t<Dudt, Dfdt, Params>(
         None => {
             let mut du = Array::zeros(u.raw_dim());
             dudt(du.view_mut(), u.view(), t, p);
-            dudt(df.view_mut(), u.view(), t, p);
-            let dt = f64::EPSILON * t.max(1e-5);
+            let dt = (f64::EPSILON * t.abs().max(1e-5)).sqrt();
+            dudt(df.view_mut(), u.view(), t + dt, p);
             df.assign(&((&df - &du) / dt));
         }
     }
-- 
2.43.0


From 9ada471aceb32c57e5e4f110798b8b1bd2264b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:17 +0000
Subject: [PATCH 18/34] fix: count Jacobian evaluations

The statistics reported zero Jacobian evaluations for every run.
---
 src/radau/dec.rs               | 1 +
 src/radau/newton.rs            | 3 +++
 src/radau/step_size_control.rs | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/radau/dec.rs b/src/radau/dec.rs
index 04569fa..10748b6 100644
--- a/src/radau/dec.rs
+++ b/src/radau/dec.rs
@@ -78,6 +78,7 @@ impl Radau5 {
                 integrator.t,
                 &integrator.params,
             );
+            integrator.stats.jacobian_evals += 1;
         }
         return false;
     }
diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 371d551..4c28ec1 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -77,6 +77,7 @@ impl Radau5 {
                         integrator.t,
                         &integrator.params,
                     );
+                    integrator.stats.jacobian_evals += 1;
                 }
                 return false;
             }
@@ -176,6 +177,7 @@ impl Radau5 {
                                 integrator.t,
                                 &integrator.params,
                             );
+                            integrator.stats.jacobian_evals += 1;
                         }
                         return false;
                     }
@@ -193,6 +195,7 @@ impl Radau5 {
                             integrator.t,
                             &integrator.params,
                         );
+                        integrator.stats.jacobian_evals += 1;
                     }
                     return false;
                 }
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 0b872a3..bad7dc1 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -117,6 +117,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         } else {
             // step is rejected
@@ -141,6 +142,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         }
     }
-- 
2.43.0


From bec679209d576915e2e542b3768a35e7badc9ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:18 +0000
Subject: [PATCH 19/34] fix: changes made by a callback take effect in the next
 step

Both algorithms reuse the derivative at the end of the last step. When a
callback changed the state or the parameters the next step started with the
derivative of the unchanged model.
---
 src/dorm_prince/dp5/algorithm.rs | 10 ++++++++++
 src/radau/algorithm.rs           | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index fcdfddd..44a6773 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -58,6 +58,16 @@ impl OdeAlgorithm for DormandPrince5 {
     where
         Self: Sized,
     {
+        // The callback may have changed the state or the parameters
+        if integrator.callback.is_some() {
+            (integrator.dudt)(
+                integrator.cache.du.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+        }
         if (integrator.t + 1.01 * integrator.dt - integrator.tfinal) * integrator.tdir > 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index c6b10f0..ed71938 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,6 +98,20 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
+        // The callback may have changed the state or the parameters
+        if integrator.callback.is_some() {
+            (integrator.dudt)(
+                integrator.cache.u0.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+            for i in 0..integrator.u.len() {
+                integrator.cache.scal[i] =
+                    integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
+            }
+        }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From f6237e896ef1ad088d4a09e7cd0b5bb96e4b5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:19 +0000
Subject: [PATCH 20/34] fix: Radau5 rejects steps whose error estimate is not a
 number

Taking the maximum with 1e-10 turned NaN into 1e-10, so the step was accepted
and NaN entered the solution.
---
 src/radau/error_estimate.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/radau/error_estimate.rs b/src/radau/error_estimate.rs
index 8b6b79d..45de144 100644
--- a/src/radau/error_estimate.rs
+++ b/src/radau/error_estimate.rs
@@ -30,7 +30,11 @@ impl Radau5 {
         for i in 0..n {
             integrator.cache.err += (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
         }
-        integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+        integrator.cache.err = (integrator.cache.err / n as f64).sqrt();
+        // A NaN must survive, so that the step is rejected
+        if integrator.cache.err < 1.0e-10 {
+            integrator.cache.err = 1.0e-10;
+        }
 
         if integrator.cache.err < 1.0 {
             return;
@@ -62,7 +66,10 @@ impl Radau5 {
                 integrator.cache.err +=
                     (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
             }
-            integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+            integrator.cache.err = (integrator.cache.err / n as f64).sqrt();
+            if integrator.cache.err < 1.0e-10 {
+                integrator.cache.err = 1.0e-10;
+            }
         }
     }
 }
-- 
2.43.0


From c735b3a131b4b9850e093e005c132fc1003e12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:20 +0000
Subject: [PATCH 21/34] fix: report singularity found in the first column of a
 matrix

The code of the elimination stage was zero for the first column, which means
success. Matrices without subdiagonals were not examined at all.
---
 src/linalg/dec.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index ce9925e..e5cf075 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -28,7 +28,7 @@ pub(crate) fn dec(n: usize, mut a: ArrayViewMut2<f64>, mut ip: ArrayViewMut1<i32
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -89,7 +89,7 @@ pub(crate) fn dech(
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -152,7 +152,7 @@ pub(crate) fn decc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -221,7 +221,7 @@ pub(crate) fn dechc(
 ) -> usize {
     let mut ier = 0;
     ip[n - 1] = 1;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         let nm1 = n - 1;
         for k in (0)..(nm1) {
             let kp1 = k + 1;
@@ -243,7 +243,7 @@ pub(crate) fn dechc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -315,7 +315,7 @@ pub(crate) fn decb(
     let md = ub + lb;
     let md1 = md + 1;
     let mut ju = 0;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         if n >= ub + 2 {
             for j in (ub + 1)..n {
                 for i in 0..lb {
@@ -341,7 +341,7 @@ pub(crate) fn decb(
                 a[[md, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -399,7 +399,7 @@ pub(crate) fn decbc(
     let md = lb + ub;
     let md1 = md + 1;
     let mut ju = 0;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         if n >= ub + 2 {
             for j in (ub + 1)..n {
                 for i in (0)..(lb) {
@@ -429,7 +429,7 @@ pub(crate) fn decbc(
                 ai[[md, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
-- 
2.43.0


From f9073cbe5e9345ec63d69eb225dd4eab9943b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:21 +0000
Subject: [PATCH 22/34] fix: complete the back substitution of solhc

---
 src/linalg/sol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index ee0eb3e..1111545 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -152,7 +152,7 @@ pub(crate) fn solhc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            for i in 0..km1 {
+            for i in 0..(km1 + 1) {
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[i] += prodr;
-- 
2.43.0


From ca88227d9d03a8a1861153cbf38449e009049e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:22 +0000
Subject: [PATCH 23/34] fix: decomposition of real banded matrices

The last subdiagonal was left out of pivoting and elimination, and the row
index of the exchange did not move with the columns.
---
 src/linalg/dec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index e5cf075..e4ef5db 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -328,7 +328,7 @@ pub(crate) fn decb(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if a[[i, k]].abs() > a[[m, k]].abs() {
                     m = i;
                 }
@@ -350,11 +350,11 @@ pub(crate) fn decb(
                 a[[i, k]] *= -t;
             }
             ju = ju.max(ub + ip[k] as usize + 1).min(n);
-            let mm = md;
+            let mut mm = md;
             if ju >= kp1 {
                 for j in kp1..ju {
                     m = m - 1;
-                    let mm = mm - 1;
+                    mm = mm - 1;
                     t = a[[m, j]];
                     if m != mm {
                         a[[m, j]] = a[[mm, j]];
@@ -362,7 +362,7 @@ pub(crate) fn decb(
                     }
                     if t != 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             a[[ijk, j]] += a[[i, k]] * t;
                         }
-- 
2.43.0


From 38184454c1ba98c5a48e53bf4bf510c1118965d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:22 +0000
Subject: [PATCH 24/34] fix: decomposition of complex banded matrices

The last subdiagonal was left out of pivoting and elimination, and the pivot
row was compared with the column instead of the diagonal row.
---
 src/linalg/dec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index e4ef5db..24106fe 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -413,7 +413,7 @@ pub(crate) fn decbc(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if ar[[i, k]].abs() + ai[[i, k]].abs() > ar[[m, k]].abs() + ai[[m, k]].abs() {
                     m = i;
                 }
@@ -421,7 +421,7 @@ pub(crate) fn decbc(
             ip[k] = (m + k - md) as i32;
             let mut tr = ar[[m, k]];
             let mut ti = ai[[m, k]];
-            if m != k {
+            if m != md {
                 ip[n - 1] = -ip[n - 1];
                 ar[[m, k]] = ar[[md, k]];
                 ai[[m, k]] = ai[[md, k]];
@@ -436,7 +436,7 @@ pub(crate) fn decbc(
             let den = tr * tr + ti * ti;
             tr = tr / den;
             ti = -ti / den;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                 let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
                 ar[[i, k]] = -prodr;
@@ -459,7 +459,7 @@ pub(crate) fn decbc(
                     if tr.abs() + ti.abs() == 0.0 {
                     } else if ti == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr;
                             let prodi = ai[[i, k]] * tr;
@@ -468,7 +468,7 @@ pub(crate) fn decbc(
                         }
                     } else if tr == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = -ai[[i, k]] * ti;
                             let prodi = ar[[i, k]] * ti;
@@ -477,7 +477,7 @@ pub(crate) fn decbc(
                         }
                     } else {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                             let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
-- 
2.43.0


From 6e58c5efb54822511b266d8967bc45429ddf4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:23 +0000
Subject: [PATCH 25/34] fix: index underflow in the real banded back
 substitution

---
 src/linalg/sol.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index 1111545..8933602 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -176,7 +176,6 @@ pub(crate) fn solb(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -196,10 +195,9 @@ pub(crate) fn solb(
             let kb = n - k - 1;
             b[kb] = b[kb] / a[[md, kb]];
             let t = -b[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 b[imd] += a[[i, kb]] * t;
             }
         }
-- 
2.43.0


From 6524e6ab384c81748f468b6b5467d2dd3242f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:24 +0000
Subject: [PATCH 26/34] fix: index underflow and scalar case of the complex
 banded solve

---
 src/linalg/sol.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index 8933602..eb39811 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -217,7 +217,6 @@ pub(crate) fn solbc(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -248,22 +247,21 @@ pub(crate) fn solbc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[imd] += prodr;
                 bi[imd] += prodi;
             }
         }
-        let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
-        let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
-        let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
-        br[0] = prodr / den;
-        bi[0] = prodi / den;
     }
+    let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
+    let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
+    let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
+    br[0] = prodr / den;
+    bi[0] = prodi / den;
 }
 
 #[cfg(test)]
-- 
2.43.0


From dd904f890bf1f61115e8e56182dad24a1eb9d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:25 +0000
Subject: [PATCH 27/34] fix: reduction to Hessenberg form

A zero below the subdiagonal ended the whole reduction, and the column update
was applied to a row.
---
 src/linalg/dec.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 24106fe..b945dfa 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -504,11 +504,11 @@ pub(crate) fn elmhes(
     mut a: ArrayViewMut2<f64>,
     mut inter: ArrayViewMut1<i32>,
 ) {
-    let la = igh - 2;
-    let kp1 = low + 1;
-    if la < kp1 {
+    if igh < low + 3 {
         return;
     }
+    let la = igh - 2;
+    let kp1 = low + 1;
     for m in kp1..(la + 1) {
         let mm1 = m - 1;
         let mut x: f64 = 0.0;
@@ -538,7 +538,7 @@ pub(crate) fn elmhes(
             for i in mp1..igh {
                 let mut y = a[[i, mm1]];
                 if y == 0.0 {
-                    return;
+                    continue;
                 }
                 y = y / x;
                 a[[i, mm1]] = y;
@@ -546,7 +546,7 @@ pub(crate) fn elmhes(
                     a[[i, j]] -= y * a[[m, j]];
                 }
                 for j in 0..igh {
-                    a[[i, m]] += y * a[[j, i]];
+                    a[[j, m]] += y * a[[j, i]];
                 }
             }
         }
-- 
2.43.0


From dacdf70a4ffa67f0cd9ae4589cedcbe92c4520d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:26 +0000
Subject: [PATCH 28/34] fix: Radau5 dense output polynomial

The quadratic term carried an extra factor of the normalised time.
---
 src/radau/continuous_output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/continuous_output.rs b/src/radau/continuous_output.rs
index 59d5565..38c4771 100644
--- a/src/radau/continuous_output.rs
+++ b/src/radau/continuous_output.rs
@@ -21,7 +21,7 @@ impl Radau5 {
         let mut res: Array1<f64> = Array1::<f64>::zeros(n);
 
         res.assign(&((s - c1m1) * &integrator.cache.cont.slice(s![(3 * n)..])));
-        res = (s - c2m1) * (res + s * &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
+        res = (s - c2m1) * (res + &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
         res = s * (res + &integrator.cache.cont.slice(s![n..2 * n]));
         res + &integrator.cache.cont.slice(s![0..n])
     }
-- 
2.43.0


From 9a5e440e3fa1440abe5984f842b345d377d3134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:17:49 +0000
Subject: [PATCH 29/34] fix: refresh the Radau Jacobian when a callback changed
 the model

The Jacobian and the Newton convergence rate measured with it were kept
after a callback changed the state or the parameters. A single badly
converged Newton sweep could then be accepted.
---
 src/radau/algorithm.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index ed71938..b080789 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -100,6 +100,7 @@ impl OdeAlgorithm for Radau5 {
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
         // The callback may have changed the state or the parameters
         if integrator.callback.is_some() {
+            let u0 = integrator.cache.u0.clone();
             (integrator.dudt)(
                 integrator.cache.u0.view_mut(),
                 integrator.u.view(),
@@ -111,6 +112,20 @@ impl OdeAlgorithm for Radau5 {
                 integrator.cache.scal[i] =
                     integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
             }
+            // The Jacobian and the convergence rate seen with it are no longer valid
+            if integrator.cache.u0 != u0 {
+                jacobian_u(
+                    integrator.dudt,
+                    integrator.dfdu,
+                    integrator.cache.dfdu.view_mut(),
+                    integrator.u.view(),
+                    integrator.t,
+                    &integrator.params,
+                );
+                integrator.stats.jacobian_evals += 1;
+                integrator.cache.decompose = true;
+                integrator.cache.faccon = 1.0;
+            }
         }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
-- 
2.43.0


From cc0837144976a65a2a8f8549151daddd483ae3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:30:22 +0000
Subject: [PATCH 30/34] fix: end the explicit retries when the step size
 underflows at t = 0

The smallest subnormal number times a ratio above one half rounds to itself,
so a failing model at t = 0 was retried forever. Use the same test as the
implicit solver.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 44a6773..542827b 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -75,7 +75,7 @@ impl OdeAlgorithm for DormandPrince5 {
         loop {
             // The step size must be large enough to advance the time
             if !integrator.cache.last
-                && integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON
+                && 0.1 * integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON
             {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
                 return;
-- 
2.43.0


From 18d9cf24178978f2e58eec45353dd8b6b6e5f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:34 +0000
Subject: [PATCH 31/34] Expose internals to external monitors under
 cfg(verif_hooks)

Nothing changes unless the crate is built with --cfg verif_hooks.
---
 src/dorm_prince/dp5/dense.rs |   9 +++
 src/lib.rs                   |   3 +
 src/verif_hooks.rs           | 143 +++++++++++++++++++++++++++++++++++
 3 files changed, 155 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/dorm_prince/dp5/dense.rs b/src/dorm_prince/dp5/dense.rs
index f3e4ee2..cb76bff 100644
--- a/src/dorm_prince/dp5/dense.rs
+++ b/src/dorm_prince/dp5/dense.rs
@@ -48,4 +48,13 @@ impl DormandPrince5 {
                             + &(s
                                 * (&integrator.cache.rcont4 + &(s1 * &integrator.cache.rcont5)))))))
     }
+    /// Compute the dense output for the solution vector, for external monitors.
+    #[cfg(verif_hooks)]
+    pub(crate) fn verif_dense_output<Params>(
+        integrator: &mut OdeIntegrator<Params, DormandPrince5>,
+        t: f64,
+        dt: f64,
+    ) -> Array1<f64> {
+        DormandPrince5::dense_output(integrator, t, dt)
+    }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 4d63955..063e841 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,9 @@
+#![allow(unexpected_cfgs)]
 pub mod dorm_prince;
 pub(crate) mod linalg;
 pub mod ode;
 pub mod prelude;
 pub mod radau;
 pub mod rodas;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..504e66f
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,143 @@
+//! Access to internals for external monitors, compiled only with `--cfg verif_hooks`.
+
+use crate::dorm_prince::dp5::DormandPrince5;
+use crate::ode::OdeIntegrator;
+use crate::radau::Radau5;
+use ndarray::prelude::*;
+
+type Rhs<'a, P> = &'a dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &P);
+type Jac<'a, P> = &'a dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &P);
+
+pub fn jacobian_u<P>(
+    dudt: Rhs<P>,
+    dfdu: Option<Jac<P>>,
+    df: ArrayViewMut2<f64>,
+    u: ArrayView1<f64>,
+    t: f64,
+    p: &P,
+) {
+    crate::ode::jacobian::jacobian_u(dudt, dfdu, df, u, t, p)
+}
+
+pub fn jacobian_t<P>(
+    dudt: Rhs<P>,
+    dfdt: Option<Rhs<P>>,
+    df: ArrayViewMut1<f64>,
+    u: ArrayView1<f64>,
+    t: f64,
+    p: &P,
+) {
+    crate::ode::jacobian::jacobian_t(dudt, dfdt, df, u, t, p)
+}
+
+/// Interpolated state inside the last accepted step.
+pub fn dense_dp5<P>(integrator: &mut OdeIntegrator<P, DormandPrince5>, t: f64) -> Array1<f64> {
+    let dt = integrator.dtprev;
+    DormandPrince5::verif_dense_output(integrator, t, dt)
+}
+
+/// Interpolated state inside the last accepted step.
+pub fn dense_radau<P>(integrator: &mut OdeIntegrator<P, Radau5>, t: f64) -> Array1<f64> {
+    Radau5.dense_output(t, integrator)
+}
+
+pub fn dec(n: usize, a: ArrayViewMut2<f64>, ip: ArrayViewMut1<i32>) -> usize {
+    crate::linalg::dec::dec(n, a, ip)
+}
+pub fn dech(n: usize, a: ArrayViewMut2<f64>, lb: usize, ip: ArrayViewMut1<i32>) -> usize {
+    crate::linalg::dec::dech(n, a, lb, ip)
+}
+pub fn decc(
+    n: usize,
+    ar: ArrayViewMut2<f64>,
+    ai: ArrayViewMut2<f64>,
+    ip: ArrayViewMut1<i32>,
+) -> usize {
+    crate::linalg::dec::decc(n, ar, ai, ip)
+}
+pub fn dechc(
+    n: usize,
+    ar: ArrayViewMut2<f64>,
+    ai: ArrayViewMut2<f64>,
+    lb: usize,
+    ip: ArrayViewMut1<i32>,
+) -> usize {
+    crate::linalg::dec::dechc(n, ar, ai, lb, ip)
+}
+pub fn decb(
+    n: usize,
+    a: ArrayViewMut2<f64>,
+    lb: usize,
+    ub: usize,
+    ip: ArrayViewMut1<i32>,
+) -> usize {
+    crate::linalg::dec::decb(n, a, lb, ub, ip)
+}
+pub fn decbc(
+    n: usize,
+    ar: ArrayViewMut2<f64>,
+    ai: ArrayViewMut2<f64>,
+    lb: usize,
+    ub: usize,
+    ip: ArrayViewMut1<i32>,
+) -> usize {
+    crate::linalg::dec::decbc(n, ar, ai, lb, ub, ip)
+}
+pub fn elmhes(
+    n: usize,
+    low: usize,
+    igh: usize,
+    a: ArrayViewMut2<f64>,
+    inter: ArrayViewMut1<i32>,
+) {
+    crate::linalg::dec::elmhes(n, low, igh, a, inter)
+}
+pub fn sol(n: usize, a: ArrayView2<f64>, b: ArrayViewMut1<f64>, ip: ArrayView1<i32>) {
+    crate::linalg::sol::sol(n, a, b, ip)
+}
+pub fn solh(n: usize, a: ArrayView2<f64>, lb: usize, b: ArrayViewMut1<f64>, ip: ArrayView1<i32>) {
+    crate::linalg::sol::solh(n, a, lb, b, ip)
+}
+pub fn solc(
+    n: usize,
+    ar: ArrayView2<f64>,
+    ai: ArrayView2<f64>,
+    br: ArrayViewMut1<f64>,
+    bi: ArrayViewMut1<f64>,
+    ip: ArrayView1<i32>,
+) {
+    crate::linalg::sol::solc(n, ar, ai, br, bi, ip)
+}
+pub fn solhc(
+    n: usize,
+    ar: ArrayView2<f64>,
+    ai: ArrayView2<f64>,
+    lb: usize,
+    br: ArrayViewMut1<f64>,
+    bi: ArrayViewMut1<f64>,
+    ip: ArrayView1<i32>,
+) {
+    crate::linalg::sol::solhc(n, ar, ai, lb, br, bi, ip)
+}
+pub fn solb(
+    n: usize,
+    a: ArrayView2<f64>,
+    lb: usize,
+    ub: usize,
+    b: ArrayViewMut1<f64>,
+    ip: ArrayView1<i32>,
+) {
+    crate::linalg::sol::solb(n, a, lb, ub, b, ip)
+}
+pub fn solbc(
+    n: usize,
+    ar: ArrayView2<f64>,
+    ai: ArrayView2<f64>,
+    lb: usize,
+    ub: usize,
+    br: ArrayViewMut1<f64>,
+    bi: ArrayViewMut1<f64>,
+    ip: ArrayView1<i32>,
+) {
+    crate::linalg::sol::solbc(n, ar, ai, lb, ub, br, bi, ip)
+}
-- 
2.43.0


From ab63ca10c3a086d0010332a12da658bdab7e2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:04:19 +0000
Subject: [PATCH 32/34] fix: decompose the Newton matrices again when dt was
 changed between Radau steps

---
 src/radau/algorithm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index b080789..7f8db54 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -127,6 +127,10 @@ impl OdeAlgorithm for Radau5 {
                 integrator.cache.faccon = 1.0;
             }
         }
+        // The step size may have been changed since the matrices were decomposed
+        if integrator.cache.fac1 != Radau5::U1 / integrator.dt {
+            integrator.cache.decompose = true;
+        }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From 167dd722c4d7f7cb978bebb8b1e9738b8a77c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:04:19 +0000
Subject: [PATCH 33/34] fix: decide anew whether a Radau step is the last one
 after dt or tfinal was changed

---
 src/radau/algorithm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 7f8db54..182ab2a 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -131,6 +131,8 @@ impl OdeAlgorithm for Radau5 {
         if integrator.cache.fac1 != Radau5::U1 / integrator.dt {
             integrator.cache.decompose = true;
         }
+        // The step size or the final time may have been changed since the last step
+        integrator.cache.last = false;
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From ba6dd9690eeae98a5ff25638159fd9c0958366e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:04:19 +0000
Subject: [PATCH 34/34] fix: use the tolerances and controller options in force
 in every Radau step

---
 src/radau/algorithm.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 182ab2a..e267337 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -108,10 +108,6 @@ impl OdeAlgorithm for Radau5 {
                 &integrator.params,
             );
             integrator.stats.function_evals += 1;
-            for i in 0..integrator.u.len() {
-                integrator.cache.scal[i] =
-                    integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
-            }
             // The Jacobian and the convergence rate seen with it are no longer valid
             if integrator.cache.u0 != u0 {
                 jacobian_u(
@@ -127,6 +123,13 @@ impl OdeAlgorithm for Radau5 {
                 integrator.cache.faccon = 1.0;
             }
         }
+        // The options may have been changed since the last step
+        for i in 0..integrator.u.len() {
+            integrator.cache.scal[i] =
+                integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
+        }
+        integrator.cache.cfac =
+            integrator.opts.safe * (1 + 2 * integrator.opts.max_newt_iter) as f64;
         // The step size may have been changed since the matrices were decomposed
         if integrator.cache.fac1 != Radau5::U1 / integrator.dt {
             integrator.cache.decompose = true;
-- 
2.43.0

