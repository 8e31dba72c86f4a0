From 53682f2ceacf5843b1d52373700a43d5ca297f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 01/49] fix: keep evaluated points and the solution exactly
 within the user's bounds

---
 dfols/model.py  | 10 ++++++++--
 dfols/solver.py |  2 +-
 dfols/util.py   |  9 ++++++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index e10c5e0..9d5cb13 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -68,6 +68,8 @@ class Model(object):
         # Initialise to blank some useful stuff
         # Interpolation points
         self.xbase = x0.copy()
+        self.xl = xl.copy()  # true bounds (needed because xbase + sl can differ from xl by rounding errors)
+        self.xu = xu.copy()
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
         self.projections = projections
@@ -141,7 +143,7 @@ class Model(object):
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
                 return dykstra(self.projections, self.xbase + self.points[k,:])
-            return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
+            return self.within_true_bounds(self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su))
 
     def rvec(self, k):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
@@ -155,7 +157,11 @@ class Model(object):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
             return dykstra(self.projections, self.xbase + x)
-        return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        return self.within_true_bounds(self.xbase + np.minimum(np.maximum(self.sl, x), self.su))
+
+    def within_true_bounds(self, xabs):
+        # Remove any rounding errors from adding xbase, so that xl <= xabs <= xu holds exactly
+        return np.minimum(np.maximum(self.xl, xabs), self.xu)
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
diff --git a/dfols/solver.py b/dfols/solver.py
index f61d7da..f46d769 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1002,7 +1002,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_within_bounds:
         shift = xl.copy()
         scale = xu - xl
-        scaling_changes = (shift, scale)
+        scaling_changes = (shift, scale, xu.copy())
 
     x0 = apply_scaling(x0, scaling_changes)
     xl = apply_scaling(xl, scaling_changes)
diff --git a/dfols/util.py b/dfols/util.py
index ad51e6c..3466b7f 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -212,15 +212,18 @@ def random_directions_within_bounds(num_pts, delta, lower, upper):
 def apply_scaling(x_raw, scaling_changes):
     if scaling_changes is None:
         return x_raw
-    shift, scale = scaling_changes
+    shift, scale = scaling_changes[:2]
     return (x_raw - shift) / scale
 
 
 def remove_scaling(x_scaled, scaling_changes):
     if scaling_changes is None:
         return x_scaled
-    shift, scale = scaling_changes
-    return shift + x_scaled * scale
+    shift, scale = scaling_changes[:2]
+    x_raw = shift + x_scaled * scale
+    if len(scaling_changes) > 2:  # have upper bounds too: avoid overshooting them from rounding errors in shift + scale
+        x_raw = np.minimum(x_raw, scaling_changes[2])
+    return x_raw
 
 
 def dykstra(P,x0,max_iter=100,tol=1e-10):
-- 
2.43.0


From dc9e97cce21a6debcf7f3a92b2b5321a08736cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 02/49] fix: always start from the projection of x0, even when
 x0 is only slightly infeasible

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f46d769..cbf3adb 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1094,7 +1094,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xp = dykstra(projections,x0,max_iter=params("dykstra.max_iters"),tol=params("dykstra.d_tol"))
         if not np.allclose(xp,x0):
             warnings.warn("x0 not feasible w.r.t given constraints, adjusting", RuntimeWarning)
-            x0 = xp.copy()
+        x0 = xp.copy()  # always use projected point, so feasibility/bounds hold even if x0 only slightly infeasible
 
     # Enforce lower & upper bounds on x0
     idx = (x0 < xl)
-- 
2.43.0


From 0cd8759e9d7479c4768fc05d8712bc6c24a9110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 03/49] fix: use the user's Dykstra tolerance and iteration
 limit when projecting evaluation points

---
 dfols/controller.py | 3 ++-
 dfols/model.py      | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4fee084..1355719 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -112,7 +112,8 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes,
+                           dykstra_max_iters=params("dykstra.max_iters"), dykstra_tol=params("dykstra.d_tol"))
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index 9d5cb13..4d22bcd 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None):
+                 do_logging=True, scaling_changes=None, dykstra_max_iters=100, dykstra_tol=1e-10):
         if n is None:
             n = len(x0)
         if m is None:
@@ -73,6 +73,8 @@ class Model(object):
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
         self.projections = projections
+        self.dykstra_max_iters = dykstra_max_iters
+        self.dykstra_tol = dykstra_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
         # Function values
@@ -142,7 +144,7 @@ class Model(object):
         else:
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:])
+                return dykstra(self.projections, self.xbase + self.points[k,:], max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
             return self.within_true_bounds(self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su))
 
     def rvec(self, k):
@@ -156,7 +158,7 @@ class Model(object):
     def as_absolute_coordinates(self, x, full_dykstra=False):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
-            return dykstra(self.projections, self.xbase + x)
+            return dykstra(self.projections, self.xbase + x, max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
         return self.within_true_bounds(self.xbase + np.minimum(np.maximum(self.sl, x), self.su))
 
     def within_true_bounds(self, xabs):
-- 
2.43.0


From 3b6389176625cedb1893d40d49683e76a60393d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 04/49] fix: do not generate NaN points when growing a point
 set that already spans the whole space

---
 dfols/controller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 1355719..399ae33 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -427,7 +427,8 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        num_ortho = Q.shape[1] if Q.shape[1] < self.n() else 0  # no orthogonal direction exists if Y spans whole space
+        for k in range(num_ortho):
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
                 dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
@@ -468,7 +469,8 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        num_ortho = Q.shape[1] if Q.shape[1] < self.n() else 0  # no orthogonal direction exists if Y spans whole space
+        for k in range(num_ortho):
             qk = Q[:, k]
             dirn = dirn - np.dot(dirn, qk) * qk
 
-- 
2.43.0


From eb0142ab0f45ea61ec3f1b8d375447901a26255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 05/49] fix: count the run only once when the budget is reached
 while sampling x0

---
 dfols/solver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index cbf3adb..539cf74 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -176,7 +176,6 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         for i in range(1, number_of_samples):  # skip first eval - already did this
             if nf >= maxfun:
                 exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
-                nruns_so_far += 1
                 break  # stop evaluating at x0
 
             nf += 1
-- 
2.43.0


From 9c47c602c192eda46ecb41519e58a5930998f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 06/49] fix: save the incumbent's own sample count and
 evaluation number before a soft restart

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 399ae33..9e972cf 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -804,8 +804,8 @@ class Controller(object):
             assert rvec_to_save is not None, "Soft restart: specified x_to_save but not rvec_to_save"
             assert nsamples_to_save is not None, "Soft restart: specified x_to_save but not nsamples_to_save"
             self.model.save_point(x_in_abs_coords_to_save, rvec_to_save, nsamples_to_save, self.nx, x_in_abs_coords=True)
-        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.nx,
-                              self.model.nsamples[self.model.kopt], x_in_abs_coords=True)
+        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],
+                              self.model.eval_num[self.model.kopt], x_in_abs_coords=True)
 
         if self.do_logging:
             module_logger.info("Soft restart [currently, f = %g after %g function evals]" % (self.model.objopt(), self.nf))
-- 
2.43.0


From 861245a8eac16fbc576cf10f6c7047d7ea94064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 07/49] fix: report the evaluation number and the regularised
 objective of the starting point when stopping there

---
 dfols/solver.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 539cf74..e3d791d 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -188,17 +188,15 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
-        if h is None:
-            if sumsq(r0_avg) <= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
-        else:
-            if sumsq(r0_avg) + h(remove_scaling(x0, scaling_changes), *argsh)<= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
+        obj0_avg = sumsq(r0_avg)
+        if h is not None:
+            obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
+        if obj0_avg <= params("model.abs_tol"):
+            exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            xmin_eval_num = 0
-            jacmin_eval_nums = np.array([0], dtype=int)
-            return x0, r0_avg, sumsq(r0_avg), None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            # Starting point was evaluation point nx, and there is no Jacobian yet
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
-- 
2.43.0


From b56b27f6ba3ec39c86774569f25c957160314014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 08/49] fix: label the first point of a hard restart with its
 true evaluation number

---
 dfols/controller.py |  5 +++--
 dfols/model.py      |  5 +++--
 dfols/solver.py     | 12 ++++++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 9e972cf..502d963 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -101,7 +101,7 @@ class ExitInformation(object):
 
 class Controller(object):
     def __init__(self, objfun, argsf, x0, r0, r0_nsamples, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun, params,
-                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = ()):
+                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = (), r0_eval_num=1):
         self.do_logging = do_logging
         self.objfun = objfun
         self.h = h
@@ -113,7 +113,8 @@ class Controller(object):
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
                            abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes,
-                           dykstra_max_iters=params("dykstra.max_iters"), dykstra_tol=params("dykstra.d_tol"))
+                           dykstra_max_iters=params("dykstra.max_iters"), dykstra_tol=params("dykstra.d_tol"),
+                           r0_eval_num=r0_eval_num)
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index 4d22bcd..ffb72df 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,8 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None, dykstra_max_iters=100, dykstra_tol=1e-10):
+                 do_logging=True, scaling_changes=None, dykstra_max_iters=100, dykstra_tol=1e-10,
+                 r0_eval_num=1):
         if n is None:
             n = len(x0)
         if m is None:
@@ -90,7 +91,7 @@ class Model(object):
         self.nsamples[0] = r0_nsamples
         self.objbeg = self.objval[0]  # f(x0), saved to check for sufficient reduction
         self.eval_num = np.zeros((npt,), dtype=int)  # which evaluation number (1-indexed, nx not nf) is currently stored self.points[k,:]
-        self.eval_num[0] = 1
+        self.eval_num[0] = r0_eval_num
 
         # Termination criteria
         self.abs_tol = abs_tol
diff --git a/dfols/solver.py b/dfols/solver.py
index e3d791d..150cfd6 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -150,7 +150,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -187,6 +187,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             num_samples_run += 1
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
+        r0_eval_num = nx
         # NOTE: modify objvalue here
         obj0_avg = sumsq(r0_avg)
         if h is not None:
@@ -195,14 +196,15 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            # Starting point was evaluation point nx, and there is no Jacobian yet
-            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
+            # No Jacobian built yet
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, r0_eval_num, None
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
         # m = len(r0_avg_old)
         r0_avg = r0_avg_old
         num_samples_run = r0_nsamples_old
+        r0_eval_num = r0_eval_num_old
         nf = nf_so_far
         nx = nx_so_far
     
@@ -220,7 +222,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
     # Initialise controller
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
-                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
+                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox,
+                         r0_eval_num=r0_eval_num)
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1131,6 +1134,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
                             diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min,
+                           r0_eval_num_old=xmin_eval_num,
                            do_logging=do_logging, print_progress=print_progress)
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
-- 
2.43.0


From 6a08d4168b9a9da5e40dedeb7ff3b1899a0d30a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 09/49] fix: keep all points and their evaluation numbers when
 initialising in parallel

---
 dfols/controller.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 502d963..8490f6e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -270,21 +270,25 @@ class Controller(object):
                 
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
             
             # Evaluations done, now add to the model
             for k in range(1, num_directions + 1):
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[k-1]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[k-1]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
-                                              x_in_abs_coords=True)
+                    # Save this point and all the others which have already been evaluated
+                    for k2 in range(k, num_directions + 1):
+                        x = self.model.as_absolute_coordinates(xpts_added[k2, :])
+                        rvec_list, obj_list, num_samples_run, _, eval_num = eval_obj_results[k2-1]
+                        if num_samples_run > 0:
+                            self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run,
+                                                  eval_num, x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k, rvec_extra=rvec_list[i, :])
         else:
@@ -376,22 +380,26 @@ class Controller(object):
 
                 # Evaluate objective
                 x = self.model.as_absolute_coordinates(new_point)
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
 
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
                 x = self.model.as_absolute_coordinates(new_point)
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[ndirns]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[ndirns]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
-                                              x_in_abs_coords=True)
+                    # Save this point and all the others which have already been evaluated
+                    for ndirns2 in range(ndirns, num_directions):
+                        x = self.model.as_absolute_coordinates(xopt + dirns[ndirns2, :])
+                        rvec_list, obj_list, num_samples_run, _, eval_num = eval_obj_results[ndirns2]
+                        if num_samples_run > 0:
+                            self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run,
+                                                  eval_num, x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], self.nx)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
         else:
-- 
2.43.0


From 234e5d1989fc14632f6050d68b9b9de32c1a9f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 10/49] fix: solve the regularised subproblem over the true
 bounds, not the bounds relative to the base point

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 8490f6e..cb53df7 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -506,7 +506,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.sl, self.model.su)
+            proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # subproblem uses absolute coordinates
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -553,7 +553,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.sl, self.model.su)
+                proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # subproblem uses absolute coordinates
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
-- 
2.43.0


From 8b1330636033d1437ec36af3c1155cea921f02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 11/49] fix: accept extra arguments for the proximal operator

---
 dfols/trust_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e9159ad..e7327ee 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -143,7 +143,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         prev_d = d.copy()
         prev_t = t
         # gradient_Fu at y
-        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # main update step
         d = proj(y - g_Fu / l)
@@ -154,7 +154,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
 
         # update true gradient
         # gnew is the gradient of the smoothed function
-        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # update CRVMIN
         crv = d.dot(H).dot(d)/sumsq(d) if sumsq(d) >= ZERO_THRESH else crvmin
-- 
2.43.0


From 6752d7b180a2fd9643aeda224b1260a74d39eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 12/49] fix: evaluate the regulariser at the (feasible) point
 which was actually evaluated

---
 dfols/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index ffb72df..398a474 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -200,7 +200,7 @@ class Model(object):
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -229,7 +229,7 @@ class Model(object):
         # NOTE: how to sample when we have h? still at xpt(k), then add h(xpt(k)). Modify test if incorrect!
         self.objval[k] = sumsq(self.fval_v[k, :])
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(self.points[k, :]), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
         self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
@@ -240,7 +240,7 @@ class Model(object):
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-- 
2.43.0


From 0377dd592448a519f40a162511e47188bb4f4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 13/49] fix: save the trial point when quitting after it has
 been evaluated

---
 dfols/controller.py | 2 ++
 dfols/solver.py     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index cb53df7..0f8533e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -461,6 +461,8 @@ class Controller(object):
                 kmin, linalg_error = self.choose_point_to_replace(xnew - self.model.xopt(), skip_kopt=True)
 
                 if linalg_error:
+                    self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                                          x_in_abs_coords=True)
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
                     return exit_info  # return & quit
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 150cfd6..d4669b0 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -613,6 +613,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # Estimate f in order to compute 'actual reduction'
             ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
+                # Not adding the new point to the model, so save it in case it is the best so far
+                control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                         x_in_abs_coords=True)
                 if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                         "restarts.use_soft_restarts"):
                     number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
@@ -667,6 +670,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # Re-select knew, allowing knew=kopt this time
                 knew, exit_info = control.choose_point_to_replace(d, skip_kopt=False)
                 if exit_info is not None:
+                    # Not adding the new point to the model, so save it in case it is the best so far
+                    control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                             x_in_abs_coords=True)
                     if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                             "restarts.use_soft_restarts"):
                         number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
-- 
2.43.0


From a5dc09ced853fcc733a23ba87c85e3598c3cab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 14/49] fix: do not accept a worse point when the predicted
 reduction is exactly zero

---
 dfols/controller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 0f8533e..2679b25 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -766,7 +766,11 @@ class Controller(object):
                 exit_info = ExitInformation(EXIT_TR_INCREASE_WARNING, "Either multiple constraints are active or trust region step gave model increase")
             else:
                 exit_info = ExitInformation(EXIT_TR_INCREASE_ERROR, "Trust region step gave model increase")
-        ratio = actual_reduction / pred_reduction
+        if pred_reduction == 0.0:
+            # Avoid dividing by +/-0, where the sign of the ratio would not tell us if we decreased the objective
+            ratio = 1.0 if actual_reduction > 0.0 else -1.0
+        else:
+            ratio = actual_reduction / pred_reduction
         return ratio, exit_info
 
     def terminate_from_slow_iterations(self, current_iter, params):
-- 
2.43.0


From 36730c1165aee68b995b1700dd20979eb1d1138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 15/49] fix: compare regularised objectives at the point which
 was actually evaluated

---
 dfols/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 2679b25..5ef1358 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -753,8 +753,9 @@ class Controller(object):
         # pred_reduction = - calculate_model_value(gopt, H, d)
         pred_reduction = - model_value(gopt, H, d)
         if self.h is not None:
-            # QUESTION: x+d here correct? rvec_list takes mean value
-            obj += self.h(remove_scaling(x+d, self.scaling_changes), *self.argsh) 
+            # rvec_list takes mean value; use the point where this was evaluated (x+d may be infeasible when growing)
+            xnew = self.model.as_absolute_coordinates(x + d - self.model.xbase)
+            obj += self.h(remove_scaling(xnew, self.scaling_changes), *self.argsh)
             # since m(0) = h(x)
             pred_reduction = self.h(remove_scaling(x, self.scaling_changes), *self.argsh) - model_value(gopt, H, d, x, self.h, self.argsh, self.scaling_changes)
         actual_reduction = self.model.objopt() - obj
-- 
2.43.0


From 8185b25adb64a8d73991af1e18996c3abac86876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 16/49] fix: do not normalise zero-length directions when
 growing next to a bound

---
 dfols/controller.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 5ef1358..a737f39 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -441,6 +441,9 @@ class Controller(object):
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
                 dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
+        for j in range(dirns.shape[0]):
+            if LA.norm(dirns[j, :]) <= 1e-15 * step_length:  # nothing left (e.g. shortened for a very close bound)
+                dirns[j, :] = np.random.normal(size=(self.n(),))
 
         # Evaluate the points
         for j in range(num_steps):
@@ -484,6 +487,8 @@ class Controller(object):
         for k in range(num_ortho):
             qk = Q[:, k]
             dirn = dirn - np.dot(dirn, qk) * qk
+        if LA.norm(dirn) <= 1e-15 * step_length:  # nothing left (e.g. shortened for a very close bound)
+            dirn = np.random.normal(size=(self.n(),))
 
         return dirn * (step_length / LA.norm(dirn))
 
-- 
2.43.0


From 455cc4b22f8a7b9dd81050088b88dea0d36ff581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 17/49] fix: use the rescaled rhoend when reducing rho after a
 soft restart

---
 dfols/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index a737f39..f1acc43 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -889,6 +889,7 @@ class Controller(object):
                 module_logger.info("Soft restart: added %g new directions, npt is now %g" % (num_pts_to_add, self.model.npt()))
 
         # Otherwise, we are doing a restart
+        self.rhoend = params("restarts.rhoend_scale") * self.rhoend  # same update as in main loop
         self.last_successful_iter = 0
         return None  # exit_info = None
 
-- 
2.43.0


From 057ae792b8638a53ecd33b8fdb523fd410f7ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 18/49] fix: never reduce rho below rhoend

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index f1acc43..53bb1f2 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -744,7 +744,7 @@ class Controller(object):
         elif ratio <= 250.0:
             new_rho = sqrt(ratio) * self.rhoend  # geometric average of rho and rhoend
         else:
-            new_rho = alpha1 * self.rho
+            new_rho = max(alpha1 * self.rho, self.rhoend)  # never go below rhoend (e.g. if alpha1 very small)
 
         self.delta = max(alpha2 * self.rho, new_rho)  # self.rho = old rho
         self.rho = new_rho
-- 
2.43.0


From c30d12eae31fd82382e02f46a3d0e6739253f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 19/49] fix: allow soft restarts before the initial
 interpolation set is complete

---
 dfols/controller.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 53bb1f2..db88c6c 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -845,12 +845,10 @@ class Controller(object):
         closest_points = np.argsort(all_sq_dist)
         if params("restarts.soft.move_xk"):
             closest_points = closest_points[:params("restarts.soft.num_geom_steps")]
-            upper_limit = self.model.num_pts
         else:
             closest_points = closest_points[1:params("restarts.soft.num_geom_steps")+1]
-            upper_limit = self.model.num_pts - 1
 
-        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit)):
+        for i in range(len(closest_points)):  # may be fewer than num_geom_steps (e.g. if still growing)
             # Determine which point to update (knew)
             knew = closest_points[i]
 
@@ -860,8 +858,8 @@ class Controller(object):
             if exit_info is not None:
                 return exit_info
 
-        # Now increase npt, if required
-        if params("restarts.increase_npt") and self.model.npt() < params("restarts.max_npt"):
+        # Now increase npt, if required (can only append new points if all existing ones have been initialised)
+        if params("restarts.increase_npt") and self.model.num_pts <= self.model.npt() < params("restarts.max_npt"):
             num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.npt())
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
-- 
2.43.0


From f6cf033c361ed73f66211c9bfd3ce252bab33203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 20/49] fix: measure distances between feasible points, so that
 the incumbent is never its own furthest point

---
 dfols/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index 398a474..8601182 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -185,7 +185,7 @@ class Model(object):
         sq_distances = np.zeros((self.npt(),))
         xopt = self.xopt()
         for k in range(self.npt()):
-            sq_distances[k] = sumsq(self.points[k, :] - xopt)
+            sq_distances[k] = sumsq(self.xpt(k) - xopt)
         return sq_distances
 
     def change_point(self, k, x, rvec, eval_num, allow_kopt_update=True):
-- 
2.43.0


From f398caa7449bcb5a8210ea54ae01a5ce463bc742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 21/49] fix: keep the trust-region radius positive and bounded
 when the criticality measure is very small or negative

---
 dfols/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index d4669b0..dedd915 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -346,6 +346,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # In some instances, gopt can have nan/inf values -- this ultimately calls a safety step and is generally fine
                 # but we need to set a value for tau nonetheless
                 tau = 1.0
+            if not tau > 0.0:  # S-FISTA is inexact, so criticality measure may be <= 0 (need delta > 0 after dividing by tau)
+                tau = 1.0
         
         if do_logging:
             module_logger.debug("Trust region step is d = " + str(d))
@@ -647,6 +649,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                     control.delta = min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau
                 else:
                     control.delta = min(params("growing.gamma_dec") * control.delta, dnorm) / tau  # different gamma_dec
+                control.delta = min(control.delta, 1.0e10)  # same upper bound as for successful steps
                 if params("logging.save_diagnostic_info"):
                     diagnostic_info.update_iter_type(ITER_ACCEPTABLE_NO_GEOM if ratio > 0.0
                                                      else ITER_UNSUCCESSFUL_NO_GEOM)  # we flag geom update below
-- 
2.43.0


From fbf9d3e127389f260bd2883d8351cea07a2f1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 22/49] fix: report a singular interpolation system, not
 ZeroDivisionError, when all points coincide

---
 dfols/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index 8601182..8cbd25e 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -305,6 +305,8 @@ class Model(object):
         W = np.zeros((self.npt(), self.n()+1))
         if self.precondition:
             approx_delta = sqrt(np.max(self.distances_to_xopt()))  # largest distance to xopt ~ delta
+            if approx_delta == 0.0:
+                approx_delta = 1.0  # all points identical, get singular system below (rather than dividing by zero)
         else:
             approx_delta = 1.0
 
-- 
2.43.0


From 978f7257851b26c771faa5f17614838cd5e51021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 23/49] fix: never let NaN objective values displace finite
 ones in the model bookkeeping

---
 dfols/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index 8cbd25e..bb2f211 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -205,7 +205,7 @@ class Model(object):
         self.eval_num[k] = eval_num
         self.factorisation_current = False
 
-        if allow_kopt_update and self.objval[k] < self.objopt():
+        if allow_kopt_update and (self.objval[k] < self.objopt() or np.isnan(self.objopt())):
             self.kopt = k
         return
 
@@ -232,7 +232,8 @@ class Model(object):
             self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(self.points[k, :]), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
-        self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        if not np.all(np.isnan(self.objval[:self.npt()])):
+            self.kopt = np.nanargmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
         return
 
     def add_new_point(self, x, rvec, eval_num):
@@ -247,7 +248,7 @@ class Model(object):
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-        if obj < self.objopt():
+        if obj < self.objopt() or np.isnan(self.objopt()):
             self.kopt = self.npt() - 1
 
         self.factorisation_current = False
@@ -271,7 +272,7 @@ class Model(object):
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        if self.objsave is None or obj <= self.objsave:
+        if self.objsave is None or obj <= self.objsave or np.isnan(self.objsave):
             self.xsave = xabs
             self.rsave = rvec.copy()
             self.objsave = obj
@@ -285,7 +286,7 @@ class Model(object):
 
     def get_final_results(self):
         # Return x and objval for optimal point (either from xsave+objsave or kopt)
-        if self.objsave is None or self.objopt() <= self.objsave:  # optimal has changed since xsave+objsave were last set
+        if self.objsave is None or self.objopt() <= self.objsave or np.isnan(self.objsave):  # optimal has changed since xsave+objsave were last set
             return self.xopt(abs_coordinates=True).copy(), self.ropt().copy(), self.objopt(), self.model_jac.copy(), self.nsamples[self.kopt], self.eval_num[self.kopt], self.model_jac_eval_nums
         else:
             return self.xsave.copy(), self.rsave.copy(), self.objsave, self.jacsave, self.nsamples_save, self.eval_num_save, self.jacsave_eval_nums
-- 
2.43.0


From c8e3858d1c514bc1f24618bfee8fc22bd5ce5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 24/49] fix: swap sample counts together with the interpolation
 points

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index bb2f211..5473a08 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -213,6 +213,7 @@ class Model(object):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
+        self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
         self.eval_num[[k1, k2]] = self.eval_num[[k2, k1]]
         if self.kopt == k1:
             self.kopt = k2
-- 
2.43.0


From 452006ddd05eb2d36a206cbb698738a5ee46357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 25/49] fix: never report success with a non-finite objective

---
 dfols/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index dedd915..f76a57b 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1165,6 +1165,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
+    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
+        exit_info = ExitInformation(EXIT_EVAL_ERROR, "No finite objective value found")
+
     # Process final return values & package up
     exit_flag = exit_info.flag
     exit_msg = exit_info.message(with_stem=True)
-- 
2.43.0


From ef26f628eafcfab3ce9ebf70137ce86dfaf7bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 26/49] fix: only report too many unsuccessful restarts when
 hard restarts ended for that reason

With restarts.max_unsuccessful_restarts=0 every exit message (e.g. budget reached)
was replaced by success, even if restarts were disabled. Also, never return the
internal auto-detected restart flag when the budget runs out at the same time.
---
 dfols/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f76a57b..77c534d 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1162,8 +1162,12 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             if do_logging:
                 module_logger.info("Unsuccessful run with new f = %s compared to old f = %s" % (objmin2, objmin))
 
-    if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
+    if params("restarts.use_restarts") and not params("restarts.use_soft_restarts") and nf < maxfun and \
+            exit_info.able_to_do_restart() and nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
+    elif exit_info.flag == EXIT_AUTO_DETECT_RESTART_WARNING and nf >= maxfun:
+        # Would have restarted, but no budget left (internal flag, not for reporting to the user)
+        exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
 
     if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
         exit_info = ExitInformation(EXIT_EVAL_ERROR, "No finite objective value found")
-- 
2.43.0


From 49835ef2874eadffded1344005227a8b5816aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 27/49] fix: return an input-error result instead of raising
 TypeError

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 77c534d..224365a 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1095,7 +1095,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is not None:
         exit_flag = exit_info.flag
         exit_msg = exit_info.message(with_stem=True)
-        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg)
+        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg, None, None)
         return results
 
     # Enforce arbitrary constraint bounds on x0
-- 
2.43.0


From 2c3a8598ca1ac8bef1d0adcaf0d6d1b386a7b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 28/49] fix: expose all documented exit codes on the results
 object

---
 dfols/controller.py | 2 +-
 dfols/solver.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index db88c6c..7d23a21 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -41,7 +41,7 @@ from .util import *
 
 __all__ = ['Controller', 'ExitInformation', 'EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS',
            'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_FALSE_SUCCESS_WARNING',
-           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR']
+           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR', 'EXIT_TR_INCREASE_WARNING']
 
 module_logger = logging.getLogger(__name__) 
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 224365a..17be3f9 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -70,6 +70,8 @@ class OptimResults(object):
         self.EXIT_TR_INCREASE_ERROR = EXIT_TR_INCREASE_ERROR
         self.EXIT_LINALG_ERROR = EXIT_LINALG_ERROR
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
+        self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
+        self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
 
     def __str__(self):
         # Result of calling print(soln)
-- 
2.43.0


From a01386fe43d29fed36c125ba4dd86a36f7050f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 29/49] fix: reject slow.history_for_slow=0, which led to a
 ZeroDivisionError

---
 dfols/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/params.py b/dfols/params.py
index 7fe9ac2..7d15b79 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -187,7 +187,7 @@ class ParameterList(object):
         elif key == "model.rel_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "slow.history_for_slow":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "slow.thresh_for_slow":
             type_str, nonetype_ok, lower, upper = 'float', False, 0, None
         elif key == "slow.max_slow_iters":
-- 
2.43.0


From 895630f83f96aab330900884469a858f5ed76b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 30/49] fix: report NaN radii, NaN lh, wrongly shaped or
 crossed bounds as input errors, also with scaling

---
 dfols/solver.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 17be3f9..34f04a1 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1010,14 +1010,13 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         ('growing.full_rank.use_full_rank_interp' in user_params or 'growing.perturb_trust_region_step' in user_params)
 
     scaling_changes = None
-    if scaling_within_bounds:
+    if scaling_within_bounds and np.shape(xl) == np.shape(x0) == np.shape(xu) and np.all(xu > xl):  # else input error below
         shift = xl.copy()
         scale = xu - xl
         scaling_changes = (shift, scale, xu.copy())
-
-    x0 = apply_scaling(x0, scaling_changes)
-    xl = apply_scaling(xl, scaling_changes)
-    xu = apply_scaling(xu, scaling_changes)
+        x0 = apply_scaling(x0, scaling_changes)
+        xl = apply_scaling(xl, scaling_changes)
+        xu = apply_scaling(xu, scaling_changes)
 
     exit_info = None
     # Input & parameter checks
@@ -1026,16 +1025,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide prox_uh input if h is not None")
         elif lh is None:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide lh input if h is not None")
-        elif lh <= 0.0:
+        elif not lh > 0.0:  # also catches NaN
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "lh must be strictly positive")
 
     if exit_info is None and npt < n + 1:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "npt must be >= n+1 for linear models with inexact interpolation")
 
-    if exit_info is None and rhobeg <= 0.0:
+    if exit_info is None and not rhobeg > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be strictly positive")
 
-    if exit_info is None and rhoend <= 0.0:
+    if exit_info is None and not rhoend > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhoend must be strictly positive")
 
     if exit_info is None and rhobeg <= rhoend:
@@ -1053,7 +1052,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and np.shape(x0) != np.shape(xu):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
 
-    if exit_info is None and np.min(xu - xl) < 2.0 * rhobeg:
+    if exit_info is None and not np.min(xu - xl) >= 2.0 * rhobeg:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
 
     if maxfun <= npt:
-- 
2.43.0


From 27563ecf5772c58b65079c7328293d0ad50abdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 31/49] fix: report failure to build initial directions through
 the exit flag instead of raising

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 7d23a21..9e4c83b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -231,7 +231,7 @@ class Controller(object):
                 i += 1
 
             if D_rank != num_directions:
-                raise RuntimeError("Unable to generate suitable initial directions")
+                return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")
 
             # we have a L.I set of interpolation points
             for k in range(0,self.n()):
-- 
2.43.0


From 013021f9de0a5f9f54a4994e5947279e31f84997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 32/49] fix: reject restarts.rhoend_scale=0, which led to a
 ZeroDivisionError

---
 dfols/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 34f04a1..5937ac1 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1092,6 +1092,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         if not params("growing.reset_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Growing: if resetting rho, must also reset delta")
 
+    if exit_info is None and not params("restarts.rhoend_scale") > 0.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
+
     # If we had an input error, quit gracefully
     if exit_info is not None:
         exit_flag = exit_info.flag
-- 
2.43.0


From 2a89322d5ddf53fc3ea221afb3d419ff0d1b416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:12 +0000
Subject: [PATCH 33/49] fix: report too many points for coordinate
 initialisation as an input error, not an AssertionError

---
 dfols/solver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 5937ac1..068740a 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1088,6 +1088,14 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         exit_info = ExitInformation(EXIT_INPUT_ERROR,
                                     "Parallel initialisation not yet developed for coordinate initial directions")
 
+    if exit_info is None and not params("init.random_initial_directions"):
+        max_npt = npt  # largest interpolation set we might have to initialise
+        if params("restarts.use_restarts") and not params("restarts.use_soft_restarts") and params("restarts.increase_npt"):
+            max_npt = params("restarts.max_npt")
+        if max_npt > (n + 1) * (n + 2) // 2:
+            exit_info = ExitInformation(EXIT_INPUT_ERROR,
+                                        "Coordinate initial directions need at most (n+1)(n+2)/2 interpolation points")
+
     if exit_info is None and params("growing.reset_rho"):
         if not params("growing.reset_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Growing: if resetting rho, must also reset delta")
-- 
2.43.0


From 3475461050243bcf768b42e7e3665923b9283190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 34/49] fix: S-FISTA always does at least one iteration, and
 copes with a zero tolerance

---
 dfols/trust_region.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e7327ee..594b12b 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -109,8 +109,9 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
-    except ValueError:
+    except (ValueError, OverflowError, ZeroDivisionError):  # e.g. func_tol=0
         MAX_LOOP_ITERS = max_iters
+    MAX_LOOP_ITERS = max(MAX_LOOP_ITERS, 1)
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
 
-- 
2.43.0


From 3976d7b9afdab780cfee29d6e567f399ec69ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:30 +0000
Subject: [PATCH 35/49] fix: reject growing.delta_scale_new_dirns=0, which led
 to an AssertionError

---
 dfols/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 068740a..62b3e41 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1100,6 +1100,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         if not params("growing.reset_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Growing: if resetting rho, must also reset delta")
 
+    if exit_info is None and not params("growing.delta_scale_new_dirns") > 0.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "growing.delta_scale_new_dirns must be strictly positive")
+
     if exit_info is None and not params("restarts.rhoend_scale") > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.rhoend_scale must be strictly positive")
 
-- 
2.43.0


From 9d05274d44702accab124020772d071da47f7cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 36/49] fix: random orthogonal directions next to active bounds
 are never longer than requested

---
 dfols/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dfols/util.py b/dfols/util.py
index 3466b7f..daac7cb 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -149,11 +149,8 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
         for i in range(nactive):
             idx = idx_active[i]
             sign = 1.0 if idx_l[idx] else -1.0  # desired sign of direction shift
-            if upper[idx] - lower[idx] > delta:
-                results[idx, n+ninactive+i] = 2.0 * sign * delta
-            else:
-                results[idx, n + ninactive + i] = 0.5 * sign * (upper[idx] - lower[idx])
-                # To get correct scaling, don't use delta any more (too big), use the scaling as given by upper-lower
+            # Different length to the direction for this constraint in step 2, but never longer than delta
+            results[idx, n + ninactive + i] = 0.5 * sign * min(delta, upper[idx] - lower[idx])
             results[:, n+ninactive+i] = get_scale(results[:, n+ninactive+i], 1.0, lower, upper)*results[:, n+ninactive+i]
     # 5. Pad out the rest with random extra directions
     for i in range(num_pts - (2*n if with_neg_dirns else n)):
-- 
2.43.0


From 592babd8f1c4e0a34ba5d06545f109f16f8f5b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 37/49] fix: coordinate initialisation with projections does
 not depend on the global random state

---
 dfols/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 9e4c83b..a7b1a37 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -187,7 +187,8 @@ class Controller(object):
 
             # Try random combination of negatives...
             k = 0
-            slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
+            rng = np.random.RandomState(0)  # own generator, so result does not depend on the global NumPy state
+            slctr = rng.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
             while D_rank != num_directions and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
@@ -205,7 +206,7 @@ class Controller(object):
                     D_rank = D_rank2
 
                 # Go again
-                slctr = np.random.randint(0, 1+1, self.n())
+                slctr = rng.randint(0, 1+1, self.n())
                 k += 1
 
             # Set still not L.I? Try random directions
@@ -215,7 +216,7 @@ class Controller(object):
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
-                        p = np.random.normal(size=self.n())
+                        p = rng.normal(size=self.n())
                         p = p/np.linalg.norm(p)
                         p = np.dot(p,min(1,self.delta))
                         yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
-- 
2.43.0


From 313fc7233cd881fb00f865c8fa85709be609cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 38/49] fix: reload the objective and diagnostic table exactly
 in OptimResults.from_dict

---
 dfols/solver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 62b3e41..a90253f 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -134,7 +134,7 @@ class OptimResults(object):
         # Note: np.array(mylist, dtype=float) automatically converts None to NaN
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj']
+        obj = soln_dict['obj'] if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
@@ -147,7 +147,12 @@ class OptimResults(object):
         soln = OptimResults(x, resid, obj, jacobian, nf, nx, nruns, flag, msg, xmin_eval_num, jacmin_eval_nums)
         
         if soln_dict['diagnostic_info'] is not None:
-            soln.diagnostic_info = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df.index = df.index.astype(int)  # JSON only has string keys
+            for col in df.columns:
+                if df[col].isnull().all() and len(df) > 0:  # e.g. column of NaN saved as None
+                    df[col] = df[col].astype(float)
+            soln.diagnostic_info = df
         return soln
 
 
-- 
2.43.0


From db7dc94a3251bdcb9c1b0bff8049a0fa5a6ed243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:54 +0000
Subject: [PATCH 39/49] fix: results with xk/rk vectors in the diagnostic table
 can be saved as JSON

---
 dfols/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index a90253f..47081bd 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -120,6 +120,9 @@ class OptimResults(object):
         soln_dict['flag'] = int(self.flag)
         soln_dict['msg'] = str(self.msg)
         soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict() if self.diagnostic_info is not None else None
+        for col in ['xk', 'rk']:  # optional columns of vectors
+            if self.diagnostic_info is not None and col in soln_dict['diagnostic_info']:
+                soln_dict['diagnostic_info'][col] = {k: v.tolist() for k, v in soln_dict['diagnostic_info'][col].items()}
         soln_dict['xmin_eval_num'] = int(self.xmin_eval_num)
         soln_dict['jacmin_eval_nums'] = self.jacmin_eval_nums.tolist() if self.jacmin_eval_nums is not None else None
         if replace_nan:
@@ -152,6 +155,9 @@ class OptimResults(object):
             for col in df.columns:
                 if df[col].isnull().all() and len(df) > 0:  # e.g. column of NaN saved as None
                     df[col] = df[col].astype(float)
+            for col in ['xk', 'rk']:
+                if col in df.columns:
+                    df[col] = [np.array(v, dtype=float) for v in df[col]]
             soln.diagnostic_info = df
         return soln
 
-- 
2.43.0


From 35c7a65fe41e8697b473e7aa69ab7e1e0836af46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 40/49] fix: non-finite model Hessian should not raise
 LinAlgError in trust-region step

---
 dfols/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index a7b1a37..b6c837d 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -530,7 +530,10 @@ class Controller(object):
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
         # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
-        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
+        # (not computed if H has bad values, since then the SVD in the matrix norm raises an error and no step is taken anyway)
+        func_tol = None
+        if self.h is not None and np.all(np.isfinite(H)):
+            func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
 
         if self.h is None:
             if self.model.projections:
-- 
2.43.0


From 8978b8b45393460db07cfcd7af7dd32302eeeef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 41/49] fix: saving diagnostic info must not raise an error if
 the model gradient is not finite

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 47081bd..8cf1e99 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -376,7 +376,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                                                    save_poisedness=params("logging.save_poisedness"))
             # norm_J_error is square of Frobenius norm of chgJ
             diagnostic_info.update_interpolation_information(interp_error, ls_interp_cond_num, linalg_resid,
-                                                             sqrt(norm_J_error), LA.norm(gopt), LA.norm(d))
+                                                             sqrt(norm_J_error), np.linalg.norm(gopt), np.linalg.norm(d))
 
         if dnorm < tau * params("general.safety_step_thresh") * control.rho and not finished_growing and params("growing.safety.do_safety_step"):
             if do_logging:
-- 
2.43.0


From c81c3bf4e6b4ea1114648fd5b09bf1a0edceae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 42/49] fix: trust-region step within bounds must not lose
 accuracy when much smaller than the current point

---
 dfols/trust_region.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 594b12b..0d3aef5 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -431,7 +431,7 @@ def alt_trust_step(n, xopt, H, sl, su, d, xbdi, nact, gnew, qred):
             iact = None
             for i in range(n):
                 if xbdi[i] == 0:
-                    tempa = xopt[i] + d[i] - sl[i]
+                    tempa = xopt[i] - sl[i] + d[i]
                     tempb = su[i] - xopt[i] - d[i]
                     if tempa <= 0.0:
                         nact += 1
@@ -547,10 +547,10 @@ def alt_trust_step(n, xopt, H, sl, su, d, xbdi, nact, gnew, qred):
 def d_within_bounds(d, xopt, sl, su, xbdi):
     # Used in TRSBOX, force d to be within bounds
     # In Fortran code, is at label 190
-    xnew = np.maximum(np.minimum(xopt + d, su), sl)
-    xnew[xbdi == -1] = sl[xbdi == -1]
-    xnew[xbdi == 1] = su[xbdi == 1]
-    d = xnew - xopt
+    # (work with the step directly, not via xopt+d, to avoid rounding errors if d is much smaller than xopt)
+    d = np.maximum(np.minimum(d, su - xopt), sl - xopt)
+    d[xbdi == -1] = sl[xbdi == -1] - xopt[xbdi == -1]
+    d[xbdi == 1] = su[xbdi == 1] - xopt[xbdi == 1]
     return d
 
 
-- 
2.43.0


From 2daafaca6254df566a12ebe8efbaaf7a914da997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 43/49] fix: trust-region subproblem must not return a zero
 step just because the Hessian is very large

---
 dfols/trust_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 0d3aef5..221d802 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -322,7 +322,7 @@ def trsbox(xopt, g, H, sl, su, delta, use_fortran=USE_FORTRAN):
         stplen = (blen if shs <= 0.0 else min(blen, gredsq / shs))
 
         # Exit condition
-        if stplen <= 1.0e-30:  # DFBOLS
+        if stplen * sqrt(stepsq) <= 1.0e-30:  # DFBOLS (check length of step: s can be very large)
             need_alt_trust_step = False
             break  # break and quit
 
-- 
2.43.0


From 63abbc5dc6c40a1ce91f04024d808f1d88db413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:39 +0000
Subject: [PATCH 44/49] fix: projected gradient subproblem must not give NaN
 step when the model Hessian is zero

---
 dfols/trust_region.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 221d802..d46e57b 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -183,8 +183,10 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
     eta = 1.2 # L backtrack scaling factor
     t = 1
 
-    # Initial guess of L is norm(Hessian)
-    L = np.linalg.norm(H, 2)
+    # Initial guess of L is norm(Hessian), but avoid dividing by zero if the model is (nearly) linear
+    L = max(np.linalg.norm(H, 2), ZERO_THRESH * np.linalg.norm(g) / delta)
+    if L == 0.0:
+        L = 1.0
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0


From 9c53e3879ffa7c51dc4a9d2deb121b63ba3e38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 45/49] fix: completing the Jacobian to full rank must not
 change the model value at the current point

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 5473a08..2a96dc7 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -406,6 +406,7 @@ class Model(object):
             s = np.maximum(s, floor_val)
             S = LA.diagsvd(s, k, k)  # s from vector to matrix of correct shape
             self.model_jac = np.dot(U, np.dot(S, Vt))  # reconstruct J from new svd
+            self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # new J must not change model value at xopt
 
         interp_error = 0.0
         if verbose:
-- 
2.43.0


From ec5515b4220913a709a1341f6e53cbc0fb91834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 46/49] fix: refactorise the interpolation system after a new
 sample changes the current point

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 2a96dc7..783fa46 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -235,6 +235,7 @@ class Model(object):
 
         if not np.all(np.isnan(self.objval[:self.npt()])):
             self.kopt = np.nanargmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        self.factorisation_current = False  # interpolation matrix is based at xopt, which may have changed
         return
 
     def add_new_point(self, x, rvec, eval_num):
-- 
2.43.0


From 48713571e8821b69afe757d10939ace87fb65de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 47/49] fix: document which options use random directions

---
 docs/advanced.rst | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/docs/advanced.rst b/docs/advanced.rst
index 51c2f32..3d6ac00 100644
--- a/docs/advanced.rst
+++ b/docs/advanced.rst
@@ -22,7 +22,7 @@ Logging and Output
 
 Initialization of Points
 ------------------------
-* :code:`init.random_initial_directions` - Build the initial interpolation set using random directions (as opposed to coordinate directions). Default as of version 1.2 is :code:`False`.
+* :code:`init.random_initial_directions` - Build the initial interpolation set using random directions (as opposed to coordinate directions), generated using NumPy's global random state. Default as of version 1.2 is :code:`False` (unless :code:`npt` is larger than :code:`(n+1)(n+2)/2`, where :math:`n` is :code:`len(x0)`, in which case it is :code:`True`).
 * :code:`init.random_directions_make_orthogonal` - If building initial interpolation set with random directions, whether or not these should be orthogonalized. Default is :code:`True`.
 * :code:`init.run_in_parallel` - If using random directions or non-random with input :code:`npt` at most :code:`len(x0)+1`, whether or not to ask for all :code:`objfun` to be evaluated at all points without any intermediate processing. Default is :code:`False`.
 
@@ -63,7 +63,7 @@ Regression Model Management
 ---------------------------
 * :code:`regression.num_extra_steps` - In successful iterations, the number of extra points (other than accepting the trust region step) to move, useful when :math:`|Y_k|>n+1` (:math:`n` is :code:`len(x0)`). Default is 0. 
 * :code:`regression.increase_num_extra_steps_with_restart` - The amount to increase :code:`regression.num_extra_steps` by with each restarts, for instance if increasing the number of points with each restart. Default is 0. 
-* :code:`regression.momentum_extra_steps` - If moving extra points in successful iterations, whether to use the 'momentum' method. If not, uses geometry-improving steps. Default is :code:`False`. 
+* :code:`regression.momentum_extra_steps` - If moving extra points in successful iterations, whether to use the 'momentum' method. If so, uses random directions (from NumPy's global random state). If not, uses geometry-improving steps. Default is :code:`False`. 
 
 Multiple Restarts
 -----------------
@@ -73,7 +73,7 @@ Multiple Restarts
 * :code:`restarts.use_soft_restarts` - Whether to use soft or hard restarts. Default is :code:`True`. 
 * :code:`restarts.soft.num_geom_steps` - For soft restarts, the number of points to move. Default is 3. 
 * :code:`restarts.soft.move_xk` - For soft restarts, whether to preserve :math:`x_k`, or move it to the best new point evaluated. Default is :code:`True`. 
-* :code:`restarts.increase_npt` - Whether to increase :math:`|Y_k|` with each restart. Default is :code:`False`. 
+* :code:`restarts.increase_npt` - Whether to increase :math:`|Y_k|` with each restart. In soft restarts, this adds points in random directions (from NumPy's global random state). Default is :code:`False`. 
 * :code:`restarts.increase_npt_amt` - Amount to increase :math:`|Y_k|` by with each restart. Default is 1. 
 * :code:`restarts.hard.increase_ndirs_initial_amt` - Amount to increase :code:`growing.ndirs_initial` by with each hard restart. To avoid a growing phase, it is best to set it to the same value as :code:`restarts.increase_npt_amt`. Default is 1.
 * :code:`restarts.hard.use_old_rk` - If using hard restarts, whether or not to recycle the objective value at the best iterate found when performing a restart. This saves one objective evaluation. Default is :code:`True`.
@@ -86,7 +86,7 @@ Multiple Restarts
 
 Dynamically Growing Initial Set
 -------------------------------
-* :code:`growing.ndirs_initial` - Number of initial points to add (excluding :math:`x_k`). This should only be changed to a value less than :math:`n`, and only if the default setup cost of :math:`n+1` evaluations of :code:`objfun` is impractical. If this is set to be less than the default, the input value :code:`npt` should be set to :math:`n`. If the default is used, all the below parameters have no effect on DFO-LS. Default is :code:`npt-1`. 
+* :code:`growing.ndirs_initial` - Number of initial points to add (excluding :math:`x_k`). This should only be changed to a value less than :math:`n`, and only if the default setup cost of :math:`n+1` evaluations of :code:`objfun` is impractical. If this is set to be less than the default, the input value :code:`npt` should be set to :math:`n`. The remaining points are added along random directions (from NumPy's global random state). If the default is used, all the below parameters have no effect on DFO-LS. Default is :code:`npt-1`. 
 * :code:`growing.full_rank.use_full_rank_interp` - If :code:`growing.ndirs_initial` is less than :code:`npt`, whether to perturb the interpolated :math:`J_k` to make it full rank, allowing the trust region step to include components in the full search space. Default is :code:`True` if :math:`m\geq n` and :code:`False` otherwise (opposite to :code:`growing.perturb_trust_region_step`). 
 * :code:`growing.perturb_trust_region_step` - Whether to perturb the trust region step by an orthogonal direction not yet searched. This is an alternative to :code:`growing.full_rank.use_full_rank_interp`. Default is :code:`False` if :math:`m\geq n` and :code:`True` otherwise (opposite to :code:`growing.full_rank.use_full_rank_interp`).
 * :code:`growing.delta_scale_new_dirns` - When adding new search directions, the length of the step as a multiple of :math:`\Delta_k`. Default is 1, or 0.1 if :code:`growing.perturb_trust_region_step=True`. 
-- 
2.43.0


From eed51091839760ead609c2b26e9c7fa3a062af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 48/49] fix: do not return an all-zero Jacobian when no
 interpolation model was ever built

---
 dfols/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 8cf1e99..ad19a86 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -956,6 +956,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
     # Quit & return the important information
     x, rvec, obj, jacmin, nsamples, x_eval_num, jac_eval_nums = control.model.get_final_results()
+    if jac_eval_nums is None:
+        jacmin = None  # no interpolation model was built when this point was found, so nothing to report
     if do_logging:
         module_logger.debug("At return from DFO-LS, number of function evals = %i" % nf)
         module_logger.debug("Smallest objective value = %.15g at x = " % obj + str(x))
-- 
2.43.0


From 20270bcd6072e7e5bf348d94991b4fd8bc64dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 49/49] fix: a hard restart never loosens the small-objective
 tolerance

---
 dfols/solver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index ad19a86..ea68742 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -163,7 +163,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, obj_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -237,6 +237,10 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
                          params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox,
                          r0_eval_num=r0_eval_num)
+    if obj_old is not None and not np.isnan(obj_old) and not (control.model.objbeg <= obj_old):
+        # Re-evaluating the starting point of a hard restart may give a larger or undefined value: keep measuring the
+        # reduction against (at most) the best objective so far, so the 'sufficiently small' threshold never increases
+        control.model.objbeg = obj_old
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1176,7 +1180,8 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                           diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, do_logging=do_logging, print_progress=print_progress)
+                           diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, obj_old=objmin,
+                           do_logging=do_logging, print_progress=print_progress)
 
         if objmin2 < objmin or np.isnan(objmin):
             if do_logging:
-- 
2.43.0

