From a06e4cc02ba5bce3adf9920216d9bab914aa0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 01/28] fix: rounding errors in the step no longer push
 evaluated points out of bounds

---
 fides/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 3ae0166..2b2ec08 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -411,7 +411,8 @@ class Optimizer:
                 logger=self.logger,
             )
 
-            x_new = self.x + step.s + step.s0
+            # rounding errors must not push the new point out of bounds
+            x_new = np.clip(self.x + step.s + step.s0, self.lb, self.ub)
             funout_new = self.fevaler(x_new)
 
             if np.isfinite(funout_new.fval):
-- 
2.43.0


From 85728eb64c70da3e621e05f4a3e18a99abaec655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 02/28] fix: treat integer-typed bounds and starting points as
 floating point

---
 fides/minimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 2b2ec08..75a0845 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -250,8 +250,8 @@ class Optimizer:
                 f'function with argument resfun set to `True`.'
             )
 
-        self.lb: np.ndarray = np.array(lb)
-        self.ub: np.ndarray = np.array(ub)
+        self.lb: np.ndarray = np.array(lb, dtype=float)
+        self.ub: np.ndarray = np.array(ub, dtype=float)
 
         if options is None:
             options = {}
@@ -354,7 +354,7 @@ class Optimizer:
         """
         self._reset(start_id)
 
-        self.x = np.array(x0).copy()
+        self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
-- 
2.43.0


From 8cc23c67f71351bea835285ae7bbe5a127932b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 03/28] fix: reject scalar starting points with a ValueError

---
 fides/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 75a0845..447e257 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -355,7 +355,7 @@ class Optimizer:
         self._reset(start_id)
 
         self.x = np.array(x0, dtype=float)
-        if self.x.ndim > 1:
+        if self.x.ndim != 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
         self.check_in_bounds()
-- 
2.43.0


From 1537c133547b5c05fe3a553b6b2e632ea2d581f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 04/28] fix: degeneracy shift no longer modifies the tracked
 minimizer

---
 fides/minimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index 447e257..b6b70d9 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -713,6 +713,8 @@ class Optimizer:
         ):
             upperi = (self.ub - self.x) < eps
             loweri = (self.x - self.lb) < eps
+            # x may be shared with the tracked minimum
+            self.x = self.x.copy()
             self.x[upperi] = self.x[upperi] - eps
             self.x[loweri] = self.x[loweri] + eps
 
-- 
2.43.0


From 37d3c47fa18bbf1aaeb972d7904e03a7c2a89f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 05/28] fix: gradient convergence criterion uses the gradient
 at the returned point

---
 fides/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index b6b70d9..0f24170 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -612,7 +612,8 @@ class Optimizer:
         xtol = self.get_option(Options.XTOL)
         gatol = self.get_option(Options.GATOL)
         grtol = self.get_option(Options.GRTOL)
-        gnorm = norm(grad)
+        # use gradient at current x if the step was rejected
+        gnorm = norm(grad if self.tr_ratio > 0.0 else self.grad)
         stepsx = step.ss + step.ss0
         nsx = norm(stepsx)
 
-- 
2.43.0


From 3cca0664cbcc21c35bfeb5fab80701f4117ada6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 06/28] fix: reset exitflag at the start of a run

---
 fides/minimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index 0f24170..29fc4b5 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -301,6 +301,7 @@ class Optimizer:
         self.iterations_since_tr_update = 0
         self.n_intermediate_tr_radius = 0
         self.converged = False
+        self.exitflag = ExitFlag.DID_NOT_RUN
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
         self.fval_min = np.inf
-- 
2.43.0


From 26d3aebf712e46f8795d4e81cfd73319df46ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 07/28] fix: check dimensions of the objective output before it
 is used

---
 fides/minimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 29fc4b5..2a6eed0 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -362,6 +362,7 @@ class Optimizer:
         self.check_in_bounds()
 
         funout = self.fevaler(self.x)
+        funout.checkdims()
 
         self.fval, self.grad = funout.fval, funout.grad
         if self.hessian_update is not None:
@@ -373,8 +374,6 @@ class Optimizer:
         else:
             self.hess = funout.hess.copy()
 
-        funout.checkdims()
-
         self.track_minimum(funout)
         self.log_header()
         self.log_step_initial()
-- 
2.43.0


From f4b40b90c086ab329df0f26e9889fa4e08253157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 08/28] fix: check all dimensions of the initial Hessian

---
 fides/hessian_approximation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index aeb07b9..2839e44 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -39,11 +39,11 @@ class HessianApproximation:
         if hess is None:
             self._hess = np.eye(dim)
         else:
-            if hess.shape[0] != dim:
+            if hess.shape != (dim, dim):
                 raise ValueError(
                     'Initial approximation had inconsistent '
-                    f'dimension, was {hess.shape[0]}, '
-                    f'but should be {dim}.'
+                    f'dimension, was {hess.shape}, '
+                    f'but should be {(dim, dim)}.'
                 )
             self._hess = hess.copy()
         self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 666804c1411aaf56088c59db0fcc67c66e8942ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 09/28] fix: SR1 skips the update if the secant equation
 already holds exactly

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 2839e44..8a0655e 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -213,7 +213,7 @@ class SR1(IterativeHessianApproximation):
         d = z.T.dot(s)
 
         # [NocedalWright2006] (6.26) reject if update degenerate
-        if np.abs(d) >= np.sqrt(np.spacing(1)) * norm(s) * norm(z):
+        if np.abs(d) > np.sqrt(np.spacing(1)) * norm(s) * norm(z):
             self._diff = np.outer(z, z.T) / d
         else:
             self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 80761a6debee221f29e8bfabab7d1586cf65093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 10/28] fix: BB applies the computed update

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 8a0655e..a001302 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -244,7 +244,7 @@ class BB(IterativeHessianApproximation):
     This scheme only works with a function that returns (fval, grad)
     """
 
-    def update(self, s: np.ndarray, y: np.ndarray) -> None:
+    def _compute_update(self, s: np.ndarray, y: np.ndarray):
         b = y.T.dot(s)
         z = y - self._hess.dot(s)
         if b <= 0:
-- 
2.43.0


From 448af2d01f2da6bb54b8772564aeb8bad281ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 11/28] fix: hybrid approximations reset the switch when
 reinitialized

---
 fides/hessian_approximation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index a001302..a8ce2df 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -274,6 +274,10 @@ class HybridApproximation(HessianApproximation):
 
 
 class HybridSwitchApproximation(HybridApproximation):
+    def _init_mat(self, dim: int, hess: np.ndarray | None = None):
+        self._switched = False
+        super()._init_mat(dim, hess)
+
     def _switched_update(self, s: np.ndarray, y: np.ndarray, hess: np.ndarray):
         self.hessian_update.update(s, y)
         new_hess = self.hessian_update.get_mat() if self._switched else hess
-- 
2.43.0


From 7fd44b6494ed879abcd5c5989731b8c32869adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 12/28] fix: TSSM no longer divides by a zero residual norm

---
 fides/hessian_approximation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index a8ce2df..f1224c8 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -551,9 +551,17 @@ class TSSM(StructuredApproximation):
         # Equation (2.6)
         ys = hess.dot(s) + yb
         # Equation (2.10)
-        self._structured_diff = broyden_class_update(
-            ys, s, bs, phi=self.phi, enforce_curv_cond=self.enforce_curv_cond
-        ) / norm(r)
+        if norm(r) > 0:
+            self._structured_diff = broyden_class_update(
+                ys,
+                s,
+                bs,
+                phi=self.phi,
+                enforce_curv_cond=self.enforce_curv_cond,
+            ) / norm(r)
+        else:
+            # structured part does not contribute, keep it
+            self._structured_diff = np.zeros_like(self.A)
         self.A += self._structured_diff
         # Equation (2.9)
         self._update_hess_and_store_diff(hess + norm(r) * self.A)
-- 
2.43.0


From 3abada663ad1d78b1d25e5525d6953cd667279b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 13/28] fix: validate options given by string and non-integer
 iteration limits

---
 fides/constants.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fides/constants.py b/fides/constants.py
index b5161be..0c85965 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -128,15 +128,19 @@ def validate_options(options: dict):
                 f'{option_key} is not a valid options field.'
             ) from None
 
-        if option_key is Options.SUBSPACE_DIM:
+        if option is Options.SUBSPACE_DIM:
             option_value = SubSpaceDim(option_value)
 
-        if option_key is Options.STEPBACK_STRAT:
+        if option is Options.STEPBACK_STRAT:
             option_value = StepBackStrategy(option_value)
 
         expected_type = expected_types[option]
         if not isinstance(option_value, expected_type):
-            if expected_type == Integral and int(option_value) == option_value:
+            if (
+                expected_type == Integral
+                and isinstance(option_value, Real)
+                and float(option_value).is_integer()
+            ):
                 continue
             raise TypeError(
                 f'Type mismatch for option {option_key}. '
-- 
2.43.0


From 5b0cce050cd7efe8fec06e30a14eade744e53a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 14/28] fix: conjugate gradient step is zero for a zero
 gradient

---
 fides/steps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ee9f00..80b837a 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -360,7 +360,10 @@ class TRStepSteihaug(CGStep):
         z = np.zeros_like(self.sg)
         r = self.sg.copy()
         d = -self.sg.copy()
-        if norm(r) < eps:
+        if norm(r) <= eps:
+            # zero gradient
+            self.subspace = np.expand_dims(d, 1)
+            self.sc = np.zeros((1,))
             self.ss = z
             return
 
-- 
2.43.0


From f06515a97a9d71e1d66bcc2f48ebcebbd69bdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 15/28] fix: step back of conjugate gradient steps acts on the
 full step

---
 fides/steps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 80b837a..11c40e9 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -334,7 +334,10 @@ class CGStep(Step):
     def calculate(self):
         nsg = norm(self.sg)
         self.conj_grad(min(0.5, np.sqrt(nsg)) * nsg)
-        self.s = self.scaling.dot(self.ss + self.ss0)
+        # step back has to act on the full step
+        self.ss = self.ss + self.ss0
+        self.ss0 = np.zeros(self.ss.shape)
+        self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss + self.ss0)
 
-- 
2.43.0


From d2c8deac20a6f2a37cb064dfc53144f1e51bb864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 16/28] fix: one-dimensional problems with zero scaled Hessian
 yield finite steps

---
 fides/steps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 11c40e9..142d87d 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -284,8 +284,8 @@ class TRStep2D(Step):
         self.posdef = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
 
         if len(sg) == 1:
-            s_newt = -sg[0] / self.shess[0]
-            self.subspace = np.expand_dims(s_newt, 1)
+            # any direction spans the full space
+            self.subspace = np.ones((1, 1))
             return
 
         self.newton = False
-- 
2.43.0


From 6db7888bb89f398c32577b10bfa1ed94bedb508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 17/28] fix: orthonormalize truncated subspaces such that steps
 respect the radius

---
 fides/steps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 142d87d..492a02a 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -490,9 +490,11 @@ class TRStepTruncated(Step):
         subspace[iminbr, :] = 0
         # reduce subspace
         subspace = subspace[:, (subspace != 0).any(axis=0)]
-        # normalize subspace
-        for ix in range(subspace.shape[1]):
-            normalize(subspace[:, ix])
+        # orthonormalize subspace
+        if subspace.shape[1] > 0:
+            truncated = np.logical_not(subspace.any(axis=1))
+            subspace = linalg.orth(subspace)
+            subspace[truncated, :] = 0
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From c2fedcd49afcc0c0287a0af0fe92593c086f06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 18/28] fix: one-dimensional boundary solution is always finite

---
 fides/subproblem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 692be3e..e185648 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -73,9 +73,13 @@ def solve_1d_trust_region_subproblem(
 def get_1d_trust_region_boundary_solution(b, g, s, s0, delta):
     a = np.dot(s, s)
     b_coef = 2 * np.dot(s0, s)
-    c = np.dot(s0, s0) - delta**2
+    # s0 may be marginally outside the trust region due to rounding errors
+    c = min(np.dot(s0, s0) - delta**2, 0.0)
 
     aux = b_coef + math.copysign(np.sqrt(b_coef**2 - 4 * a * c), b_coef)
+    if aux == 0:
+        # no step that does not leave the trust region
+        return 0.0
     ts = [-aux / (2 * a), -2 * c / aux]
     qs = [quadratic_form(b, g, s0 + t * s) for t in ts]
     return ts[np.argmin(qs)]
-- 
2.43.0


From 9f1622e2a55f41cdd7e0262fa13b08db69b5ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 19/28] fix: use orthonormal eigenvectors in the subproblem
 solver

---
 fides/subproblem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index e185648..564c027 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -139,9 +139,7 @@ def solve_nd_trust_region_subproblem(
 
     # instead of a cholesky factorization, we go with an eigenvalue
     # decomposition, which works pretty well for n=2
-    eigvals, eigvecs = linalg.eig(b)
-    eigvals = np.real(eigvals)
-    eigvecs = np.real(eigvecs)
+    eigvals, eigvecs = linalg.eigh(0.5 * (b + b.T))
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
-- 
2.43.0


From 064c20748cfd578c2052868e683175921930ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 20/28] fix: subproblem solver recognizes the hard case
 correctly

---
 fides/subproblem.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 564c027..86acce1 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -162,7 +162,14 @@ def solve_nd_trust_region_subproblem(
         else:
             laminit = 0
     else:
-        laminit = -mineig
+        # shift eigenvalues such that the singularity is located at zero, since
+        # roots very close to it cannot be resolved otherwise. eigenvalues are
+        # only accurate up to rounding errors.
+        tol = w.size * np.spacing(np.abs(eigvals).max())
+        eigvals = np.where(eigvals - mineig <= tol, 0.0, eigvals - mineig)
+        mineig = 0.0
+        # ||s(lam)|| >= 2 * delta unless we are in the hard case
+        laminit = 0.5 * norm(w[eigvals == mineig]) / delta
 
     # INDEFINITE CASE
     # note that this includes what Nocedal calls the "hard case" but with
@@ -170,6 +177,7 @@ def solve_nd_trust_region_subproblem(
     # the respective w should be close to 0 anyways
     if secular(laminit, w, eigvals, eigvecs, delta) < 0:
         maxiter = 100
+        tol = np.sqrt(np.spacing(1)) * min(delta, 1.0)
         try:
             r = newton(
                 secular,
@@ -180,7 +188,7 @@ def solve_nd_trust_region_subproblem(
                 args=(w, eigvals, eigvecs, delta),
             )
             s = slam(r, w, eigvals, eigvecs)
-            if norm(s) <= delta + 1e-12:
+            if np.abs(norm(s) - delta) <= tol:
                 logger.debug('Found boundary subproblem solution via newton')
                 return s, 'indef'
         except RuntimeError:
@@ -198,12 +206,12 @@ def solve_nd_trust_region_subproblem(
                     secular,
                     xa,
                     xb,
-                    xtol=1e-12,
+                    xtol=np.finfo(float).tiny,
                     maxiter=maxiter,
                     args=(w, eigvals, eigvecs, delta),
                 )
                 s = slam(r, w, eigvals, eigvecs)
-                if norm(s) <= delta + np.sqrt(np.spacing(1)):
+                if np.abs(norm(s) - delta) <= tol:
                     logger.debug(
                         'Found boundary subproblem solution via brentq'
                     )
@@ -212,14 +220,19 @@ def solve_nd_trust_region_subproblem(
             pass  # may end up here due to ill-conditioning, treat as hard case
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
-    w[(eigvals - mineig) == 0] = 0
-    s = slam(-mineig, w, eigvals, eigvecs)
+    w_min = np.where(eigvals == mineig, w, 0)
+    s = slam(-mineig, w - w_min, eigvals, eigvecs)
+    if norm(s) > delta:
+        s = s * (delta / norm(s))
     # we know that ||s(lam) + sigma*v_jmin|| = delta, since v_jmin is
     # orthonormal, we can just substract the difference in norm to get
     # the right length.
 
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
-    s = s + sigma * eigvecs[:, jmin]
+    if norm(w_min) > 0:
+        s = s + sigma * eigvecs.dot(w_min / norm(w_min))
+    else:
+        s = s + sigma * eigvecs[:, jmin]
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
 
-- 
2.43.0


From bf551a60578313f4f8cc84d3e68bad15165254e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 21/28] fix: 2D subspace is orthonormal if both directions are
 almost parallel

---
 fides/steps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 492a02a..87f3d27 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -312,9 +312,13 @@ class TRStep2D(Step):
             s_grad = scaling.dot(np.sign(sg) + (sg == 0))
 
         normalize(s_newt)
+        normalize(s_grad)
         s_grad = s_grad - s_newt * s_newt.dot(s_grad)
         # if non-zero, add s_grad to subspace
-        if norm(s_grad) > np.spacing(1):
+        if norm(s_grad) > np.sqrt(np.spacing(1)):
+            normalize(s_grad)
+            # remove rounding errors of the first orthogonalization
+            s_grad = s_grad - s_newt * s_newt.dot(s_grad)
             normalize(s_grad)
             self.subspace = np.vstack([s_newt, s_grad]).T
         else:
-- 
2.43.0


From 95c0957ca91d5c0b082403509c3298f99e7e4ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 22/28] fix: conjugate gradients terminate and decrease the
 model for any Hessian

---
 fides/steps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 87f3d27..63badb7 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -374,8 +374,14 @@ class TRStepSteihaug(CGStep):
             self.ss = z
             return
 
+        # only the symmetric part contributes to the quadratic model
+        shess = 0.5 * (self.shess + self.shess.T)
+        # rounding errors may delay convergence
+        maxiter = 10 * len(d)
+
         while True:
-            bd = self.shess.dot(d)
+            maxiter -= 1
+            bd = shess.dot(d)
             c = d.dot(bd)
             r2 = np.dot(r, r)
             alpha = r2 / c
@@ -394,7 +400,7 @@ class TRStepSteihaug(CGStep):
                 return
             rp = r + alpha * bd
             rp2 = np.dot(rp, rp)
-            if np.sqrt(rp2) < eps:
+            if np.sqrt(rp2) < eps or maxiter <= 0:
                 normalize(d)
                 self.subspace = np.expand_dims(d, 1)
                 self.sc = zp.dot(d) * np.ones((1,))
-- 
2.43.0


From ea5621fda0b8f56157918147be28c01071974478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 23/28] fix: one-dimensional solution minimizes the model for
 unsymmetric Hessians

---
 fides/subproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 86acce1..3f1b0ca 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -58,7 +58,8 @@ def solve_1d_trust_region_subproblem(
     a = 0.5 * b.dot(s).dot(s)
     if not isinstance(a, float):
         a = a[0, 0]
-    b_coef = s.T.dot(b.dot(s0) + g)
+    # only the symmetric part of b contributes to the quadratic model
+    b_coef = s.T.dot(0.5 * (b + b.T).dot(s0) + g)
 
     minq = -b_coef / (2 * a)
     if a > 0 and norm(minq * s + s0) <= delta:
-- 
2.43.0


From 2b844f6f675a4e1ea08956080f94723c4fbd8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 24/28] fix: refined step with a variable exactly on its bound
 failed with NaN constraint bounds

---
 fides/steps.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 63badb7..58ac786 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -546,6 +546,7 @@ class RefinedStep(Step):
         self.subspace: np.ndarray = step.subspace.copy()
         self.chess: np.ndarray = step.chess.copy()
         self.cg: np.ndarray = step.cg.copy()
+        diag = scaling.diagonal()
         self.constraints = [
             NonlinearConstraint(
                 fun=lambda xc: (norm(self.subspace.dot(xc)) - delta)
@@ -559,8 +560,12 @@ class RefinedStep(Step):
             ),
             LinearConstraint(
                 A=self.subspace,
-                lb=self.theta * (lb - x) / scaling.diagonal(),
-                ub=self.theta * (ub - x) / scaling.diagonal(),
+                # variables with zero scaling do not move, so their bounds
+                # do not constrain the scaled step
+                lb=np.where(
+                    diag > 0, self.theta * (lb - x) / diag, -np.inf
+                ),
+                ub=np.where(diag > 0, self.theta * (ub - x) / diag, np.inf),
             ),
         ]
         self.guess: np.ndarray = step.sc.copy()
-- 
2.43.0


From 3117e04e88e66ce8f1967b881fb7c0f7df1575d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 25/28] fix: 2D steps stalled at points with a singular scaled
 Hessian

The least squares solution of the Newton equation is no Newton step if the
scaled Hessian is singular and the gradient is not in its range; the
gradient has to stay in the subspace in that case.
---
 fides/steps.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 58ac786..8256f66 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -293,7 +293,12 @@ class TRStep2D(Step):
         if self.posdef:
             s_newt = -linalg.lstsq(self.shess, sg)[0]
 
-            if norm(s_newt) < delta:
+            # the least squares solution does not solve the Newton equation
+            # if the scaled Hessian is singular
+            residual = norm(self.shess.dot(s_newt) + sg)
+            if norm(s_newt) < delta and residual <= np.sqrt(
+                np.spacing(1)
+            ) * norm(sg):
                 # Case 0 of Fig 12 in [ColemanLi1994]
                 normalize(s_newt)
                 self.newton = True
@@ -302,6 +307,9 @@ class TRStep2D(Step):
 
             # Case 1 of Fig 12 in [ColemanLi1994]
             s_grad = sg.copy()
+            if norm(s_newt) == 0:
+                # no Newton direction
+                s_newt = sg.copy()
             # orthonormalize, this ensures that S.T.dot(S) = I and we
             # can use S/S.T for transformation
         else:
-- 
2.43.0


From cfc4b29d2f4eff2042df214fd698b03b43a16b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:54 +0000
Subject: [PATCH 26/28] fix: refined steps can be longer than the trust region
 radius

trust-constr may return a point that violates the constraints, so the
result is cut at the trust region
---
 fides/steps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index 8256f66..551e3cf 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -593,6 +593,11 @@ class RefinedStep(Step):
         )
         self.sc = res.x
         self.ss = self.subspace.dot(self.sc)
+        # the solver may return points that violate the constraints
+        length = norm(self.ss)
+        if length > self.delta:
+            self.sc = self.sc * (self.delta / length)
+            self.ss = self.ss * (self.delta / length)
         self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss)
-- 
2.43.0


From 60357de7d7e2b47faf3637034506635c749f434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:10 +0000
Subject: [PATCH 27/28] fix: Broyden class updates were not finite for steps
 without curvature

---
 fides/hessian_approximation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index f1224c8..6a2dcf6 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -645,6 +645,14 @@ def broyden_class_update(
     if b <= 0 and enforce_curv_cond:
         return np.zeros_like(mat)
 
+    if c == 0 and b != 0 and not np.any(u):
+        # s is in the null space of mat, nothing to remove
+        return np.outer(y, y.T) / b
+
+    if b == 0 or c == 0:
+        # update is degenerate
+        return np.zeros_like(mat)
+
     update = np.outer(y, y.T) / b - np.outer(u, u.T) / c
 
     if phi != 0.0:
-- 
2.43.0


From 5752cee58a64d0225bab0d7042be292cdd49bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:59 +0000
Subject: [PATCH 28/28] fix: refined steps failed with a ValueError when the
 refinement starts at zero

---
 fides/steps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 551e3cf..73e774b 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -559,10 +559,11 @@ class RefinedStep(Step):
             NonlinearConstraint(
                 fun=lambda xc: (norm(self.subspace.dot(xc)) - delta)
                 * np.ones((1,)),
+                # the norm is not differentiable at zero
                 jac=lambda xc: np.expand_dims(self.subspace.dot(xc), 1).T.dot(
                     self.subspace
                 )
-                / norm(self.subspace.dot(xc)),
+                / max(norm(self.subspace.dot(xc)), np.finfo(float).tiny),
                 lb=-np.ones((1,)) * np.inf,
                 ub=np.zeros((1,)),
             ),
-- 
2.43.0

