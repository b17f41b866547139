From d2d4e46f51ec2e1029de2949dc5d755256ac9f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:52 +0000
Subject: [PATCH 01/51] fix: projection_box accepts scalar bounds for any
 pytree, as documented

---
 jaxopt/_src/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 9154b68..505c321 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -69,6 +69,10 @@ def projection_box(x: Any, hyperparams: Tuple) -> Any:
     projected pytree, with the same structure as ``x``.
   """
   lower, upper = hyperparams
+  if jnp.isscalar(lower):
+    lower = tree_util.tree_map(lambda _, bound=lower: bound, x)
+  if jnp.isscalar(upper):
+    upper = tree_util.tree_map(lambda _, bound=upper: bound, x)
   return tree_util.tree_map(_clip_safe, x, lower, upper)
 
 
-- 
2.43.0


From 8dc2cf6078244cb9717432b791d32d4803a3d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:52 +0000
Subject: [PATCH 02/51] fix: projection_l1_sphere reaches the sphere when x has
 null coordinates

---
 jaxopt/_src/projection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 505c321..d18f523 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -226,7 +226,10 @@ def projection_l1_sphere(x: jnp.ndarray, value: float = 1.0) -> jnp.ndarray:
   Returns:
     output array, with the same shape as ``x``.
   """
-  return jnp.sign(x) * projection_simplex(jnp.abs(x), value)
+  # Null coordinates can take either sign but cannot be dropped: they may have to
+  # carry a part of the l1 norm.
+  sign = jnp.where(x < 0, -1, 1)
+  return sign * projection_simplex(jnp.abs(x), value)
 
 
 def projection_l1_ball(x: jnp.ndarray, max_value: float = 1.0) -> jnp.ndarray:
-- 
2.43.0


From 47e2a6f4af274e4db4f78c9744f54cd16356a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:52 +0000
Subject: [PATCH 03/51] fix: Bisection finds a root located at the lower end of
 the bracket

---
 jaxopt/_src/bisection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 97f259c..725d3da 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -96,9 +96,9 @@ class Bisection(base.IterativeSolver):
     # sign = 1: the function is increasing
     # sign = -1: the function is decreasing
     # sign = 0: the root is not contained in [lower, upper]
-    sign = jnp.where((lower_value < 0) & (upper_value >= 0),
+    sign = jnp.where((lower_value <= 0) & (upper_value >= 0),
                      1,
-                     jnp.where((lower_value > 0) & (upper_value <= 0), -1, 0))
+                     jnp.where((lower_value >= 0) & (upper_value <= 0), -1, 0))
 
     if self.check_bracket:
       # Not jittable...
@@ -106,6 +106,12 @@ class Bisection(base.IterativeSolver):
         raise ValueError("The root is not contained in [lower, upper]. "
                          "`optimality_fun` evaluated at lower and upper should "
                          "have opposite signs.")
+    else:
+      # Without a sign change (e.g., because of rounding errors when the root is
+      # at one end of the interval), search toward the end closest to a root.
+      sign = jnp.where(sign == 0,
+                       jnp.where(lower_value <= upper_value, 1, -1),
+                       sign)
 
     return BisectionState(iter_num=jnp.asarray(0),
                           value=jnp.asarray(jnp.inf),
-- 
2.43.0


From a66e4f3ac2ce002d7269d756a31e66df8baeb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:52 +0000
Subject: [PATCH 04/51] fix: Bisection supports has_aux=True

---
 jaxopt/_src/bisection.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 725d3da..72cd2e4 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -90,8 +90,8 @@ class Bisection(base.IterativeSolver):
     lower = jnp.asarray(self.lower, float)
     upper = jnp.asarray(self.upper, float)
 
-    lower_value = self.optimality_fun(lower, *args, **kwargs)
-    upper_value = self.optimality_fun(upper, *args, **kwargs)
+    lower_value, _ = self._fun_with_aux(lower, *args, **kwargs)
+    upper_value, _ = self._fun_with_aux(upper, *args, **kwargs)
 
     # sign = 1: the function is increasing
     # sign = -1: the function is decreasing
@@ -178,7 +178,10 @@ class Bisection(base.IterativeSolver):
     super().__post_init__()
 
     if self.has_aux:
-      self._fun_with_aux = self.optimality_fun
+      fun_with_aux = self.optimality_fun
+      self._fun_with_aux = fun_with_aux
+      # Implicit differentiation needs the function value only.
+      self.optimality_fun = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
     else:
       self._fun_with_aux = lambda *a, **kw: (self.optimality_fun(*a, **kw),
                                              None)
-- 
2.43.0


From 5d0550b09310e3af00f946b7e3ba98ec9d73b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 05/51] fix: OSQP and BoxOSQP no longer certify infeasibility
 of solvable problems

A null step in x or y satisfied the (non strict) certificates, and a dual
certificate could use an infinite bound.
---
 jaxopt/_src/osqp.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 83cb920..63001b8 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -553,7 +553,7 @@ class BoxOSQP(base.IterativeSolver):
     certif_u   = tree_map(lambda adxi,ui: jnp.all(adxi <= ui), Adx, tree_where(unbounded_u, jnp.inf, criterion))
     certif_A   = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
 
-    certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c <= criterion), certif_A)
+    certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c < -criterion), certif_A)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_Q: {certif_Q} certif_c: {certif_c} certif_A: {certif_A} "
@@ -570,12 +570,17 @@ class BoxOSQP(base.IterativeSolver):
   def _check_primal_infeasability(self, error, status, delta_y, ATdy, l, u):
     criterion = self.primal_infeasible_tol * tree_inf_norm(delta_y)
     certif_A  = tree_inf_norm(ATdy)
+    # a certificate cannot rely on an infinite bound.
+    certif_l  = tree_map(lambda dyi, li: jnp.all(jnp.where(li == -jnp.inf, dyi >= -criterion, True)), delta_y, l)
+    certif_u  = tree_map(lambda dyi, ui: jnp.all(jnp.where(ui == jnp.inf, dyi <= criterion, True)), delta_y, u)
+    certif_bounds = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
     bounded_l = tree_where(tree_map(lambda li: li == -jnp.inf, l), 0., l)  # replace inf bounds by zero
     bounded_u = tree_where(tree_map(lambda ui: ui == jnp.inf, u), 0., u)
     dy_plus   = tree_map(jax.nn.relu, delta_y)
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
-    certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  <= criterion)
+    certif_primal_infeasible = jnp.logical_and(
+        jnp.logical_and(certif_A  <= criterion, certif_lu < -criterion), certif_bounds)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
@@ -592,10 +597,12 @@ class BoxOSQP(base.IterativeSolver):
     delta_y = tree_sub(sol.dual_eq, prev_sol.dual_eq)
     Adx, ATdy = A.matvec_and_rmatvec(delta_x, delta_y)
 
-    error, status = self._check_dual_infeasability(error, status, delta_x, Q, c, Adx, l, u)
-    error, status = self._check_primal_infeasability(error, status, delta_y, ATdy, l, u)
+    solved = status == BoxOSQP.SOLVED
+    new_error, new_status = self._check_dual_infeasability(error, status, delta_x, Q, c, Adx, l, u)
+    new_error, new_status = self._check_primal_infeasability(new_error, new_status, delta_y, ATdy, l, u)
 
-    return error, status
+    # A solved problem is neither primal nor dual infeasible.
+    return jnp.where(solved, error, new_error), jnp.where(solved, status, new_status)
 
   def _check_termination_conditions(self, primal_residuals, dual_residuals,
                                     old_params, params, Q, c, A, l, u):
-- 
2.43.0


From 15b7fecc5a1ea364e149d9754cf014969e5eb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:19 +0000
Subject: [PATCH 06/51] fix: prox_elastic_net accepts any scalar hyperparameter
 for pytrees

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 56ed0ec..9cc473c 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -126,9 +126,9 @@ def prox_elastic_net(x: Any,
     hyperparams = (1.0, 1.0)
 
   lam = tree_util.tree_map(lambda y: hyperparams[0]*jnp.ones_like(
-      y), x) if type(hyperparams[0]) == float else hyperparams[0]
+      y), x) if jnp.isscalar(hyperparams[0]) else hyperparams[0]
   gam = tree_util.tree_map(lambda y: hyperparams[1]*jnp.ones_like(
-      y), x) if type(hyperparams[1]) == float else hyperparams[1]
+      y), x) if jnp.isscalar(hyperparams[1]) else hyperparams[1]
 
   def prox_l1(u, lambd): return jnp.sign(u) * jax.nn.relu(jnp.abs(u) - lambd)
 
-- 
2.43.0


From 12eeb1dd1e23df586b48962b42287a43229fbcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:19 +0000
Subject: [PATCH 07/51] fix: document the factor 1/2 of the penalty in
 prox_ridge and prox_non_negative_ridge

---
 jaxopt/_src/prox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 9cc473c..049f219 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -174,7 +174,7 @@ def prox_ridge(x: Any,
   .. math::
 
     \underset{y}{\text{argmin}} ~ \frac{1}{2} ||x - y||_2^2
-    + \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
+    + \text{scaling} \cdot \text{l2reg} \cdot \frac{1}{2} ||y||_2^2
 
   Args:
     x: input pytree.
@@ -199,7 +199,7 @@ def prox_non_negative_ridge(x: Any,
   .. math::
 
     \underset{y \ge 0}{\text{argmin}} ~ \frac{1}{2} ||x - y||_2^2
-    + \text{scaling} \cdot \text{l2reg} \cdot ||y||_2^2
+    + \text{scaling} \cdot \text{l2reg} \cdot \frac{1}{2} ||y||_2^2
 
   Args:
     x: input pytree.
-- 
2.43.0


From 3d0f08693ec77114a0c778e89b34c260302b35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 08/51] fix: block-wise Lipschitz constants of the multiclass
 SVM dual account for l2reg

---
 jaxopt/_src/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/objective.py b/jaxopt/_src/objective.py
index d7776b6..9576ff7 100644
--- a/jaxopt/_src/objective.py
+++ b/jaxopt/_src/objective.py
@@ -327,7 +327,7 @@ class MulticlassLinearSvmDual(CompositeLinearFunction):
   def columnwise_lipschitz_const(self, l2reg, data):
     """Column-wise Lipschitz constants."""
     linop = self.make_linop(l2reg, data)
-    return linop.column_l2_norms(squared=True)
+    return linop.column_l2_norms(squared=True) / l2reg
 
   def b(self, l2reg, data):
     return data[1] - 1
-- 
2.43.0


From bdb086613362cd31a1e83221bdd1c05c7b51d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:18 +0000
Subject: [PATCH 09/51] fix: derivatives of projection_l2_ball and
 prox_group_lasso at 0 are not NaN

---
 jaxopt/_src/projection.py | 4 +++-
 jaxopt/_src/prox.py       | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index d18f523..e051118 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -289,7 +289,9 @@ def projection_l2_ball(x: Any, max_value: float = 1.0) -> Any:
     output pytree, with the same structure as ``x``.
   """
   l2_norm = tree_util.tree_l2_norm(x)
-  factor = max_value / l2_norm
+  # The norm has no derivative at 0, where the other branch is taken.
+  sqnorm = tree_util.tree_l2_norm(x, squared=True)
+  factor = max_value / jnp.sqrt(jnp.where(sqnorm > 0, sqnorm, 1.0))
   return jax.lax.cond(l2_norm <= max_value,
                       lambda _: x,
                       lambda _: tree_util.tree_scalar_mul(factor, x),
diff --git a/jaxopt/_src/prox.py b/jaxopt/_src/prox.py
index 049f219..a350961 100644
--- a/jaxopt/_src/prox.py
+++ b/jaxopt/_src/prox.py
@@ -160,9 +160,11 @@ def prox_group_lasso(x: Any,
   if l2reg is None:
     l2reg = 1.0
 
-  l2_norm = tree_util.tree_l2_norm(x)
+  # The norm has no derivative at 0, where the output is 0.
+  sqnorm = tree_util.tree_l2_norm(x, squared=True)
+  l2_norm = jnp.sqrt(jnp.where(sqnorm > 0, sqnorm, 1.0))
   factor = 1 - l2reg * scaling / l2_norm
-  factor = jnp.where(factor >= 0, factor, 0)
+  factor = jnp.where((sqnorm > 0) & (factor >= 0), factor, 0)
   return tree_util.tree_scalar_mul(factor, x)
 
 
-- 
2.43.0


From d9fe691107db1c6536c0a1bb9f353f4a556859a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:03 +0000
Subject: [PATCH 10/51] fix: transport projections no longer return non-plans
 when the zoom line search of the default solver breaks down

---
 jaxopt/_src/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index e051118..8feb71a 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -586,7 +586,7 @@ def _regularized_transport_semi_dual(cost_matrix,
 
   if make_solver is None:
     make_solver = lambda fun: LBFGS(fun=fun, tol=1e-3, maxiter=500,
-                                    linesearch="zoom")
+                                    linesearch="hager-zhang")
 
   semi_dual = _make_semi_dual(max_vmap, gamma=gamma)
   solver = make_solver(semi_dual)
@@ -644,7 +644,7 @@ def _regularized_transport_dual(cost_matrix,
 
   if make_solver is None:
     make_solver = lambda fun: LBFGS(fun=fun, tol=1e-3, maxiter=500,
-                                    linesearch="zoom")
+                                    linesearch="hager-zhang")
 
   dual = _make_dual(delta_vmap, gamma=gamma)
   solver = make_solver(dual)
-- 
2.43.0


From 69e3194254a65642e6ad1630c0c0be3ef3eff105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:06 +0000
Subject: [PATCH 11/51] fix: second-order derivatives of the Euclidean
 semi-dual, so that projection_transport has correct derivatives

---
 jaxopt/_src/projection.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/projection.py b/jaxopt/_src/projection.py
index 8feb71a..25e7f9f 100644
--- a/jaxopt/_src/projection.py
+++ b/jaxopt/_src/projection.py
@@ -470,16 +470,28 @@ def projection_box_section(x: jnp.ndarray,
   return jnp.clip(w * _root_proj_box_sec(x, hyperparams) + x, alpha, beta)
 
 
+@jax.custom_jvp
 def _max_l2(x, marginal_b, gamma):
   scale = gamma * marginal_b
   x_scale = x / scale
   p = projection_simplex(x_scale)
-  # From Danskin's theorem, we do not need to backpropagate
-  # through projection_simplex.
-  p = jax.lax.stop_gradient(p)
   return jnp.dot(x, p) - 0.5 * scale * jnp.dot(p, p)
 
 
+@_max_l2.defjvp
+def _max_l2_jvp(primals, tangents):
+  x, marginal_b, gamma = primals
+  x_dot, marginal_b_dot, gamma_dot = tangents
+  scale = gamma * marginal_b
+  scale_dot = gamma_dot * marginal_b + gamma * marginal_b_dot
+  # From Danskin's theorem, the first-order derivatives do not need to
+  # differentiate through projection_simplex. Higher-order derivatives do, so
+  # p must not be wrapped in stop_gradient.
+  p = projection_simplex(x / scale)
+  primal_out = jnp.dot(x, p) - 0.5 * scale * jnp.dot(p, p)
+  return primal_out, jnp.dot(x_dot, p) - 0.5 * scale_dot * jnp.dot(p, p)
+
+
 def _max_ent(x, marginal_b, gamma):
   return gamma * logsumexp(x / gamma) - gamma * jnp.log(marginal_b)
 
-- 
2.43.0


From 01facc0ac84c8d91f3f237343d2988223293eaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 12/51] fix: NonlinearCG reports the gradient norm of the
 returned point, not of the previous one

---
 jaxopt/_src/nonlinear_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/nonlinear_cg.py b/jaxopt/_src/nonlinear_cg.py
index 25151d1..ae3ef55 100644
--- a/jaxopt/_src/nonlinear_cg.py
+++ b/jaxopt/_src/nonlinear_cg.py
@@ -255,7 +255,7 @@ class NonlinearCG(base.IterativeSolver):
     new_descent_direction = tree_add_scalar_mul(tree_scalar_mul(-1, tree_conj(new_grad)),
                                                 new_beta,
                                                 descent_direction)
-    error = tree_l2_norm(grad)
+    error = tree_l2_norm(new_grad)
     realdtype = state.error.dtype
     new_state = NonlinearCGState(iter_num=state.iter_num + 1,
                                  stepsize=jnp.asarray(
-- 
2.43.0


From 466bf3f3e50010709bb8331f27d9a2f8daa8c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:47 +0000
Subject: [PATCH 13/51] fix: LBFGSB converges to a feasible point from
 infeasible initial parameters

---
 jaxopt/_src/lbfgsb.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 44f5cf0..116b74e 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -356,12 +356,14 @@ class LBFGSB(base.IterativeSolver):
           theta=jnp.asarray(self.theta, dtype=dtype),
       )
 
-    (value, aux), grad = self._value_and_grad_with_aux(
-        init_params, *args, **kwargs
-    )
     if bounds is None:
       bounds = (tree_map(lambda x: -jnp.inf * jnp.ones_like(x), init_params),
                 tree_map(lambda x: jnp.inf * jnp.ones_like(x), init_params))
+    # As in `update`, start from the feasible point closest to `init_params`.
+    init_params = tree_map(jnp.clip, init_params, *bounds)
+    (value, aux), grad = self._value_and_grad_with_aux(
+        init_params, *args, **kwargs
+    )
     init_error = _get_error(init_params, grad, *bounds)
     return LbfgsbState(
         value=value,
@@ -401,6 +403,8 @@ class LBFGSB(base.IterativeSolver):
       bounds = (tree_map(lambda x: -jnp.inf * jnp.ones_like(x), params),
                 tree_map(lambda x: jnp.inf * jnp.ones_like(x), params))
     lower, upper = bounds
+    # The initial parameters may be infeasible (this is a no-op afterwards).
+    params = tree_map(jnp.clip, params, lower, upper)
     x_flat = _flatten_and_concat(params)
     g_flat = _flatten_and_concat(state.grad)
     lower_flat = _flatten_and_concat(lower)
-- 
2.43.0


From bcdee26f4f4d6af2914eaee1e33c1550966adc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:50 +0000
Subject: [PATCH 14/51] fix: LBFGSB respects the bounds when max_stepsize is
 larger than 1

---
 jaxopt/_src/lbfgsb.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index 116b74e..fbe4fb7 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -261,7 +261,8 @@ class LBFGSB(base.IterativeSolver):
       backtracking line search (default: 0.8).
     increase_factor: factor by which to increase the stepsize during line search
       (default: 1.5).
-    max_stepsize: upper bound on stepsize.
+    max_stepsize: upper bound on stepsize. Values larger than 1 are treated as
+      1, since longer steps may violate the bounds.
     min_stepsize: lower bound on stepsize guess at start of each linesearch run.
     history_size: size of the memory to use.
     use_gamma: whether to initialize the Hessian approximation with gamma *
@@ -351,7 +352,7 @@ class LBFGSB(base.IterativeSolver):
           s_history=init_history(init_params, self.history_size),
           y_history=init_history(init_params, self.history_size),
           iter_num=jnp.asarray(0),
-          stepsize=jnp.asarray(self.max_stepsize, dtype=dtype),
+          stepsize=jnp.asarray(self._max_stepsize, dtype=dtype),
           num_updates=jnp.asarray(0),
           theta=jnp.asarray(self.theta, dtype=dtype),
       )
@@ -473,7 +474,7 @@ class LBFGSB(base.IterativeSolver):
     if use_linesearch:
       init_stepsize = _init_stepsize(
           self.linesearch_init,
-          self.max_stepsize,
+          self._max_stepsize,
           self.min_stepsize,
           self.increase_factor,
           state.stepsize,
@@ -612,6 +613,9 @@ class LBFGSB(base.IterativeSolver):
     self.reference_signature = inspect.Signature(parameters)
 
 
+    # A step larger than 1 along the descent direction may leave the box.
+    self._max_stepsize = min(self.max_stepsize, 1.0)
+
     unroll = self._get_unroll_option()
     linesearch_solver = _setup_linesearch(
         linesearch=self.linesearch,
@@ -619,7 +623,7 @@ class LBFGSB(base.IterativeSolver):
         value_and_grad=self._value_and_grad_with_aux,
         has_aux=True,
         maxlsiter=self.maxls,
-        max_stepsize=self.max_stepsize,
+        max_stepsize=self._max_stepsize,
         jit=self.jit,
         unroll=unroll,
         verbose=max(int(self.verbose)-1, 0),
-- 
2.43.0


From 6f48fd6a7d1c717178a1bce92c56aff28b000f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:24 +0000
Subject: [PATCH 15/51] fix: coordinate solvers handle coordinates with zero
 curvature

---
 jaxopt/_src/block_cd.py | 5 ++++-
 jaxopt/_src/cd_qp.py    | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/block_cd.py b/jaxopt/_src/block_cd.py
index f1616ff..64a0017 100644
--- a/jaxopt/_src/block_cd.py
+++ b/jaxopt/_src/block_cd.py
@@ -126,7 +126,10 @@ class BlockCoordinateDescent(base.IterativeSolver):
       (params, state)
     """
     linop = self.fun.make_linop(*args, **kwargs)
-    stepsizes = 1.0 / self.fun.columnwise_lipschitz_const(*args, **kwargs)
+    lipschitz_const = self.fun.columnwise_lipschitz_const(*args, **kwargs)
+    # The gradient w.r.t. a block with zero Lipschitz constant (e.g., an all-zero
+    # feature) is constant, so that any stepsize is valid.
+    stepsizes = 1.0 / jnp.where(lipschitz_const == 0, 1.0, lipschitz_const)
 
     # todo: ability to permute block order.
 
diff --git a/jaxopt/_src/cd_qp.py b/jaxopt/_src/cd_qp.py
index e159879..6bcc3fb 100644
--- a/jaxopt/_src/cd_qp.py
+++ b/jaxopt/_src/cd_qp.py
@@ -44,6 +44,10 @@ def fori_loop_body_fun(i, tup):
   update = jnp.where(h_i == 0, 0, g_i / h_i)
   # Newton-update + clipping to satisfy the box constraint
   x_i_new = jnp.clip(x[i] - update, l[i], u[i])
+  # If the objective is linear in x[i], the minimum is attained at a bound.
+  bound = jnp.where(g_i > 0, l[i], u[i])
+  at_bound = (h_i == 0) & (g_i != 0) & jnp.isfinite(bound)
+  x_i_new = jnp.where(at_bound, bound, x_i_new)
   delta_i = x_i_new - x[i]
   # Cumulated error
   error += jnp.abs(delta_i)
-- 
2.43.0


From b2f71ed0f2d58b1c5b6934a189ec8cd97a258e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:46 +0000
Subject: [PATCH 16/51] fix: LBFGSB keeps the Cauchy point within the bounds in
 spite of rounding errors

---
 jaxopt/_src/lbfgsb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index fbe4fb7..b1969b8 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -171,7 +171,10 @@ def _find_cauchy_point(
       + dt_min
   )
   active_set_mask = mask_sorted[jnp.argsort(t_ind)]
-  x_cauchy = jnp.where(active_set_mask, x + t_old * d, x_bound)
+  # Rounding errors may leave the bounds, in which case the largest feasible
+  # step of the subspace minimization would be negative.
+  x_cauchy = jnp.where(
+      active_set_mask, jnp.clip(x + t_old * d, lower, upper), x_bound)
   return x_cauchy, c + dt_min * p, active_set_mask
 
 
-- 
2.43.0


From 61f95df694ccc300892f5e734c2c688fb2cb84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:51 +0000
Subject: [PATCH 17/51] fix: accelerated proximal gradient does not stop at
 non-optimal points when consecutive iterates coincide

---
 jaxopt/_src/proximal_gradient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 76dba7e..1e7bca3 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -268,7 +268,9 @@ class ProximalGradient(base.IterativeSolver):
     next_t = 0.5 * (1 + jnp.sqrt(1 + 4 * t ** 2))
     diff_x = tree_sub(next_x, x)
     next_y = tree_add_scalar_mul(next_x, (t - 1) / next_t, diff_x)
-    next_error = self._error(diff_x, next_stepsize)
+    # Since next_x is a fixed point of the iteration only if it equals y, the
+    # distance to x is not an optimality criterion: it may vanish by chance.
+    next_error = self._error(tree_sub(next_x, y), next_stepsize)
     next_state = ProxGradState(iter_num=iter_num + 1, velocity=next_y, t=next_t,
                                stepsize=jnp.asarray(next_stepsize, dtype=dtype),
                                error=jnp.asarray(next_error, dtype=dtype),
-- 
2.43.0


From 7816b08019fd61d88f04854e41fd5f7c6ed0e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:20 +0000
Subject: [PATCH 18/51] fix: BoxOSQP step size update does not divide by zero
 when Ax = 0

---
 jaxopt/_src/osqp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 63001b8..078da5c 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -517,10 +517,11 @@ class BoxOSQP(base.IterativeSolver):
   def _update_stepsize(self, rho_bar, solver_state, primal_residuals, dual_residuals, Q, c, A, x, y):
     """Update stepsize based on the ratio between primal and dual residuals."""
     Ax, ATy     = A.matvec_and_rmatvec(x, y)
-    primal_coef = tree_inf_norm(primal_residuals) / tree_inf_norm(Ax)
     max_inf     = jnp.maximum(tree_inf_norm(Q(x)), jnp.maximum(tree_inf_norm(ATy), tree_inf_norm(c)))
-    dual_coef   = tree_inf_norm(dual_residuals) / max_inf
-    eps_div     = jnp.finfo(dual_coef.dtype).eps
+    eps_div     = jnp.finfo(max_inf.dtype).eps
+    # the denominators may be zero, e.g. when Ax = 0.
+    primal_coef = tree_inf_norm(primal_residuals) / (tree_inf_norm(Ax) + eps_div)
+    dual_coef   = tree_inf_norm(dual_residuals) / (max_inf + eps_div)
     coef        = jnp.sqrt(primal_coef / (dual_coef + eps_div))
     rho_bar     = jnp.clip(rho_bar * coef, self.rho_min, self.rho_max)
     solver_state = self._eq_qp_solve_impl.update_stepsize(solver_state, rho_bar)
-- 
2.43.0


From 657a4aed7e7a6aa532c88f27aa3303192d357625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:20 +0000
Subject: [PATCH 19/51] fix: cg+jacobi solver of BoxOSQP supports pytrees of
 matrices, as documented

---
 jaxopt/_src/osqp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 078da5c..3579213 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -217,8 +217,7 @@ class OSQPIndirectSolver:
     _, (_, _, sigma, rho_bar), (precond_Q, precond_A) = solver_state
 
     diag_precond = tree_add_scalar_mul(precond_Q, rho_bar, precond_A)
-    diag_precond = tree_add(diag_precond, sigma)
-    inv_diag = tree_map(lambda m_diag: 1/m_diag, diag_precond)
+    inv_diag = tree_map(lambda m_diag: 1/(m_diag + sigma), diag_precond)
     return tree_mul(inv_diag, x)
 
   def init_state(self, init_params, params_Q, params_A, sigma, rho_bar):
-- 
2.43.0


From e626e4621d1e478880411e56f3857d06cbaeeafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:20 +0000
Subject: [PATCH 20/51] fix: EqualityConstrainedQP supports quadratic functions
 of pytrees

---
 jaxopt/_src/eq_qp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/eq_qp.py b/jaxopt/_src/eq_qp.py
index 0e97a3a..8f0a5ae 100644
--- a/jaxopt/_src/eq_qp.py
+++ b/jaxopt/_src/eq_qp.py
@@ -292,7 +292,7 @@ class EqualityConstrainedQP(base.Solver):
         # nabla_x f(x) = Q x + c
         # Qx = nabla_x f(x) - c
         def fun_minus_cx(xx):
-          return self.fun(xx, params_Q) - jnp.sum(c*xx)
+          return self.fun(xx, params_Q) - tree_vdot(c, xx)
         Qx = jax.grad(fun_minus_cx)(x)
         return Qx
       self.matvec_Q = matvec_Q
-- 
2.43.0


From 5b626b202594a05c9fbacac494a801a9eec77bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:50 +0000
Subject: [PATCH 21/51] fix: optimality conditions and implicit differentiation
 of BoxOSQP and OSQP with fun

---
 jaxopt/_src/osqp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 3579213..9bf1fa2 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -100,7 +100,9 @@ def _make_osqp_optimality_fun(matvec_Q, matvec_A, fun):
       qp_obj = tree_add_scalar_mul(tree_vdot(c, x), 0.5, tree_vdot(x, Q(x)))
       return qp_obj
   else:
-    obj_fun = fun
+    def obj_fun(primal_var, params_obj):
+      x, _ = primal_var
+      return fun(x, params_obj)
 
   def eq_fun(primal_var, params_eq):
     # constraint Ax=z associated to y^T(Ax-z)=0
-- 
2.43.0


From b16cdeb49429de2e5f9e74c073100766e8959466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:37 +0000
Subject: [PATCH 22/51] fix: implicit differentiation of nonlinear least
 squares solvers with keyword arguments

---
 jaxopt/_src/gauss_newton.py        | 2 ++
 jaxopt/_src/levenberg_marquardt.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/jaxopt/_src/gauss_newton.py b/jaxopt/_src/gauss_newton.py
index ea1d89c..8ee1dbc 100644
--- a/jaxopt/_src/gauss_newton.py
+++ b/jaxopt/_src/gauss_newton.py
@@ -150,6 +150,8 @@ class GaussNewton(base.IterativeSolver):
       residual = self._fun(params, *args, **kwargs)
       return self._jt_op(params, residual, *args, **kwargs)
     self.optimality_fun = optimality_fun
+    # Sets up reference signature.
+    self.reference_signature = self.residual_fun
 
   def _jtj_op(self, params, vec, *args, **kwargs):
     """Product with J.T J"""
diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 0820e26..c87b4d5 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -481,6 +481,9 @@ class LevenbergMarquardt(base.IterativeSolver):
       self._fun = self.residual_fun
       self._fun_with_aux = lambda *a, **kw: (self.residual_fun(*a, **kw), None)
 
+    # Sets up reference signature.
+    self.reference_signature = self.residual_fun
+
     # Define maximum value for the damping factor and increase factor. This is
     # particularly helpful for X32 usage.
     self.damping_factor_max = jnp.asarray(2**32, dtype=float)
-- 
2.43.0


From 438b53ec878c3484c26d75f462dc01a90c096692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:37 +0000
Subject: [PATCH 23/51] fix: ProjectedGradient ignored implicit_diff_solve

---
 jaxopt/_src/projected_gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/projected_gradient.py b/jaxopt/_src/projected_gradient.py
index 5093e54..291e01d 100644
--- a/jaxopt/_src/projected_gradient.py
+++ b/jaxopt/_src/projected_gradient.py
@@ -157,5 +157,6 @@ class ProjectedGradient(base.IterativeSolver):
                                 decrease_factor=self.decrease_factor,
                                 verbose=self.verbose,
                                 implicit_diff=self.implicit_diff,
+                                implicit_diff_solve=self.implicit_diff_solve,
                                 jit=self.jit,
                                 unroll=self.unroll)
-- 
2.43.0


From fabaa2d418733c9e9473292c876b1f5aaad9a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 24/51] fix: solve_cholesky with a two-dimensional right-hand
 side

---
 jaxopt/_src/linear_solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 34b5d0d..ca56b33 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -95,6 +95,7 @@ def solve_cholesky(matvec: Callable,
   elif len(b.shape) == 1:
     return jsp.linalg.solve(A, b, assume_a='pos')
   elif len(b.shape) == 2:
+    A = A.reshape(-1, b.shape[0] * b.shape[1])  # 2d array (matrix)
     return  jsp.linalg.solve(A, b.ravel(), assume_a='pos').reshape(*b.shape)
   else:
     raise NotImplementedError
-- 
2.43.0


From bb1fb1df6bc31753c477a3d2e4fc0346d05448b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 25/51] fix: direct linear solvers keep the dtype of the
 right-hand side

---
 jaxopt/_src/linear_solve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index ca56b33..0f9248c 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -87,7 +87,7 @@ def solve_cholesky(matvec: Callable,
   """
   if ridge is not None:
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
-  A = _materialize_array(matvec, b.shape)
+  A = _materialize_array(matvec, b.shape, b.dtype)
   if len(b.shape) == 0:
     if A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
@@ -118,13 +118,13 @@ def solve_inv(matvec: Callable,
   """
   if ridge is not None:
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
-  A = _materialize_array(matvec, b.shape)
+  A = _materialize_array(matvec, b.shape, b.dtype)
   if len(b.shape) == 0:
     if A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
-    A = _materialize_array(matvec, b.shape)
+    A = _materialize_array(matvec, b.shape, b.dtype)
     return jnp.dot(jnp.linalg.inv(A), b)
   else:
     raise NotImplementedError
@@ -147,7 +147,7 @@ def solve_qr(matvec: Callable,
   """
   if ridge is not None:
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
-  A = _materialize_array(matvec, b.shape)
+  A = _materialize_array(matvec, b.shape, b.dtype)
   if len(b.shape) == 0:
     if A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
-- 
2.43.0


From 52d311db3476bf9353cf3805626be566248ab45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 26/51] fix: IterativeRefinement takes the initial parameters
 into account

---
 jaxopt/_src/iterative_refinement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/iterative_refinement.py b/jaxopt/_src/iterative_refinement.py
index cb32bfb..88b19e2 100644
--- a/jaxopt/_src/iterative_refinement.py
+++ b/jaxopt/_src/iterative_refinement.py
@@ -124,12 +124,14 @@ class IterativeRefinement(base.IterativeSolver):
                  A: Any,
                  b: Any,
                  A_bar: Any = None):
+    # The first correction starts from init_params, hence from its residuals.
+    target_residuals = tree_sub(b, self.matvec_A(A)(init_params))
     return IterativeRefinementState(
       iter_num=jnp.asarray(0),
       error=jnp.asarray(jnp.inf),
-      target_residuals=b,
-      init=init_params,
-      num_matvec_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
+      target_residuals=target_residuals,
+      init=self.init_params(A, b, A_bar),
+      num_matvec_eval=jnp.asarray(1, base.NUM_EVAL_DTYPE),
       num_matvec_bar_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
       num_solve_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE)
 )
-- 
2.43.0


From dcb4d9c25f407e9b4cc1ebb9ab6ddcd41e3e3fc8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 27/51] fix: Broyden's inverse Jacobian acts on the whole
 pytree, not leaf by leaf

---
 jaxopt/_src/broyden.py | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 9670813..bfbbb43 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -38,29 +38,6 @@ from jaxopt.tree_util import tree_l2_norm
 from jaxopt._src.tree_util import tree_single_dtype
 
 
-def matvec(d_history, c_history, x, indices):
-  # CD^T x
-  # here j is the history dimension and i is the space dimension
-  dtx = jnp.einsum('j..., ... -> j', d_history[indices], x)
-  cdtx = jnp.einsum('j..., j -> ...', c_history[indices], dtx)
-  return cdtx
-
-def inv_jacobian_product_leaf(v: jnp.ndarray,
-                              d_history: jnp.ndarray,
-                              c_history: jnp.ndarray,
-                              gamma: float = 1.0,
-                              start: int= 0):
-  # the computation of the jacobian inverse for
-  # the Broyden method
-  # this is done using the notations of DEQ
-  history_size = len(d_history)
-
-  indices = (start + jnp.arange(history_size)) % history_size
-
-  v = gamma * v + matvec(d_history, c_history, v, indices)
-  return v
-
-
 def inv_jacobian_product(pytree: Any,
                          d_history: Any,
                          c_history: Any,
@@ -84,10 +61,21 @@ def inv_jacobian_product(pytree: Any,
       i.e., `gamma * I`.
     start: starting index in the circular buffer.
   """
-  fun = partial(inv_jacobian_product_leaf,
-                gamma=gamma,
-                start=start)
-  return tree_map(fun, pytree, d_history, c_history)
+  # the computation of the jacobian inverse for
+  # the Broyden method
+  # this is done using the notations of DEQ
+  history_size = len(jax.tree_util.tree_leaves(d_history)[0])
+  indices = (start + jnp.arange(history_size)) % history_size
+
+  # CD^T x
+  # here j is the history dimension and the inner products D^T x are taken over
+  # the whole pytree
+  dtx = sum(jax.tree_util.tree_leaves(tree_map(
+      lambda d, x: jnp.einsum('j..., ... -> j', d[indices], x),
+      d_history, pytree)))
+  return tree_map(
+      lambda x, c: gamma * x + jnp.einsum('j..., j -> ...', c[indices], dtx),
+      pytree, c_history)
 
 def inv_jacobian_rproduct(pytree: Any,
                           d_history: Any,
-- 
2.43.0


From ee1c77c810eb1287886c40d74865617222ce0b10 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 28/51] fix: Broyden drops the oldest pair before the update,
 keeping the secant equation

---
 jaxopt/_src/broyden.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index bfbbb43..6e414a4 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -14,8 +14,6 @@
 
 """Limited-memory Broyden method"""
 
-from functools import partial
-
 from typing import Any
 from typing import Callable
 from typing import NamedTuple
@@ -279,17 +277,7 @@ class Broyden(base.IterativeSolver):
       start=start,
     )
 
-    jac_prod = partial(
-      inv_jacobian_product,
-      **jac_prod_kwargs,
-    )
-
-    jac_rprod = partial(
-      inv_jacobian_rproduct,
-      **jac_prod_kwargs,
-    )
-
-    product = jac_prod(pytree=value)
+    product = inv_jacobian_product(value, **jac_prod_kwargs)
     descent_direction = tree_scalar_mul(-1.0, product)
 
     use_linesearch = not isinstance(self.stepsize, Callable) and self.stepsize <= 0
@@ -346,14 +334,23 @@ class Broyden(base.IterativeSolver):
       new_value, new_aux = self._value_with_aux(new_params, *args, **kwargs)
       new_num_fun_eval = state.num_fun_eval + 1
       new_num_linesearch_iter = state.num_linesearch_iter
+    last = (start + self.history_size) % self.history_size
+
+    # The oldest pair is dropped before the update is computed, so that the
+    # updated inverse Jacobian satisfies the secant equation.
+    zeros = tree_map(jnp.zeros_like, params)
+    jac_prod_kwargs.update(
+      d_history=update_history(state.d_history, zeros, last),
+      c_history=update_history(state.c_history, zeros, last),
+    )
+
     delta_x = tree_sub(new_params, params)
-    v = jac_rprod(delta_x)
+    v = inv_jacobian_rproduct(delta_x, **jac_prod_kwargs)
     delta_g = tree_sub(new_value, value)
     denom = 1 / tree_vdot(v, delta_g)
     d = tree_scalar_mul(denom, v)
-    c = tree_sub(delta_x, jac_prod(delta_g))
+    c = tree_sub(delta_x, inv_jacobian_product(delta_g, **jac_prod_kwargs))
 
-    last = (start + self.history_size) % self.history_size
     d_history = update_history(state.d_history, d, last)
     c_history = update_history(state.c_history, c, last)
 
-- 
2.43.0


From afc89d5226aeaade5874404c3a21575f80494c96 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 29/51] fix: Broyden stays finite when a step does not change
 the function value

---
 jaxopt/_src/broyden.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/broyden.py b/jaxopt/_src/broyden.py
index 6e414a4..1a6a83c 100644
--- a/jaxopt/_src/broyden.py
+++ b/jaxopt/_src/broyden.py
@@ -347,8 +347,11 @@ class Broyden(base.IterativeSolver):
     delta_x = tree_sub(new_params, params)
     v = inv_jacobian_rproduct(delta_x, **jac_prod_kwargs)
     delta_g = tree_sub(new_value, value)
-    denom = 1 / tree_vdot(v, delta_g)
-    d = tree_scalar_mul(denom, v)
+    # Without any change (e.g., at an exact root) there is nothing to learn: the
+    # update is then zero instead of 0 / 0.
+    denom = tree_vdot(v, delta_g)
+    inv_denom = jnp.where(denom == 0, 0, 1 / jnp.where(denom == 0, 1, denom))
+    d = tree_scalar_mul(inv_denom, v)
     c = tree_sub(delta_x, inv_jacobian_product(delta_g, **jac_prod_kwargs))
 
     d_history = update_history(state.d_history, d, last)
-- 
2.43.0


From a92cbfb6c7c004a04f246485841956172df07cc9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 30/51] fix: LevenbergMarquardt rejects trial points with
 non-finite residuals without propagating NaNs

---
 jaxopt/_src/levenberg_marquardt.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index c87b4d5..749e0bf 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -295,16 +295,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     gain_ratio_test_not_met_ret = gain_ratio_test_false_func(
         *gain_ratio_test_init_state)
 
-    gain_ratio_test_is_met_ret = jax.tree.map(
-        lambda x: gain_ratio_test_is_met * x, gain_ratio_test_is_met_ret)
-
-    gain_ratio_test_not_met_ret = jax.tree.map(
-        lambda x: (1.0 - gain_ratio_test_is_met) * x,
-        gain_ratio_test_not_met_ret)
-
+    # We select rather than multiply by 0 or 1: the rejected branch may contain
+    # non-finite values (e.g., at a trial point outside of the domain).
     params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux = jax.tree.map(
-        lambda x, y: x + y, gain_ratio_test_is_met_ret,
-        gain_ratio_test_not_met_ret)
+        lambda x, y: jnp.where(gain_ratio_test_is_met, x, y),
+        gain_ratio_test_is_met_ret, gain_ratio_test_not_met_ret)
 
     return params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux
 
-- 
2.43.0


From f5c28569b305817427a360551b9eefad5fa61d4e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 31/51] fix: LevenbergMarquardt uses the user-provided jac_fun
 when materializing the Jacobian

---
 jaxopt/_src/levenberg_marquardt.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 749e0bf..d4416e3 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -488,14 +488,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.materialize_jac:
       if self.jac_fun is None:
         self._jac_fun = jax.jacfwd(self._fun, argnums=(0))
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(
-              jax.jacfwd(self._fun, argnums=(0)), argnums=(0))
-    else:
-      if self.jac_fun:
+      else:
         self._jac_fun = self.jac_fun
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(self.jac_fun, argnums=(0))
+      if self.geodesic:
+        self._hess_res_fun = jax.jacfwd(self._jac_fun, argnums=(0))
+    else:
       if self.solver == 'qr':
         raise ValueError("QR factorization solver materializes Jacobian to solve the augmented "
                          "Jacobian equation instead of the normal equation. Hence, this solver "
-- 
2.43.0


From 4b5f45c2942ce14ade961c75f7e471ece8850ebf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 32/51] fix: sign of the Madsen-Nielsen step criterion of
 LevenbergMarquardt

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index d4416e3..ce8ae2f 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -171,7 +171,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.verbose:
       print_iteration(state)
     if self.stop_criterion == 'madsen-nielsen':
-      tree_mul_term = self.xtol * (tree_l2_norm(params) - self.xtol)
+      tree_mul_term = self.xtol * (tree_l2_norm(params) + self.xtol)
       return jnp.all(jnp.array([
         tree_inf_norm(state.gradient) > self.gtol,
         tree_l2_norm(state.delta) > tree_mul_term
-- 
2.43.0


From e95d75dc56b5853da9c42ac8535a6f9d5050cf05 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 33/51] fix: make_perturbed_fun derivatives for outputs with
 unit dimensions or with control variates

---
 jaxopt/_src/perturbations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 021baee..b06ff2e 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -256,7 +256,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
   def pert_jvp(tangent, _, inputs, rng):
     samples = noise.sample(seed=rng,
                            sample_shape=(num_samples,) + inputs.shape)
-    output_pert = jax.vmap(fun)(inputs + sigma * samples)[..., jnp.newaxis]
+    output_pert = jax.vmap(fun)(inputs + sigma * samples)
     # noise.log_prob corresponds to -nu in the paper.
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
     tangent_flat = 1.0 / (num_samples * sigma) * jnp.einsum(
@@ -264,13 +264,12 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
-    return tangent_out
+    return jnp.reshape(tangent_flat, output_pert.shape[1:])
 
   def pert_jvp_control_variate(tangent, _, inputs, rng):
     samples = noise.sample(seed=rng,
                            sample_shape=(num_samples,) + inputs.shape)
-    output_pert = jax.vmap(fun)(inputs + sigma * samples)[..., jnp.newaxis]
+    output_pert = jax.vmap(fun)(inputs + sigma * samples)
     output = fun(inputs)
     # noise.log_prob corresponds to -nu in the paper.
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
@@ -279,8 +278,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert - output, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
-    return tangent_out
+    return jnp.reshape(tangent_flat, output_pert.shape[1:])
 
   if control_variate:
     forward_pert.defjvps(pert_jvp_control_variate, None)
-- 
2.43.0


From 1f25fd06c96385d966e202a7f4d982c2d9457b8a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:43:09 +0000
Subject: [PATCH 34/51] fix: LBFGSB keeps the chronological order of its pairs
 once its memory is full

---
 jaxopt/_src/lbfgsb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/lbfgsb.py b/jaxopt/_src/lbfgsb.py
index b1969b8..104022f 100644
--- a/jaxopt/_src/lbfgsb.py
+++ b/jaxopt/_src/lbfgsb.py
@@ -416,6 +416,14 @@ class LBFGSB(base.IterativeSolver):
     s_history_flat = _flatten_and_concat(state.s_history, batch_ndims=1)
     y_history_flat = _flatten_and_concat(state.y_history, batch_ndims=1)
 
+    # The compact representation relies on the chronological order of the pairs,
+    # while the histories are circular buffers: once full, they start with the
+    # oldest pair after the most recently written one.
+    oldest = jnp.where(state.num_updates >= self.history_size,
+                       state.num_updates % self.history_size, 0)
+    s_history_flat = jnp.roll(s_history_flat, -oldest, axis=0)
+    y_history_flat = jnp.roll(y_history_flat, -oldest, axis=0)
+
     # Construct the limited-memory BFGS matrix from [1], section 3.
     w_flat = jnp.transpose(
         jnp.concatenate([y_history_flat, state.theta * s_history_flat], axis=0))
@@ -429,7 +437,7 @@ class LBFGSB(base.IterativeSolver):
     history_mask = jnp.arange(self.history_size) >= state.num_updates
     diagonal_ones = history_mask.astype(x_flat.dtype)
     i, j = jnp.diag_indices(self.history_size)
-    prev_ind = state.num_updates % self.history_size - 1
+    prev_ind = jnp.minimum(state.num_updates, self.history_size) - 1
     zeros = jnp.zeros_like(s_dot_yt)
     fill_diag_syt = jnp.where(state.num_updates > 0, s_dot_yt[prev_ind,
                                                               prev_ind], 1.)
-- 
2.43.0


From 20832eeff3a124e5ec3245981729f4d130da4e7b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:43:09 +0000
Subject: [PATCH 35/51] fix: HagerZhangLineSearch reports the step size of the
 point it returns

---
 jaxopt/_src/hager_zhang_linesearch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 6d03cd9..7667c0e 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -520,7 +520,8 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
     value_best_point = jnp.minimum(value_low, value_high)
 
-    new_stepsize = jnp.where(state.done, stepsize, best_point)
+    # If the line search was already done, `best_point` is the step size found.
+    new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
     (new_value, new_aux), new_grad = self._value_and_grad_fun_with_aux(
         new_params, *fun_args, **fun_kwargs
-- 
2.43.0


From e1c9c148670db339046f3ab3b86ee1882a4e8fb4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 36/51] fix: HagerZhangLineSearch keeps track of failures, and
 does not report one when an acceptable point was found

---
 jaxopt/_src/hager_zhang_linesearch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 7667c0e..23e41aa 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -248,9 +248,10 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
           x, new_low, new_high, c, approx_wolfe_threshold_value,
           descent_direction, args, kwargs)
 
-    failed, new_low, new_high, num_fun_grad_calls_update = jax.lax.cond(
+    failed_reupdate, new_low, new_high, num_fun_grad_calls_update = jax.lax.cond(
         on_left_boundary | on_right_boundary,
         _reupdate, lambda: (failed, new_low, new_high, 0))
+    failed = failed | failed_reupdate
     num_fun_grad_calls += num_fun_grad_calls_update
     return failed, new_low, new_high, num_fun_grad_calls
 
@@ -499,10 +500,11 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
           params, new_low, new_high, c, approx_wolfe_threshold_value,
           descent_direction, fun_args, fun_kwargs)
 
-    failed, new_low, new_high, num_fun_grad_calls = jax.lax.cond(
+    failed_reupdate, new_low, new_high, num_fun_grad_calls = jax.lax.cond(
         ~state.done & ((new_high - new_low) >
                        (self.shrinkage_factor * (state.high - state.low))),
         _reupdate, lambda: (failed, new_low, new_high, 0))
+    failed = failed | failed_reupdate
     new_num_fun_eval += num_fun_grad_calls
     new_num_grad_eval += num_fun_grad_calls
 
@@ -539,7 +541,9 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
                           approx_wolfe_threshold_value,
                           descent_direction))
     done = state.done | (error <= self.tol)
-    failed = failed | ((state.iter_num + 1 == self.maxiter) & ~done)
+    # A bracketing step may fail (e.g. on NaNs) although an acceptable point has
+    # been found.
+    failed = (failed | (state.iter_num + 1 == self.maxiter)) & ~done
 
     new_state = HagerZhangLineSearchState(
         iter_num=state.iter_num + 1,
-- 
2.43.0


From 3c594977fb9820f31f6d83602bbe87ee3ae31f42 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 37/51] fix: SciPy wrappers leave the user-supplied options
 untouched

---
 jaxopt/_src/scipy_wrappers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fcd116e..4b932e9 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -401,8 +401,8 @@ class ScipyMinimize(ScipyWrapper):
       self._grad_fun = jax.jit(self._grad_fun)
       self._value_and_grad_fun = jax.jit(self._value_and_grad_fun)
 
-    if self.options is None:
-      self.options = {}
+    # The dictionary is copied as it may be reused by the user.
+    self.options = {} if self.options is None else dict(self.options)
     if 'maxiter' in self.options:
       raise ValueError("Cannot pass maxiter through options dictionary, use maxiter keyword argument instead.")
     self.options['maxiter'] = self.maxiter
@@ -701,12 +701,8 @@ class ScipyLeastSquares(ScipyWrapper):
   def __post_init__(self):
     super().__post_init__()
 
-    if self.options is None:
-      self.options = LS_DEFAULT_OPTIONS
-    else:
-      for k, v in LS_DEFAULT_OPTIONS.items():
-        if k not in self.options:
-          self.options[k] = v
+    # The dictionary is copied as it may be reused by the user.
+    self.options = {**LS_DEFAULT_OPTIONS, **(self.options or {})}
 
     if self.has_aux:
       self.fun = lambda x, *args, **kwargs: self.fun(x, *args, **kwargs)[0]
-- 
2.43.0


From c3911d5deca298dd4f530c7bc4f33895fc5a31ee Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 38/51] fix: ScipyRootFinding and ScipyLeastSquares support
 has_aux=True

---
 jaxopt/_src/scipy_wrappers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 4b932e9..5ea6f24 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -22,6 +22,7 @@
 """
 
 from dataclasses import dataclass
+import functools
 from typing import Any
 from typing import Callable
 from typing import Dict
@@ -560,13 +561,16 @@ class ScipyRootFinding(ScipyWrapper):
     return base.OptStep(params, info)
 
   def __post_init__(self):
-    super().__post_init__()
-
     if self.has_aux:
+      optimality_fun_with_aux = self.optimality_fun
+      @functools.wraps(optimality_fun_with_aux)
       def optimality_fun(x, *args, **kwargs):
-        return self.optimality_fun(x, *args, **kwargs)[0]
+        return optimality_fun_with_aux(x, *args, **kwargs)[0]
       self.optimality_fun = optimality_fun
 
+    # Implicit differentiation uses the optimality function without aux.
+    super().__post_init__()
+
     # Pre-compile useful functions.
     self._jac_fun = (jax.jacrev(self.optimality_fun) if self.use_jacrev
                      else jax.jacfwd(self.optimality_fun))
@@ -705,7 +709,8 @@ class ScipyLeastSquares(ScipyWrapper):
     self.options = {**LS_DEFAULT_OPTIONS, **(self.options or {})}
 
     if self.has_aux:
-      self.fun = lambda x, *args, **kwargs: self.fun(x, *args, **kwargs)[0]
+      fun_with_aux = self.fun
+      self.fun = lambda x, *args, **kwargs: fun_with_aux(x, *args, **kwargs)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
     if self.options['x_scale'] != 'jac' and not isinstance(
-- 
2.43.0


From 997d1b92e8ecfac62137a5ce1dc85c1e5d7d52d3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 39/51] fix: Huber loss of ScipyLeastSquares for large negative
 residuals

---
 jaxopt/_src/scipy_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 5ea6f24..5b371da 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -585,7 +585,8 @@ class ScipyRootFinding(ScipyWrapper):
 LS_RHO_FUNS = {
     'linear': lambda z: z ** 2,
     'soft_l1': lambda z: 2.0 * ((1 + z ** 2) ** 0.5 - 1),
-    'huber': lambda z: jnp.where(z <= 1, z ** 2, 2.0 * z - 1),
+    'huber': lambda z: jnp.where(
+        jnp.abs(z) <= 1, z ** 2, 2.0 * jnp.abs(z) - 1),
     'cauchy': lambda z: jnp.log1p(z ** 2),
     'arctan': lambda z: jnp.arctan(z ** 2),
 }
-- 
2.43.0


From 3d06c851112b5f24439f004b435a83d32474c3f8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 40/51] fix: ScipyRootFinding only provides Jacobians to the
 methods that use them

---
 jaxopt/_src/scipy_wrappers.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 5b371da..52400dd 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -518,12 +518,20 @@ class ScipyRootFinding(ScipyWrapper):
                                          pytree_topology,
                                          self.dtype)
 
-    def scipy_fun(x_onp: onp.ndarray, scipy_args: Any) -> Tuple[onp.ndarray, onp.ndarray]:
+    # The other methods are derivative-free, and may not accept functions also
+    # returning a Jacobian.
+    use_jac = self.method is None or self.method.lower() in ('hybr', 'lm')
+
+    def scipy_fun(
+        x_onp: onp.ndarray, scipy_args: Any
+    ) -> Union[onp.ndarray, Tuple[onp.ndarray, onp.ndarray]]:
       # scipy_args is unused but must appear in the signature since
       # the `args` argument passed to osp.optimize.root is not None.
       del scipy_args  # unused
       x_jnp = onp_to_jnp(x_onp)
       value_jnp = self.optimality_fun(x_jnp, *args, **kwargs)
+      if not use_jac:
+        return jnp_to_onp(value_jnp, self.dtype)
       jacs_jnp = self._jac_fun(x_jnp, *args, **kwargs)
       return jnp_to_onp(value_jnp, self.dtype), jac_jnp_to_onp(jacs_jnp)
 
@@ -532,7 +540,7 @@ class ScipyRootFinding(ScipyWrapper):
     # See the related issue: https://github.com/google/jaxopt/issues/290
     res = osp.optimize.root(scipy_fun, jnp_to_onp(init_params, self.dtype),
                             args=(None,),
-                            jac=True,
+                            jac=use_jac,
                             tol=self.tol,
                             method=self.method,
                             options=self.options)
@@ -555,7 +563,8 @@ class ScipyRootFinding(ScipyWrapper):
 
     info = ScipyRootInfo(fun_val=jnp.asarray(res.fun),
                          success=res.success,
-                         status=res.status,
+                         # Not all methods report a status.
+                         status=getattr(res, 'status', None),
                          iter_num=iter_num,
                          num_fun_eval=num_fun_eval)
     return base.OptStep(params, info)
-- 
2.43.0


From 8bc58b84ebab1be5cafb52b7cc10fe9437ad61be Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 41/51] fix: ScipyRootFinding and ScipyLeastSquares run with
 the default method

---
 jaxopt/_src/scipy_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 52400dd..fabcf7f 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -542,7 +542,7 @@ class ScipyRootFinding(ScipyWrapper):
                             args=(None,),
                             jac=use_jac,
                             tol=self.tol,
-                            method=self.method,
+                            method=self.method or 'hybr',
                             options=self.options)
 
     params = tree_util.tree_map(jnp.asarray, onp_to_jnp(res.x))
@@ -683,7 +683,7 @@ class ScipyLeastSquares(ScipyWrapper):
                                      jnp_to_onp(init_params, self.dtype),
                                      jac=scipy_jac,
                                      bounds=bounds,
-                                     method=self.method,
+                                     method=self.method or 'trf',
                                      loss=self.loss,
                                      **self.options)
 
-- 
2.43.0


From 7feb63d3849e33c937ffb6167c702b96f6d333c0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 42/51] fix: implicit differentiation of ScipyLeastSquares with
 residuals given as pytrees

---
 jaxopt/_src/scipy_wrappers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fabcf7f..b90e36f 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -645,8 +645,10 @@ class ScipyLeastSquares(ScipyWrapper):
   def _cost_fun(self, params, *args, **kwargs):
     residuals = self.fun(params, *args, **kwargs)
     # NOTE: `self._rho` includes the squaring of residuals in its definition.
-    losses = self._rho(residuals / self.options['f_scale'])
-    return 0.5 * jnp.square(self.options['f_scale']) * jnp.mean(losses)
+    f_scale = self.options['f_scale']
+    losses = [jnp.ravel(self._rho(leaf / f_scale))
+              for leaf in tree_util.tree_leaves(residuals)]
+    return 0.5 * jnp.square(f_scale) * jnp.mean(jnp.concatenate(losses))
 
   def optimality_fun(self, sol, *args, **kwargs):
     """Optimality function mapping compatible with `@custom_root`."""
-- 
2.43.0


From 40b14dc317a35aeef8c2b6ca482cbee5802e89ac Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 43/51] fix: optimality functions of the bounded SciPy wrappers
 without bounds

---
 jaxopt/_src/scipy_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index b90e36f..8906aa0 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -436,6 +436,8 @@ class ScipyBoundedMinimize(ScipyMinimize):
 
   def optimality_fun(self, sol, bounds, *args, **kwargs):
     """Optimality function mapping compatible with `@custom_root`."""
+    if bounds is None:
+      return self._grad_fun(sol, *args, **kwargs)
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
     return tree_sub(fp, sol)
 
@@ -777,6 +779,8 @@ class ScipyBoundedLeastSquares(ScipyLeastSquares):
 
   def optimality_fun(self, sol, bounds, *args, **kwargs):
     """Optimality function mapping compatible with `@custom_root`."""
+    if bounds is None:
+      return self._grad_cost_fun(sol, *args, **kwargs)
     fp = self._fixed_point_fun(sol, bounds, args, kwargs)
     return tree_sub(fp, sol)
 
-- 
2.43.0


From fcfec690c71a6817f00be7c4fb468613de34313f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 44/51] fix: ScipyLeastSquares accepts scalars and arrays as
 x_scale

---
 jaxopt/_src/scipy_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 8906aa0..9f75cd1 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -727,8 +727,8 @@ class ScipyLeastSquares(ScipyWrapper):
       self.fun = lambda x, *args, **kwargs: fun_with_aux(x, *args, **kwargs)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
-    if self.options['x_scale'] != 'jac' and not isinstance(
-        self.options['x_scale'], float):
+    x_scale = self.options['x_scale']
+    if not isinstance(x_scale, str) and not onp.isscalar(x_scale):
       self.options['x_scale'] = jnp_to_onp(self.options['x_scale'], self.dtype)
 
     # Pre-compile useful functions.
-- 
2.43.0


From 1b139baab7c48017d2a45ef663b06067490c5d41 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 45/51] fix: ScipyMinimize supports methods that do not report
 their number of iterations

---
 jaxopt/_src/scipy_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 9f75cd1..5390595 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -368,7 +368,7 @@ class ScipyMinimize(ScipyWrapper):
     info = ScipyMinimizeInfo(fun_val=jnp.asarray(res.fun),
                              success=res.success,
                              status=res.status,
-                             iter_num=res.nit,
+                             iter_num=getattr(res, 'nit', None),
                              hess_inv=hess_inv,
                              num_fun_eval=nev_dict['nfev'],
                              num_jac_eval=nev_dict['njev'],
-- 
2.43.0


From 4a52f3d5ae0f029a005d7bc042fa755072e78892 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 46/51] fix: the inverse Hessian returned with L-BFGS-B is a
 usable linear operator

---
 jaxopt/_src/scipy_wrappers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index 5390595..87bb335 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -64,8 +64,9 @@ class LbfgsInvHessProductPyTree(LbfgsInvHessProduct):
     if sk.shape != yk.shape or sk.ndim != 2:
       raise ValueError('sk and yk must have matching shape, (n_corrs, n)')
     n_corrs, n = sk.shape
-    self.dtype = jnp.float64 if config.jax_enable_x64 is True else jnp.float32
-    self.shape = (n, n)
+    dtype = jnp.float64 if config.jax_enable_x64 is True else jnp.float32
+    # Skip the constructor of LbfgsInvHessProduct, that relies on numpy.
+    super(LbfgsInvHessProduct, self).__init__(dtype=dtype, shape=(n, n))
     self.sk = sk
     self.yk = yk
     self.n_corrs = n_corrs
-- 
2.43.0


From 53b2844c31020efc88faa42c2d866c522bce79cd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 47/51] fix: Anderson acceleration keeps the dtype of the
 parameters

---
 jaxopt/_src/anderson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/anderson.py b/jaxopt/_src/anderson.py
index ef153bb..5f9e17a 100644
--- a/jaxopt/_src/anderson.py
+++ b/jaxopt/_src/anderson.py
@@ -56,7 +56,8 @@ def anderson_step(params_history, residuals_history,
   pa = tree_average(params_history, alphas)
   ra = tree_average(residuals_history, alphas)
   extrapolated = tree_add_scalar_mul(pa, beta, ra)
-  return extrapolated
+  # The mixing coefficients may have a larger precision than the parameters.
+  return tree_map(lambda e, x: e.astype(x.dtype), extrapolated, params_history)
 
 
 def pytree_replace_elem(tree_batched, index, new_elems):
-- 
2.43.0


From 4b8aa31cbe798368ecebb1479ed2d3149d6e8290 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 48/51] fix: first-order solvers with both has_aux=True and
 value_and_grad=True

---
 jaxopt/_src/proximal_gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 1e7bca3..c63262d 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -179,7 +179,7 @@ class ProximalGradient(base.IterativeSolver):
     del hyperparams_prox  # Not used.
 
     if self.has_aux:
-      _, aux = self.fun(init_params, *args, **kwargs)
+      _, aux = self._fun_with_aux(init_params, *args, **kwargs)
     else:
       aux = None
 
@@ -329,11 +329,11 @@ class ProximalGradient(base.IterativeSolver):
   def __post_init__(self):
     super().__post_init__()
 
-    fun_with_aux, _, self._value_and_grad_with_aux = \
+    self._fun_with_aux, _, self._value_and_grad_with_aux = \
       base._make_funs_with_aux(fun=self.fun,
                                value_and_grad=self.value_and_grad,
                                has_aux=self.has_aux)
-    fun_without_aux = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
+    fun_without_aux = lambda *a, **kw: self._fun_with_aux(*a, **kw)[0]
 
     # Sets up reference signature.
     fun = getattr(self.fun, "subfun", self.fun)
-- 
2.43.0


From de19506a9334844ed50aeb0ff5b1d6fc5ba455b6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 49/51] fix: ZoomLineSearch does not count gradients when only
 the function is evaluated

---
 jaxopt/_src/zoom_linesearch.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jaxopt/_src/zoom_linesearch.py b/jaxopt/_src/zoom_linesearch.py
index 96b790c..dba3223 100644
--- a/jaxopt/_src/zoom_linesearch.py
+++ b/jaxopt/_src/zoom_linesearch.py
@@ -684,7 +684,6 @@ class ZoomLineSearch(base.IterativeLineSearch):
     if aux is None and self.has_aux:
       _, aux = self._fun_with_aux(params, *fun_args, **fun_kwargs)
       num_fun_eval += 1
-      num_grad_eval += 1
 
     if descent_direction is None:
       descent_direction = tree_scalar_mul(-1.0, tree_conj(grad))
-- 
2.43.0


From d443a632614c97c5de85202783882c26caabe04b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:17:17 +0000
Subject: [PATCH 50/51] fix: Levenberg-Marquardt with geodesic acceleration
 only accepts steps that decrease the loss

---
 jaxopt/_src/levenberg_marquardt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index ce8ae2f..8797dcd 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -326,7 +326,9 @@ class LevenbergMarquardt(base.IterativeSolver):
     # Current value of loss function F=0.5*||f||^2.
     loss_next = 0.5 * jnp.sum(jnp.square(residual_next))
 
-    gain_ratio = (loss_curr - loss_next) / gain_ratio_denom
+    # With geodesic acceleration, the denominator may be negative: a step is
+    # accepted only if it decreases the loss, whatever its sign.
+    gain_ratio = (loss_curr - loss_next) / jnp.abs(gain_ratio_denom)
 
     gain_ratio_test_init_state = (params, damping_factor, increase_factor,
                                   residual, gradient, jac, jt, jtj, hess_res,
-- 
2.43.0


From 5d2d7ae9d21f2a2142d00c377ed9a6800bf23b77 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:24:49 +0000
Subject: [PATCH 51/51] fix: PolyakSGD stays finite at points where the
 gradient vanishes

---
 jaxopt/_src/polyak_sgd.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/polyak_sgd.py b/jaxopt/_src/polyak_sgd.py
index 22ed6c3..ef59b16 100644
--- a/jaxopt/_src/polyak_sgd.py
+++ b/jaxopt/_src/polyak_sgd.py
@@ -213,8 +213,15 @@ class PolyakSGD(base.StochasticSolver):
 
     grad_sqnorm = tree_l2_norm(grad, squared=True)
     if self.variant == "SPS_max":
-      stepsize = jnp.minimum(
-          (value - self.fun_min) / (grad_sqnorm + self.delta), self.max_stepsize
+      denom = grad_sqnorm + self.delta
+      # Without gradient, any stepsize will do, but it has to be finite.
+      stepsize = jnp.where(
+          denom == 0,
+          self.max_stepsize,
+          jnp.minimum(
+              (value - self.fun_min) / jnp.where(denom == 0, 1, denom),
+              self.max_stepsize,
+          ),
       )
     elif self.variant == "SPS+":
       # if grad_sqnorm is smaller than machine epsilon, we set the stepsize to 0
-- 
2.43.0

