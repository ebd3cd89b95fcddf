From 4dba08394a7e36370f50a88b09f6c0e2287127cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 001/120] fix: identity_quadratic.noneify referred to a missing
 attribute center_term

---
 regreg/identity_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 8762578..bac655d 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -83,8 +83,8 @@ class identity_quadratic(object):
             self.constant_term = 0
         if self.linear_term is not None and all(self.linear_term == 0):
             self.linear_term = None
-        if self.center is not None and all(self.center_term == 0):
-            self.center_term = None
+        if self.center is not None and all(self.center == 0):
+            self.center = None
 
     def zeroify(self):
         for a in ['coef', 'center', 'linear_term', 'constant_term']:
-- 
2.43.0


From a5e9c40ebf558902a4b241d6148578d2d53a3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 002/120] fix: conjugate of a linear identity_quadratic is the
 indicator of its linear term

---
 regreg/identity_quadratic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index bac655d..e6006dd 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -250,7 +250,7 @@ class identity_quadratic(object):
                                       0,
                                       -a.constant_term)
         else:
-            # possible import problem here
-            from ..atoms.cones import zero_constraint
+            # imported here to avoid a circular import
+            from .atoms.cones import zero_constraint
             q = identity_quadratic(0,0,0,-a.constant_term)
-            return zero_constraint(a.linear_term.shape, offset=-a.linear_term, quadratic=q)
+            return zero_constraint(a.linear_term.shape, offset=a.linear_term, quadratic=q)
-- 
2.43.0


From b3b6447b2ed54cb5a8aeb08e4f4eb78ae8e5504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 003/120] fix: nonnegativity feasibility tolerance had the
 wrong sign in constrained_max, constrained_positive_part

---
 regreg/atoms/seminorms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index df6af7e..0992d4e 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -947,7 +947,7 @@ class constrained_max(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < 0 - self.tol)
         v = lagrange * np.max(arg)
         if not anyneg or not check_feasibility:
             return v
@@ -956,7 +956,7 @@ class constrained_max(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < 0 - self.tol)
         inside = np.max(arg) <= bound * (1 + self.tol)
         if inside and not anyneg:
             return 0
@@ -1025,7 +1025,7 @@ class constrained_positive_part(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < 0 - self.tol)
         v = np.maximum(arg, 0).sum()
         if not anyneg or not check_feasibility:
             return v * lagrange
-- 
2.43.0


From 89981a2d4277049c8abc68841d29636eaf8afe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 004/120] fix: points on the boundary of the ball are feasible
 for max_positive_part, constrained_positive_part

---
 regreg/atoms/seminorms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 0992d4e..8d63cba 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -1035,7 +1035,7 @@ class constrained_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         value = self.seminorm(arg, lagrange=1, check_feasibility=True)
-        if value >= bound * (1 + self.tol):
+        if value > bound * (1 + self.tol):
             return np.inf
         return 0
 
@@ -1112,7 +1112,7 @@ class max_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         v = np.max(np.maximum(arg,0))
-        if v >= bound * (1 + self.tol):
+        if v > bound * (1 + self.tol):
             return np.inf
         return 0
 
-- 
2.43.0


From cd27db6f35addb596771449e640f211895cbd732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 005/120] fix: composite.proximal_optimum raised TypeError and
 counted the quadratic twice

---
 regreg/problems/composite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 13a4b6f..65759f0 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -89,10 +89,8 @@ class composite(object):
         and nonsmooth objective the value.
         """
         argmin = self.proximal(quadratic)
-        if self.quadratic is None:
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) 
-        else: 
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) + self.quadratic.objective(argmin, 'func') 
+        # self.quadratic is part of self.nonsmooth_objective
+        return argmin, quadratic.objective(argmin, 'func') + self.nonsmooth_objective(argmin)
 
     def proximal_step(self, quadratic, prox_control=None):
         """
-- 
2.43.0


From e4e19f875f6a840f18625f6f2eb89088ef2eb7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 006/120] fix: setting an offset of zero left the previous
 offset in place

---
 regreg/problems/composite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 65759f0..02175c1 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -43,6 +43,8 @@ class composite(object):
             value = asarray(value)
             if npany(value != 0):
                 self._offset = value
+            else:
+                self._offset = None
         else:
             self._offset = None
 
-- 
2.43.0


From 2c83384055953f74753e12e4d079a467d46602cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 007/120] fix: l2_epigraph projections of points inside the
 cone or with zero coefficients

---
 regreg/atoms/cones.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 1beb2f9..5aea10d 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -469,8 +469,12 @@ class l2_epigraph(cone):
         norm = x[-1]
         coef = x[:-1]
         norm_coef = np.linalg.norm(coef)
+        if norm_coef <= norm: # already in the cone
+            return np.array(x)
         thold = (norm_coef - norm) / 2.
         result = np.zeros_like(x)
+        if norm_coef <= -norm: # in the polar cone
+            return result
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return result
@@ -513,8 +517,12 @@ class l2_epigraph_polar(cone):
         norm = arg[-1]
         coef = arg[:-1]
         norm_coef = np.linalg.norm(coef)
+        if norm_coef <= norm: # already in the cone
+            return -arg
         thold = (norm_coef - norm) / 2.
         result = np.zeros_like(arg)
+        if norm_coef <= -norm: # in the polar cone
+            return result
         result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return -result
-- 
2.43.0


From 7e31e982781a8605ed035d7815cb7f38529b7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 008/120] fix: linear_constraints used names that were never
 imported

---
 regreg/atoms/linear_constraints.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 17920cd..7431761 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -3,7 +3,8 @@ from scipy import sparse
 from copy import copy
 import warnings
 
-from ..problems.composite import composite, nonsmooth
+from ..problems.composite import composite, nonsmooth, smooth_conjugate
+from ..affine import linear_transform
 from .cones import cone, affine_cone
 from ..identity_quadratic import identity_quadratic
 from ..atoms import _work_out_conjugate
@@ -94,8 +95,10 @@ class linear_constraint(cone):
     def linear(cls, linear_operator, basis, diag=False,
                linear_term=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        cone = cls(l.input_shape, basis,
-                   linear_term=linear_term, offset=offset)
+        if offset is None:
+            offset = 0
+        cone = cls(l.output_shape, basis, offset=-offset,
+                   quadratic=identity_quadratic(0, 0, linear_term, 0))
         return affine_cone(cone, l)
 
 @objective_doc_templater()
-- 
2.43.0


From 9bbb38d8f5e043ca902a7a4480353c3d57a1831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 009/120] fix: projection_complement.constraint tested the
 wrong residual

---
 regreg/atoms/linear_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 7431761..591c363 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -162,7 +162,7 @@ class projection_complement(linear_constraint):
     @doc_template_user
     def constraint(self, x):
         projx = self.cone_prox(x)
-        incone = np.linalg.norm(projx) / max([np.linalg.norm(x),1]) < self.tol
+        incone = np.linalg.norm(x-projx) / max([np.linalg.norm(x),1]) < self.tol
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From 1a053bd945188bb5ac7dd62fd6f8e0032c66ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 010/120] fix: group_lasso.check_KKT used undefined names and
 group indices as labels

---
 regreg/atoms/group_lasso.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 77ff69b..955789e 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -781,12 +781,12 @@ def check_KKT(glasso,
     """
 
     failing = False
-    norm_soln = np.linalg.norm(solutionn)
+    norm_soln = np.linalg.norm(solution)
     active = glasso.terms(solution) > tol * norm_soln
     inactive_groups = np.nonzero(~active)[0]
-    active_groups = np.nozero(active)[0]
+    active_groups = np.nonzero(active)[0]
     for g in active_groups:
-        group = glasso.groups == g
+        group = glasso.groups == glasso._group_inv_dict[g]
         subgrad_g = -grad[group]
         soln_g = solution[group]
         if np.linalg.norm(subgrad_g) < glasso.lagrange * glasso._weight_array[g] * (1 - tol):
@@ -794,7 +794,7 @@ def check_KKT(glasso,
         if np.linalg.norm(subgrad_g / np.linalg.norm(subgrad_g) - soln_g / np.linalg.norm(soln_g)) > tol:
             failing = True
     for g in inactive_groups:
-        group = glasso.groups == g
+        group = glasso.groups == glasso._group_inv_dict[g]
         subgrad_g = -grad[group]
         if np.linalg.norm(subgrad_g) > glasso.lagrange * glasso._weight_array[g] * (1 + tol):
             failing = True
-- 
2.43.0


From 7b441ad5cca97e604c6e66dce54c58c6529dd818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 011/120] fix: sparse group lasso dual feasibility ignored the
 bound and returned a truth value

---
 regreg/atoms/sparse_group_lasso.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index e11fb5b..117beef 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -250,7 +250,8 @@ class sparse_group_lasso_dual(sparse_group_lasso):
                                              self.groups,
                                              self.lasso_weights,
                                              weights=self.weights,
-                                             lagrange=self.bound)
+                                             lagrange=(1. if self.bound is None
+                                                       else self.bound))
          return self._base_conjugate_atom
 
      @doc_template_user
@@ -263,7 +264,10 @@ class sparse_group_lasso_dual(sparse_group_lasso):
      @doc_template_user
      def constraint(self, x, bound=None):
          bound = seminorm.constraint(self, x, bound=bound)
-         return inside_set(self.base_conjugate, x)
+         proj = self.bound_prox(x, bound=bound)
+         if np.linalg.norm(proj - x) > max(np.linalg.norm(x), 1) * 1.e-7:
+             return np.inf
+         return 0
 
      @doc_template_user
      def lagrange_prox(self, x,  lipschitz=1, lagrange=None):
-- 
2.43.0


From b45d4b7c5c84d9cbf68593b2ff474f5a88b36df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 012/120] fix: sparse_group_block.constraint raised TypeError
 and terms used the l1 weight twice

---
 regreg/atoms/sparse_group_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 14bdeae..a0fd168 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -70,7 +70,7 @@ class sparse_group_block(l1_l2):
     def constraint(self, x):
         x = x.reshape(self.shape)
         l1_norms = np.fabs(x).sum()
-        l2_norms = np.sqrt(np.sum(x**2), 1).sum()
+        l2_norms = np.sqrt(np.sum(x**2, 1)).sum()
         norm_sum = self.l1_weight * l1_norms + self.l2_weight * l2_norms
         if norm_sum <= self.bound * (1 + self.tol):
             return 0
@@ -140,7 +140,7 @@ class sparse_group_block(l1_l2):
         
         """
         terms = (np.fabs(arg).sum(1) * self.l1_weight + 
-                 np.sqrt((arg**2).sum(1)) * self.l1_weight)
+                 np.sqrt((arg**2).sum(1)) * self.l2_weight)
         return terms
 
 class sparse_group_block_dual(sparse_group_block):
-- 
2.43.0


From c0bd1c378988ad89d50b883daffb56b5fe5cd340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 013/120] fix: block norms: zero rows gave nan, xrange and
 missing level in the generic row sums

---
 regreg/atoms/block_norms.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 7abb416..5632a48 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -77,7 +77,7 @@ class block_sum(seminorms.seminorm):
     def constraint(self, x):
         # XXX should we check feasibility here?
         x = x.reshape(self.shape)
-        v = np.sum(self.seminorms(x, check_feasibility=False))
+        v = np.sum(self.seminorms(x, lagrange=1., check_feasibility=False))
         if v <= self.bound * (1 + self.tol):
             return 0
         return np.inf
@@ -87,7 +87,7 @@ class block_sum(seminorms.seminorm):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, x, lipschitz, lagrange)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.lagrange_prox(x[i], lipschitz=lipschitz,
                                            lagrange=lagrange)
         return v
@@ -201,7 +201,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.bound_prox(self, x,
                                       bound=bound)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.bound_prox(x[i], 
                                         bound=bound)
         return v
@@ -283,7 +283,7 @@ class linf_l2(block_max):
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
         v = arg.copy()
-        v[norm >= bound] *= bound / norm[norm >= bound][:,np.newaxis]
+        v[norm > bound] *= bound / norm[norm > bound][:,np.newaxis]
         return v
 
     @doc_template_user
@@ -296,7 +296,7 @@ class linf_l2(block_max):
             proj_factor = (norm - cut) * (norm > cut)
         else:
             proj_factor = arg
-        factor = (norm - proj_factor) / norm
+        factor = (norm - proj_factor) / (norm + (norm == 0))
         v = arg.copy()
         v *= factor[:,np.newaxis]
         return v
@@ -466,7 +466,7 @@ class l1_l2(block_sum):
         arg = arg.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         norm = np.sqrt((arg**2).sum(1))
-        mult = np.maximum(norm - lagrange / lipschitz, 0) / norm
+        mult = np.maximum(norm - lagrange / lipschitz, 0) / (norm + (norm == 0))
         return arg * mult[:, np.newaxis]
 
     @doc_template_user
@@ -480,7 +480,7 @@ class l1_l2(block_sum):
             proj_factor = (norm - cut) * (norm > cut)
         else:
             proj_factor = arg
-        factor = proj_factor / norm
+        factor = proj_factor / (norm + (norm == 0))
         v = arg.copy()
         v *= factor[:,np.newaxis]
         return v
-- 
2.43.0


From bdc3a567dde886569655687423aff976be4779df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 014/120] fix: mixed lasso kernels: 0/0 at zero l1 coefficients
 and unsigned l1 terms in ball/epigraph

---
 regreg/atoms/mixed_lasso_cython.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index d96d53f..3f93d1f 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -47,9 +47,7 @@ def mixed_lasso_lagrange_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = (prox_center[l1_penalty] * 
-                              np.minimum(1, implied_bound / 
-                                         np.fabs(prox_center[l1_penalty])))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -implied_bound, implied_bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(implied_bound, 
                                            prox_center[positive_part])
@@ -87,7 +85,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1, bound / np.fabs(prox_center[l1_penalty]))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -bound, bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -344,7 +342,7 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         norms[j] = np.sqrt(norms[j])
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = prox_center[l1_penalty]
-    l1term = l1term[l1term != 0]
+    l1term = np.fabs(l1term[l1term != 0])
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] ppterm = prox_center[positive_part]
     ppterm = ppterm[ppterm > 0]
@@ -370,7 +368,7 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
             if groups[i] >= 0:
                 projection[i] = prox_center[i] * factors[groups[i]]
 
-        projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1., cut / np.fabs(prox_center[l1_penalty]))
+        projection[l1_penalty] = np.clip(prox_center[l1_penalty], -cut, cut)
         projection[unpenalized] = 0
         projection[positive_part] = np.minimum(cut, prox_center[positive_part])
         projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -408,7 +406,7 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
         norms[j] = np.sqrt(norms[j])
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = x[l1_penalty]
-    l1term = l1term[l1term != 0]
+    l1term = np.fabs(l1term[l1term != 0])
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] ppterm = x[positive_part]
     ppterm = ppterm[ppterm > 0]
@@ -437,7 +435,7 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
                 if groups[i] >= 0:
                     projection[i] = x[i] * factors[groups[i]]
 
-            projection[l1_penalty] = x[l1_penalty] * np.minimum(1., cut / np.fabs(x[l1_penalty]))
+            projection[l1_penalty] = np.clip(x[l1_penalty], -cut, cut)
             projection[unpenalized] = 0
             projection[positive_part] = np.minimum(cut, x[positive_part])
             projection[nonnegative] = np.minimum(x[nonnegative], 0)
-- 
2.43.0


From dd67aeeacc9fd9df6176938d64d2aaa64f7122b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 015/120] fix: mixed_lasso_dual.proximal returned its internal
 work array

---
 regreg/atoms/mixed_lasso_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index 3f93d1f..f62468f 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -90,7 +90,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
 
-    return projection
+    return projection.copy()
 
 def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x, 
                          cnp.ndarray[DTYPE_intp_t, ndim=1] l1_penalty, 
-- 
2.43.0


From 59bbd0722ec0eccf75fb574acf35b42ee77e8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 016/120] fix: mixed lasso applied its offset repeatedly and
 got feasibility wrong

---
 regreg/atoms/mixed_lasso.py         | 20 ++++++++++----------
 regreg/atoms/mixed_lasso_cython.pyx | 10 +++++++---
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 0f9b969..51d6337 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -152,8 +152,9 @@ class mixed_lasso(atom):
         """
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        if self.seminorm(x) <= bound * (1 + self.tol):
+            return 0
+        return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -162,12 +163,11 @@ class mixed_lasso(atom):
         return v
 
     def seminorm(self, x, check_feasibility=False):
-        x_offset = self.apply_offset(x)
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso(x_offset,
+        v = seminorm_mixed_lasso(x,
                                  self._l1_penalty,
                                  self._unpenalized,
                                  self._positive_part,
@@ -326,8 +326,9 @@ class mixed_lasso_dual(mixed_lasso):
     def constraint(self, x, bound=None):
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        if self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol):
+            return 0
+        return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -339,20 +340,19 @@ class mixed_lasso_dual(mixed_lasso):
         return v
 
     def seminorm(self, x, lagrange=1, check_feasibility=False):
-        x_offset = self.apply_offset(x)
-
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso_dual(x_offset, 
+        v = seminorm_mixed_lasso_dual(x, 
                                       self._l1_penalty,
                                       self._unpenalized,
                                       self._positive_part,
                                       self._nonnegative,
                                       self._groups,
                                       self._weight_array,
-                                      self._norms_cython)
+                                      self._norms_cython,
+                                      check_feasibility=check_feasibility)
         return v 
 
     def proximal(self, proxq, prox_control=None):
diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index f62468f..bf045d6 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -124,10 +124,10 @@ def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     tol = 1.e-5
     if check_feasibility:
         xpos = x[positive_part]
-        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < tol:
+        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < -tol:
             value = np.inf
         xnn = x[nonnegative]
-        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < nntol:
+        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < -nntol:
             value = np.inf
 
     return value
@@ -310,7 +310,11 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if check_feasibility:
         xnn = x[nonnegative]
         if xnn.shape not in [(), (0,)]:
-            if xnn.min() < -nntol:
+            if xnn.max() > nntol:
+                value = np.inf
+        xun = x[unpenalized]
+        if xun.shape not in [(), (0,)]:
+            if np.fabs(xun).max() > nntol:
                 value = np.inf
 
     return value
-- 
2.43.0


From b3a09b79aec4956d276ef048e7a04c5d4577fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 017/120] fix: mixed lasso strong rule weighted only part of
 the threshold

---
 regreg/atoms/mixed_lasso_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index bf045d6..f92e4f6 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -160,7 +160,7 @@ def strong_set_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
 
     for j in range(weights.shape[0]):
         norms[j] = np.sqrt(norms[j])
-        mixed_value[j] = norms[j] < weights[j] * (slope_estimate+1) * lagrange_new - slope_estimate*lagrange_cur
+        mixed_value[j] = norms[j] < weights[j] * ((slope_estimate+1) * lagrange_new - slope_estimate*lagrange_cur)
 
     for i in range(p):
         if groups[i] >= 0:
-- 
2.43.0


From 111d3af824d1d6e6467fa0413fffae344b22b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:01 +0000
Subject: [PATCH 018/120] fix: losses with their own case weights multiplied
 the caller's case weights in place

---
 regreg/smooth/binary.py | 14 +++++++-------
 regreg/smooth/cox.py    |  4 ++--
 regreg/smooth/glm.py    | 12 ++++++------
 regreg/smooth/mglm.py   |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 8d0a9b3..e3a826d 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -92,7 +92,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -169,7 +169,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         if np.max(x) > 1e2:
             overflow = True
@@ -350,7 +350,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -417,7 +417,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -590,7 +590,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -660,7 +660,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -826,7 +826,7 @@ class huber_svm(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         huber_arg = (2 * self.successes - 1) * param # first encode binary as \pm 1
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f977389..f9d11f7 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -97,7 +97,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         censoring = self.censoring
 
@@ -170,7 +170,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         eta = natural_param # shorthand
         eta = self.apply_offset(eta)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e2acad2..55d7d02 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -913,7 +913,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         natural_param = self.apply_offset(natural_param)
         resid = natural_param - self.response 
@@ -957,7 +957,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
         return self.scale(np.ones_like(natural_param) * cw)
 
     def get_data(self):
@@ -1104,7 +1104,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -1151,7 +1151,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         return self.scale(cw * np.exp(x))
             
@@ -1289,7 +1289,7 @@ class huber_loss(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         resid = param - self.response 
@@ -1481,7 +1481,7 @@ class stacked_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         linpred = natural_param # shorthand
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a2e738a..1a78de6 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -345,7 +345,7 @@ class stacked_common_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
-- 
2.43.0


From 2456d194705deeecc0a8c9c67fc64ca0a6965f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:11 +0000
Subject: [PATCH 019/120] fix: Huberized SVM loss value was inconsistent with
 its gradient unless the smoothing parameter was 1

---
 regreg/smooth/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index e3a826d..370fdb8 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -926,5 +926,5 @@ def _huber_svm(z, smoothing_parameter):
     eps = smoothing_parameter
     arg = (1 - z) / eps # function of (2 * y - 1) * eta when y is binary
     proj_arg = (0 < arg) * (arg < 1) * arg + (arg >= 1) 
-    return arg * proj_arg - eps * proj_arg**2 / 2, -proj_arg
+    return (1 - z) * proj_arg - eps * proj_arg**2 / 2, -proj_arg
 
-- 
2.43.0


From 3e9ccdb2b8252be82c54c6799b11c69da2e6b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 020/120] fix: binary and Poisson losses ignored their offset
 in value or Hessian; logistic Hessian wrong with large linear predictors

---
 regreg/smooth/binary.py | 7 ++++++-
 regreg/smooth/glm.py    | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 370fdb8..d792b11 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -164,6 +164,7 @@ class logistic_loglike(smooth_atom):
         """
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -176,7 +177,7 @@ class logistic_loglike(smooth_atom):
             not_overflow_ind = np.where(x <= 1e2)[0]
             exp_x = np.zeros_like(x)
             exp_x[not_overflow_ind] = np.exp(x[not_overflow_ind])
-            exp_x[~not_overflow_ind] = np.exp(100)
+            exp_x[x > 1e2] = np.exp(100)
         else:
             overflow = False
             exp_x = np.exp(x)
@@ -353,6 +354,7 @@ class probit_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
 
         prob = normal_dbn.cdf(x)
@@ -412,6 +414,7 @@ class probit_loglike(smooth_atom):
         """
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -593,6 +596,7 @@ class cloglog_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         cutoff = 5
         x_ = np.clip(x, -cutoff, cutoff) # to prevent overflow
@@ -655,6 +659,7 @@ class cloglog_loglike(smooth_atom):
         """
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 55d7d02..924ad51 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1146,6 +1146,7 @@ class poisson_loglike(smooth_atom):
             evaluated at `natural_param`.
         """
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
-- 
2.43.0


From 2b4b5150fe3677e0db10f641d028cf8bfb9f817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 021/120] fix: glm.hessian ignored the offset and failed for
 sparse designs

---
 regreg/smooth/glm.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 924ad51..61d9bbe 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -225,7 +225,7 @@ class glm(smooth_atom):
 
         """
 
-        linpred = self.linear_predictor(beta)
+        linpred = self.linear_predictor(self.apply_offset(beta))
         X = self.data[0]
         if self._is_transform:
             raise ValueError('refusing to form Hessian for arbitrary affine_transform, use an ndarray or scipy.sparse')
@@ -235,17 +235,20 @@ class glm(smooth_atom):
                 raise ValueError('loss has no hessian or hessian_mult method')
             right_mult = np.zeros(X.shape)
             for j in range(X.shape[1]):
+                X_j = X[:,j]
+                if sparse.issparse(X_j):
+                    X_j = X_j.toarray().reshape(-1)
                 right_mult[:,j] = self.saturated_loss.hessian_mult(linpred, 
-                                                                   X[:,j], 
+                                                                   X_j,
                                                                    case_weights=self.case_weights)
         else:
             W = self.saturated_loss.hessian(linpred, 
                                             case_weights=self.case_weights)
-            right_mult = W[:,None] * X
-        if not sparse.issparse(X): # assuming it is an ndarray
-            return X.T.dot(right_mult)
-        else:
-            return X.T * right_mult
+            if sparse.issparse(X):
+                right_mult = sparse.diags(W, 0).dot(X).toarray()
+            else:
+                right_mult = W[:,None] * X
+        return X.T.dot(right_mult)
 
     def latexify(self, var=None, idx=''):
         return self.affine_atom.latexify(var=var, idx=idx)
-- 
2.43.0


From 7d80b044554d98cd036f6326c8400267fb69fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 022/120] fix: copies of losses lost their case weights or
 added the deviance constant again

---
 regreg/smooth/binary.py | 21 ++++++++++++++-------
 regreg/smooth/glm.py    |  9 ++++++---
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index d792b11..889258e 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -218,14 +218,16 @@ class logistic_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return logistic_loglike(self.shape,
+        value = logistic_loglike(self.shape,
                                 copy(successes),
                                 trials=copy(trials),
                                 coef=self.coef,
                                 offset=copy(self.offset),
-                                quadratic=copy(self.quadratic),
                                 initial=copy(self.coefs),
                                 case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant to the quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
 
     def subsample(self, case_idx):
         """
@@ -461,14 +463,16 @@ class probit_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return probit_loglike(self.shape,
+        value = probit_loglike(self.shape,
                               copy(successes),
                               trials=copy(trials),
                               coef=self.coef,
                               offset=copy(self.offset),
-                              quadratic=copy(self.quadratic),
                               initial=copy(self.coefs),
                               case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant to the quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
 
     def subsample(self, case_idx):
         """
@@ -708,14 +712,16 @@ class cloglog_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return cloglog_loglike(self.shape,
+        value = cloglog_loglike(self.shape,
                                copy(successes),
                                trials=copy(trials),
                                coef=self.coef,
                                offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
                                initial=copy(self.coefs),
                                case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant to the quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
 
     def subsample(self, case_idx):
         """
@@ -923,7 +929,8 @@ class huber_svm(smooth_atom):
                          coef=self.coef,
                          offset=copy(self.offset),
                          quadratic=copy(self.quadratic),
-                         initial=copy(self.coefs))
+                         initial=copy(self.coefs),
+                         case_weights=copy(self.case_weights))
     
     # End loss API
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 61d9bbe..f027c4d 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1169,13 +1169,15 @@ class poisson_loglike(smooth_atom):
 
     def __copy__(self):
         counts = self.data
-        return poisson_loglike(self.shape,
+        value = poisson_loglike(self.shape,
                                copy(counts),
                                coef=self.coef,
                                offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
                                initial=copy(self.coefs),
                                case_weights=copy(self.case_weights))
+        # the constructor adds the deviance constant to the quadratic
+        value.quadratic = copy(self.quadratic)
+        return value
 
     def subsample(self, case_idx):
         """
@@ -1384,7 +1386,8 @@ class huber_loss(smooth_atom):
                           coef=self.coef,
                           offset=copy(self.offset),
                           quadratic=copy(self.quadratic),
-                          initial=copy(self.coefs))
+                          initial=copy(self.coefs),
+                          case_weights=copy(self.case_weights))
 
     # End loss API
 
-- 
2.43.0


From 5ebab381308e8f2e29068e626883888ebb80b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 023/120] fix: multinomial losses ignored their own case
 weights, and subsampling overwrote them

---
 regreg/smooth/mglm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 1a78de6..c1b6e60 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -830,6 +830,8 @@ class multinomial_loglike(smooth_atom):
             cw = np.ones(natural_param.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         if mode == 'both':
             ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
@@ -876,7 +878,7 @@ class multinomial_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
 class multinomial_baseline_loglike(smooth_atom):
@@ -974,6 +976,8 @@ class multinomial_baseline_loglike(smooth_atom):
             cw = np.ones(eta.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         #TODO: Using transposes to scale the rows of a 2d array - should we use an affine_transform to do this?
         #JT: should be able to do this with np.newaxis
@@ -1023,6 +1027,6 @@ class multinomial_baseline_loglike(smooth_atom):
         idx_bool = np.zeros_like(case_weights, np.bool)
         idx_bool[case_idx] = 1
 
-        case_weights *= idx_bool
+        loss_cp.case_weights = case_weights * idx_bool
         return loss_cp
 
-- 
2.43.0


From 82dba1844e7a768596397faa419c97f6698e7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 024/120] fix: stacked_loglike ignored case weights

---
 regreg/smooth/glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index f027c4d..bd08c1b 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1495,17 +1495,17 @@ class stacked_loglike(smooth_atom):
         linpred = self.apply_offset(linpred)
         if mode == 'grad':
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
             return self.scale(self._gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
-                value += self._losses[d].smooth_objective(linpred[slice], 'func')
+                value += self._losses[d].smooth_objective(linpred[slice], 'func', case_weights=cw[slice])
             return self.scale(value)
         elif mode == 'both':
             value = 0
             for d, slice in enumerate(self._slices):
-                f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
+                f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
                 self._gradient[slice] = g
                 value += f
             return self.scale(value), self.scale(self._gradient)
-- 
2.43.0


From 9323dc6dc278c8463ab441353a24e0e5742bd68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 025/120] fix: stacked losses returned their internal gradient
 buffer

---
 regreg/smooth/glm.py  | 11 ++++++-----
 regreg/smooth/mglm.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index bd08c1b..04cb16c 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1442,7 +1442,6 @@ class stacked_loglike(smooth_atom):
             idx += l.shape[0]
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -1494,21 +1493,23 @@ class stacked_loglike(smooth_atom):
 
         linpred = self.apply_offset(linpred)
         if mode == 'grad':
+            gradient = np.zeros(self.shape)
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
-            return self.scale(self._gradient)
+                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
                 value += self._losses[d].smooth_objective(linpred[slice], 'func', case_weights=cw[slice])
             return self.scale(value)
         elif mode == 'both':
+            gradient = np.zeros(self.shape)
             value = 0
             for d, slice in enumerate(self._slices):
                 f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
-                self._gradient[slice] = g
+                gradient[slice] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index c1b6e60..94a1b90 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -299,7 +299,6 @@ class stacked_common_loglike(smooth_atom):
         self.data = np.array([l.data for l in losses]).T
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -351,11 +350,12 @@ class stacked_common_loglike(smooth_atom):
 
         x = self.apply_offset(x)
         if mode == 'grad':
+            gradient = np.zeros(self.shape)
             for i in range(len(self._losses)):
-                self._gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
+                gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
                                                                        'grad', 
                                                                        case_weights=cw) 
-            return self.scale(self._gradient)
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for i in range(len(self._losses)):
@@ -364,14 +364,15 @@ class stacked_common_loglike(smooth_atom):
                                                           case_weights=cw)
             return self.scale(value)
         elif mode == 'both':
+            gradient = np.zeros(self.shape)
             value = 0
             for i in range(len(self._losses)):
                 f, g = self._losses[i].smooth_objective(x[:,i], 
                                                         'both', 
                                                         case_weights=cw)
-                self._gradient[:,i] = g
+                gradient[:,i] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
-- 
2.43.0


From 731da696c7155943e8968cdb20c4fa1c99c78a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 026/120] fix: constructors of stacked losses built the wrong
 loss or raised

---
 regreg/smooth/glm.py  | 41 ++++++++++++++++++++++++++---------------
 regreg/smooth/mglm.py | 26 +++++++++++++++-----------
 2 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 04cb16c..50d8754 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1654,9 +1654,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
+        if trials is None:
+            trials = [None] * len(successes)
+        losses = [logistic_loglike(successes[i].shape,
+                                    successes[i],
+                                    trials=trials[i],
+                                    coef=coef)
                   for i in range(len(successes))]
 
         return klass(losses,
@@ -1708,9 +1711,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [probit_loglike(successes[i],
-                                 trials[i],
-                                 coef=coef)
+        if trials is None:
+            trials = [None] * len(successes)
+        losses = [probit_loglike(successes[i].shape,
+                                  successes[i],
+                                  trials=trials[i],
+                                  coef=coef)
                   for i in range(len(successes))]
 
         return klass(losses,
@@ -1762,9 +1768,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [cloglog_loglike(successes[i],
-                                  trials[i],
-                                  coef=coef)
+        if trials is None:
+            trials = [None] * len(successes)
+        losses = [cloglog_loglike(successes[i].shape,
+                                   successes[i],
+                                   trials=trials[i],
+                                   coef=coef)
                   for i in range(len(successes))]
 
         return klass(losses,
@@ -1811,10 +1820,10 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -1868,7 +1877,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef) 
                   for response in responses]
 
         return klass(losses,
@@ -1923,7 +1933,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef) 
                   for response in successes]
 
         return klass(losses,
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 94a1b90..b94d845 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -257,7 +257,6 @@ class mglm(glm):
         """
 
         loss = stacked_common_loglike(losses,
-                                      successes,
                                       coef=coef,
                                       offset=saturated_offset)
 
@@ -517,9 +516,12 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
+        if trials is None:
+            trials = [None] * len(successes)
+        losses = [logistic_loglike(successes[i].shape,
+                                    successes[i],
+                                    trials=trials[i],
+                                    coef=coef)
                   for i in range(len(successes))]
 
         return klass(losses,
@@ -566,10 +568,10 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -580,7 +582,7 @@ class stacked_common_loglike(smooth_atom):
     @classmethod
     def huber(klass,
               X, 
-              response,
+              responses,
               smoothing_parameter,
               case_weights=None,
               coef=1., 
@@ -623,7 +625,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef) 
                   for response in responses]
 
         return klass(losses,
@@ -678,7 +681,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef) 
                   for response in successes]
 
         return klass(losses,
-- 
2.43.0


From 5b7f26d6d49ad60abd4715fabf6e2d077a021ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 027/120] fix: Cox likelihood was nan when the weights of a
 risk set were all zero

---
 regreg/smooth/cox_fns.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/cox_fns.c b/regreg/smooth/cox_fns.c
index 3ac752a..94d082b 100644
--- a/regreg/smooth/cox_fns.c
+++ b/regreg/smooth/cox_fns.c
@@ -98,7 +98,9 @@ void _update_outer_1st(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight / *exp_accum;
+    if (censoring && case_weight > 0) { // a case with zero weight may have an empty risk set
+      cur_val = cur_val + censoring * case_weight / *exp_accum;
+    }
     outer_1st_accum = ((double *) outer_1st_accum_ptr + idx);
     *outer_1st_accum = cur_val;
   }
@@ -134,7 +136,9 @@ void _update_outer_2nd(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    if (censoring && case_weight > 0) {
+      cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    }
     outer_2nd_accum = ((double *) outer_2nd_accum_ptr + idx);
     *outer_2nd_accum = cur_val;
   }
@@ -169,7 +173,9 @@ double _cox_objective(double *linear_pred_ptr,     /* Linear term in objective *
     censoring = *((size_t *) censoring_ptr + idx);
     case_weight = *((double *) case_weight_ptr + idx);
     linear_pred = *((double *) linear_pred_ptr + idx);
-    cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    if (censoring && case_weight > 0) {
+      cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    }
   }
 
   return(cur_val);
-- 
2.43.0


From b2fb0ba573b2ebd95f9ddbe40a2f78e45b6b61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:48 +0000
Subject: [PATCH 028/120] fix: Cox gradient was the internal buffer overwritten
 by the next evaluation

---
 regreg/smooth/cox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f9d11f7..f85fa17 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -127,9 +127,9 @@ class cox_loglike(smooth_atom):
                               eta.shape[0])
 
         if mode == 'both':
-            return self.scale(F), self.scale(G)
+            return self.scale(F), self.scale(G, copy=True)
         elif mode == 'grad':
-            return self.scale(G)
+            return self.scale(G, copy=True)
         elif mode == 'func':
             return self.scale(F)
         else:
-- 
2.43.0


From 7a7cd48d3f89d24fb638b5b2307a9dfe85e1ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 029/120] fix: Cox Hessian ignored the coefficient of the loss

---
 regreg/smooth/cox.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f85fa17..94a8446 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -178,20 +178,20 @@ class cox_loglike(smooth_atom):
 
         H = np.zeros(eta.shape, float)
 
-        return cox_hessian(H,
-                           eta,
-                           right_vector,
-                           self._exp_buffer,
-                           self._exp_accum,
-                           self._expZ_accum,
-                           self._outer_1st,
-                           self._outer_2nd,
-                           cw,
-                           censoring,
-                           self._ordering,
-                           self._rankmin,
-                           self._rankmax,
-                           eta.shape[0])
+        return self.scale(cox_hessian(H,
+                                      eta,
+                                      right_vector,
+                                      self._exp_buffer,
+                                      self._exp_accum,
+                                      self._expZ_accum,
+                                      self._outer_1st,
+                                      self._outer_2nd,
+                                      cw,
+                                      censoring,
+                                      self._ordering,
+                                      self._rankmin,
+                                      self._rankmax,
+                                      eta.shape[0]))
 
     def get_data(self):
         return np.array([self.event_times, self.censoring]).T
-- 
2.43.0


From 586e2d52514a8b120622ba51ffae603b976b12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:35 +0000
Subject: [PATCH 030/120] fix: keep the products of glm.hessian sparse for
 sparse designs

---
 regreg/smooth/glm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 50d8754..3bfb3d5 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -245,10 +245,13 @@ class glm(smooth_atom):
             W = self.saturated_loss.hessian(linpred, 
                                             case_weights=self.case_weights)
             if sparse.issparse(X):
-                right_mult = sparse.diags(W, 0).dot(X).toarray()
+                right_mult = X.multiply(W[:,None])
             else:
                 right_mult = W[:,None] * X
-        return X.T.dot(right_mult)
+        hess = X.T.dot(right_mult)
+        if sparse.issparse(hess):
+            hess = hess.toarray()
+        return hess
 
     def latexify(self, var=None, idx=''):
         return self.affine_atom.latexify(var=var, idx=idx)
-- 
2.43.0


From c74ad2f6da7ad3bdb8d2de7a1043d32c46fe9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 031/120] fix: setting the data of a Cox loss kept the ordering
 of the previous event times

---
 regreg/smooth/cox.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 94a8446..1c2782e 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -35,10 +35,6 @@ class cox_loglike(smooth_atom):
 
         self.data = np.asarray([event_times, censoring]).T
 
-        self._ordering = np.argsort(self.event_times).astype(np.intp)
-        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
-        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
-
         if case_weights is not None:
             case_weights = np.asarray(case_weights).astype(float)
             if not np.all(case_weights >= 0):
@@ -200,6 +196,9 @@ class cox_loglike(smooth_atom):
         event_times, censoring = np.asarray(data).T
         self.event_times, self.censoring = (np.asarray(event_times),
                                             np.asarray(censoring).astype(np.intp))
+        self._ordering = np.argsort(self.event_times).astype(np.intp)
+        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
+        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
 
     data = property(get_data, set_data)
 
-- 
2.43.0


From 7ab6ff80f305a27918337f3998f046e91da33ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 032/120] fix: setting the data of a GLM kept the old design in
 the linear predictor

---
 regreg/smooth/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 3bfb3d5..1e9f8fa 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -74,7 +74,6 @@ class glm(smooth_atom):
 
         self.saturated_loss = loss
         self.data = X, Y
-        self.affine_atom = affine_smooth(loss, X)
         if case_weights is None:
             case_weights = np.ones(X.shape[0])
         self.case_weights = case_weights
@@ -142,6 +141,7 @@ class glm(smooth_atom):
         self._transform = astransform(X)
         self._X = X
         self._is_transform = id(self._X) == id(self._transform) # i.e. astransform was a nullop
+        self.affine_atom = affine_smooth(self.saturated_loss, X)
         self.saturated_loss.data = Y
 
     data = property(get_data, set_data, doc="Data for the general linear model.")
-- 
2.43.0


From 513edcd888bc55e2e01700cba26ab914a354127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 033/120] fix: a composition of transforms reported its offset
 only when it was zero

---
 regreg/affine/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 4289826..39ee103 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -850,7 +850,7 @@ class composition(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if not np.allclose(affine_offset, 0): 
+        if np.allclose(affine_offset, 0): 
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
-- 
2.43.0


From 0a3d97cc2472c2282478d4bb91e1f69a379a59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 034/120] fix: posneg.adjoint_map overwrote the array it had
 returned before

---
 regreg/affine/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 39ee103..f8e76ad 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -947,10 +947,8 @@ class posneg(affine_transform):
 
     def __init__(self, linear_transform):
         self.linear_transform = astransform(linear_transform)
-        # where to store output so we don't recreate arrays 
         self.affine_offset = None
         self.input_shape = (2,) + self.linear_transform.input_shape
-        self._adjoint_output = np.zeros(self.input_shape)
         self.output_shape = self.linear_transform.output_shape
 
     def linear_map(self, x):
@@ -961,7 +959,7 @@ class posneg(affine_transform):
         return self.linear_map(x)
 
     def adjoint_map(self, x):
-        u = self._adjoint_output
+        u = np.zeros(self.input_shape)
         u[0] = self.linear_transform.adjoint_map(x)
         u[1] = -u[0]
         return u
-- 
2.43.0


From a10a7b1359b03f6a5d85c8fff0ab72092390e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 035/120] fix: selector.adjoint_map overwrote the array it had
 returned before

---
 regreg/affine/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index f8e76ad..464facf 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -329,12 +329,11 @@ class selector(linear_transform):
         return self.affine_transform.affine_map(x_indexed)
 
     def adjoint_map(self, u):
-        if not hasattr(self, "_output"):
-            self._output = np.zeros(self.initial_shape)
+        output = np.zeros(self.initial_shape)
         if self.reshape is not None:
-            u.shape = self.affine_transform.output_shape
-        self._output[self.index_obj] = self.affine_transform.adjoint_map(u)
-        return self._output
+            u = u.reshape(self.affine_transform.output_shape)
+        output[self.index_obj] = self.affine_transform.adjoint_map(u)
+        return output
 
 class scaler(linear_transform):
 
-- 
2.43.0


From 2bab69c7bfa1e5fbae0ab27f355097468724873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 036/120] fix: give every transform an affine_offset so that it
 can be wrapped

---
 regreg/affine/__init__.py   | 3 +++
 regreg/affine/block_maps.py | 8 ++++++++
 regreg/affine/multiscale.py | 1 +
 3 files changed, 12 insertions(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 464facf..11e25b4 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -339,6 +339,7 @@ class scaler(linear_transform):
 
     def __init__(self, scalings):
         self.scalings = np.asarray(scalings)
+        self.affine_offset = None
         self.input_shape = self.output_shape = self.scalings.shape
 
     def linear_map(self, x):
@@ -358,6 +359,7 @@ class reshape(linear_transform):
     """
 
     def __init__(self, input_shape, output_shape):
+        self.affine_offset = None
         self.input_shape = input_shape
         self.output_shape = output_shape
 
@@ -463,6 +465,7 @@ class add_intercept(affine_transform):
         self._transform = astransform(transform)
         self.input_shape = (self._transform.input_shape[0] + 1,) # assumes a vector input, 
         self.output_shape = self._transform.output_shape
+        self.affine_offset = self._transform.affine_offset
         self.linear_operator = None
         
     def affine_map(self, x): # first coordinate is intercept
diff --git a/regreg/affine/block_maps.py b/regreg/affine/block_maps.py
index 995d56c..995a9fa 100644
--- a/regreg/affine/block_maps.py
+++ b/regreg/affine/block_maps.py
@@ -54,6 +54,10 @@ class block_columns(affine_transform):
             raise ValueError('output of transforms should be stackable')
 
         self.output_shape = _buffer.shape
+        if np.allclose(_buffer, 0):
+            self.affine_offset = None
+        else:
+            self.affine_offset = _buffer
         self._slices = []
         idx = 0
         for offset in self._offsets:
@@ -146,6 +150,10 @@ class block_rows(affine_transform):
             raise ValueError('output of transforms should be the same and hstackable')
 
         self.output_shape = self._offset.shape
+        if np.allclose(self._offset, 0):
+            self.affine_offset = None
+        else:
+            self.affine_offset = self._offset
 
     def affine_map(self, arg):
         
diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index dfdd7e5..e22b897 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -54,6 +54,7 @@ class multiscale(affine_transform):
         else:
             self._all = False
         self.sizes = self.slices['end'] - self.slices['start'] * 1.
+        self.affine_offset = None
         self.input_shape = (p,)
         self.output_shape = (len(self.slices),)
 
-- 
2.43.0


From 780ccb5ea61a8a131610394542d75b97059a7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 037/120] fix: residual and scalar_multiply dropped the offset
 of their transform

---
 regreg/affine/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 11e25b4..6a6afef 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -827,6 +827,8 @@ class residual(affine_transform):
         self.input_shape = self.transform.input_shape
         self.output_shape = self.transform.output_shape
         self.affine_offset = None
+        if self.transform.affine_offset is not None:
+            self.affine_offset = -self.transform.affine_offset
         if not self.input_shape == self.output_shape:
             raise ValueError('output and input shapes should be the same to compute residual')
 
@@ -924,6 +926,8 @@ class scalar_multiply(affine_transform):
         self.input_shape, self.output_shape = (atransform.input_shape, atransform.output_shape)
         self.scalar = scalar
         self.affine_offset = None
+        if atransform.affine_offset is not None:
+            self.affine_offset = atransform.affine_offset * scalar
         self._atransform = atransform
 
     def affine_map(self, x):
-- 
2.43.0


From 95bf400d51fec2ff5e76fab10d793037a5a9f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 038/120] fix: normalize failed for sparse matrices that are
 not centered

---
 regreg/affine/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 6a6afef..b165322 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -427,9 +427,7 @@ def normalize(transform,
         if not sparseM:
             col_means = M.mean(0)
         else:
-            tmp = M.copy()
-            col_means = np.asarray(tmp.mean(0)).reshape(-1)
-            tmp.data **= 2
+            col_means = np.asarray(M.mean(0)).reshape(-1)
     else:
         col_means = np.zeros(M.shape[1])
         ddof = ddof - 1
@@ -438,6 +436,8 @@ def normalize(transform,
         if not sparseM:
             col_scales = np.sqrt((np.sum(M**2,0) - n * col_means**2) / (n - ddof)) 
         else:
+            tmp = M.copy()
+            tmp.data **= 2
             col_scales = np.asarray(np.sqrt((np.asarray(tmp.sum(0)).reshape(-1) -
                                              n * col_means**2) / (n - ddof))).reshape(-1)
         nonzero_scales = col_scales > 0
-- 
2.43.0


From 2194d12b9cc1bc827307a7720374e8bc5d4e5682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 039/120] fix: trend_filter_inverse.adjoint_map summed matrices
 along the wrong axis

---
 regreg/affine/fused_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index 9804fec..b957f12 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -120,7 +120,7 @@ class trend_filter_inverse(affine_transform):
         if x.ndim == 2:
             # assuming m is the first axis
             x = x - x.mean(0)[np.newaxis,:]
-            C = np.cumsum(x[1:][::-1], 1)[::-1]
+            C = np.cumsum(x[1:][::-1], 0)[::-1]
             return C * self.steps[:,np.newaxis]
 
 
-- 
2.43.0


From e5ea93e937bcede04534ce00546b6a3eba21bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 040/120] fix: trend_filter and its inverse used unsorted knots
 as if they were sorted

---
 regreg/affine/fused_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index b957f12..ec47c8a 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -56,7 +56,7 @@ class trend_filter(affine_transform):
         self.knots = np.sort(knots)
         self.steps = self.knots[1:] - self.knots[:-1]
 
-        self.linear_transform = difference_transform(knots, order=order, sorted=True,
+        self.linear_transform = difference_transform(self.knots, order=order, sorted=True,
                                                      transform=True)
         self.affine_offset = None
         self.input_shape = self.linear_transform.input_shape
@@ -85,7 +85,7 @@ class trend_filter_inverse(affine_transform):
         if order != 1:
             raise ValueError('pseudo inverse only worked out for first order')
             
-        dtransform = difference_transform(knots, order=order, sorted=True,
+        dtransform = difference_transform(self.knots, order=order, sorted=True,
                                           transform=True)
 
         self.affine_offset = None
-- 
2.43.0


From 8f9fed1dace546fe68974cf0af6b2abfce3c69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 041/120] fix: aslinear swapped the input and output shapes

---
 regreg/affine/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index b165322..fb1e0b5 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -755,8 +755,8 @@ class aslinear(linear_transform):
     def __init__(self, transform):
         self._transform = astransform(transform)
         self.affine_offset = None
-        self.input_shape = self._transform.output_shape
-        self.output_shape = self._transform.input_shape
+        self.input_shape = self._transform.input_shape
+        self.output_shape = self._transform.output_shape
 
     def linear_map(self, x):
         return self._transform.linear_map(x)
-- 
2.43.0


From 79adc8878ca9026048910c9a994c70759287af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 042/120] fix: affine_atom subtracted the offset of its
 transform instead of adding it

---
 regreg/atoms/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 8d02ba4..690ca3c 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -5,7 +5,7 @@ import numpy as np
 
 from ..identity_quadratic import identity_quadratic
 from ..problems.composite import nonsmooth
-from ..affine import (linear_transform, identity as identity_transform, 
+from ..affine import (linear_transform, aslinear, identity as identity_transform, 
                     affine_transform)
 from ..smooth import affine_smooth
 from ..objdoctemplates import objective_doc_templater
@@ -116,12 +116,16 @@ class affine_atom(object):
         # the atom. in this way, the affine_transform is actually
         # always linear
         if atransform.affine_offset is not None:
+            # (the offset of an atom is subtracted from its argument)
             if self.atom.offset is not None:
-                self.atom.offset += atransform.affine_offset
+                self.atom.offset = self.atom.offset - atransform.affine_offset
             else:
-                self.atom.offset = atransform.affine_offset
-            ltransform = linear_transform(atransform.linear_operator,
-                                          diag=atransform.diagD)
+                self.atom.offset = -atransform.affine_offset
+            if getattr(atransform, 'linear_operator', None) is not None:
+                ltransform = linear_transform(atransform.linear_operator,
+                                              diag=atransform.diagD)
+            else:
+                ltransform = linear_transform(aslinear(atransform))
         else:
             ltransform = atransform
         self.linear_transform = ltransform
-- 
2.43.0


From d6e835ccacb4d8ddcb012957052e5649814fb289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 043/120] fix: vstack and product could not stack transforms
 with matrix output

---
 regreg/affine/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index fb1e0b5..2fa0589 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -547,20 +547,20 @@ class vstack(affine_transform):
         self.affine_offset = np.empty(self.output_shape)
         x = np.zeros(self.input_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            self.affine_offset[g] = t.affine_map(x)
+            self.affine_offset[g] = t.affine_map(x).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
             
     def linear_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         return result
 
     def affine_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -680,7 +680,7 @@ class product(affine_transform):
         self.affine_offset = np.zeros(self.output_shape)
         for g, s, t in zip(self.output_slices, self.input_shapes,
                            self.transforms):
-            self.affine_offset[g] = t.affine_map(np.zeros(s))
+            self.affine_offset[g] = t.affine_map(np.zeros(s)).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
 
@@ -690,7 +690,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         return result
 
     def affine_map(self, x):
@@ -699,7 +699,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -710,8 +710,8 @@ class product(affine_transform):
         for og, ig, t, s in zip(self.output_slices,
                                 self.input_slices, 
                                 self.transforms,
-                                self.input_shapes):
-            result[ig] = t.adjoint_map(u[og]).reshape(-1)
+                                self.output_shapes):
+            result[ig] = t.adjoint_map(u[og].reshape(s)).reshape(-1)
         return result
 
 
-- 
2.43.0


From 26ebda9267b29bef39fedbccdb33d03fbe60f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 044/120] fix: the optimum reported by smooth.solve left out
 the quadratic that was added

---
 regreg/problems/composite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 02175c1..ec6c2dc 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -216,10 +216,11 @@ class smooth(composite):
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
         self.solver = FISTA(self)
         self.solver.fit(**fit_args)
+        optimum = self.objective(self.coefs)
         self.quadratic = oldq
 
         if return_optimum:
-            return self.objective(self.coefs), self.coefs
+            return optimum, self.coefs
         else:
             return self.coefs
 
-- 
2.43.0


From e65d3ca19adec9bcde992d344336bd4952d2c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 045/120] fix: conjugate of a smooth conjugate with a quadratic
 used undefined names

---
 regreg/problems/composite.py | 97 ++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 44 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index ec6c2dc..dec71bc 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -1,4 +1,4 @@
-from numpy import zeros, asarray, any as npany
+from numpy import zeros, asarray, any as npany, sum as npsum
 from copy import copy
 
 # local imports
@@ -302,53 +302,25 @@ class smooth_conjugate(smooth):
                 return atom
         else:
             q = self.quadratic.collapsed()
+            gamma, a = q.linear_term, q.constant_term
             if q.coef == 0:
-                newq = copy(atom.quadratic)
-                newq.constant_term -= q.constant_term
-                offset = -q.linear_term
+                # the original function translated by gamma, less a
+                atom = copy(self.atom)
+                totalq = atom.quadratic + self.smoothing_quadratic
                 if atom.offset is not None:
-                    offset -= atom.offset
-                atom = copy(atom)
-                atom.offset = offset
-                atom.quadratic = newq
+                    atom.offset = atom.offset + gamma
+                else:
+                    atom.offset = gamma
+                atom.quadratic = sq(totalq.coef, gamma, totalq.linear_term,
+                                    totalq.constant_term - a - 
+                                    npsum(totalq.linear_term * gamma))
                 return atom
-            if q.coef != 0:
+            else:
                 r = q.coef
-                sq_ = self.smoothing_quadratic
-                newq = sq_ + q.conjugate
-                new_smooth = smooth_conjugate(self.atom, quadratic=newq)
-                output = smooth(self.atom.shape,
-                                offset=None,
-                                quadratic=sq(1./r, q.linear_term, 0, 0),
-                                initial=None)
-                output.smoothed_atom = new_smooth
-
-                def smooth_objective(self, x, mode='func', check_feasibility=False):
-                    # what if self.quadratic is later changed? hmm..
-                    r = 1. / self.quadratic.coef
-                    if mode == 'func':
-                        v = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                check_feasibility=check_feasibility)
-                        return self.smoothing_quadratic.objective(x, 'func') - v
-                    elif mode == 'both':
-                        v1, g1 = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                     check_feasibility=check_feasibility)
-                        v2, g2 = self.smoothing_quadratic.objective(x, mode=mode, 
-                                                                    check_feasibility=check_feasibility)
-                        return v2-v1, g2-g1/r
-                    elif mode == 'grad':
-                        g1 = self.smoothed_atom.smooth_objective(x/r, mode='grad', 
-                                                                     check_feasibility=check_feasibility)
-                        g2 = self.smoothing_quadratic.objective(x, mode='grad', 
-                                                                    check_feasibility=check_feasibility)
-                        return g2-g1/r
-                    else:
-                        raise ValueError("mode incorrectly specified")
-                        
-                output.smooth_objective = type(output.smooth_objective)(smooth_objective,
-                                                                        output, 
-                                                                        smooth)
-                return output
+                smoothed = smooth_conjugate(self.atom, 
+                                            smoothing_quadratic=self.smoothing_quadratic + 
+                                            sq(1./r, 0, gamma/r, 0))
+                return smooth_envelope(smoothed, sq(1./r, gamma, 0, -a))
     conjugate = property(get_conjugate)
 
     def latexify(self, var=None, idx=''):
@@ -402,3 +374,40 @@ class smooth_conjugate(smooth):
 
     def proximal(self, proxq, prox_control=None):
         raise ValueError('no proximal defined')
+
+class smooth_envelope(smooth):
+
+    r"""
+    The conjugate of a smooth conjugate to which a quadratic with 
+    coefficient $r > 0$ was added: a quadratic with coefficient $1/r$ 
+    less a modified smooth conjugate evaluated at $v/r$.
+    """
+
+    def __init__(self, smoothed_atom, envelope_quadratic):
+        self.smoothed_atom = smoothed_atom
+        self.envelope_quadratic = envelope_quadratic
+        self.lipschitz = envelope_quadratic.coef
+        self.shape = smoothed_atom.shape
+        self.coefs = zeros(self.shape)
+
+    def smooth_objective(self, x, mode='both', check_feasibility=False):
+        """
+        Evaluate a smooth function and/or its gradient
+
+        if mode == 'both', return both function value and gradient
+        if mode == 'grad', return only the gradient
+        if mode == 'func', return only the function value
+        """
+        c = self.envelope_quadratic.coef
+        if mode == 'both':
+            v1, g1 = self.smoothed_atom.smooth_objective(x * c, mode='both')
+            v2, g2 = self.envelope_quadratic.objective(x, mode='both')
+            return v2 - v1, g2 - c * g1
+        elif mode == 'grad':
+            g1 = self.smoothed_atom.smooth_objective(x * c, mode='grad')
+            return self.envelope_quadratic.objective(x, mode='grad') - c * g1
+        elif mode == 'func':
+            v1 = self.smoothed_atom.smooth_objective(x * c, mode='func')
+            return self.envelope_quadratic.objective(x, mode='func') - v1
+        else:
+            raise ValueError("mode incorrectly specified")
-- 
2.43.0


From 2e952392403b4d001a93bb18db92a1d2889e24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 046/120] fix: conjugate of a quadratic loss with a matrix used
 undefined names

---
 regreg/smooth/quadratic.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index f0c48dd..2cce50e 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -169,22 +169,26 @@ class quadratic_loss(smooth_atom):
             as_quad = (identity_quadratic(self.coef, self.offset, 0, 0) + self.quadratic).collapsed()
             return smooth_conjugate(zero(self.shape, quadratic=as_quad))
         else:
-            #XXX this needs to be tested
+            # the function is 1/2 x^TAx + b^Tx + c with A, b, c as below
             sq = self.quadratic.collapsed()
+            linear_term, constant_term = sq.linear_term, sq.constant_term
             if self.offset is not None:
-                sq.linear_term -= self.scale(self.Q_transform.linear_map(self.offset))
-            if self.Q_transform.diagD:
+                Q_offset = self.scale(self.Q_transform.linear_map(self.offset))
+                linear_term = linear_term - Q_offset
+                constant_term = constant_term + np.sum(self.offset * Q_offset) / 2.
+            outq = identity_quadratic(0, 0, 0, -constant_term)
+            if self.Qdiag:
                 return quadratic_loss(self.shape,
-                                      Q=1./(self.coef*self.Q_transform.linear_operator + sq.coef),
-                                      offset=offset,
+                                      Q=1./(self.coef*np.asarray(self.Q) + sq.coef),
+                                      offset=linear_term,
                                       quadratic=outq, 
                                       coef=1.,
                                       Qdiag=True)
             elif factor:
                 return quadratic_loss(self.shape,
-                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape)),
+                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape[0])),
                                       Qdiag=False,
-                                      offset=offset,
+                                      offset=linear_term,
                                       quadratic=outq,
                                       coef=1.)
             else:
@@ -207,8 +211,8 @@ class cholesky(object):
     '''
 
     def __init__(self, Q, cholesky=None, banded=False):
-        self.input_shape = Q.shape[0]
-        self.output_shape = Q.shape[0]
+        self.input_shape = (Q.shape[0],)
+        self.output_shape = (Q.shape[0],)
         self.affine_offset = None
         self._Q = Q
         self.banded = banded
-- 
2.43.0


From 608d89029103e7f51370f3c77b493d0dc2890a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 047/120] fix: a sum of smooth functions dropped their
 quadratic parts

---
 regreg/smooth/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 1cb06d6..45b3458 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -324,6 +324,13 @@ class sum(smooth_atom):
             raise ValueError('weights should be non-negative to maintain convexity')
         self.coefs = self.atoms[0].coefs
         self.shape = self.coefs.shape
+        # the quadratic parts of the atoms are not in their smooth objective
+        for w, atom in zip(self.weights, self.atoms):
+            q = atom.quadratic.collapsed()
+            self.quadratic = self.quadratic + identity_quadratic(w * q.coef,
+                                                                 0,
+                                                                 w * q.linear_term,
+                                                                 w * q.constant_term)
 
     def smooth_objective(self, x, mode='both', check_feasibility=False):
 
-- 
2.43.0


From db5e4fa3cc71e4fd68c4cb0cd786ccb2fedef45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:23 +0000
Subject: [PATCH 048/120] fix: container.solve ignored its quadratic argument

---
 regreg/problems/container.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 526e7ca..4d6ef09 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -161,6 +161,7 @@ class container(composite):
         else:
             oldq = newq = self.quadratic
 
+        self.quadratic = newq
         solver = FISTA(self)
         solver.fit(**fit_args)
 
-- 
2.43.0


From 9b33632baa6496fa965801fe992c20e1227ca442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 049/120] fix: container.proximal ignored its own quadratic
 parts when recovering the primal solution

---
 regreg/problems/container.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 4d6ef09..4091cd5 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -105,8 +105,9 @@ class container(composite):
                 prox_defaults.update(prox_control)
             prox_control = prox_defaults
 
+            totalq = (proxq + self.quadratic + self.smoothq).collapsed()
             primal_objective = zero_nonsmooth(transform.input_shape)
-            primal_objective.quadratic = proxq + self.quadratic + self.smoothq
+            primal_objective.quadratic = totalq
             dual_objective = primal_objective.conjugate
             dualp = dual_problem(dual_objective,
                                  transform,
@@ -126,23 +127,23 @@ class container(composite):
 
             if dualopt.perform_backtrack:
                 #If backtracking set start_step
-                prox_control['start_step'] = proxq.coef / self.dual_reference_lipschitz 
+                prox_control['start_step'] = totalq.coef / self.dual_reference_lipschitz 
 
             # the lipschitz estimate comes from the
             # fact that the conjugate of a quadratic
             # with coef lipschitz is quadratic with coef 1/lipschitz
 
-            dualp.lipschitz = self.dual_reference_lipschitz / proxq.coef
+            dualp.lipschitz = self.dual_reference_lipschitz / totalq.coef
 
             if hasattr(self, 'dual_minimizer'):
                 dualopt.composite.coefs[:] = self.dual_minimizer
             history = dualopt.fit(**prox_control)
             dual_minimizer = dualopt.composite.coefs
-            lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
+            primal_minimizer = -(totalq.linear_term + transform.adjoint_map(dual_minimizer)) / totalq.coef
             if prox_control['return_objective_hist']:
-                return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz), history
+                return primal_minimizer, history
             else:
-                return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz)
+                return primal_minimizer
 
         else:
             proxq = proxq + self.quadratic + self.smoothq
-- 
2.43.0


From 850da6c891b99f78d63b412a0577a755c271766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 050/120] fix: container.proximal ignored the transform applied
 by a selector

---
 regreg/problems/container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 4091cd5..4c3d401 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -93,7 +93,9 @@ class container(composite):
         transform, atom = self.transform, self.atom
 
         if not (isinstance(transform, afidentity) or
-                isinstance(transform, afselector)):
+                (isinstance(transform, afselector) and
+                 isinstance(transform.affine_transform, afidentity) and
+                 transform.reshape is None)):
             #Default fitting parameters
             prox_defaults = {'max_its': 5000,
                              'min_its': 5,
@@ -148,9 +150,8 @@ class container(composite):
         else:
             proxq = proxq + self.quadratic + self.smoothq
             primal = atom.conjugate
-            lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
             if isinstance(transform, afselector):
-                z = x - grad / lipschitz
+                z = zero_nonsmooth(transform.input_shape).proximal(proxq)
                 z[transform.index_obj] = primal.proximal(proxq[transform.index_obj])
                 return z
             else:
-- 
2.43.0


From c2da098081a08e94c9b191efba53eb674d04cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 051/120] fix: container required at least one smooth atom

---
 regreg/problems/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 4c3d401..a6ca1d0 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -42,7 +42,7 @@ class container(composite):
         if len(self.nonsmooth_atoms) == 0:
             self.nonsmooth_atoms = [zero_nonsmooth(self.smooth_atoms[0].shape)]
 
-        self.transform, self.atom = stacked_dual(self.smooth_atoms[0].shape, *self.nonsmooth_atoms)
+        self.transform, self.atom = stacked_dual(None, *self.nonsmooth_atoms)
         self.coefs = np.zeros(self.transform.input_shape)
 
         self.smoothq = identity_quadratic(0,0,0,0)
-- 
2.43.0


From ec383323dfe857f2eb4b8d8cc5c4f7d61185f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 052/120] fix: dual_problem.solve evaluated its objective at
 the primal solution

---
 regreg/problems/dual_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index afefb88..d658823 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -82,7 +82,7 @@ class dual_problem(composite):
         solver = FISTA(self)
         solver.fit(**fit_args)
         if return_optimum:
-            return self.objective(self.primal), self.primal
+            return self.objective(self.coefs), self.primal
         return self.primal
 
     def latexify(self, var=None):
-- 
2.43.0


From 161f6741fd544cb05bb4efd64fbcff988e9543c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 053/120] fix: gengrad minimized the smooth part again in each
 proximal step

---
 regreg/problems/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index c782fef..1d03b9f 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -104,7 +104,7 @@ def gengrad(simple_problem, lipschitz, tol=1.0e-8, max_its=1000, debug=False,
     while True:
         vnew, g = simple_problem.smooth_objective(coef, 'both')
         vnew += simple_problem.nonsmooth_objective(coef)
-        newcoef = simple_problem.solve(identity_quadratic(lipschitz, coef, g, 0))
+        newcoef = simple_problem.proximal(identity_quadratic(lipschitz, coef, g, 0))
         if coef_stop:
             coef_stop_check = (np.linalg.norm(coef-newcoef) <= tol * 
                                np.max([np.linalg.norm(coef),
-- 
2.43.0


From a93207cd1f3c220a13cf1cf9fc0e601ccef84c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 054/120] fix: separable ignored its quadratic part

---
 regreg/problems/separable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index eae94b5..462a615 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -129,9 +129,11 @@ class separable(atom):
                 x_group.shape = shape
             value += atom.nonsmooth_objective(x_group,
                                               check_feasibility=check_feasibility)
+        value += self.quadratic.objective(x, 'func')
         return value
 
     def proximal(self, proxq, prox_control=None):
+        proxq = proxq + self.quadratic
         # This allows separable to not have every
         # coefficient penalized in a natural way
         # because this instantiates it at the prox map of the zero penalty
-- 
2.43.0


From adafdd9fe55eeeac02af00be4fd296581978e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 055/120] fix: separable with shapes did not reshape the center
 of the quadratic in its proximal map

---
 regreg/problems/separable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 462a615..0debfc5 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -144,7 +144,9 @@ class separable(atom):
                                                     self.assign_shapes):
             proxq_group = proxq[group]
             if shape is not None:
-                proxq_group.linear_term.shape = shape
+                # proxq is a sum, so its center is zero
+                if np.shape(proxq_group.linear_term) != ():
+                    proxq_group.linear_term = proxq_group.linear_term.reshape(shape)
             v[group] = atom.proximal(proxq_group, prox_control).reshape(assign_shape)
         return v
 
-- 
2.43.0


From c3146afa27a6c9e884c72c629b1fbf9ebe3c60f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 056/120] fix: separable.selectors referred to an undefined
 name

---
 regreg/problems/separable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 0debfc5..6c69a43 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -172,7 +172,7 @@ class separable(atom):
 
     @property
     def selectors(self):
-        return [selector(group, self.shape, reshape)
+        return [selector(group, self.shape, reshape=shape)
                 for group, shape in zip(self.groups, self.shapes)]
 
 class separable_problem(simple_problem):
-- 
2.43.0


From 0c4363f3b35ca71bb3986395e7ac4ece5a7b63a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 057/120] fix: has_overlap did not report overlap between
 identical groups

---
 regreg/problems/separable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 6c69a43..8253525 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -50,7 +50,7 @@ def has_overlap(shape, groups):
         for j in range(i):
             subset1 = subsets[i]
             subset2 = subsets[j]
-            if subset1 != subset2 and subset1.intersection(subset2):
+            if subset1.intersection(subset2):
                     return True
     return False
 
-- 
2.43.0


From ee88e11c284366931d880fc16db6b59316e68b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 058/120] fix: block_max.constraint ignored the bound given in
 the call

---
 regreg/atoms/block_norms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 5632a48..75c00d5 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -187,7 +187,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.constraint(self, x, bound=bound)
         # XXX should we check feasibility here?
         v = np.max(self.seminorms(x, lagrange=1., check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
-- 
2.43.0


From 6d0bfdb7310747bb70fcaf2dd51588f42d292274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 059/120] fix: separable ignored its initial coefficients and
 was left without any

---
 regreg/problems/separable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index 8253525..ed21044 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -77,6 +77,8 @@ class separable(atom):
 
         if initial is None:
             self.coefs = np.zeros(shape)
+        else:
+            self.coefs = np.array(initial, float)
 
     def latexify(self, var=None, idx=''):
         # BUG idx is unused
-- 
2.43.0


From a43d061d2032a64a5beb9e694260eee896cfdb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 060/120] fix: group lasso check_KKT ignored its lagrange
 argument

---
 regreg/atoms/group_lasso.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 955789e..3e9d3a2 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -774,10 +774,8 @@ def check_KKT(glasso,
 
     """
     Check whether (grad, solution) satisfy
-    KKT conditions at a given tolerance.
-
-    Assumes glasso is group_lasso in lagrange form
-    so that glasso.lagrange is not None
+    KKT conditions at a given tolerance
+    for the value `lagrange`.
     """
 
     failing = False
@@ -789,13 +787,13 @@ def check_KKT(glasso,
         group = glasso.groups == glasso._group_inv_dict[g]
         subgrad_g = -grad[group]
         soln_g = solution[group]
-        if np.linalg.norm(subgrad_g) < glasso.lagrange * glasso._weight_array[g] * (1 - tol):
+        if np.linalg.norm(subgrad_g) < lagrange * glasso._weight_array[g] * (1 - tol):
             failing = True
         if np.linalg.norm(subgrad_g / np.linalg.norm(subgrad_g) - soln_g / np.linalg.norm(soln_g)) > tol:
             failing = True
     for g in inactive_groups:
         group = glasso.groups == glasso._group_inv_dict[g]
         subgrad_g = -grad[group]
-        if np.linalg.norm(subgrad_g) > glasso.lagrange * glasso._weight_array[g] * (1 + tol):
+        if np.linalg.norm(subgrad_g) > lagrange * glasso._weight_array[g] * (1 + tol):
             failing = True
     return failing
-- 
2.43.0


From 4d28444bde304e3e15bb498877d5471f15f20dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 061/120] fix: FISTA.fit ignored FISTA=False

---
 regreg/algorithms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index b034926..caadbcb 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -41,6 +41,7 @@ class FISTA(algorithm):
     """
 
     alpha = 1.1 # multiplicative factor for changing step
+    nesterov = True # use Nesterov weights? set by the argument FISTA of fit
 
     def fit(self,
             tol=None,
@@ -92,6 +93,7 @@ class FISTA(algorithm):
         if debug is not None:
             self.debug = debug
         self.prox_control = {}
+        self.nesterov = FISTA
 
         objective_hist = np.zeros(max_its)
         
@@ -215,7 +217,7 @@ class FISTA(algorithm):
             return objective_hist[:itercount]
 
     def update_working_coefs(self, proposed_coefs):
-        if FISTA:
+        if self.nesterov:
             #Use Nesterov weights
             self.weight_new = 0.5 * (1 + np.sqrt(1+4*(self.weight_old**2)))
             #XXX should that be self.working_coefs or self.composite.coefs at the end of this line?
-- 
2.43.0


From 2513983a789fbf64ac3d69658d0f2e110b890142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 062/120] fix: FISTA.fit with restart did not restart the
 Nesterov weights

---
 regreg/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index caadbcb..4a7d91a 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -124,7 +124,7 @@ class FISTA(algorithm):
                 if self.debug:
                     print("\tRestarting weights")
                 self.working_coefs = self.composite.coefs
-                t_old = 1.
+                self.weight_old = 1.
 
             objective_hist[itercount] = working_obj
 
-- 
2.43.0


From f7b65f8530459fec2c1faeefb5cdd23e6e761267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 063/120] fix: FISTA.fit did not pass prox_control to the
 proximal step

---
 regreg/algorithms.py         | 6 +++---
 regreg/problems/composite.py | 2 +-
 regreg/problems/simple.py    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/regreg/algorithms.py b/regreg/algorithms.py
index 4a7d91a..1497de9 100644
--- a/regreg/algorithms.py
+++ b/regreg/algorithms.py
@@ -92,7 +92,7 @@ class FISTA(algorithm):
 
         if debug is not None:
             self.debug = debug
-        self.prox_control = {}
+        self.prox_control = prox_control
         self.nesterov = FISTA
 
         objective_hist = np.zeros(max_its)
@@ -138,7 +138,7 @@ class FISTA(algorithm):
                 lipschitz = self.composite.lipschitz
                 self.step = 1. / lipschitz
                 if self.prox_control != {}:
-                    proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0), prox_control=prox_control)
+                    proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0), prox_control=self.prox_control)
                 else:
                     proposed_coefs = self.composite.proximal_step(sq(lipschitz, self.working_coefs, working_grad, 0))
                 proposed_smooth = self.composite.smooth_objective(proposed_coefs, mode='func')
@@ -239,7 +239,7 @@ class FISTA(algorithm):
                                                                  self.working_coefs, 
                                                                  working_grad, 
                                                                  0), 
-                                                              prox_control=prox_control)
+                                                              prox_control=self.prox_control)
             else:
                 proposed_coefs = self.composite.proximal_step(sq(1. / self.step, 
                                                                  self.working_coefs, 
diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index dec71bc..c72b14e 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -206,7 +206,7 @@ class smooth(composite):
     def smooth_objective(self, x, mode='func', check_feasibility=False):
         return self._smooth_objective(x, mode=mode, check_feasibility=check_feasibility)
 
-    def proximal(self, quadratic):
+    def proximal(self, quadratic, prox_control=None):
         totalq = self.quadratic + quadratic
         return -totalq.linear_term / totalq.coef
 
diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 1d03b9f..5aeaec1 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -34,7 +34,7 @@ class simple_problem(composite):
         vs = self.smooth_atom.nonsmooth_objective(x, check_feasibility=check_feasibility)
         return vn + vs + self.quadratic.objective(x, 'func')
 
-    def proximal(self, proxq):
+    def proximal(self, proxq, prox_control=None):
         proxq = proxq + self.smooth_atom.quadratic + self.quadratic
         return self.proximal_atom.solve(proxq)
 
-- 
2.43.0


From 69fd6a2f6b954ad5b61af041d33dece2ddb08d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 064/120] fix: ADMM applied the transform instead of its
 adjoint and refused rectangular transforms

---
 regreg/problems/admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 4cf141b..90807e2 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -56,7 +56,7 @@ class admm_problem(object):
 
         self.fit_args = fit_args # for the smooth_sum FISTA run
 
-        assert (self.loss.shape == self.transform.output_shape)
+        assert (self.loss.shape == self.transform.input_shape)
 
     def update_loss_coefs(self):
         """
@@ -68,7 +68,7 @@ class admm_problem(object):
                             self.transform.affine_offset)
         if alpha is None:
             alpha = 0
-        linear_term = self.linear_transform.dot(y - rho * (z - alpha))
+        linear_term = self.transform.adjoint_map(y - rho * (z - alpha))
         self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
                                                        **self.fit_args)
 
-- 
2.43.0


From 6dd28c94b3e9d8d594dce23d1540d250aa9a0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 065/120] fix: ADMM ignored its quadratic

---
 regreg/problems/admm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 90807e2..7d0e9e5 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -69,7 +69,10 @@ class admm_problem(object):
         if alpha is None:
             alpha = 0
         linear_term = self.transform.adjoint_map(y - rho * (z - alpha))
-        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
+        quadratic = identity_quadratic(0, 0, linear_term, 0)
+        if self.quadratic is not None:
+            quadratic = quadratic + self.quadratic
+        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=quadratic,
                                                        **self.fit_args)
 
     def update_atom_coefs(self):
-- 
2.43.0


From f87f0dcf7b25b6932b6b7170e4153196a4e3a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 066/120] fix: quasi_newton failed when the solution is zero

---
 regreg/problems/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index ac4fd46..70bac92 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -341,7 +341,7 @@ class quasi_newton(object):
             Next gradient.
         """
         return (np.fabs(old_soln - new_soln).max()
-                < 1.e-6 * np.linalg.norm(new_soln))
+                <= 1.e-6 * np.linalg.norm(new_soln))
 
     def backtrack(self, 
                   direction,
-- 
2.43.0


From c93eea9d1afb3cfd5e01c8dc7dc6571f3fa1b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 067/120] fix: quasi_newton ignored the quadratic of the smooth
 term

---
 regreg/problems/newton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index 70bac92..746fd72 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -244,7 +244,8 @@ class quasi_newton(object):
         # warm start the subproblem
         self.quadratic_problem.coefs[:] = self.coefs 
 
-        quad_soln = self.quadratic_problem.solve(quad + self.quadratic,
+        quad_soln = self.quadratic_problem.solve(quad + self.quadratic +
+                                                 self.smooth_atom.quadratic,
                                                  **fit_args)
         direction = quad_soln - self.coefs
         return direction, grad, quad_soln 
-- 
2.43.0


From 31c7a688c59052a582f606aaba85fe89142b6ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 068/120] fix: strong_rules left unpenalized coefficients out
 of its subproblems

---
 regreg/paths/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index f1ace48..da1d081 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -245,7 +245,9 @@ def strong_rules(path_obj,
     dev_explained = [dev_solution]
 
     all_failing = np.zeros(path_obj.group_shape, np.bool)
-    subproblem_set = path_obj.updated_ever_active([])
+    unpen = np.zeros(path_obj.group_shape, np.bool)
+    unpen[path_obj.unpenalized[1]] = True
+    subproblem_set = path_obj.updated_ever_active(unpen)
 
     for lagrange_new, lagrange_cur in zip(lagrange_seq[1:], 
                                           lagrange_seq[:-1]):
-- 
2.43.0


From d6911dd5b6d970b73c177235bf756f58c186613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 069/120] fix: warm_start modified the options it was given

---
 regreg/paths/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index da1d081..217b131 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -406,6 +406,7 @@ def warm_start(path_obj,
 
         problem = simple_problem(total_loss, penalty)
         problem.coefs[:] = solution
+        solve_args = dict(solve_args)
         solve_args['tol'] = inner_tol
         solve_args['start_step'] = path_obj.final_step
         solution = problem.solve(**solve_args)
-- 
2.43.0


From e00ab294c581818c5294d50bd186ce6e18672ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 070/120] fix: basil overwrote the initial gradient

---
 regreg/paths/basil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 0fc2327..dd98d1a 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -116,7 +116,8 @@ def basil(path_obj,
 
     lagrange_solved, solutions, candidate_set = [np.inf], [], []
 
-    cur_data = initial_data
+    # the gradient is updated in place below
+    cur_data = (initial_data[0], initial_data[1].copy())
 
     while True:
         
-- 
2.43.0


From f5f0199a422223ce7e0b5374a93ffc5f4d9d02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 071/120] fix: basil ignored check_active, initial_step and
 verbose

---
 regreg/paths/basil.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index dd98d1a..c0048f9 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -132,6 +132,9 @@ def basil(path_obj,
                                                lagrange_cand,
                                                cur_data,
                                                inner_tol=inner_tol,
+                                               verbose=verbose,
+                                               initial_step=initial_step,
+                                               check_active=check_active,
                                                step_nvar=step_nvar,
                                                candidate_set=candidate_set,
                                                solve_args=solve_args)
-- 
2.43.0


From 64e80ec98ab100ce0da4ea0a8e84611d2f5ee62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 072/120] fix: sparse_group_lasso_path did not scale its ridge
 term by the Lagrange parameter

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 680c16e..47cef1b 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -66,7 +66,7 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self._unpenalized_vars = _candidate_bool(self.penalty.groups, 
                                                  unpenalized_groups)
-        self._penalized_vars = np.zeros(self.shape, np.bool)
+        self._penalized_vars = np.ones(self.shape, np.bool)
         self._penalized_vars[self._unpenalized_vars] = 0
 
         if np.any(unpenalized_idx):
-- 
2.43.0


From 48a3d5183f4bb906f41f5470cfc68a8bf19475b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 073/120] fix: sparse_group_lasso_path did not recognise
 unpenalized groups

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 47cef1b..d7b2e57 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -111,7 +111,7 @@ class sparse_group_lasso_path(group_lasso_path):
             self._unpen_groups = []
             self._unpen_group_idx = np.zeros(self.group_shape, np.bool)
             for i, g in enumerate(self.penalty._sorted_groupids):
-                unpen_group = (self.penalty.weights[g] == 0 +
+                unpen_group = (self.penalty.weights[g] == 0 and
                                np.any(self.penalty.lasso_weights[self.penalty.groups == g]
                                       == 0))
                 self._unpen_group_idx[i] = unpen_group
-- 
2.43.0


From 53a276ae19e8165d6efb4d0137e8b8e857fd5b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 074/120] fix: KKT check of the sparse group lasso path failed
 for unpenalized groups

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index d7b2e57..d6dd446 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -415,7 +415,7 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sqlasso.l1weight_g.mean()) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * (np.mean(sglasso.lasso_weights) + np.mean(sglasso._weight_array))) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From 1da3e5ccd3f1e3d1e8240f546464ef2098533cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 075/120] fix: subsampling a sparse_group_lasso_path scaled its
 weights twice

---
 regreg/paths/sparse_group_lasso.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index d6dd446..d294684 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -45,6 +45,8 @@ class sparse_group_lasso_path(group_lasso_path):
         self.alpha = alpha
         self.penalty = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
         l2_weight = 1 - l1_alpha
+        self._unscaled_weights = copy(self.penalty.weights) # for subsample
+        self._unscaled_lasso_weights = self.penalty.lasso_weights
         for g in self.penalty.weights.keys():
             self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
         self.penalty.lasso_weights = self.penalty.lasso_weights * l1_alpha
@@ -151,8 +153,8 @@ class sparse_group_lasso_path(group_lasso_path):
         return self.__class__(subsample_loss,
                               self.X,
                               self.penalty.groups,
-                              self.penalty.lasso_weights,
-                              weights=self.penalty.weights,
+                              self._unscaled_lasso_weights,
+                              weights=self._unscaled_weights,
                               elastic_net_param=self.elastic_net_param,
                               alpha=self.alpha,
                               l1_alpha=self.l1_alpha)
-- 
2.43.0


From a6a7227396aa27da2c79cf288b7b9b94276a0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 076/120] fix: KKT check of the sparse group block path ranked
 violations by an argsort

---
 regreg/paths/sparse_group_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 4169ce3..2b38378 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -571,7 +571,7 @@ def _check_KKT(grad,
                                                           l1_weight,
                                                           l2_weight)[0] / lagrange
 
-    inactive_ranks = inactive_results.shape[0] - np.argsort(inactive_results)
+    inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
 
     return active_results, inactive_ranks
-- 
2.43.0


From be87a193e84e7e42c5344a78fb5436f4dbde8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 077/120] fix: strong set of the sparse group lasso path left
 out unpenalized groups

---
 regreg/paths/sparse_group_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index d294684..e14254d 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -324,6 +324,7 @@ def _strong_set(penalty,
                                      thresh,
                                      penalty.lasso_weights[group],
                                      penalty.weights[g]) == False
+    test[unpenalized_idx] = True
     return test
 
 # def _restricted_elastic_net(elastic_net_params, 
-- 
2.43.0


From 85f213703a6732aeb647d77c389b14b870deae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 078/120] fix: weighted supnorm proximal map was nan at zero
 weights

---
 regreg/atoms/weighted_atoms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 18b7c63..7a51655 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -246,14 +246,18 @@ class supnorm(seminorm):
                                                    0,
                                                    np.fabs(arg[_keep]),
                                                    weights[_keep])
-        resid = np.sign(arg) * np.maximum(np.fabs(arg)-_lagrange * weights, 0)
+        cut = _lagrange * weights
+        cut[_isinf] = np.inf # 0 * inf is nan
+        resid = np.sign(arg) * np.maximum(np.fabs(arg) - cut, 0)
 
         return arg - resid
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        return np.clip(arg, -bound * self.invweights, bound * self.invweights)
+        cut = bound * self.invweights
+        cut[self.weights == 0] = np.inf # 0 * inf is nan
+        return np.clip(arg, -cut, cut)
 
     def terms(self, arg, check_feasibility=True):
         """
-- 
2.43.0


From 7f9d00c415f094baeea4bf10b8aeb28b9d814c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 079/120] fix: terms of the weighted supnorm divided by the
 weights

---
 regreg/atoms/weighted_atoms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 7a51655..dcf3623 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -266,9 +266,10 @@ class supnorm(seminorm):
 
         """
         arg = np.asarray(arg)
-        v = np.fabs(arg) / self.weights
+        v = np.fabs(arg) * self.weights
         if check_feasibility:
-            v[self.weights == 0] = np.where(np.fabs(arg[self.weights == 0]) != 0, np.inf, 0)
+            _isinf = np.isinf(self.weights)
+            v[_isinf] = np.where(arg[_isinf] != 0, np.inf, 0)
         return v
 
 conjugate_weighted_pairs = {}
-- 
2.43.0


From d90a10140e68e0ab9456fbc583a3221e068e323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 080/120] fix: simplex and maximum could not be composed or
 smoothed for missing imports

---
 regreg/atoms/simplex.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 42468d6..c1a9d2b 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -5,6 +5,9 @@ import numpy as np
 from copy import copy
 
 from ..atoms import atom, _work_out_conjugate, affine_atom
+from ..affine import linear_transform
+from ..identity_quadratic import identity_quadratic
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
 
@@ -64,8 +67,10 @@ class simplex_constraint(atom):
     def linear(cls, linear_operator, diag=False,
                linear_term=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        quadratic = None
+        if linear_term is not None:
+            quadratic = identity_quadratic(0, 0, linear_term)
+        atom = cls(l.output_shape, quadratic=quadratic, offset=offset)
         return affine_atom(atom, l)
 
     @doc_template_user
@@ -196,8 +201,10 @@ class maximum(atom):
     def linear(cls, linear_operator, diag=False,
                linear_term=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        quadratic = None
+        if linear_term is not None:
+            quadratic = identity_quadratic(0, 0, linear_term)
+        atom = cls(l.output_shape, quadratic=quadratic, offset=offset)
         return affine_atom(atom, l)
 
     @doc_template_user
-- 
2.43.0


From fe6e68a71dd6c119e0947197afedcb241b29f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 081/120] fix: slope with a quadratic term had no conjugate for
 a missing import

---
 regreg/atoms/slope.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 000f03b..02e696c 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -20,6 +20,7 @@ from ._isotonic_py import pav as isotonic_regression_py
 from .seminorms import seminorm
 
 from ..atoms import _work_out_conjugate
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
 
-- 
2.43.0


From 97b5aaeb81789eb177a9f16a0987a2679f0aea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 082/120] fix: factored nuclear norm proximal map ignored the
 Lipschitz constant

---
 regreg/affine/factored_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index d163e22..f933b8a 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -416,7 +416,7 @@ class nuclear_norm(nuclear_norm_atom):
         def soft_threshold_rule(L):
             return lambda D: np.fabs(D).min() <= L
 
-        svt_rule = soft_threshold_rule(lagrange)
+        svt_rule = soft_threshold_rule(lagrange / lipschitz)
         if self.warm_start is not None:
             padding = 0
         else:
@@ -435,7 +435,7 @@ class nuclear_norm(nuclear_norm_atom):
 
         self.initial_rank = U.shape[1]
 
-        D_proj = D - lagrange
+        D_proj = D - lagrange / lipschitz
         keep = D_proj > 0
 
         return factored_matrix((U[:,keep], D_proj[keep], VT[keep,:]))
-- 
2.43.0


From 9507bd5c374e5ba68646c1b507fb62510822555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 083/120] fix: factored operator norm failed for matrices with
 more columns than rows

---
 regreg/affine/factored_matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index f933b8a..b1dd95a 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -512,11 +512,11 @@ class operator_norm(operator_norm_atom):
 
         self.initial_rank = initial_rank
         if warm_start is None:
-            self.warm_start = np.random.standard_normal((self.shape[0], self.initial_rank))
+            self.warm_start = np.random.standard_normal((max(self.shape), self.initial_rank))
         else:
             self.warm_start = warm_start
-            if warm_start.shape != (self.shape[0], self.initial_rank):
-                raise ValueError('expecting warm_start to have shape %s' % (self.shape[0], self.initial_rank))
+            if warm_start.shape != (max(self.shape), self.initial_rank):
+                raise ValueError('expecting warm_start to have shape %s' % ((max(self.shape), self.initial_rank),))
 
         self._nuclear_atom = nuclear_norm(shape,
                                           lagrange=lagrange,
-- 
2.43.0


From 7a33fbb88ca16f1d40ead92abace7f0071a1946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 084/120] fix: copy of a factored_matrix lost its offset

---
 regreg/affine/factored_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index b1dd95a..97c4187 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -52,7 +52,8 @@ class factored_matrix(object):
             self.X = astransform(linear_operator)
 
     def copy(self):
-        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()])
+        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()],
+                               affine_offset=self.affine_offset)
 
     def _setX(self,transform):
         transform = astransform(transform)
-- 
2.43.0


From aaf0e5340668542e484e7d92233005d92de9aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 085/120] fix: nuclear norm epigraph ignored the leading
 singular value

---
 regreg/atoms/svd_norms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 4745552..c1f0437 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -259,7 +259,7 @@ class nuclear_norm_epigraph(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = np.fabs(D[1:]).sum() <= (1 + self.tol) * norm
+        incone = np.fabs(D).sum() <= (1 + self.tol) * norm
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From a801dc5de2c20432ba73a35320a566073ae4f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 086/120] fix: score ignored or stored into y its sample
 weights

---
 regreg/sklearn/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3e5dabc..ef07380 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -172,7 +172,9 @@ class base_mixin(object):
                                     # in regreg
         if sample_weight is not None:
             if case_weights is not None:
-                case_weights *= sample_weight
+                case_weights = case_weights * sample_weight
+            else:
+                case_weights = sample_weight
         return self._saturated_score(predictions, response, case_weights=case_weights)
 
     def _construct_atom(self):
-- 
2.43.0


From 33540885e2d84a5ac044a5ff0cec46f885a9d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 087/120] fix: a single row of responses with weights or offset
 lost its row

---
 regreg/sklearn/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index ef07380..8d91a14 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -215,7 +215,9 @@ class base_mixin(object):
                 offset = None
 
             if neg_index < 0:
-                response = np.squeeze(y[:,:neg_index])
+                response = y[:,:neg_index]
+                if response.shape[1] == 1:
+                    response = response[:,0]
 
         return response, case_weights, offset
 
-- 
2.43.0


From 071e028b53d28fdcbd931446dbd8f4d42d8d1c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 088/120] fix: accuracy of classifiers compared linear
 predictors to labels

---
 regreg/sklearn/cloglog.py     | 2 +-
 regreg/sklearn/logistic.py    | 2 +-
 regreg/sklearn/multinomial.py | 2 +-
 regreg/sklearn/probit.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 3ff4c35..abfda59 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -119,7 +119,7 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                return np.mean((predictions > 0) == successes)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 617f155..958b965 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -117,7 +117,7 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                return np.mean((predictions > 0) == successes)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index fd19257..0560f0d 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -96,7 +96,7 @@ if have_sklearn:
             successes = response
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                return np.mean(np.argmax(predictions, 1) == np.argmax(successes, 1))
             return np.nan
 
         def predict(self, X):
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index c5b1ba8..b24b8ff 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -118,7 +118,7 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                return np.mean((predictions > 0) == successes)
             return np.nan
 
         def predict_proba(self, X):
-- 
2.43.0


From 4298de8150a94a0f110723326a8ced118585d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 089/120] fix: multinomial probabilities did not normalise rows

---
 regreg/sklearn/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 0560f0d..1f3edc6 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -138,7 +138,7 @@ if have_sklearn:
             """
             linpred = X.dot(self._coefs)
             exp_lin = np.exp(linpred)
-            return exp_lin / exp_lin.sum(1)
+            return exp_lin / exp_lin.sum(1)[:,np.newaxis]
 
     class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
         pass
-- 
2.43.0


From 6561947a09e235b000073606d1427abbfad061e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 090/120] fix: multinomial R2 evaluated its null model at a
 wrong shape

---
 regreg/sklearn/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 1f3edc6..aabe557 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -56,7 +56,7 @@ if have_sklearn:
                 SSE = 2 * loss(predictions)
                 pi_0 = np.mean(response, 0)
                 multinom_0 = np.log(pi_0)
-                SST = 2 * loss(np.multiply.outer(multinom_0,  np.ones_like(response)))
+                SST = 2 * loss(np.multiply.outer(np.ones(response.shape[0]), multinom_0))
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-- 
2.43.0


From d7449d24aa8248c37d1a0f48be60cb2f8400399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 091/120] fix: multinomial accuracy did not compare predicted
 categories

---
 regreg/sklearn/multinomial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index aabe557..5a36c65 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -59,8 +59,7 @@ if have_sklearn:
                 SST = 2 * loss(np.multiply.outer(np.ones(response.shape[0]), multinom_0))
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-                labels = predictions > 0
-                return np.mean(labels == response)
+                return np.mean(np.argmax(predictions, 1) == np.argmax(response, 1))
             else:
                 return np.nan
 
-- 
2.43.0


From 918a2013c32bf958205da410c61b8bb44f063507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 092/120] fix: mean deviance of cloglog was not a mean

---
 regreg/sklearn/cloglog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index abfda59..da4a469 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -64,7 +64,7 @@ if have_sklearn:
             if self.score_method == 'deviance':
                 return -2 * loss(predictions)
             elif self.score_method == 'mean_deviance':
-                return -2 * loss(predictions)
+                return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
                 pi_0 = response.mean()
-- 
2.43.0


From f92b7aca65faf89054d1b20a7ef7cae5eaf71bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 093/120] fix: null model of cloglog R2 used the wrong link

---
 regreg/sklearn/cloglog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index da4a469..1c628e6 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.stats import gumbel_r
+from scipy.stats import gumbel_l
 
 have_sklearn = True
 try:
@@ -68,7 +68,7 @@ if have_sklearn:
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
                 pi_0 = response.mean()
-                cloglog_0 = gumbel_r.ppf(pi_0)
+                cloglog_0 = gumbel_l.ppf(pi_0)
                 SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-- 
2.43.0


From 08c9c9c6800a3865b47e5c03be3ef27384abb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 094/120] fix: R2 of binomial models failed when trials are
 given

---
 regreg/sklearn/cloglog.py  | 7 +++++--
 regreg/sklearn/logistic.py | 7 +++++--
 regreg/sklearn/probit.py   | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 1c628e6..c4fcd2d 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -67,9 +67,12 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                if trials is None:
+                    pi_0 = successes.mean()
+                else:
+                    pi_0 = successes.sum() / (1. * trials.sum())
                 cloglog_0 = gumbel_l.ppf(pi_0)
-                SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
+                SST = 2 * loss(cloglog_0 * np.ones_like(successes)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 958b965..efd6a2f 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -65,9 +65,12 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                if trials is None:
+                    pi_0 = successes.mean()
+                else:
+                    pi_0 = successes.sum() / (1. * trials.sum())
                 logit_0 = np.log(pi_0 / (1 - pi_0))
-                SST = 2 * loss(logit_0 * np.ones_like(response)) # X: correct for logistic?
+                SST = 2 * loss(logit_0 * np.ones_like(successes)) # X: correct for logistic?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index b24b8ff..1173d30 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -66,9 +66,12 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                if trials is None:
+                    pi_0 = successes.mean()
+                else:
+                    pi_0 = successes.sum() / (1. * trials.sum())
                 probit_0 = normal_dbn.ppf(pi_0)
-                SST = 2 * loss(probit_0 * np.ones_like(response)) # X: correct for probit?
+                SST = 2 * loss(probit_0 * np.ones_like(successes)) # X: correct for probit?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-- 
2.43.0


From d2e8987594afd41dbb0e026be64326bed074ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 095/120] fix: Cox R2 compared twice the loss to the null loss

---
 regreg/sklearn/cox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/cox.py b/regreg/sklearn/cox.py
index ccc1427..1306534 100644
--- a/regreg/sklearn/cox.py
+++ b/regreg/sklearn/cox.py
@@ -54,7 +54,7 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                SST = loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
+                SST = 2 * loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
                 return 1 - SSE / SST
             elif self.score_method == 'C-index':
                 return np.nan
-- 
2.43.0


From 1df336bc58cbd7a14803edb28a1463d3c8d3fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 096/120] fix: classifiers in Lagrange form were not in
 Lagrange form

---
 regreg/sklearn/base.py        | 17 ++++++++---------
 regreg/sklearn/cloglog.py     |  2 +-
 regreg/sklearn/logistic.py    |  2 +-
 regreg/sklearn/multinomial.py |  2 +-
 regreg/sklearn/probit.py      |  2 +-
 5 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 8d91a14..ee344d7 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -512,15 +512,14 @@ class classifier_lagrange_mixin(classifier_mixin, lagrange_mixin):
 
         """
 
-        lagrange_mixin(self, 
-                       atom_constructor, 
-                       atom_params, 
-                       case_weights=case_weights,
-                       offset=offset,
-                       enet_alpha=enet_alpha,
-                       coef=coef, 
-                       score_method=score_method,
-                       initial=initial)
+        lagrange_mixin.__init__(self, 
+                                atom_constructor, 
+                                atom_params, 
+                                case_weights=case_weights,
+                                enet_alpha=enet_alpha,
+                                coef=coef, 
+                                score_method=score_method,
+                                initial=initial)
                        
 
 class survival_mixin(base_mixin):
diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index c4fcd2d..6230a8c 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -145,6 +145,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return 1 - np.exp(-np.exp(linpred))
 
-    class sklearn_cloglog_classifier_lagrange(sklearn_cloglog_classifier):
+    class sklearn_cloglog_classifier_lagrange(sklearn_classifier_lagrange, sklearn_cloglog_classifier):
         pass
 
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index efd6a2f..b1761e4 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -144,6 +144,6 @@ if have_sklearn:
             exp_lin = np.exp(linpred)
             return exp_lin / (1 + exp_lin)
 
-    class sklearn_logistic_classifier_lagrange(sklearn_logistic_classifier):
+    class sklearn_logistic_classifier_lagrange(sklearn_classifier_lagrange, sklearn_logistic_classifier):
         pass
 
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 5a36c65..3099d3f 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -139,6 +139,6 @@ if have_sklearn:
             exp_lin = np.exp(linpred)
             return exp_lin / exp_lin.sum(1)[:,np.newaxis]
 
-    class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
+    class sklearn_multinomial_classifier_lagrange(sklearn_classifier_lagrange, sklearn_multinomial_classifier):
         pass
 
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index 1173d30..5862bd8 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -144,6 +144,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return normal_dbn.cdf(linpred)
 
-    class sklearn_probit_classifier_lagrange(sklearn_probit_classifier):
+    class sklearn_probit_classifier_lagrange(sklearn_classifier_lagrange, sklearn_probit_classifier):
         pass
 
-- 
2.43.0


From 46625a075602a98de5d22c6686a2497c7f5e22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 097/120] fix: partial SVD failed when the warm start has more
 columns than the matrix

The factored nuclear and operator norms (initial_rank 10 by default) raised
for any matrix with fewer than 10 rows or columns.
---
 regreg/affine/factored_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index 97c4187..e77c306 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -328,6 +328,7 @@ def partial_svd(transform,
         elif len(warm_start.shape) == 1:
             U = np.hstack([warm_start.reshape((warm_start.shape[0],1)), np.random.standard_normal((n,q-1))])            
         else:
+            warm_start = warm_start[:,:q]
             U = np.hstack([warm_start, np.random.standard_normal((n,q-warm_start.shape[1]))])            
     else:
         U = np.random.standard_normal((n,q))
-- 
2.43.0


From a396d885f5e9a187876965fa95c9a53da5b17a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 098/120] fix: iterative SVD of a zero matrix had singular
 values of the wrong shape

The factored proximal maps raised at zero.
---
 regreg/affine/factored_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index e77c306..4eac024 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -237,12 +237,12 @@ def compute_iterative_svd(transform,
         if U.ndim == 2:
             return U[:,ind], D[ind],  VT[ind,:]
         else:
-            return U.reshape((-1,1)), D[ind], VT.reshape((1,-1))
+            return U.reshape((-1,1)), D.reshape(-1), VT.reshape((1,-1))
     else:
         if U.ndim == 2:
             return VT[ind,:].T, D[ind],  U[:,ind].T
         else:
-            return VT.reshape((-1,1)), D[ind], U.reshape((1,-1))
+            return VT.reshape((-1,1)), D.reshape(-1), U.reshape((1,-1))
 
 
 def partial_svd(transform,
-- 
2.43.0


From 92d6a7fdced8484f4752ed7c3a294b6c1b4268fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 099/120] fix: epigraph projections of integer vectors were
 truncated or failed

---
 regreg/atoms/cones.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 5aea10d..23cb643 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -466,6 +466,7 @@ class l2_epigraph(cone):
 
     @doc_template_user
     def cone_prox(self, x):
+        x = np.asarray(x, float)
         norm = x[-1]
         coef = x[:-1]
         norm_coef = np.linalg.norm(coef)
@@ -513,7 +514,7 @@ class l2_epigraph_polar(cone):
 
     @doc_template_user
     def cone_prox(self, arg):
-        arg = -arg
+        arg = -np.asarray(arg, float)
         norm = arg[-1]
         coef = arg[:-1]
         norm_coef = np.linalg.norm(coef)
@@ -560,7 +561,7 @@ class l1_epigraph(cone):
 
     @doc_template_user
     def cone_prox(self, x):
-        return projl1_epigraph(x)
+        return projl1_epigraph(np.asarray(x, float))
 
     @doc_template_user
     def proximal(self, quadratic, prox_control=None):
-- 
2.43.0


From 5f71da621d1d7950c2566964ec56199b49fea349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 100/120] fix: matrix norm epigraph projections of integer
 vectors were truncated

---
 regreg/atoms/svd_norms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index c1f0437..6a04e66 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -273,7 +273,7 @@ class nuclear_norm_epigraph(svd_cone):
         newD[-1] = norm
         newD[:-1] = D
         newD = projl1_epigraph(newD)
-        result = np.zeros_like(normX)
+        result = np.zeros(normX.shape)
         result[-1] = newD[-1] 
         newX = np.dot(U, newD[:-1][:,np.newaxis] * V)
         result[:-1] = newX.reshape(-1)
@@ -320,7 +320,7 @@ class nuclear_norm_epigraph_polar(svd_cone):
         newD[-1] = norm
         newD[:-1] = D
         newD = newD - projl1_epigraph(newD)
-        result = np.zeros_like(normX)
+        result = np.zeros(normX.shape)
         result[-1] = newD[-1]
         newX = np.dot(U, newD[:-1][:,np.newaxis] * V)
         result[:-1] = newX.reshape(-1)
@@ -367,7 +367,7 @@ class operator_norm_epigraph(svd_cone):
         newD[-1] = norm
         newD[:-1] = D
         newD = newD + projl1_epigraph(-newD)
-        result = np.zeros_like(normX)
+        result = np.zeros(normX.shape)
         result[-1] = newD[-1]
         newX = np.dot(U, newD[:-1][:,np.newaxis] * V)
         result[:-1] = newX.reshape(-1)
@@ -413,7 +413,7 @@ class operator_norm_epigraph_polar(svd_cone):
         newD[-1] = norm
         newD[:-1] = D
         newD = -projl1_epigraph(-newD)
-        result = np.zeros_like(normX)
+        result = np.zeros(normX.shape)
         result[-1] = newD[-1]
         newX = np.dot(U, newD[:-1][:,np.newaxis] * V)
         result[:-1] = newX.reshape(-1)
-- 
2.43.0


From 5c570f1dc5f20a6d250f9027d8a074c5b48aa61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 101/120] fix: positive part atoms truncated or refused integer
 vectors

---
 regreg/atoms/seminorms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 8d63cba..dfd9e2d 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -884,7 +884,7 @@ class positive_part(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = arg.copy()
         pos = v > 0
         v = np.atleast_1d(v)
@@ -1053,7 +1053,7 @@ class constrained_positive_part(seminorm):
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = np.zeros(arg.shape, float)
         v = np.atleast_1d(v)
         pos = arg > 0
@@ -1124,7 +1124,7 @@ class max_positive_part(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        arg = np.asarray(arg)
+        arg = np.asarray(arg, float)
         v = np.zeros(arg.shape, float)
         v = np.atleast_1d(v)
         pos = arg > 0
-- 
2.43.0


From d0815e8e461d6e290727109f61fb60e35002ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 102/120] fix: block norm projections failed for integer
 matrices

---
 regreg/atoms/block_norms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 75c00d5..7006880 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -282,7 +282,7 @@ class linf_l2(block_max):
         norm = np.sqrt((arg**2).sum(1))
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
-        v = arg.copy()
+        v = arg.astype(float)
         v[norm > bound] *= bound / norm[norm > bound][:,np.newaxis]
         return v
 
@@ -297,7 +297,7 @@ class linf_l2(block_max):
         else:
             proj_factor = arg
         factor = (norm - proj_factor) / (norm + (norm == 0))
-        v = arg.copy()
+        v = arg.astype(float)
         v *= factor[:,np.newaxis]
         return v
 
@@ -481,7 +481,7 @@ class l1_l2(block_sum):
         else:
             proj_factor = arg
         factor = proj_factor / (norm + (norm == 0))
-        v = arg.copy()
+        v = arg.astype(float)
         v *= factor[:,np.newaxis]
         return v
 
-- 
2.43.0


From 043bb3fae932a2be2957ea73e44c146ff0a3ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 103/120] fix: Cox loss failed for integer linear predictors

---
 regreg/smooth/cox.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 1c2782e..31e1bfc 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -85,7 +85,7 @@ class cox_loglike(smooth_atom):
         else returns both.
         """
         
-        eta = natural_param # shorthand
+        eta = np.asarray(natural_param, float) # shorthand
 
         eta = self.apply_offset(eta)
 
@@ -168,8 +168,9 @@ class cox_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        eta = natural_param # shorthand
+        eta = np.asarray(natural_param, float) # shorthand
         eta = self.apply_offset(eta)
+        right_vector = np.asarray(right_vector, float)
         censoring = self.censoring
 
         H = np.zeros(eta.shape, float)
-- 
2.43.0


From 7382d7de83d1b8f9460e376552019f9e8b87ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 104/120] fix: strong rules path stayed at zero when started
 from integer coefficients

---
 regreg/paths/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 217b131..7af1f43 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -234,8 +234,8 @@ def strong_rules(path_obj,
 
     solution, grad_solution = initial_data
 
-    solution = solution.copy()
-    grad_solution = grad_solution.copy()
+    solution = np.array(solution, float)
+    grad_solution = np.array(grad_solution, float)
 
     linear_predictor = path_obj.X.dot(solution)
     ever_active = path_obj.updated_ever_active([])
-- 
2.43.0


From 12355c999bddb7c59ed7535ac7f5753b58247a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 105/120] fix: BASIL inner loop truncated its solution when
 started from integer coefficients

---
 regreg/paths/basil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index c0048f9..9e623c6 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -26,7 +26,7 @@ def basil_inner_loop(path_obj,
 
     solution, grad_solution = initial_data
 
-    solution = solution.copy()
+    solution = np.array(solution, float)
     last_grad = grad_solution.copy()
     inactive_ranks = path_obj.check_KKT(grad_solution,
                                         solution,
-- 
2.43.0


From 43f730227fa45f6c9cb85feb5f43cee166f242d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 106/120] fix: simplex constraint could not be checked for
 integer vectors

---
 regreg/atoms/simplex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index c1a9d2b..af94ee7 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -93,6 +93,7 @@ class simplex_constraint(atom):
 
     def _basic_prox(self, prox_arg, lipschitz):
         # lipschitz is ignored because it is a constraint
+        prox_arg = np.asarray(prox_arg, float)
         value = find_solution_piecewise_linear_uncon(1, prox_arg)
         return (prox_arg - value).clip(min=0)        
 
-- 
2.43.0


From 123c1b0fa08ba9a95b181a44540f19c96fa5e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 107/120] fix: mixed lasso could not be evaluated at integer
 vectors

---
 regreg/atoms/mixed_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 51d6337..81c05f3 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -167,7 +167,7 @@ class mixed_lasso(atom):
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso(x,
+        v = seminorm_mixed_lasso(np.asarray(x, float),
                                  self._l1_penalty,
                                  self._unpenalized,
                                  self._positive_part,
@@ -344,7 +344,7 @@ class mixed_lasso_dual(mixed_lasso):
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso_dual(x, 
+        v = seminorm_mixed_lasso_dual(np.asarray(x, float),
                                       self._l1_penalty,
                                       self._unpenalized,
                                       self._positive_part,
-- 
2.43.0


From caa5692841a1a26c6b17132271188f0768f2b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 108/120] fix: integer quadratic center refused to be
 recentered by a real offset

---
 regreg/identity_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index e6006dd..c564ade 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -98,7 +98,7 @@ class identity_quadratic(object):
 
         if offset is not None:
             cpq = copy(self)
-            cpq.center -= offset 
+            cpq.center = cpq.center - offset
             cpq = cpq.collapsed()
             return offset, cpq
         else:
-- 
2.43.0


From f1074209a16b1b0cf51b9e519deee9d64d3cca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 109/120] fix: selector with a reshape refused blocks that are
 not contiguous

---
 regreg/affine/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 2fa0589..4e5ecf9 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -319,13 +319,13 @@ class selector(linear_transform):
     def linear_map(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
+            x_indexed = x_indexed.reshape(self.reshape)
         return self.affine_transform.linear_map(x_indexed)
 
     def affine_map(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
+            x_indexed = x_indexed.reshape(self.reshape)
         return self.affine_transform.affine_map(x_indexed)
 
     def adjoint_map(self, u):
-- 
2.43.0


From f64887a0e885d69f24f7579c8307d2e403d2a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 110/120] fix: SMUCE statistic failed for a given noise level
 and left its scaling on the transform

---
 regreg/affine/multiscale.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index e22b897..244aa47 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -212,11 +212,13 @@ def SMUCE_stat(M, Z, sigma=None):
     """
 
     p = Z.shape[0]
-    M.scaling, old = np.sqrt(M.sizes), M.scaling
     Z0 = Z - Z.mean()
     if sigma is None:
-        sigma_hat = np.std(Z)
-    T = np.fabs(M.linear_map(Z0) / sigma_hat) - np.sqrt(2 * np.log(p / M.sizes))
+        sigma = np.std(Z)
+    M.scaling, old = np.sqrt(M.sizes), M.scaling
+    V = M.linear_map(Z0)
+    M.scaling = old
+    T = np.fabs(V / sigma) - np.sqrt(2 * np.log(p / M.sizes))
     idx = np.argmax(T)
     return T[idx], M.slices[idx]
 
-- 
2.43.0


From ea13742f39361d9da21fb8a969d13d0c831d3312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 111/120] fix: noise level not passed to the SMUCE statistic
 when choosing its tuning parameter

---
 regreg/affine/multiscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index 244aa47..06c557a 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -253,6 +253,6 @@ def choose_tuning_parameter(M, ndraw=100, quantile=0.95, sigma=None):
     p = M.input_shape[0]
     for i in range(ndraw):
         Z = np.random.standard_normal(p)
-        V.append(SMUCE_stat(M, Z)[0])
+        V.append(SMUCE_stat(M, Z, sigma=sigma)[0])
     return np.percentile(V, 100*quantile)
 
-- 
2.43.0


From fe4f9683f451403326a9578a8b145395398e23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 112/120] fix: Huberized SVM loss ignored its coefficient and
 its offset

---
 regreg/smooth/losses.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/losses.py b/regreg/smooth/losses.py
index 0551b70..eb4a4a5 100644
--- a/regreg/smooth/losses.py
+++ b/regreg/smooth/losses.py
@@ -65,7 +65,11 @@ class huberized_svm(smooth_atom):
         else returns both.
         """
         
-        return self.smoothed_atom.smooth_objective(beta,
-                                                   mode=mode,
-                                                   check_feasibility=check_feasibility)
+        beta = self.apply_offset(beta)
+        value = self.smoothed_atom.smooth_objective(beta,
+                                                    mode=mode,
+                                                    check_feasibility=check_feasibility)
+        if mode == 'both':
+            return self.scale(value[0]), self.scale(value[1])
+        return self.scale(value)
 
-- 
2.43.0


From f5a8c75d7e46e4aa10aa51b8950937ac60e279d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 113/120] fix: stacked loss ignored new data

---
 regreg/smooth/glm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 1e9f8fa..3e3d0ce 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1432,9 +1432,9 @@ class stacked_loglike(smooth_atom):
         shapes = [r.shape for r in responses]
         dims = np.array([len(s) for s in shapes])
         if np.all(dims == 1):
-            self.data = np.hstack(responses)
+            self._data = np.hstack(responses)
         elif np.all(dims == 2):
-            self.data = np.vstack(responses)
+            self._data = np.vstack(responses)
         else:
             raise ValueError('expecting either 1 or dimensional data for saturated losses')
 
@@ -1520,12 +1520,15 @@ class stacked_loglike(smooth_atom):
         return self._data
 
     def set_data(self, data):
+        data = np.asarray(data)
+        for loss, slice in zip(self._losses, self._slices):
+            loss.data = data[slice]
         self._data = data
 
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_loglike(copy(self._losses),
+        return stacked_loglike([copy(loss) for loss in self._losses],
                                coef=self.coef,
                                offset=copy(self.offset),
                                quadratic=copy(self.quadratic),
-- 
2.43.0


From 1a6209a9f24aab0db9f93158850924ba6a79080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 114/120] fix: stacked loss with common shape ignored new data

---
 regreg/smooth/mglm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index b94d845..2ea1de9 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -295,7 +295,7 @@ class stacked_common_loglike(smooth_atom):
                              coef=coef)
 
         assert(np.all([l.shape == losses[0].shape for l in losses]))
-        self.data = np.array([l.data for l in losses]).T
+        self._data = np.array([l.data for l in losses]).T
 
         self._losses = losses
 
@@ -379,12 +379,15 @@ class stacked_common_loglike(smooth_atom):
         return self._data
 
     def set_data(self, data):
+        data = np.asarray(data)
+        for loss, response in zip(self._losses, data.T):
+            loss.data = response
         self._data = data
 
     data = property(get_data, set_data)
 
     def __copy__(self):
-        return stacked_common_loglike(copy(self._losses),
+        return stacked_common_loglike([copy(loss) for loss in self._losses],
                                       coef=self.coef,
                                       offset=copy(self.offset),
                                       quadratic=copy(self.quadratic),
-- 
2.43.0


From 1ab50619784eca7cfdf229087156ca9787afc3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 115/120] fix: multinomial losses ignored new data

---
 regreg/smooth/mglm.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 2ea1de9..76f9c3f 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -812,7 +812,16 @@ class multinomial_loglike(smooth_atom):
         return self._data
 
     def set_data(self, data):
-        self._data = data
+        if isinstance(data, tuple):
+            counts, _ = data
+        else:
+            counts = data
+        if sparse.issparse(counts):
+            counts = counts.toarray()
+        self.counts = np.asarray(counts)
+        self.J = self.counts.shape[1]
+        self.trials = np.sum(self.counts, axis=1)
+        self._data = self.counts, self.trials
 
     data = property(get_data, set_data)
 
@@ -958,7 +967,17 @@ class multinomial_baseline_loglike(smooth_atom):
         return self._data
 
     def set_data(self, data):
-        self._data = data
+        if isinstance(data, tuple):
+            counts, _ = data
+        else:
+            counts = data
+        if sparse.issparse(counts):
+            counts = counts.toarray()
+        self.counts = np.asarray(counts)
+        self.J = self.counts.shape[1]
+        self.firstcounts = self.counts[:,range(self.J-1)]
+        self.trials = np.sum(self.counts, axis=1)
+        self._data = self.counts, self.trials
 
     data = property(get_data, set_data)
 
-- 
2.43.0


From 3fcec16f7024d8bef3041054e604885ffb6476fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 116/120] fix: convex combination of l1 and l2 penalties
 ignored by the sparse group block path, but not by its subsamples

---
 regreg/paths/sparse_group_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 2b38378..0194fa0 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -52,11 +52,11 @@ class sparse_group_common_path(group_lasso_path):
             self.X.input_shape = (self.X.input_shape +           # but its output should be same shape
                                   self.saturated_loss.shape[1:]) # as self.saturated_loss.shape
 
+        if l1_alpha is not None:
+            l1_penalty = l1_penalty * l1_alpha
+            l2_penalty = l2_penalty * (1 - l1_alpha)
         self.l1_penalty = l1_penalty
         self.l2_penalty = l2_penalty
-        if l1_alpha is not None:
-            self.l1_penalty *= l1_alpha
-            self.l2_penalty *= (1 - l1_alpha)
 
         # the penalty parameters
 
-- 
2.43.0


From 94db3d70dd5111b8699c5833920b248ddf0dded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 117/120] fix: sparse group block paths for stacked Cox and
 Huber losses could not be constructed

---
 regreg/paths/sparse_group_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 0194fa0..5a78ea8 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -422,7 +422,7 @@ def stacked_gaussian(Xs, Ys, *args, **keyword_args):
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_cox(Xs, Ts, Cs, *args, **keyword_args):
-    loss = glm.stacked_loglike.cox(Ts, Cs) # Ts a sequence of event times,
+    loss = glm.stacked_loglike.cox(Xs, Ts, Cs) # Ts a sequence of event times,
                                            # Cs a sequence of censor indicators
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
@@ -443,11 +443,11 @@ def stacked_poisson(Xs, Ys, *args, **keyword_args):
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_huber(Xs, Ys, smoothing_parameter, *args, **keyword_args):
-    loss = glm.stacked_loglike.huber(Ys, smoothing_parameter) # Ys a sequence of response vectors
+    loss = glm.stacked_loglike.huber(Xs, Ys, smoothing_parameter) # Ys a sequence of response vectors
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_huber_svm(Xs, Ys, smoothing_parameter, *args, **keyword_args):
-    loss = glm.stacked_loglike.huber_svm(Ys, smoothing_parameter) # Ys a sequence of response vectors
+    loss = glm.stacked_loglike.huber_svm(Xs, Ys, smoothing_parameter) # Ys a sequence of response vectors
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 # private functions
-- 
2.43.0


From e144114b01aa9d30240e13d73e278cf50368352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 118/120] fix: separable value refused reshaped groups that are
 not contiguous

---
 regreg/problems/separable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index ed21044..dfc1730 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -104,7 +104,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.seminorm(x_group,
                                    lagrange=lagrange,
                                    check_feasibility=check_feasibility)
@@ -117,7 +117,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.constraint(x_group, bound=bound)
         return value
 
@@ -128,7 +128,7 @@ class separable(atom):
                                       self.shapes):
             x_group = x[group]
             if shape is not None:
-                x_group.shape = shape
+                x_group = x_group.reshape(shape)
             value += atom.nonsmooth_objective(x_group,
                                               check_feasibility=check_feasibility)
         value += self.quadratic.objective(x, 'func')
-- 
2.43.0


From b02b9754f551738ffeac64bbf87b649ce511be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:41 +0000
Subject: [PATCH 119/120] fix: smooth atoms ignored their initial coefficients

---
 regreg/smooth/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 45b3458..b3b1578 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -49,7 +49,6 @@ class smooth_atom(smooth_composite):
         self.coef = coef
         if coef < 0:
             raise ValueError('coefs must be nonnegative to ensure convexity (assuming all atoms are indeed convex)')
-        self.coefs = np.zeros(self.shape)
 
     def smooth_objective(self, arg, mode='both', check_feasibility=False):
         """
-- 
2.43.0


From b19ed09a87e584c35b84488a32228feba24967f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 120/120] fix: the inverse of a banded matrix could not be
 applied

---
 regreg/smooth/quadratic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index 2cce50e..4c38c07 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -211,8 +211,9 @@ class cholesky(object):
     '''
 
     def __init__(self, Q, cholesky=None, banded=False):
-        self.input_shape = (Q.shape[0],)
-        self.output_shape = (Q.shape[0],)
+        # a banded Q has one row per diagonal
+        self.input_shape = (Q.shape[1],)
+        self.output_shape = (Q.shape[1],)
         self.affine_offset = None
         self._Q = Q
         self.banded = banded
@@ -220,7 +221,7 @@ class cholesky(object):
             if not self.banded:
                 self._cholesky = cho_factor(Q)
             else:
-                self._cholesky = cholesky_banded(Q)
+                self._cholesky = (cholesky_banded(Q), False)
         else:
             self._cholesky = cholesky
 
-- 
2.43.0

