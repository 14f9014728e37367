From de427cb417ce962bdb8bd361d23de8f51173467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:58 +0000
Subject: [PATCH 01/47] fix: euclidean_proj_simplex used np.alltrue, removed in
 NumPy 2

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c6990ac..531ebcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -219,7 +219,7 @@ def euclidean_proj_simplex(v, s=1.0):
     assert s > 0, "Radius s must be strictly positive (%d <= 0)" % s
     (n,) = v.shape  # will raise ValueError if v is not 1-D
     # check if we are already on the simplex
-    if v.sum() == s and np.alltrue(v >= 0):
+    if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-- 
2.43.0


From 6dd705c796341cb7a14d64fdacfd4939cb1c380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:58 +0000
Subject: [PATCH 02/47] fix: simplex LMO accepts the active set argument and
 always returns a feasible vertex

---
 copt/constraint.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 531ebcc..4f0645e 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -176,16 +176,14 @@ class SimplexConstraint:
     def prox(self, x, step_size):
         return euclidean_proj_simplex(x, self.s)
 
-    def lmo(self, u, x):
-        """Return v - x, s solving the linear problem
-    max_{||v||_1 <= s, v >= 0} <u, v>
+    def lmo(self, u, x, active_set=None):
+        """Return v - x, v solving the linear problem
+    max_{||v||_1 = s, v >= 0} <u, v>
     """
         largest_coordinate = np.argmax(u)
 
         update_direction = -x.copy()
-        update_direction[largest_coordinate] += self.s * np.sign(
-            u[largest_coordinate]
-        )
+        update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
 
-- 
2.43.0


From a14010745efb1e182de12b242bbd6cc6bd2ccf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:58 +0000
Subject: [PATCH 03/47] fix: a vertex dropped from the active set is not
 re-inserted with weight zero

---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 510df93..68dba7f 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -105,7 +105,7 @@ def update_active_set(active_set,
     if active_set[away_vertex_rep] == 0.:
         # drop step: remove vertex from active set
         del active_set[away_vertex_rep]
-    if active_set[away_vertex_rep] < 0.:
+    elif active_set[away_vertex_rep] < 0.:
         raise ValueError(f"The step size used is too large. "
                          f"{step_size: .3f} vs. {max_step_size:.3f}")
 
-- 
2.43.0


From 48d2bf666ff8788b6da04cf00d82028f69c2974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:58 +0000
Subject: [PATCH 04/47] fix: trace ball LMO does not fail on a zero direction

---
 copt/constraint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 4f0645e..dc8bb7d 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -319,6 +319,10 @@ class TraceBall:
           max_step_size: 1. for a Frank-Wolfe step.
         """
         u_mat = u.reshape(self.shape)
-        ut, _, vt = splinalg.svds(u_mat, k=1)
+        if np.any(u_mat):
+            ut, _, vt = splinalg.svds(u_mat, k=1)
+        else:
+            # every point of the ball is a solution, but ARPACK rejects the zero matrix
+            ut, vt = np.eye(self.shape[0], 1), np.eye(1, self.shape[1])
         vertex = self.alpha * np.outer(ut, vt).ravel()
         return vertex - x, None, None, 1.
-- 
2.43.0


From 5e41dc249c82770a3b12b1ee41fcd8f31aec394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 05/47] fix: minimize_sfw accepts the documented callable step
 size

---
 copt/randomized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 21f7981..b4e40fd 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -857,7 +857,10 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
         if lipschitz is None:
             raise ValueError('lipschitz needs to be specified with step_size="DR"')
         step_size_fun = step_size_DR
-
+    elif callable(step_size):
+        step_size_fun = step_size
+    else:
+        raise ValueError("Invalid option step_size=%s" % step_size)
 
     if lmo_variant == 'vanilla':
         active_set = None
-- 
2.43.0


From 77a69b2e5c595e4c9b0ce06c44eba48fdfd11df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 06/47] fix: Demyanov-Rubinov step of SFW is never NaN nor
 negative

---
 copt/randomized.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index b4e40fd..dee3914 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -722,8 +722,13 @@ def step_size_sfw(variant):
 def step_size_DR(kwargs):
     norm_update_direction = (kwargs['update_direction'] ** 2).sum()
     lipschitz = kwargs['lipschitz']
-    return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
-               kwargs['max_step_size']), None
+    if norm_update_direction == 0:
+        # the oracle returned the current iterate, there is nowhere to go
+        return 0., None
+    # the certificate is negative when the gradient estimate used by the
+    # oracle disagrees with the aggregate: stay instead of moving backwards
+    step_size = kwargs['certificate'] / (norm_update_direction * lipschitz)
+    return max(min(step_size, kwargs['max_step_size']), 0.), None
 
 
 
-- 
2.43.0


From 0ac1fcebf0bd46e3233ed8e8c8ed164b32f1806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 07/47] fix: SFW variants MHK and LF work with the DR step size

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index dee3914..54685d1 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -892,6 +892,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             x_prev = x.copy()
             if step_size != 'DR':
                 step_size_x, step_size_agg = step_size_fun(locals())
+            else:
+                # DR only sets the step on x: the variant's own rule averages
+                _, step_size_agg = step_size_sfw(variant)(locals())
             dual_var_prev = dual_var[batch_idx].copy()
 
             if variant in {'SAG', 'SAGA'}:
-- 
2.43.0


From 89bd63ccb5fee1e5be0769e489c48f6e3e6b1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 08/47] fix: SAGA estimate of SFW is unbiased for mini-batches

---
 copt/randomized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 54685d1..362cefd 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -922,7 +922,7 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_agg, x, active_set)
 
             elif variant == 'SAGA':
-                grad_est = utils.safe_sparse_add(grad_agg, (n_samples - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
+                grad_est = utils.safe_sparse_add(grad_agg, (n_samples / len(batch_idx) - 1) * utils.fast_csr_vm(dual_var[batch_idx] - dual_var_prev,
                                                                                                A_data, A_indptr, A_indices,
                                                                                                n_features, batch_idx))
                 update_direction, fw_vertex_rep, away_vertex_rep, max_step_size = lmo(-grad_est, x, active_set)
-- 
2.43.0


From 1bd28e19340b4a64cfb8c95048e8175661185eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 09/47] fix: SAGA and SVRG do not truncate an integer starting
 point

---
 copt/randomized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 362cefd..1cd4e7a 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -130,7 +130,7 @@ def minimize_saga(
     # convert any input to CSR sparse matrix representation. In the future we
     # might want to implement also a version for dense data (numpy arrays) to
     # better exploit data locality
-    x = np.ascontiguousarray(x0).copy()
+    x = np.ascontiguousarray(x0, dtype=float).copy()
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -305,7 +305,7 @@ def minimize_svrg(
       for Composite Optimization." Advances in Neural Information
       Processing Systems (NIPS) 2017.
     """
-    x = np.ascontiguousarray(x0).copy()
+    x = np.ascontiguousarray(x0, dtype=float).copy()
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
-- 
2.43.0


From 311c5b3dcce86f9a750ce12bc6699037dc3a7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 10/47] fix: minimize_vrtos does not modify nor truncate its
 starting point

---
 copt/randomized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 1cd4e7a..bde5824 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -494,6 +494,8 @@ def minimize_vrtos(
     else:
         blocks_2 = sparse.eye(n_features, n_features, format="csr")
 
+    # work on copies, the iterations below are in place
+    x0 = np.ascontiguousarray(x0, dtype=float).copy()
     Y = np.zeros((2, x0.size))
     z = x0.copy()
 
-- 
2.43.0


From 68c795d097920274f611675b759ae3336821deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 11/47] fix: minimize_vrtos exposes the iterate to callbacks as
 x

---
 copt/randomized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index bde5824..097bed1 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -498,6 +498,7 @@ def minimize_vrtos(
     x0 = np.ascontiguousarray(x0, dtype=float).copy()
     Y = np.zeros((2, x0.size))
     z = x0.copy()
+    x = z  # name under which callbacks look up the iterate
 
     assert A.shape[0] == b.size
 
-- 
2.43.0


From e37f1215f931a058539b645e014496e8582b1335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 12/47] fix: VRTOS handles blocks that no sample touches

---
 copt/randomized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 097bed1..2f92f05 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -582,13 +582,17 @@ def _factory_sparse_vrtos(
     bs_1_data, bs_1_indices, bs_1_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_1_indices, blocks_1.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_1_data, bs_1_indices, bs_1_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_1_data, bs_1_indices, bs_1_indptr),
+        shape=(n_samples, blocks_1.shape[0]))
 
     rblocks_2_indices = blocks_2.T.tocsr().indices
     bs_2_data, bs_2_indices, bs_2_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_2_indices, blocks_2.shape[0]
     )
-    csr_blocks_2 = sparse.csr_matrix((bs_2_data, bs_2_indices, bs_2_indptr))
+    csr_blocks_2 = sparse.csr_matrix(
+        (bs_2_data, bs_2_indices, bs_2_indptr),
+        shape=(n_samples, blocks_2.shape[0]))
 
     # .. diagonal reweighting ..
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From 8766710b94f570fee7a0e659de91a4f7c5642dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:22 +0000
Subject: [PATCH 13/47] fix: a null step does not insert a vertex with weight
 zero in the active set

---
 copt/frank_wolfe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 68dba7f..7a5e069 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -98,6 +98,9 @@ def update_active_set(active_set,
                       fw_vertex_rep, away_vertex_rep,
                       step_size):
 
+    if step_size == 0.:
+        # nothing moves: do not insert the new vertex with weight zero
+        return active_set
     max_step_size = active_set[away_vertex_rep]
     active_set[fw_vertex_rep] += step_size
     active_set[away_vertex_rep] -= step_size
-- 
2.43.0


From 69be1062bb77fdc22006b2fd7d44088cb6434915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:50 +0000
Subject: [PATCH 14/47] fix: Hessian of the logistic loss does not divide the
 regularisation by n_samples

---
 copt/loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index aa37694..d9b45fd 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -125,7 +125,8 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            # not averaged over the samples, unlike the other terms
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
@@ -165,7 +166,8 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            # not averaged over the samples, unlike the other terms
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
-- 
2.43.0


From 0819fd85ba025b1795237e498211c0d8f47e4728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:50 +0000
Subject: [PATCH 15/47] fix: logistic loss does not truncate for integer data

---
 copt/loss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index d9b45fd..651034a 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -50,7 +50,7 @@ class LogLoss:
 
     def logsig(self, x):
         """Compute log(1 / (1 + exp(-t))) component-wise."""
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.float64)
         idx0 = x < -33
         out[idx0] = x[idx0]
         idx1 = (x >= -33) & (x < -18)
@@ -64,7 +64,7 @@ class LogLoss:
     def expit_b(self, x, b):
         """Compute sigmoid(x) - b."""
         idx = x < 0
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.float64)
         exp_x = np.exp(x[idx])
         b_idx = b[idx]
         out[idx] = ((1 - b_idx) * exp_x - b_idx) / (1 + exp_x)
@@ -123,7 +123,7 @@ class LogLoss:
             dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=np.float64)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             # not averaged over the samples, unlike the other terms
             ret[:n_features] += n_samples * self.alpha * s[:n_features]
@@ -164,7 +164,7 @@ class LogLoss:
             dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=np.float64)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             # not averaged over the samples, unlike the other terms
             ret[:n_features] += n_samples * self.alpha * s[:n_features]
-- 
2.43.0


From 4e79f768d3e481fec725cfcf45b662835ce50a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:32 +0000
Subject: [PATCH 16/47] fix: Lipschitz constant of losses with a single row or
 column, or with zero data

---
 copt/loss.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 651034a..b610e4b 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -6,6 +6,15 @@ from sklearn.utils.extmath import safe_sparse_dot
 from copt.utils import safe_sparse_add, njit, prange
 
 
+def _spectral_norm(A):
+    """Largest singular value of A."""
+    frobenius = splinalg.norm(A) if sparse.issparse(A) else np.linalg.norm(A)
+    if min(A.shape) == 1 or frobenius == 0:
+        # not supported by svds
+        return frobenius
+    return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
+
+
 class LogLoss:
     r"""Logistic loss function.
 
@@ -199,7 +208,7 @@ class LogLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return 0.25 * (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -253,7 +262,7 @@ class SquareLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -296,5 +305,5 @@ class HuberLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
-- 
2.43.0


From 59fb2b86cca5ca964334f7174a81e8ad3c08e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 17/47] fix: Hessian of the logistic loss with intercept and a
 single feature

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index b610e4b..2c8ff5f 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -129,7 +129,7 @@ class LogLoss:
         if self.intercept:
             # Calculate the double derivative with respect to intercept
             # In the case of sparse matrices this returns a matrix object.
-            dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
+            dd_intercept = np.asarray(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
             ret = np.empty_like(s, dtype=np.float64)
@@ -170,7 +170,7 @@ class LogLoss:
         if self.intercept:
             # Calculate the double derivative with respect to intercept
             # In the case of sparse matrices this returns a matrix object.
-            dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
+            dd_intercept = np.asarray(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
             ret = np.empty_like(s, dtype=np.float64)
-- 
2.43.0


From a5c575dd6b0f68c8fb668a8893aef81678ef3c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:12 +0000
Subject: [PATCH 18/47] fix: proximal gradient accepts lists and does not
 truncate an integer starting point

---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index b7acfc3..506eff7 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -109,7 +109,7 @@ def minimize_proximal_gradient(
   Examples:
     * :ref:`sphx_glr_auto_examples_plot_group_lasso.py`
   """
-    x = np.asarray(x0).flatten()
+    x = np.asarray(x0, dtype=float).flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
@@ -127,7 +127,7 @@ def minimize_proximal_gradient(
 
     # find initial step-size
     if step == "backtracking":
-        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x0)
+        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x)
     else:
         # to avoid step_size being undefined upon return
         step_size = None
-- 
2.43.0


From 3b2b99f8cf435bdbb098101ba28ec58f8e27f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:12 +0000
Subject: [PATCH 19/47] fix: certificate of accelerated proximal gradient is
 the gradient mapping at the returned point

---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 506eff7..44ac365 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -220,7 +220,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 tk = t_next
                 x = x_next.copy()
 
@@ -251,7 +251,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 if trace_certificate:
                     certificate_list.append(certificate)
                 tk = t_next
-- 
2.43.0


From 8590ee4de92c5437c86083a6486a0494faebe51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:12 +0000
Subject: [PATCH 20/47] fix: accelerated proximal gradient traces certificates
 with a callable step

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 44ac365..7b928c3 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -221,6 +221,8 @@ def minimize_proximal_gradient(
                     current_step_size,
                 )
                 certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
+                if trace_certificate:
+                    certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
 
-- 
2.43.0


From 4441ef41b61359b5002ead3d265627cd2a89ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:12 +0000
Subject: [PATCH 21/47] fix: accelerated proximal gradient rejects unknown
 step-size strategies

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 7b928c3..8c9f35a 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -258,6 +258,8 @@ def minimize_proximal_gradient(
                     certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
+            else:
+                raise ValueError("Step-size strategy not understood")
 
             if certificate < tol:
                 success = True
-- 
2.43.0


From ee69c83c8f317c1b90e341b8b9fd1a287565cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:12 +0000
Subject: [PATCH 22/47] fix: accelerated proximal gradient keeps and reports
 the step size found by the line search

---
 copt/proximal_gradient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 8c9f35a..cf9e27a 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -225,6 +225,7 @@ def minimize_proximal_gradient(
                     certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
+                step_size = current_step_size
 
             elif step == "backtracking":
                 current_step_size = step_size
@@ -258,6 +259,8 @@ def minimize_proximal_gradient(
                     certificate_list.append(certificate)
                 tk = t_next
                 x = x_next.copy()
+                # the steps of FISTA have to be non-increasing
+                step_size = current_step_size
             else:
                 raise ValueError("Step-size strategy not understood")
 
-- 
2.43.0


From 64f9c5dc7bfdf6f7eb12951739e4d9d7bf661ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:56 +0000
Subject: [PATCH 23/47] fix: proximal gradient does not exceed max_iter

---
 copt/proximal_gradient.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index cf9e27a..0a4012d 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -138,7 +138,7 @@ def minimize_proximal_gradient(
     # .. allows for infinite or floating point max_iter ..
     if not accelerated:
         fk, grad_fk = func_and_grad(x)
-        while True:
+        while n_iterations < max_iter:
             if callback is not None:
                 if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
                     break
@@ -182,14 +182,10 @@ def minimize_proximal_gradient(
             fk = f_next
             grad_fk = grad_next
 
+            n_iterations += 1
             if certificate < tol:
                 success = True
                 break
-
-            if n_iterations >= max_iter:
-                break
-            else:
-                n_iterations += 1
         else:
             warnings.warn(
                 "minimize_proximal_gradient did not reach the desired tolerance level",
@@ -200,7 +196,7 @@ def minimize_proximal_gradient(
         # .. a while loop instead of a for loop ..
         # .. allows for infinite or floating point max_iter ..
         yk = x.copy()
-        while True:
+        while n_iterations < max_iter:
             grad_fk = func_and_grad(yk)[1]
             if callback is not None:
                 if callback(locals()) is False:  # pylint: disable=g-bool-id-comparison
@@ -264,16 +260,11 @@ def minimize_proximal_gradient(
             else:
                 raise ValueError("Step-size strategy not understood")
 
+            n_iterations += 1
             if certificate < tol:
                 success = True
                 break
-
-            if n_iterations >= max_iter:
-                break
-            else:
-                n_iterations += 1
-
-        if n_iterations >= max_iter:
+        else:
             warnings.warn(
                 "minimize_proximal_gradient did not reach the desired tolerance level",
                 RuntimeWarning,
-- 
2.43.0


From 2ccd8ddd54af996db86d76eb2eeb129cd8253a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:55 +0000
Subject: [PATCH 24/47] fix: proximal gradient uses the gradient at the current
 iterate after a failed line search

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 0a4012d..965410b 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -168,6 +168,8 @@ def minimize_proximal_gradient(
                         x_next = prox(x - step_size * grad_fk, step_size)
                         update_direction = x_next - x
                 else:
+                    # .. x_next changed after its last evaluation ..
+                    f_next, grad_next = func_and_grad(x_next)
                     warnings.warn("Maxium number of line-search iterations reached")
             elif step == "fixed":
                 x_next = prox(x - step_size * grad_fk, step_size)
-- 
2.43.0


From 73c5712b01bfe6099bca4549f658b5d0f51d5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:18 +0000
Subject: [PATCH 25/47] fix: three operator splitting never takes a NaN step
 size when h_Lipschitz is given

---
 copt/splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index c8ca10a..95eaa93 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -155,7 +155,7 @@ def minimize_three_split(
                 step_size = step_size * 1.02
             else:
                 quot = h_Lipschitz ** 2
-                tmp = np.sqrt(step_size ** 2 + (2 * step_size / quot) * (-ls_tol))
+                tmp = np.sqrt(step_size ** 2 + (2 * step_size / quot) * max(-ls_tol, 0))
                 step_size = min(tmp, step_size * 1.02)
 
         if callback is not None:
-- 
2.43.0


From 2bddd2a5b8268445ca31d732a5636ebbac09c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:19 +0000
Subject: [PATCH 26/47] fix: line search of the primal-dual method does not
 depend on the scaling of L

---
 copt/splitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 95eaa93..5e83bd9 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -300,12 +300,13 @@ def minimize_primal_dual(
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-                incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
+                incr_x = np.linalg.norm(x_next - x)
+                incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if incr_x <= 1e-10:
                     break
 
-                tmp = (sigma * tau_next) * (incr_x ** 2)
+                tmp = (sigma * tau_next) * (incr_Lx ** 2)
                 tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
-- 
2.43.0


From d0926b09b527ac5ce66055adaeb8c220bb9b6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:19 +0000
Subject: [PATCH 27/47] fix: primal-dual method does not truncate an integer
 starting point

---
 copt/splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 5e83bd9..cf14d11 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -249,7 +249,7 @@ def minimize_primal_dual(
         involving Lipschitzian, proximable and linear composite terms." Journal of
         Optimization Theory and Applications (2013).
     """
-    x = np.array(x0, copy=True)
+    x = np.array(x0, dtype=float, copy=True)
     n_features = x.size
 
     if L is None:
-- 
2.43.0


From 516fec3fe4ec02730c5c1f39a48711f9a9ba437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:11 +0000
Subject: [PATCH 28/47] fix: SVRG does not reuse gradients of other samples
 inside a block

---
 copt/randomized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 2f92f05..9ff6d20 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -386,6 +386,10 @@ def minimize_svrg(
                     x[b_j] -= step_size * (grad_tmp[b_j] + bias_term)
             prox(x, i, bs_indices, bs_indptr, d, step_size)
 
+            # .. cleanup, the blocks of other samples might overlap ..
+            for j in range(A_indptr[i], A_indptr[i + 1]):
+                grad_tmp[A_indices[j]] = 0
+
     idx = np.arange(n_samples)
     grad_tmp = np.zeros(n_features)
     success = False
-- 
2.43.0


From 14c062606ffe938c37e8514bd63dcfcc86caf63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:11 +0000
Subject: [PATCH 29/47] fix: SAGA and SVRG handle data without nonzeros and
 blocks that no sample touches

---
 copt/randomized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 9ff6d20..5f3b81d 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -160,7 +160,9 @@ def minimize_saga(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -335,7 +337,9 @@ def minimize_svrg(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From 81595f2d8f9addc41bc542209866edb29d3cae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 30/47] fix: safe_sparse_add of a sparse and a dense vector
 does not broadcast to a matrix

---
 copt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index 7f6be72..e4acd6d 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -67,7 +67,7 @@ def safe_sparse_add(a, b):
         if sparse.issparse(a):
             a = a.toarray()
             if a.ndim == 2 and b.ndim == 1:
-                b.ravel()
+                a = a.ravel()
         elif sparse.issparse(b):
             b = b.toarray()
             if b.ndim == 2 and a.ndim == 1:
-- 
2.43.0


From 1e97c619266739640420df203ccf59f4f884360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:36 +0000
Subject: [PATCH 31/47] fix: jac=False estimates the gradient by finite
 differences

---
 copt/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index e4acd6d..81c2f15 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -37,16 +37,16 @@ def build_func_grad(jac, fun, args, eps):
         if bool(jac):
             fun = optimize._optimize.MemoizeJac(fun)
             jac = fun.derivative
-        elif jac == "2-point":
-            jac = None
         else:
-            raise NotImplementedError("jac has unexpected value.")
+            # finite differences
+            jac = None
 
     if jac is None:
 
         def func_and_grad(x):
             f = fun(x, *args)
-            g = optimize._approx_fprime_helper(x, fun, eps, args=args, f0=f)
+            g = optimize.approx_fprime(x, fun, eps, *args)
+            return f, g
 
     else:
 
-- 
2.43.0


From eeecf956b39f659ca3c696700c09bf9272364036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 32/47] fix: L1 ball and simplex LMO do not truncate for an
 integer iterate

---
 copt/constraint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index dc8bb7d..a3ac856 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -119,7 +119,7 @@ class L1Ball:
         largest_coordinate = np.argmax(abs_u)
         sign = np.sign(u[largest_coordinate])
 
-        update_direction = -x.copy()
+        update_direction = -np.array(x, dtype=float)
         update_direction[largest_coordinate] += self.alpha * sign
 
         # Only useful for active_set management in pairwise FW
@@ -182,7 +182,7 @@ class SimplexConstraint:
     """
         largest_coordinate = np.argmax(u)
 
-        update_direction = -x.copy()
+        update_direction = -np.array(x, dtype=float)
         update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
-- 
2.43.0


From 48208024a57619cfd16246846135dd6f6a5cfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 33/47] fix: three operator splitting accepts lists and integer
 starting points

---
 copt/splitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/splitting.py b/copt/splitting.py
index cf14d11..3f62537 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -99,6 +99,7 @@ def minimize_three_split(
       Splitting." <https://arxiv.org/abs/1804.02339>`_ Proceedings of the 35th
       International Conference on Machine Learning, 2018.
     """
+    x0 = np.array(x0, dtype=float)
     success = False
     if not max_iter_backtracking > 0:
         raise ValueError("Line search iterations need to be greater than 0")
-- 
2.43.0


From 2c15088854ab0f3fe53e28e754a35d219b21ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 34/47] fix: loading a data set recovers from an interrupted
 download

---
 copt/datasets.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 806492a..7494195 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -39,10 +39,12 @@ def _load_dataset(name, subset, data_dir):
     if HAS_TF:
         file_exists = gfile.exists
         makedirs = gfile.makedirs
+        rename = lambda src, dst: gfile.rename(src, dst, overwrite=True)
         file_loader = gfile.GFile
     else:
         file_exists = os.path.exists
         makedirs = os.makedirs
+        rename = os.replace
         file_loader = open
     dataset_dir = os.path.join(data_dir, name)
     files_train = (
@@ -51,10 +53,18 @@ def _load_dataset(name, subset, data_dir):
         "X_train.indptr.npy",
         "y_train.npy",
     )
+    files_test = (
+        "X_test.data.npy",
+        "X_test.indices.npy",
+        "X_test.indptr.npy",
+        "y_test.npy",
+    )
+    files_needed = files_train if subset == "train" else files_train + files_test
     if not np.all(
-        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
+        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_needed]
     ):
-        makedirs(dataset_dir)
+        if not file_exists(dataset_dir):
+            makedirs(dataset_dir)
         print(
             "%s dataset is not present in the folder %s. Downloading it ..."
             % (name, dataset_dir)
@@ -70,7 +80,8 @@ def _load_dataset(name, subset, data_dir):
                 continue
 
             print("Extracting data to %s" % os.path.join(data_dir, member.name))
-            f_dest = file_loader(os.path.join(data_dir, member.name), "wb")
+            dest = os.path.join(data_dir, member.name)
+            f_dest = file_loader(dest + ".part", "wb")
             chunk = 5000
             while True:
                 data = f_orig.read(chunk)
@@ -79,6 +90,7 @@ def _load_dataset(name, subset, data_dir):
                 f_dest.write(data)
             f_dest.close()
             f_orig.close()
+            rename(dest + ".part", dest)
 
     tmp_train = []
     for fname in files_train:
@@ -92,12 +104,7 @@ def _load_dataset(name, subset, data_dir):
         retval = (data_train, target_train)
     else:
         tmp_test = []
-        for fname in (
-            "X_test.data.npy",
-            "X_test.indices.npy",
-            "X_test.indptr.npy",
-            "y_test.npy",
-        ):
+        for fname in files_test:
             with file_loader(os.path.join(dataset_dir, fname), "rb") as f:
                 tmp_test.append(np.load(f))
 
-- 
2.43.0


From e6acb7d78c96a12ce24bb0fd1478cb021c5b39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 35/47] fix: data set archives cannot write outside the data
 directory

---
 copt/datasets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/datasets.py b/copt/datasets.py
index 7494195..1c69fce 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -78,6 +78,8 @@ def _load_dataset(name, subset, data_dir):
             f_orig = tar.extractfile(member)
             if f_orig is None:
                 continue
+            if member.name.startswith("/") or ".." in member.name.split("/"):
+                raise ValueError("unsafe path in archive: %s" % member.name)
 
             print("Extracting data to %s" % os.path.join(data_dir, member.name))
             dest = os.path.join(data_dir, member.name)
-- 
2.43.0


From fdf0b1c2956925fd15878bee6fe3692ffc064bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 36/47] fix: unknown data set subsets are rejected before
 anything is downloaded

---
 copt/datasets.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 1c69fce..fac4b8c 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -36,6 +36,11 @@ def load_img1(n_rows=20, n_cols=20):
 def _load_dataset(name, subset, data_dir):
     """Low level driver to download and return dataset"""
 
+    if subset not in ("train", "test", "full"):
+        raise ValueError(
+            "subset '%s' not implemented, must be one of ('train', 'test', 'full')."
+            % subset
+        )
     if HAS_TF:
         file_exists = gfile.exists
         makedirs = gfile.makedirs
@@ -119,12 +124,6 @@ def _load_dataset(name, subset, data_dir):
             data_full = sparse.vstack((data_train, data_test))
             target_full = np.concatenate((target_train, target_test))
             retval = (data_full, target_full)
-        else:
-            f.close()
-            raise ValueError(
-                "subset '%s' not implemented, must be one of ('train', 'test', 'full')."
-                % subset
-            )
     return retval
 
 
-- 
2.43.0


From 6f6d3cff744a4d3f3a8a003e2954e29c18c121b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 37/47] fix: full data sets whose train and test sets use
 different trailing features

---
 copt/datasets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/datasets.py b/copt/datasets.py
index fac4b8c..4270916 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -121,6 +121,10 @@ def _load_dataset(name, subset, data_dir):
         if subset == "test":
             retval = (data_test, target_test)
         elif subset == "full":
+            # trailing features can be absent from one of the two sets
+            n_features = max(data_train.shape[1], data_test.shape[1])
+            data_train.resize(data_train.shape[0], n_features)
+            data_test.resize(data_test.shape[0], n_features)
             data_full = sparse.vstack((data_train, data_test))
             target_full = np.concatenate((target_train, target_test))
             retval = (data_full, target_full)
-- 
2.43.0


From a3a23cbfa1d78b1acb38962695e858fd96b6c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 38/47] fix: np.int was removed from NumPy

---
 copt/datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 4270916..72872c7 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -254,7 +254,7 @@ def load_url(md5_check=True):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -416,7 +416,7 @@ def load_kdd12(md5_check=True, verbose=0):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
-- 
2.43.0


From 21a186756001a4310ab842e07786f3bd3b9fde1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 39/47] fix: load_kdd12 re-downloads KDD12, not URL, after a
 corrupted download

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 72872c7..5aa9095 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -401,7 +401,7 @@ def load_kdd12(md5_check=True, verbose=0):
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
                 os.remove(file_path)
-                return load_url()
+                return load_kdd12()
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
-- 
2.43.0


From 2fed9cbc3933290df3d7141b811228207547795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 40/47] fix: load_img1 returns n_rows x n_cols, not the
 transposed size

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 5aa9095..06f9674 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -29,7 +29,7 @@ def load_img1(n_rows=20, n_cols=20):
     grid = np.loadtxt(os.path.join(dir_path, "data", "img1.csv"), delimiter=",")
     dim1 = int(np.sqrt(grid.shape[0]))
     grid = grid.reshape((dim1, dim1))
-    img = Image.fromarray(grid).resize((n_rows, n_cols))
+    img = Image.fromarray(grid).resize((n_cols, n_rows))
     return np.array(img)
 
 
-- 
2.43.0


From 287a4e39fec011d68a51ad1a8f12cc5c903b2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 41/47] fix: url, kdd10, kdd12 and criteo loaders recover from
 an interrupted download

---
 copt/datasets.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 06f9674..2c80943 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -231,16 +231,17 @@ def load_url(md5_check=True):
     if not os.path.exists(file_path):
         print("URL dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        part_path = file_path + ".part"  # renamed once everything is in place
+        urllib.request.urlretrieve(url, part_path)
         print("Finished downloading")
         if md5_check:
-            h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
+            h = hashlib.md5(open(part_path, "rb").read()).hexdigest()
             if not h == "83673b8f4224c81968af2fb6022ee487":
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
-                os.remove(file_path)
+                os.remove(part_path)
                 return load_url()
-        zipfile = bz2.BZ2File(file_path)
+        zipfile = bz2.BZ2File(part_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
@@ -249,6 +250,7 @@ def load_url(md5_check=True):
         np.save(data_indices, X.indices)
         np.save(data_indptr, X.indptr)
         np.save(data_target, y)
+        os.replace(part_path, file_path)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -350,7 +352,8 @@ def load_kdd10(md5_check=True):
     if not os.path.exists(file_path):
         print("KDD10 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        urllib.request.urlretrieve(url, file_path + ".part")
+        os.replace(file_path + ".part", file_path)
         print("Finished downloading")
     if md5_check:
         h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -393,16 +396,17 @@ def load_kdd12(md5_check=True, verbose=0):
     if not os.path.exists(file_path):
         print("KDD12 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        part_path = file_path + ".part"  # renamed once everything is in place
+        urllib.request.urlretrieve(url, part_path)
         print("Finished downloading")
         if md5_check:
-            h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
+            h = hashlib.md5(open(part_path, "rb").read()).hexdigest()
             if not h == "c6fc57735c3cf687dd182d60a7b51cda":
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
-                os.remove(file_path)
+                os.remove(part_path)
                 return load_kdd12()
-        zipfile = bz2.BZ2File(file_path)
+        zipfile = bz2.BZ2File(part_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
         open(newfilepath, "wb").write(data)
@@ -411,6 +415,7 @@ def load_kdd12(md5_check=True, verbose=0):
         np.save(data_indices, X.indices)
         np.save(data_indptr, X.indptr)
         np.save(data_target, y)
+        os.replace(part_path, file_path)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -449,18 +454,19 @@ def load_criteo(md5_check=True):
     if not os.path.exists(file_path):
         print("criteo dataset is not present in data folder. Downloading it ...")
         url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
-        urllib.request.urlretrieve(url, file_path)
+        part_path = file_path + ".part"  # renamed once everything is in place
+        urllib.request.urlretrieve(url, part_path)
         import tarfile
 
-        tar = tarfile.open(file_path)
+        tar = tarfile.open(part_path)
         tar.extractall(DATA_DIR)
         print("Finished downloading")
         if md5_check:
-            h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
+            h = hashlib.md5(open(part_path, "rb").read()).hexdigest()
             if h != "d852b491d1b3afa26c1e7b49594ffc3e":
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
-                os.remove(file_path)
+                os.remove(part_path)
                 return load_criteo()
         X, y = datasets.load_svmlight_file(
             os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
@@ -469,6 +475,7 @@ def load_criteo(md5_check=True):
         np.save(data_indices, X.indices)
         np.save(data_indptr, X.indptr)
         np.save(data_target, y)
+        os.replace(part_path, file_path)
         # optionally delete files
     else:
         X_data = np.load(data_path)
-- 
2.43.0


From 2f1604f0b64aaec3cba639e198e5eb582264415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:37 +0000
Subject: [PATCH 42/47] fix: group lasso prox accepts integer vectors

---
 copt/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/penalty.py b/copt/penalty.py
index b9774f3..9b378ae 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -79,7 +79,7 @@ class GroupL1:
         return self.alpha * np.sum([np.linalg.norm(x[g]) for g in self.groups])
 
     def prox(self, x, step_size):
-        out = x.copy()
+        out = np.array(x, dtype=float)
         for g in self.groups:
 
             norm = np.linalg.norm(x[g])
-- 
2.43.0


From 2f89071227795b2c797d98d2e64fa4b4f3af7c1e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:43:54 +0000
Subject: [PATCH 43/47] fix: stochastic Frank-Wolfe stops when two successive
 iterates are closer than tol

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 5f3b81d..9bce4cf 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -961,5 +961,8 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             i += batch_size
             step += 1
 
+        if success:
+            break
+
     message = ""
     return optimize.OptimizeResult(x=x, success=success, nit=it, message=message)
-- 
2.43.0


From 801b8d38512c5017d99e92aab89df5c9ef8ba5bb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:43:54 +0000
Subject: [PATCH 44/47] fix: SAGA, SVRG and VRTOS sum repeated entries of a
 sparse data matrix

---
 copt/randomized.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 9bce4cf..6a0d82e 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -133,6 +133,10 @@ def minimize_saga(
     x = np.ascontiguousarray(x0, dtype=float).copy()
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
+    if not A.has_canonical_format:
+        # .. the kernels need every entry stored once ..
+        A = A.copy()
+        A.sum_duplicates()
 
     if step_size is None:
         # then need to use line search
@@ -310,6 +314,10 @@ def minimize_svrg(
     x = np.ascontiguousarray(x0, dtype=float).copy()
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
+    if not A.has_canonical_format:
+        # .. the kernels need every entry stored once ..
+        A = A.copy()
+        A.sum_duplicates()
 
     if step_size is None:
         # then need to use line search
@@ -526,6 +534,10 @@ def minimize_vrtos(
             pass
 
     A = sparse.csr_matrix(A)
+    if not A.has_canonical_format:
+        # .. the kernels need every entry stored once ..
+        A = A.copy()
+        A.sum_duplicates()
     epoch_iteration = _factory_sparse_vrtos(
         f_deriv, prox_1, prox_2, blocks_1, blocks_2, A, b, alpha, step_size
     )
-- 
2.43.0


From 3594468cbc52617a509debc112e7611d3519f9ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:44:10 +0000
Subject: [PATCH 45/47] fix: max_lipschitz counts repeated entries of a sparse
 matrix once

---
 copt/loss.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 2c8ff5f..2204268 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -15,6 +15,17 @@ def _spectral_norm(A):
     return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
 
 
+def _max_squared_row_norm(A):
+    """Largest squared row norm of A."""
+    from sklearn.utils.extmath import row_norms
+
+    if sparse.issparse(A):
+        # row_norms expects every entry to be stored once
+        A = A.tocsr(copy=True)
+        A.sum_duplicates()
+    return row_norms(A, squared=True).max()
+
+
 class LogLoss:
     r"""Logistic loss function.
 
@@ -213,9 +224,7 @@ class LogLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = _max_squared_row_norm(self.A)
 
         return 0.25 * max_squared_sum + self.alpha
 
@@ -267,9 +276,7 @@ class SquareLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = _max_squared_row_norm(self.A)
 
         return max_squared_sum + self.alpha
 
-- 
2.43.0


From 8d4a6b4b322227eb521e151de7f3d56b6443eb1e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:44:10 +0000
Subject: [PATCH 46/47] fix: logistic loss with intercept returns the loss
 along with the gradient

---
 copt/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/loss.py b/copt/loss.py
index 2204268..81f8d07 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -112,7 +112,7 @@ class LogLoss:
         grad = np.asarray(grad).ravel()
         grad_c = z0_b.mean()
         if self.intercept:
-            return np.concatenate((grad, [grad_c]))
+            return loss, np.concatenate((grad, [grad_c]))
 
         return loss, grad
 
-- 
2.43.0


From e0ff70bce22114e02e11d0ebc6722c8811da8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:08 +0000
Subject: [PATCH 47/47] fix: copy the first dual point of minimize_primal_dual,
 which may be a view of x

Operators whose matvec returns (a view of) its argument, such as scipy's IdentityOperator, made y and x share memory.
---
 copt/splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 3f62537..b3a22ae 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -257,7 +257,7 @@ def minimize_primal_dual(
         L = sparse.eye(n_features, n_features, format="csr")
     L = sparse.linalg.aslinearoperator(L)
 
-    y = L.matvec(x)
+    y = L.matvec(x).copy()
 
     success = False
     if not max_iter_ls > 0:
-- 
2.43.0

