From ee210c2619d83518e9e6a98a6c59497233a6a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 01/21] fix: acceptance ratio of the delete move in the
 add-exchange-delete sampler

The proposal T(S-s -> S) / T(S -> S-s) equals (N-(|S|-1)) / |S|; the code used its inverse,
which breaks detailed balance.
---
 dppy/mcmc_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 5dba753..dd3d6da 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -223,7 +223,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             del S1[s_ind]  # S0 - s
             # Accept_reject the move
             det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * size_S0 / (N - (size_S0 - 1)):
+            if rng.rand() < det_S1 / det_S0 * (N - (size_S0 - 1)) / size_S0:
                 S0, det_S0 = S1, det_S1
                 chain.append(S1)
                 size_S0 -= 1
-- 
2.43.0


From ea8e72f172f061ed0dede5e15fa5e06fac8a15fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 02/21] fix: T_max stops MCMC samplers once the time limit is
 exceeded, not before

The comparison was reversed, so a run with a time limit stopped after its first iteration, and the
exchange sampler returned the unwritten all-zero rows of its chain as states.
---
 dppy/mcmc_sampling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index dd3d6da..0977581 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -234,7 +234,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -317,7 +317,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -406,7 +406,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain[it] = S0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
@@ -608,7 +609,8 @@ def zonotope_sampler(A_zono, **params):
                 chain[it] = B_x0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
-- 
2.43.0


From 87d442b24d266769758670d06bb18d79084374cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 03/21] fix: MCMC samplers step from the full ground set (and
 the exchange chain from the empty set)

The add-exchange-delete and exchange samplers drew from an empty list of candidates and raised.
---
 dppy/mcmc_sampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 0977581..f945e16 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -187,8 +187,8 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         S1 = S0.copy()  # S1 = S0
         # Pick one element s in S_0 by index uniformly at random
         s_ind = rng.choice(size_S0 if size_S0 else N)  # , size=1)[0]
-        # Unif t in [N]-S0
-        t = rng.choice(np.delete(ground_set, S0))
+        # Unif t in [N]-S0 (no candidate if S0 is the whole ground set)
+        t = rng.choice(np.delete(ground_set, S0)) if size_S0 < N else None
 
         U = rng.rand()
         ratio = size_S0 / N  # Proportion of items in current sample
@@ -381,8 +381,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
 
     for it in range(1, nb_iter):
 
-        # With proba 1/2 try to swap 2 elements
-        if rng.rand() < 0.5:
+        # With proba 1/2 try to swap 2 elements (if there is something to swap)
+        if rng.rand() < 0.5 and 0 < size < N:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From fc99590c1a595d7a27e2610b878c69a9bfcf4f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 04/21] fix: recompute the elementary symmetric polynomials
 when a larger k is requested

size_k_dpp is set to the requested size before the test, so it never triggered and sampling k-DPPs
with increasing k raised IndexError.
---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 9330e2b..e06e524 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -647,7 +647,7 @@ class FiniteDPP:
 
             # Phase 1
             # Precompute elementary symmetric polynomials
-            if self.E_poly is None or self.size_k_dpp < size:
+            if self.E_poly is None or self.E_poly.shape[0] <= size:
                 self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
                                                                size)
             # Select eigenvectors
-- 
2.43.0


From cb5b14873d5920a5a8f0e28952f0d35a2124b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 05/21] fix: do not leave numpy's global floating point error
 state modified

Computing the eigenvalues of L switched division by zero to 'raise' for the whole process.
---
 dppy/finite_dpps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index e06e524..7f8365c 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -661,8 +661,8 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            np.seterr(divide='raise')
-            self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            with np.errstate(divide='raise'):
+                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -915,8 +915,9 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    np.seterr(divide='raise')
-                    self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    with np.errstate(divide='raise'):
+                        self.L_eig_vals =\
+                            self.K_eig_vals / (1.0 - self.K_eig_vals)
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From fba7bc7a66d92b0289a0a41739a3b8e9cc77e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 06/21] fix: drop null eigenvalues when eigenvectors of L are
 computed from L_dual

Dividing by the square root of zero (or slightly negative) eigenvalues of Phi Phi.T gave nan
eigenvectors for rank deficient Gram factors.
---
 dppy/finite_dpps.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 7f8365c..385b90e 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -261,6 +261,18 @@ class FiniteDPP:
         self.size_k_dpp = 0
 
     # Exact sampling
+    def __compute_eig_dec_from_L_dual(self):
+        """ Compute the non zero eigenvalues of :math:`L = \\Phi^{\\top} \\Phi` and the corresponding eigenvectors from the eigendecomposition of :math:`\\tilde{L} = \\Phi \\Phi^{\\top}`
+        """
+        e_vals, e_vecs = la.eigh(self.L_dual)
+        e_vals = np.maximum(is_geq_0(e_vals), 0.0)
+        # null eigenvalues of L_dual do not define eigenvectors of L
+        tol = np.max(e_vals) * e_vals.size * np.finfo(float).eps
+        e_vals, e_vecs = e_vals[e_vals > tol], e_vecs[:, e_vals > tol]
+
+        self.L_eig_vals = e_vals
+        self.eig_vecs = self.L_gram_factor.T.dot(e_vecs / np.sqrt(e_vals))
+
     def sample_exact(self, mode='GS', **params):
         """ Sample exactly from the corresponding :class:`FiniteDPP <FiniteDPP>` object.
 
@@ -420,10 +432,7 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)
-            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            self.__compute_eig_dec_from_L_dual()
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -671,10 +680,7 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V.T
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
-            self.eig_vecs =self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            self.__compute_eig_dec_from_L_dual()
             return self.sample_exact_k_dpp(size, mode=self.sampling_mode,
                                            random_state=rng)
 
-- 
2.43.0


From 5a911c2d4b68f46ccb6bf20d11cd7a22da7b913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 07/21] fix: np.int no longer exists in numpy, Aldous-Broder
 sampler always raised

---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index ee0f80f..e4fedb5 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -118,7 +118,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     visited[n0] = True
     nb_nodes_in_tree = 1
 
-    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=np.int)
+    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)
 
     while nb_nodes_in_tree < nb_nodes:
 
-- 
2.43.0


From 0ff8964d413536b6e76f0b5e59353933445d69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 08/21] fix: Poisson intensity of the vfx intermediate sample
 must not be rounded up

The acceptance probability assumes t ~ Poisson(q exp(s/q)); with a rounded intensity lam the
returned sample follows DPP(c alpha L), c = lam / (q exp(s/q)), instead of DPP(alpha L).
---
 dppy/intermediate_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 7844c50..4751c34 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -367,8 +367,8 @@ def vfx_sampling_do_sampling_loop(X_data,
     with get_progress_bar(disable=not verbose) as prog_bar:
         for rej_iter in range(max_iter):
             # sample t
-            lam = np.ceil(pc_state.q * np.exp(pc_state.s / pc_state.q))
-            t = rng.poisson(lam=lam.astype('int'))
+            lam = pc_state.q * np.exp(pc_state.s / pc_state.q)
+            t = rng.poisson(lam=lam)
 
             # sample sigma subset
             sigma = rng.choice(n,
-- 
2.43.0


From f5ed62a56ff26b2691038bbfbff861f2dec1b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 09/21] fix: negative beta raised AttributeError instead of the
 intended ValueError

---
 dppy/beta_ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 09d3fd9..c5731ae 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -50,7 +50,7 @@ class BetaEnsemble(metaclass=ABCMeta):
     def __init__(self, beta=2):
 
         if not (beta >= 0):
-            raise ValueError('`beta` must be >=0. Given: {}'.format(self.beta))
+            raise ValueError('`beta` must be >=0. Given: {}'.format(beta))
         self.beta = beta
 
         # Split object name at uppercase
-- 
2.43.0


From 3f47f26e4940c3a107485c19f33d6a7a0a20f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 10/21] fix: non boolean projection argument raised
 AttributeError instead of the intended ValueError

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 385b90e..d62f9b2 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -195,7 +195,7 @@ class FiniteDPP:
 
         if not isinstance(self.projection, bool):
             err_print = ['`projection` argument is not boolean',
-                         'Given: {}'.format(self.is_projection)]
+                         'Given: {}'.format(self.projection)]
             raise ValueError('\n'.join(err_print))
 
         K_type, K_params = 'correlation', {'K', 'K_eig_dec', 'A_zono'}
-- 
2.43.0


From f2231bf0c4a2d8f1a2c54ea0b44149e856d3498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 11/21] fix: invalid UST sampling mode raised TypeError instead
 of the intended ValueError

---
 dppy/exotic_dpps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c0ab69e..569ca59 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -585,11 +585,11 @@ class UST:
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
         else:
-            err_print = '\n'.join(
+            err_print = '\n'.join([
                 'Invalid sampling mode',
                 'Chose from: {}'.format(self._sampling_modes.values()),
-                'Given {}'.format(mode))
-            raise ValueError()
+                'Given {}'.format(mode)])
+            raise ValueError(err_print)
 
         self.list_of_samples.append(sampl)
 
-- 
2.43.0


From 74e2811e28a289b2e09ae3b8769c492c76c37bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 12/21] fix: do not reuse intermediate sampling information
 computed for another target

The information cached by the vfx and alpha samplers was reused across modes (AttributeError) and
across expected sizes, so that e.g. sample_exact('vfx') after sample_exact_k_dpp(k, 'vfx') sampled
from the rescaled DPP(alpha L) instead of DPP(L).
---
 dppy/finite_dpps.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index d62f9b2..16930e8 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -165,6 +165,8 @@ class FiniteDPP:
         # eval_L(X) = L(X, X)
         self.eval_L, self.X_data = params.get('L_eval_X_data', [None, None])
         self.intermediate_sample_info = None
+        # (mode, expected size or k) the above was computed for
+        self.intermediate_sample_key = None
 
         if self.eval_L is not None:
             if not callable(self.eval_L):
@@ -273,6 +275,13 @@ class FiniteDPP:
         self.L_eig_vals = e_vals
         self.eig_vecs = self.L_gram_factor.T.dot(e_vecs / np.sqrt(e_vals))
 
+    def __check_intermediate_sample_info(self, *key):
+        """ Discard the pre-computed information of the intermediate samplers (vfx, alpha) when it was computed for another sampler or another expected size
+        """
+        if self.intermediate_sample_key not in (None, key):
+            self.intermediate_sample_info = None
+        self.intermediate_sample_key = key
+
     def sample_exact(self, mode='GS', **params):
         """ Sample exactly from the corresponding :class:`FiniteDPP <FiniteDPP>` object.
 
@@ -369,6 +378,7 @@ class FiniteDPP:
                 raise ValueError('The vfx sampler is currently only available with '
                                  '{"L_eval_X_data": (L_eval, X_data)} representation.')
 
+            self.__check_intermediate_sample_info('vfx', params.get('desired_expected_size', None))
             r_state_outer = None
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
@@ -387,6 +397,7 @@ class FiniteDPP:
                 raise ValueError('The alpha sampler is currently only available with '
                                  '{"L_eval_X_data": (L_eval, X_data)} representation.')
 
+            self.__check_intermediate_sample_info('alpha', params.get('desired_expected_size', None))
             r_state_outer = None
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
@@ -562,6 +573,7 @@ class FiniteDPP:
             if self.eval_L is None or self.X_data is None:
                 raise ValueError("The vfx sampler is currently only available for the 'L_eval_X_data' representation.")
 
+            self.__check_intermediate_sample_info('k-vfx', size)
             r_state_outer = None
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
@@ -581,6 +593,7 @@ class FiniteDPP:
             if self.eval_L is None or self.X_data is None:
                 raise ValueError("The alpha sampler is currently only available for the 'L_eval_X_data' representation.")
 
+            self.__check_intermediate_sample_info('k-alpha', size)
             r_state_outer = None
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
-- 
2.43.0


From c17cfab09041d492c93f6b9e83feb2e11f3eeb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 13/21] fix: vfx sampler accepts its documented max_iter,
 max_iter_size_rejection and q_func options on the first call

---
 dppy/intermediate_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 4751c34..d95cc0d 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -131,7 +131,8 @@ def vfx_sampling_precompute_constants(X_data,
                                       rls_oversample_dppvfx=4.0,
                                       rls_oversample_bless=4.0,
                                       nb_iter_bless=None,
-                                      verbose=True):
+                                      verbose=True,
+                                      **kwargs):
     """Pre-compute quantities necessary for the vfx rejection sampling loop, such as the inner Nystrom approximation,
     and the RLS of all elements in L.
 
-- 
2.43.0


From 73f7560ee6439baf820276843ad60145ac21ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 14/21] fix: compute_ordering overflowed int16 for d=1 and N >=
 32767

---
 dppy/multivariate_jacobi_ope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 1f844d2..e67962a 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -661,7 +661,7 @@ def compute_ordering(N, d):
 
         - :cite:`BaHa16` Section 2.1.3
     """
-    layer_max = np.floor(N**(1.0 / d)).astype(np.int16)
+    layer_max = int(np.floor(N**(1.0 / d)))
 
     ordering = itt.chain.from_iterable(
                 filter(lambda x: m in x,
-- 
2.43.0


From 3d51e8b595eab58a4718f3f562e98e411e93b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 15/21] fix: rejection bound was nan when exactly one Jacobi
 parameter of a coordinate is -1/2

---
 dppy/multivariate_jacobi_ope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index e67962a..ace2609 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -12,7 +12,7 @@ import numpy as np
 import itertools as itt
 
 from scipy import stats
-from scipy.special import beta, betaln, factorial, gamma, gammaln
+from scipy.special import beta, betaln, factorial, gamma, gammaln, xlogy
 from scipy.special import eval_jacobi
 # from scipy.special import logsumexp
 import matplotlib.pyplot as plt
@@ -890,8 +890,8 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
                 (a + b + 1) * np.log(2) + betaln(a + 1, b + 1)
             bounds[0, non_arcsine] =\
                 np.log(np.pi)\
-                + (0.5 + a) * np.log(1 - mode)\
-                + (0.5 + b) * np.log(1 + mode)\
+                + xlogy(0.5 + a, 1 - mode)\
+                + xlogy(0.5 + b, 1 + mode)\
                 - log_square_norm_P_0
         else:
             square_norm_P_0 = 2**(a + b + 1) * beta(a + 1, b + 1)
-- 
2.43.0


From b12b6124f7a0f34a98f8ebf41bf30fe570d3d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 16/21] fix: MALA acceptance ratio had the two proposal terms
 swapped

---
 dppy/beta_ensemble_polynomial_potential_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f162505..8fdba7e 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -328,8 +328,8 @@ def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
         acceptance = Vx - Vy\
                     + 0.5\
                         / sigma**2\
-                        * ((x_ - y + 0.5 * sigma**2 * grad_Vy)**2
-                            - (y - x_ + 0.5 * sigma**2 * grad_Vx)**2)
+                        * ((y - x_ + 0.5 * sigma**2 * grad_Vx)**2
+                            - (x_ - y + 0.5 * sigma**2 * grad_Vy)**2)
 
         if np.log(rng.rand()) < acceptance:
             x_ = y
-- 
2.43.0


From bd1bf4bad30df19aa353b024016999cc824e5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 17/21] fix: degree 7 potentials were silently truncated by the
 conditional polynomials

---
 dppy/beta_ensemble_polynomial_potential_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 8fdba7e..4949b38 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -339,7 +339,7 @@ def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
 
 def polynomial_in_negative_log_conditional_a_coef(i, a, b, V):
 
-    if len(V) > 7:
+    if len(V) > 6:
         str_ = ['Polynomial potentials V are allowed up to degree 6',
                 'Given\n',
                 ' '.join(['g_{}={}'.format(n, g_n)
@@ -414,7 +414,7 @@ def polynomial_in_negative_log_conditional_a_coef(i, a, b, V):
 
 def polynomial_in_negative_log_conditional_b_coef(i, a, b, V):
 
-    if len(V) > 7:
+    if len(V) > 6:
         str_ = ['Polynomial potentials V are allowed up to degree 6',
                 'Given\n',
                 ' '.join(['g_{}={}'.format(n, g_n)
-- 
2.43.0


From a0050ae14524f4a6970405297d5bfb5ded36cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 18/21] fix: truncated Gaussian sampler had acceptance ratios
 above 1 when the mean lies right of the truncation

---
 dppy/beta_ensemble_polynomial_potential_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 4949b38..90a91c0 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -133,11 +133,12 @@ def trunc_gaussian_sampler(b, mu, var, random_state=None):
     rng = check_random_state(random_state)
 
     it_max = int(1e7)
+    loc = max(b, mu)  # the acceptance ratio must be <= 1 on (b, infty)
 
     for it in range(1, it_max + 1):
-        X = rng.normal(loc=b, scale=np.sqrt(var))
+        X = rng.normal(loc=loc, scale=np.sqrt(var))
         U = rng.rand()
-        if (np.log(U) < -(b - mu) * (X - b) / var) and (X > b):
+        if (np.log(U) < -(loc - mu) * (X - loc) / var) and (X > b):
             break
     else:  # if no acceptation
         print('gen_gamma with alpha=1 not accepted\
-- 
2.43.0


From 9fe0f3112d0b1a6c4ff53662a48463d6ec1bb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 19/21] fix: conditionals of sextic potentials with shape <= 1
 ignored the cubic coefficient

---
 dppy/beta_ensemble_polynomial_potential_core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 90a91c0..9f36410 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -128,7 +128,7 @@ def find_a_b_convex_gen_gamma(shape, P, mode):
     return np.array([b, a])  # b < 0 < a
 
 
-def trunc_gaussian_sampler(b, mu, var, random_state=None):
+def trunc_gaussian_sampler(b, mu, var, random_state=None, g_3=0.0):
 
     rng = check_random_state(random_state)
 
@@ -138,7 +138,8 @@ def trunc_gaussian_sampler(b, mu, var, random_state=None):
     for it in range(1, it_max + 1):
         X = rng.normal(loc=loc, scale=np.sqrt(var))
         U = rng.rand()
-        if (np.log(U) < -(loc - mu) * (X - loc) / var) and (X > b):
+        if (np.log(U) < -(loc - mu) * (X - loc) / var - g_3 * X**3)\
+                and (X > b):
             break
     else:  # if no acceptation
         print('gen_gamma with alpha=1 not accepted\
@@ -157,7 +158,7 @@ def gen_gamma_alpha_lt_1_sampler(shape, P, random_state=None):
 
         X = rng.gamma(shape=shape, scale=1 / P[1], size=1)
         U = rng.rand()
-        if np.log(U) < -P[2] * X**2:
+        if np.log(U) < -(P[2] * X**2 + P[3] * X**3):
             break
 
     else:
@@ -220,6 +221,7 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
                 return trunc_gaussian_sampler(b=0.0,
                                               mu=-0.5 * P[1] / P[2],
                                               var=0.5 / P[2],
+                                              g_3=P[3],
                                               random_state=rng)
 
         # else there exists a mode, use [Dev12] domination
-- 
2.43.0


From 52a4ebfdc2444b7befa3d951e41453cb59454a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:47 +0000
Subject: [PATCH 20/21] fix: BetaEnsemblePolynomialPotential does not reset the
 constant of the caller's polynomial in place

---
 dppy/beta_ensemble_polynomial_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 4dd5275..774a7cc 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -46,7 +46,7 @@ class BetaEnsemblePolynomialPotential(object):
 
         if self.V[0] != 0:
             print('Weird thing to introduce a constant V = ... + g_0={}. Reset g_0 = 0'.format(self.V[0]))
-            self.V[0] = 0
+            self.V = self.V - self.V[0]
 
         self._V_ClItKr10 = np.poly1d([1 / 20, -4 / 15, 1 / 5, 8 / 5, 0])
 
-- 
2.43.0


From 948f8d2d8d251c1c8e9099de8bd239d34a30dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 21/21] fix: bless returns a dictionary at lam_final also when
 one iteration is asked for (or n <= 2)

---
 dppy/bless.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 329f52c..0d991e1 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -243,7 +243,8 @@ def bless(X_data,
                 lam=lam_init,
                 rls_oversample=rls_oversample_param)
 
-    lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
+    # at least lam_init and lam_final, so that the last dictionary is at lam_final
+    lam_sequence = list(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)))
 
     # discard lam_init from the list, we already used it to initialize
     lam_sequence.pop()
-- 
2.43.0

