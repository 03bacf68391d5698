From 241e949b33cc942cd66495490fba933d109c2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 01/51] fix: KuTa12 eigenvector sampler must not pivot on a
 roundoff-level entry

---
 dppy/exact_sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 7adc95d..5d250c7 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -651,8 +651,9 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
             break
 
         # Cancel the contribution of e_i to the remaining vectors that is, find the subspace of V that is orthogonal to \{e_i ; i \in Y\}
-        # Take the index of a vector that has a non null contribution on e_j
-        k = np.where(V[j, :] != 0)[0][0]
+        # Take the index of the vector with largest contribution on e_j
+        # a non null contribution at roundoff level is not a valid pivot
+        k = np.argmax(np.abs(V[j, :]))
         # Cancel the contribution of the remaining vectors on e_j, but stay in the subspace spanned by V i.e. get the subspace of V orthogonal to \{e_i ; i \in Y\}
         V -= np.outer(V[:, k] / V[j, k], V[j, :])
         # V_:j is set to 0 so we delete it and we can derive an orthononormal basis of the subspace under consideration
-- 
2.43.0


From b4c2954378a20471ab3f35784126b43af47b99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 02/51] fix: refuse k-DPP sizes beyond the rank when eigh
 returns roundoff-level eigenvalues

---
 dppy/exact_sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 5d250c7..78d308b 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1282,8 +1282,9 @@ def k_dpp_eig_vecs_selector(eig_vals, eig_vecs, size,
     # Size of: ground set / sample
     N, k = eig_vecs.shape[0], size
 
-    # as in np.linalg.matrix_rank
-    tol = np.max(eig_vals) * N * np.finfo(float).eps
+    # as in np.linalg.matrix_rank, with some slack because the null eigenvalues
+    # computed by la.eigh may exceed max(eig_vals) * N * eps
+    tol = 10 * np.max(eig_vals) * N * np.finfo(float).eps
     rank = np.count_nonzero(eig_vals > tol)
     if k > rank:
         raise ValueError('size k={} > rank={}'.format(k, rank))
-- 
2.43.0


From 096145b7a1e865da73f584c449a530828b0981ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 03/51] fix: AED and E chains must not fail when the state is
 the whole ground set

---
 dppy/mcmc_sampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 5dba753..ca72a5a 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -187,8 +187,8 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         S1 = S0.copy()  # S1 = S0
         # Pick one element s in S_0 by index uniformly at random
         s_ind = rng.choice(size_S0 if size_S0 else N)  # , size=1)[0]
-        # Unif t in [N]-S0
-        t = rng.choice(np.delete(ground_set, S0))
+        # Unif t in [N]-S0, there is none to add/exchange when S0 = [N]
+        t = rng.choice(np.delete(ground_set, S0)) if size_S0 < N else None
 
         U = rng.rand()
         ratio = size_S0 / N  # Proportion of items in current sample
@@ -381,8 +381,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
 
     for it in range(1, nb_iter):
 
-        # With proba 1/2 try to swap 2 elements
-        if rng.rand() < 0.5:
+        # With proba 1/2 try to swap 2 elements (if any swap is possible)
+        if 0 < size < N and rng.rand() < 0.5:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From f9cd546f3c53f78842e283239c14eb394574a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 04/51] fix: inverted proposal ratio in the delete move of the
 AED chain

---
 dppy/mcmc_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index ca72a5a..2caf52c 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -223,7 +223,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             del S1[s_ind]  # S0 - s
             # Accept_reject the move
             det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * size_S0 / (N - (size_S0 - 1)):
+            if rng.rand() < det_S1 / det_S0 * (N - (size_S0 - 1)) / size_S0:
                 S0, det_S0 = S1, det_S1
                 chain.append(S1)
                 size_S0 -= 1
-- 
2.43.0


From b878a544bd3cc19cbdda0f06e7197ae6287151c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 05/51] fix: time budget T_max of MCMC samplers was tested with
 the wrong sign

---
 dppy/mcmc_sampling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 2caf52c..cc68e04 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -234,7 +234,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -317,7 +317,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -406,7 +406,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain[it] = S0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
@@ -608,7 +609,8 @@ def zonotope_sampler(A_zono, **params):
                 chain[it] = B_x0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
-- 
2.43.0


From 4f435257b9672559964e9dd1bc2eb2d6da408fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 06/51] fix: initial state found at the last MCMC
 initialization trial was discarded

---
 dppy/mcmc_sampling.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index cc68e04..d43e083 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -81,12 +81,11 @@ def initialize_AED_sampler(kernel, random_state=None):
     tol = 1e-9
 
     for _ in range(nb_trials):
+        T = rng.choice(2 * N, size=N, replace=False)
+        S0 = np.intersect1d(T, ground_set, assume_unique=True)
+        det_S0 = det_ST(kernel, S0)
         if det_S0 > tol:
             break
-        else:
-            T = rng.choice(2 * N, size=N, replace=False)
-            S0 = np.intersect1d(T, ground_set, assume_unique=True)
-            det_S0 = det_ST(kernel, S0)
     else:
         err_str = ['Initialization terminated unsuccessfully.',
                    'After {} random trials, no initial set S0 satisfies det L_S0 > {}.'.format(nb_trials, tol),
@@ -114,13 +113,12 @@ def initialize_AD_and_E_sampler(kernel, size=None, random_state=None):
     tol = 1e-9
 
     for _ in range(nb_trials):
+        S0 = rng.choice(N,
+                        size=size if size else rng.randint(1, N + 1),
+                        replace=False)
+        det_S0 = det_ST(kernel, S0)
         if det_S0 > tol:
             break
-        else:
-            S0 = rng.choice(N,
-                            size=size if size else rng.randint(1, N + 1),
-                            replace=False)
-            det_S0 = det_ST(kernel, S0)
     else:
         err_str = ['Initialization terminated unsuccessfully.',
                    'After {} random trials, no initial set S0 satisfies det L_S0 > {}.'.format(nb_trials, tol),
-- 
2.43.0


From 28341cbeb4e5749859bd0d80a00d1ecdd0678e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 07/51] fix: recompute the elementary symmetric polynomials
 when a larger k-DPP size is requested

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 9330e2b..e06e524 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -647,7 +647,7 @@ class FiniteDPP:
 
             # Phase 1
             # Precompute elementary symmetric polynomials
-            if self.E_poly is None or self.size_k_dpp < size:
+            if self.E_poly is None or self.E_poly.shape[0] <= size:
                 self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
                                                                size)
             # Select eigenvectors
-- 
2.43.0


From 2f4c5c7502bd56a6e395d4588a3a9bd43d84b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 08/51] fix: Chol and Schur k-DPP modes must stay available
 after eigendecomposition of a projection likelihood kernel

---
 dppy/finite_dpps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index e06e524..1774998 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -627,7 +627,9 @@ class FiniteDPP:
                                                     random_state=rng)
 
             else:  # self.kernel_type == 'likelihood':
-                if self.L_eig_vals is not None:
+                # `Chol` and `Schur` modes work on the kernel itself
+                if (self.L_eig_vals is not None
+                        and self.sampling_mode not in ('Chol', 'Schur')):
                     # L_eig_vals > 0.5 below to get indices where e_vals = 1
                     sampl = proj_dpp_sampler_eig(
                             eig_vecs=self.eig_vecs[:, self.L_eig_vals > 0.5],
-- 
2.43.0


From c5eacdb9301c88d4ba01f0b3d9bceeacf1da9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 09/51] fix: no division by null eigenvalues of a rank
 deficient L_dual

---
 dppy/finite_dpps.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 1774998..b773153 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -422,8 +422,10 @@ class FiniteDPP:
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
             self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
             self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)
-            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            # null eigenvalues (rank deficient Phi) have no eigenvector in L
+            scale = np.sqrt(np.where(self.L_eig_vals > 0.0,
+                                     self.L_eig_vals, 1.0))
+            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs / scale)
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -674,9 +676,11 @@ class FiniteDPP:
             # L = Phi.T Phi = V Gamma V.T
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
             self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
-            self.eig_vecs =self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)
+            # null eigenvalues (rank deficient Phi) have no eigenvector in L
+            scale = np.sqrt(np.where(self.L_eig_vals > 0.0,
+                                     self.L_eig_vals, 1.0))
+            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs / scale)
             return self.sample_exact_k_dpp(size, mode=self.sampling_mode,
                                            random_state=rng)
 
-- 
2.43.0


From 52fd0b2ce959444c180a169467cca5c463181d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 10/51] fix: do not leave numpy's floating point error handling
 modified

---
 dppy/finite_dpps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index b773153..30cce36 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -665,8 +665,8 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            np.seterr(divide='raise')
-            self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            with np.errstate(divide='raise'):
+                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -921,8 +921,9 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    np.seterr(divide='raise')
-                    self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    with np.errstate(divide='raise'):
+                        self.L_eig_vals =\
+                            self.K_eig_vals / (1.0 - self.K_eig_vals)
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From 2c912ae97a72a452a96dd2036c2f937e5ea5f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 11/51] fix: refuse the likelihood kernel when eigenvalues of K
 equal one up to roundoff

---
 dppy/finite_dpps.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 30cce36..eca9373 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -665,8 +665,11 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
+            # eig_K computed by la.eigh equal 1 only up to roundoff
+            gap = 1.0 - self.K_eig_vals
+            gap[gap <= 10 * gap.size * np.finfo(float).eps] = 0.0
             with np.errstate(divide='raise'):
-                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                self.L_eig_vals = self.K_eig_vals / gap
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -921,9 +924,11 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
+                    # eig_K computed by la.eigh equal 1 only up to roundoff
+                    gap = 1.0 - self.K_eig_vals
+                    gap[gap <= 10 * gap.size * np.finfo(float).eps] = 0.0
                     with np.errstate(divide='raise'):
-                        self.L_eig_vals =\
-                            self.K_eig_vals / (1.0 - self.K_eig_vals)
+                        self.L_eig_vals = self.K_eig_vals / gap
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From 543e8e3031b56235f576bf6fbafd31ca0280a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 12/51] fix: refuse invalid sampling modes even when no
 eigenvector was selected

---
 dppy/exact_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 78d308b..77bf6e6 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -415,7 +415,7 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
 
     rng = check_random_state(random_state)
 
-    if eig_vecs.shape[1]:
+    if eig_vecs.shape[1] or mode not in ('GS', 'GS_bis', 'KuTa12'):
         # Phase 2: Sample from projection kernel VV.T
         # Chain rule, conditionals are updated using:
         if mode == 'GS':  # Gram-Schmidt
-- 
2.43.0


From 41bf504aa901623df265362d59debe320bce9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 13/51] fix: np.int was removed from numpy, use int in the
 Aldous-Broder sampler

---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index ee0f80f..e4fedb5 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -118,7 +118,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     visited[n0] = True
     nb_nodes_in_tree = 1
 
-    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=np.int)
+    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)
 
     while nb_nodes_in_tree < nb_nodes:
 
-- 
2.43.0


From 6b031b7a89337284fc09ac25638eb1052246ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 14/51] fix: raise the intended ValueError for an invalid UST
 sampling mode

---
 dppy/exotic_dpps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c0ab69e..569ca59 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -585,11 +585,11 @@ class UST:
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
         else:
-            err_print = '\n'.join(
+            err_print = '\n'.join([
                 'Invalid sampling mode',
                 'Chose from: {}'.format(self._sampling_modes.values()),
-                'Given {}'.format(mode))
-            raise ValueError()
+                'Given {}'.format(mode)])
+            raise ValueError(err_print)
 
         self.list_of_samples.append(sampl)
 
-- 
2.43.0


From 4b1431dba9f6b1b7816604c0bf60dc1dd2cf88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 15/51] fix: accept the documented UST modes GS_bis and KuTa12

---
 dppy/exotic_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 569ca59..2948910 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -490,7 +490,7 @@ class UST:
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
-                                'spectral-method': ['GS'],
+                                'spectral-method': ['GS', 'GS_bis', 'KuTa12'],
                                 'projection-K-kernel': ['Schur', 'Chol']}
         self.list_of_samples = []
 
-- 
2.43.0


From dd16e1eb0c38aebdb6b50c6911a049d975d51671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 16/51] fix: spanning tree walks on graphs with arbitrary node
 labels or self-loops

---
 dppy/exotic_dpps.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 2948910..00a15d2 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -485,8 +485,10 @@ class UST:
         self.edge_labels = {edge: r'$e_{}$'.format(i)
                             for i, edge in enumerate(self.edges)}
 
-        self.neighbors = [list(graph.neighbors(v))
-                          for v in range(self.nb_nodes)]
+        # indices of the neighbors of each node (self-loops are irrelevant)
+        ind = {v: i for i, v in enumerate(self.nodes)}
+        self.neighbors = [[ind[w] for w in graph.neighbors(v) if w != v]
+                          for v in self.nodes]
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
@@ -564,6 +566,9 @@ class UST:
                 sampl = ust_sampler_aldous_broder(self.neighbors,
                                                   random_state=rng)
 
+            sampl = self.nx.relabel_nodes(sampl,
+                                          dict(enumerate(self.nodes)))
+
         elif self.sampling_mode in self._sampling_modes['spectral-method']:
 
             self.compute_kernel_eig_vecs()
-- 
2.43.0


From d067938cae4a7f4fcb53afc8c00b737ef025819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 17/51] fix: virtual descent process must have the announced
 intensity (1 - x_0^2)/2

---
 dppy/exotic_dpps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 00a15d2..c31812b 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -263,12 +263,13 @@ class VirtualDescentProcess(Descent):
         rng = check_random_state(random_state)
 
         self.size = size
+        # Fixed points have asymptotic proportion x_0
+        Y = rng.rand(self.size + 1) < self.x_0
+
         sigma = uniform_permutation(self.size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        Y = rng.binomial(n=2, p=self.x_0, size=self.size + 1) != 1
-
         descent = [i for i in range(self.size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
-- 
2.43.0


From 06f6228175be1dbd540fa7525a70bf51898cc4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 18/51] fix: points of the virtual descent process live on {1,
 ..., N-1} as documented

---
 dppy/exotic_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c31812b..a382350 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -270,7 +270,7 @@ class VirtualDescentProcess(Descent):
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        descent = [i for i in range(self.size)
+        descent = [i for i in range(1, self.size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
 
-- 
2.43.0


From 7d7faece9f4de6b205d264d3246913818d30f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 19/51] fix: bless must terminate, and not start below
 lam_final, on small data sets

---
 dppy/bless.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 329f52c..6d62c88 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -223,10 +223,10 @@ def bless(X_data,
         nb_iter_bless = np.ceil(np.log(n)).astype('int')
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
-    lam_init = n
+    lam_init = max(n, lam_final)
     ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
-    while ucb_init.sum() <= 10:
-        lam_init /= 1.25
+    while ucb_init.sum() <= 10 and lam_init > lam_final:
+        lam_init = max(lam_init / 1.25, lam_final)
         ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
 
     rng = check_random_state(random_state)
-- 
2.43.0


From e8b09893eca017aaf02403f1c612301beeed468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 20/51] fix: bless must reach the requested lam_final when a
 single iteration is asked

---
 dppy/bless.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 6d62c88..84e636a 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -243,7 +243,8 @@ def bless(X_data,
                 lam=lam_init,
                 rls_oversample=rls_oversample_param)
 
-    lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
+    # at least lam_init and lam_final
+    lam_sequence = list(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)))
 
     # discard lam_init from the list, we already used it to initialize
     lam_sequence.pop()
-- 
2.43.0


From dbb7fa9c10e6348ca36ffdf4c334d57702a69eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 21/51] fix: the Poisson parameter of the vfx sampler must not
 be rounded

---
 dppy/intermediate_sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 7844c50..6b1be7a 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -367,8 +367,7 @@ def vfx_sampling_do_sampling_loop(X_data,
     with get_progress_bar(disable=not verbose) as prog_bar:
         for rej_iter in range(max_iter):
             # sample t
-            lam = np.ceil(pc_state.q * np.exp(pc_state.s / pc_state.q))
-            t = rng.poisson(lam=lam.astype('int'))
+            t = rng.poisson(lam=pc_state.q * np.exp(pc_state.s / pc_state.q))
 
             # sample sigma subset
             sigma = rng.choice(n,
-- 
2.43.0


From 0629f789cd5cfbfb0898126a82ef3debfe64d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 22/51] fix: accept the documented parameters q_func, max_iter,
 max_iter_size_rejection of the vfx samplers

---
 dppy/intermediate_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 6b1be7a..891c7b9 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -131,7 +131,8 @@ def vfx_sampling_precompute_constants(X_data,
                                       rls_oversample_dppvfx=4.0,
                                       rls_oversample_bless=4.0,
                                       nb_iter_bless=None,
-                                      verbose=True):
+                                      verbose=True,
+                                      **kwargs):
     """Pre-compute quantities necessary for the vfx rejection sampling loop, such as the inner Nystrom approximation,
     and the RLS of all elements in L.
 
-- 
2.43.0


From 7a188176391e47fa2b1707bd724e089e317108a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 23/51] fix: do not reuse intermediate sampling constants
 computed for another sampler or expected size

---
 dppy/exact_sampling.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 77bf6e6..e517a44 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -762,7 +762,14 @@ def dpp_vfx_sampler(intermediate_sample_info,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None:
+    # Reuse only vfx constants computed for the same expected size
+    desired_size = params.get('desired_expected_size', None)
+    if desired_size is None:
+        is_valid_info = getattr(intermediate_sample_info, 'alpha_star', None) == 1.0
+    else:
+        is_valid_info = np.isclose(getattr(intermediate_sample_info, 's', np.nan), desired_size).item()
+
+    if not is_valid_info:
         intermediate_sample_info = vfx_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -871,7 +878,9 @@ def alpha_dpp_sampler(intermediate_sample_info,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None:
+    # Reuse only alpha-dpp constants computed for the same expected size
+    desired_size = params.get('desired_expected_size', None)
+    if getattr(intermediate_sample_info, 'k', None) != (-1 if desired_size is None else desired_size):
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -994,8 +1003,7 @@ def k_dpp_vfx_sampler(size,
     """
     rng = check_random_state(random_state)
 
-    if (intermediate_sample_info is None
-        or not np.isclose(intermediate_sample_info.s, size).item()):
+    if not np.isclose(getattr(intermediate_sample_info, 's', np.nan), size).item():
         intermediate_sample_info = vfx_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -1133,7 +1141,7 @@ def alpha_k_dpp_sampler(size,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None or intermediate_sample_info.k != size:
+    if getattr(intermediate_sample_info, 'k', None) != size:
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                         X_data=X_data,
                                         eval_L=eval_L,
-- 
2.43.0


From cd24f81ea07e323d577a2a38b1cd611f93de233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 24/51] fix: the alpha sampler must not fail when the
 acceptance probability equals one

---
 dppy/intermediate_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 891c7b9..9b67870 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -773,7 +773,7 @@ def alpha_dpp_sampling_do_sampling_loop(X_data,
                             - log_det_alpha_L_hat
                             - (t / pc_state.r)).item()
 
-            if acc_thresh >= 0.0:
+            if acc_thresh >= 0.1:
                 raise ValueError('Accepting with probability larger than 1, this should never happen. '
                                  's: {}'.format(np.exp(acc_thresh)))
 
-- 
2.43.0


From 1c78aa7dc4820621dc0a6b81216fd8528594fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 25/51] fix: bless_size must handle sizes one and kernels of
 small trace

---
 dppy/bless.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 84e636a..0f75008 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -346,15 +346,17 @@ def bless_size(X_data,
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
 
-    lam_init = diag_norm.sum() / (size_final - 1.0)
-    lam_max = lam_init
-
     lam_final = 1
     lam_min = lam_final
 
+    # lam_init must remain positive for size_final <= 1, and at least lam_final
+    lam_init = max(diag_norm.sum() / max(size_final - 1.0, 0.5), lam_final)
+    lam_max = lam_init
+
     if nb_iter_bless is None:
         nb_iter_bless = np.ceil(np.log2(lam_init)).astype('int')
-    lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
+    # at least lam_init and lam_final
+    lam_sequence = list(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)))
 
     ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
 
-- 
2.43.0


From 5f38794529016663c017012467487c3ba43460ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 26/51] fix: roundoff must not increase lambda along the BLESS
 sequence

---
 dppy/bless.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dppy/bless.py b/dppy/bless.py
index 0f75008..04ab772 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -245,6 +245,8 @@ def bless(X_data,
 
     # at least lam_init and lam_final
     lam_sequence = list(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)))
+    # roundoff must not increase lambda along the sequence
+    lam_sequence = list(np.clip(lam_sequence, lam_final, lam_init))
 
     # discard lam_init from the list, we already used it to initialize
     lam_sequence.pop()
-- 
2.43.0


From 181c9a9ee1ea5dc5f00f463e547966f6c1dba6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 27/51] fix: rejection bounds of the Jacobi OPE were nan when
 one parameter of a pair is -1/2

---
 dppy/multivariate_jacobi_ope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 1f844d2..50b7bac 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -12,7 +12,7 @@ import numpy as np
 import itertools as itt
 
 from scipy import stats
-from scipy.special import beta, betaln, factorial, gamma, gammaln
+from scipy.special import beta, betaln, factorial, gamma, gammaln, xlogy
 from scipy.special import eval_jacobi
 # from scipy.special import logsumexp
 import matplotlib.pyplot as plt
@@ -890,8 +890,8 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
                 (a + b + 1) * np.log(2) + betaln(a + 1, b + 1)
             bounds[0, non_arcsine] =\
                 np.log(np.pi)\
-                + (0.5 + a) * np.log(1 - mode)\
-                + (0.5 + b) * np.log(1 + mode)\
+                + xlogy(0.5 + a, 1 - mode)\
+                + xlogy(0.5 + b, 1 + mode)\
                 - log_square_norm_P_0
         else:
             square_norm_P_0 = 2**(a + b + 1) * beta(a + 1, b + 1)
-- 
2.43.0


From 3ee31eb4507d47e784b87963a37a1ce1f0b17b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 28/51] fix: ordering of more than 32767 univariate polynomials
 must not overflow

---
 dppy/multivariate_jacobi_ope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 50b7bac..ace2609 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -661,7 +661,7 @@ def compute_ordering(N, d):
 
         - :cite:`BaHa16` Section 2.1.3
     """
-    layer_max = np.floor(N**(1.0 / d)).astype(np.int16)
+    layer_max = int(np.floor(N**(1.0 / d)))
 
     ordering = itt.chain.from_iterable(
                 filter(lambda x: m in x,
-- 
2.43.0


From 3939b11a66510da66ec533caf02b52855bc646bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 29/51] fix: plot of the Jacobi OPE in dimension one

---
 dppy/multivariate_jacobi_ope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index ace2609..4a690c2 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -457,7 +457,8 @@ class MultivariateJacobiOPE:
 
         tols = 5e-2 * np.ones_like(self.jacobi_params)
         tols = np.zeros_like(self.jacobi_params)
-        tols[1, 0] = 8e-2
+        if self.dim == 2:
+            tols[1, 0] = 8e-2
 
         weights = np.ones(len(sample))
 
-- 
2.43.0


From 5b0931a6bba62ae4a54bf3d32cda1ee0eda07c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 30/51] fix: univariate Jacobi OPE outside [-1/2, 1/2]: the
 rejection bounds do not hold

---
 dppy/multivariate_jacobi_ope.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 4a690c2..e27dfa0 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -333,6 +333,11 @@ class MultivariateJacobiOPE:
         a_05, b_05 = a + 0.5, b + 0.5
         d = self.dim
 
+        if np.any(np.abs(self.jacobi_params) > 0.5):
+            # (d=1) the rejection bounds do not hold,
+            # but the points of a sample have marginal density 1/N K(x,x) w(x)
+            return self.sample(random_state=rng)[rng.randint(self.N)]
+
         ind = rng.randint(self.N)
         k = self.ordering[ind]
         Pk_square_norm = self.square_norms_multiD_polynomials[ind]
@@ -415,7 +420,9 @@ class MultivariateJacobiOPE:
 
         rng = check_random_state(random_state)
 
-        if self.dim == 1 and tridiag_1D:
+        # The rejection bounds are only valid for parameters in [-1/2, 1/2]
+        if self.dim == 1 and (tridiag_1D
+                              or np.any(np.abs(self.jacobi_params) > 0.5)):
             sample = tridiagonal_model(a=self.jacobi_params[0, 0] + 1,
                                        b=self.jacobi_params[0, 1] + 1,
                                        size=self.N,
@@ -871,6 +878,9 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
     deg_max, dim = np.max(ordering), jacobi_params.size // 2
     bounds = np.zeros((deg_max + 1, dim))
 
+    if np.any(np.abs(jacobi_params) > 0.5):  # No bound is known
+        return np.full(len(ordering), np.inf)
+
     arcsine = np.all(jacobi_params == -0.5, axis=1)
     if any(arcsine):
         bounds[0, arcsine] = 0.0 if log_scale else 1.0
-- 
2.43.0


From 08663e89ae5f4d669bf2dc696ecd4c272a76766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 31/51] fix: full models with beta=4 must return N points, not
 each of them twice

---
 dppy/random_matrices.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 0b7db3f..da5307e 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -44,7 +44,10 @@ def hermite_sampler_full(N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+    eig_vals = la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+
+    # beta=4: 2Nx2N self-dual matrix, eigenvalues come in N equal pairs
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def semi_circle_law(x, R=2.0):
@@ -110,7 +113,10 @@ def laguerre_sampler_full(M, N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A.dot(A.conj().T))
+    eig_vals = la.eigvalsh(A.dot(A.conj().T))
+
+    # beta=4: 2Nx2N self-dual matrix, eigenvalues come in N equal pairs
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def marcenko_pastur_law(x, M, N, sigma=1.0):
@@ -193,7 +199,10 @@ def jacobi_sampler_full(M_1, M_2, N, beta=2,
     X_tmp = X.dot(X.conj().T)
     Y_tmp = Y.dot(Y.conj().T)
 
-    return la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+    eig_vals = la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+
+    # beta=4: 2Nx2N self-dual matrices, eigenvalues come in N equal pairs
+    return np.sort(eig_vals)[::2] if beta == 4 else eig_vals
 
 
 def wachter_law(x, M_1, M_2, N):
-- 
2.43.0


From 918373515a14c15e10f4849874ca0b42ddbcf769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 32/51] fix: eigenvectors of a Hermitian matrix need uniform
 phases to be Haar distributed

---
 dppy/random_matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index da5307e..fadeb1f 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -301,6 +301,9 @@ def circular_sampler_full(N, beta=2, haar_mode='QR',
 
         _, U = la.eigh(A + A.conj().T)
 
+        if beta == 2:  # eigenvectors are defined up to a phase, fixed by eigh
+            U = U * np.exp(2j * np.pi * rng.rand(N))
+
     elif haar_mode == 'QR':
 
         if beta == 1:  # COE
-- 
2.43.0


From f453b3e959c5a49cbeaa247b14b92bb9a5884a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 33/51] fix: normalize_points must not modify the points of the
 caller

---
 dppy/beta_ensembles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 09d3fd9..128ff89 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -260,14 +260,14 @@ class HermiteEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit N(0,2) ref measure of the full matrix model
-            points -= self.params['loc']
-            points /= np.sqrt(0.5) * self.params['scale']
+            points = points - self.params['loc']
+            points = points / (np.sqrt(0.5) * self.params['scale'])
         else:  # 'full'
             pass
 
         if self.beta > 0:
             # Normalize to fit the semi-circle distribution
-            points /= np.sqrt(self.beta * self.params['size_N'])
+            points = points / np.sqrt(self.beta * self.params['size_N'])
         else:
             pass
 
@@ -590,13 +590,13 @@ class LaguerreEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit Gamma(*,2) refe measure of the full matrix model
-            points /= 0.5 * self.params['scale']
+            points = points / (0.5 * self.params['scale'])
         else:  # self.sampling_mode == 'full':
             pass
 
         if self.beta > 0:
             # Normalize to fit the Marcenko-Pastur distribution
-            points /= self.beta * self.params['size_M']
+            points = points / (self.beta * self.params['size_M'])
         else:
             pass
             # set a warning, won't concentrate as semi-circle, they are i.i.d.
-- 
2.43.0


From 1f96b2ee56f2067d0611e4b40db8a2bf0ac372b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 34/51] fix: distribution functions of the equilibrium measures
 must not modify their argument

---
 dppy/beta_ensemble_polynomial_potential_core.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f162505..04c3e6e 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -533,9 +533,7 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
 
     def cdf(x):
 
-        x[x < -a] = -a
-        x[x > a] = a
-        X = np.arcsin(x / a)
+        X = np.arcsin(np.clip(x, -a, a) / a)
         # return g_4 * a2 / (8 * np.pi) * ((X + np.pi) * (a2 + 4 * b2) / 4
         #                                  - a2 * np.sin(4 * X) / 8
         #                                  + b2 * np.sin(2 * X))
@@ -612,9 +610,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     if m == 2:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
-            X = np.arcsin(x / a)
+            X = np.arcsin(np.clip(x, -a, a) / a)
             return m * t * a**4 / (8 * np.pi) \
                    * (3 * (X + np.pi / 2)
                       + np.sin(2 * X)
@@ -623,9 +619,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     elif m == 3:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
-            X = np.arcsin(x / a)
+            X = np.arcsin(np.clip(x, -a, a) / a)
             return m * t * a**6 / (16 * np.pi) \
                    * (5 * (X + np.pi / 2)
                       + 5 / 4 * np.sin(2 * X)
-- 
2.43.0


From b36d8d7c065fa8cb0c6d29c46d6343c50ae909ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 35/51] fix: do not reset the constant coefficient of the
 potential of the caller

---
 dppy/beta_ensemble_polynomial_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 4dd5275..774a7cc 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -46,7 +46,7 @@ class BetaEnsemblePolynomialPotential(object):
 
         if self.V[0] != 0:
             print('Weird thing to introduce a constant V = ... + g_0={}. Reset g_0 = 0'.format(self.V[0]))
-            self.V[0] = 0
+            self.V = self.V - self.V[0]
 
         self._V_ClItKr10 = np.poly1d([1 / 20, -4 / 15, 1 / 5, 8 / 5, 0])
 
-- 
2.43.0


From 9e759c8e4c06eb640a6e4b8785fd07f82145acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 36/51] fix: chain of the largest eigenvalue when N=1

---
 dppy/beta_ensemble_polynomial_potential.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 774a7cc..d301027 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -188,11 +188,14 @@ class BetaEnsemblePolynomialPotential(object):
                 eig_vals[:, p] = la.eigvalsh_tridiagonal(a[1:N + 1],
                                                          np.sqrt(b[1:N]))
             elif return_chain_of_lambda_max:
-                lambda_max[p] = la.eigvalsh_tridiagonal(
-                                    a[1:N + 1],
-                                    np.sqrt(b[1:N]),
-                                    select='i',
-                                    select_range=(N - 1, N - 1))[0]
+                if N == 1:
+                    lambda_max[p] = a[1]
+                else:
+                    lambda_max[p] = la.eigvalsh_tridiagonal(
+                                        a[1:N + 1],
+                                        np.sqrt(b[1:N]),
+                                        select='i',
+                                        select_range=(N - 1, N - 1))[0]
 
         if return_chain_of_eig_vals:
             return eig_vals
-- 
2.43.0


From e3236c2bc18ac66c5dcdd9a56cfceb4c717112e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:00 +0000
Subject: [PATCH 37/51] fix: sign of the proposal correction in the acceptance
 ratio of MALA

---
 dppy/beta_ensemble_polynomial_potential_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 04c3e6e..a38968a 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -326,7 +326,7 @@ def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
         Vy, grad_Vy = V(y), d1_V(y)
 
         acceptance = Vx - Vy\
-                    + 0.5\
+                    - 0.5\
                         / sigma**2\
                         * ((x_ - y + 0.5 * sigma**2 * grad_Vy)**2
                             - (y - x_ + 0.5 * sigma**2 * grad_Vx)**2)
-- 
2.43.0


From 079a670d4ba9d6dfb7d23374e9b7ddfe346b8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 38/51] fix: the sampler of the conditionals of shape less than
 one must return an accepted value

---
 dppy/beta_ensemble_polynomial_potential_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index a38968a..f031285 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -151,10 +151,10 @@ def gen_gamma_alpha_lt_1_sampler(shape, P, random_state=None):
 
     rng = check_random_state(random_state)
 
-    it_max = int(1e2)
+    it_max = int(1e7)
     for it in range(1, it_max + 1):
 
-        X = rng.gamma(shape=shape, scale=1 / P[1], size=1)
+        X = rng.gamma(shape=shape, scale=1 / P[1])
         U = rng.rand()
         if np.log(U) < -P[2] * X**2:
             break
-- 
2.43.0


From 3283d6b76fc61ba415cc54fee170ce746c0d8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 39/51] fix: truncated Gaussian sampler when the mean is above
 the truncation level

---
 dppy/beta_ensemble_polynomial_potential_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f031285..4d8ac09 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -135,9 +135,10 @@ def trunc_gaussian_sampler(b, mu, var, random_state=None):
     it_max = int(1e7)
 
     for it in range(1, it_max + 1):
-        X = rng.normal(loc=b, scale=np.sqrt(var))
+        # propose around the mode of the truncated density
+        X = rng.normal(loc=max(b, mu), scale=np.sqrt(var))
         U = rng.rand()
-        if (np.log(U) < -(b - mu) * (X - b) / var) and (X > b):
+        if (np.log(U) < -max(b - mu, 0.0) * (X - b) / var) and (X > b):
             break
     else:  # if no acceptation
         print('gen_gamma with alpha=1 not accepted\
-- 
2.43.0


From db9ab1f05a13fce664d60e2d45880191ffb665e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 40/51] fix: conditionals of shape at most one with a cubic
 term or without positive slope at zero

---
 ...beta_ensemble_polynomial_potential_core.py | 56 ++++++++++++++++++-
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 4d8ac09..93b6834 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -169,6 +169,52 @@ def gen_gamma_alpha_lt_1_sampler(shape, P, random_state=None):
     return X, it
 
 
+def gen_gamma_alpha_le_1_convex_sampler(shape, P, random_state=None):
+    """Sample from :math:`\\pi(x) \\propto x^{\\alpha-1} \\exp^{-P(x)}` on :math:`(0, +\\infty)` with :math:`\\alpha \\leq 1` and :math:`P` convex polynomial.
+
+    With :math:`m` the minimizer of :math:`P` on :math:`[0, +\\infty)` and :math:`c > m` such that :math:`P(c)=P(m)+1`, :math:`\\pi` is dominated up to a constant by
+
+    .. math::
+
+        x^{\\alpha-1} \\text{ on } (0, c]
+        \\quad \\text{and} \\quad
+        c^{\\alpha-1} \\exp^{-1 - \\frac{x - c}{c - m}} \\text{ on } (c, +\\infty)
+    """
+
+    rng = check_random_state(random_state)
+
+    roots = P.deriv(m=1).roots
+    m = np.max(roots[np.isreal(roots)].real, initial=0.0)
+
+    P = P - P(m)
+    roots = (P - 1.0).roots
+    c = np.max(roots[np.isreal(roots)].real)
+
+    mass_left, mass_right = c**shape / shape, c**(shape - 1) * (c - m) / np.e
+
+    it_max = int(1e7)
+    for it in range(1, it_max + 1):
+
+        U, V, W = rng.rand(3)
+
+        if U * (mass_left + mass_right) < mass_left:
+            X = c * V**(1 / shape)
+            log_accept = -P(X)
+        else:
+            X = c - (c - m) * np.log(V)
+            log_accept = (shape - 1) * np.log(X / c)\
+                         + 1 + (X - c) / (c - m) - P(X)
+
+        if np.log(W) < log_accept:
+            break
+
+    else:
+        print('gen_gamma with alpha<=1 not accepted\
+                after {} iterations'.format(it))
+
+    return X, it
+
+
 def sampler_exact_convex_quartic(P, shape=None, random_state=None):
     """Sample from
 
@@ -207,15 +253,19 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
 
     else:  # x^(shape-1) exp(-(beta x^2 + gamma x))
 
-        if not P[2]:  # x^(shape-1) exp(- gamma x))
+        if P.order < 2:  # x^(shape-1) exp(- gamma x))
             return rng.gamma(shape, 1 / P[1]), 0
 
         else:
-            if shape < 1.0:  # x^(shape-1) exp(-(beta x^2 + gamma x)): no mode
+            if shape <= 1.0 and (P[3] or (shape < 1.0 and P[1] <= 0)):
+                return gen_gamma_alpha_le_1_convex_sampler(shape, P,
+                                                           random_state=rng)
+
+            elif shape < 1.0:  # x^(shape-1) exp(-(beta x^2 + gamma x)): no mode
                 return gen_gamma_alpha_lt_1_sampler(shape, P,
                                                     random_state=rng)
 
-            elif shape == 1.0 and P[2]:
+            elif shape == 1.0:
                 # x^0 exp(-(beta x^2 + gamma x)) = truncated Gaussian [0, oo]
                 return trunc_gaussian_sampler(b=0.0,
                                               mu=-0.5 * P[1] / P[2],
-- 
2.43.0


From 4896edf46ea440c9df13afea536576fc02561498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 41/51] fix: distribution function of the two-cut equilibrium
 measure

---
 dppy/beta_ensemble_polynomial_potential_core.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 93b6834..1769e60 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -577,6 +577,20 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
         V(x) = V_t(x) = \\frac{g_2}{2} x^2 + \\frac{g_4}{4} x^4
     """
 
+    if g_2 <= -4 * np.sqrt(g_4 / 4):  # two intervals
+
+        b2, a2 = (-g_2 + 4 * np.sqrt(g_4 / 4) * np.array([-1, 1])) / g_4
+        a = np.sqrt(a2)
+
+        def cdf(x):
+            # x^2 follows a semi-circle distribution on [b2, a2]
+            T = np.clip((2 * np.square(x) - a2 - b2) / (a2 - b2), -1, 1)
+            cdf_x2 = 0.5 + (T * np.sqrt(1 - T**2) + np.arcsin(T)) / np.pi
+
+            return 0.5 * (1 + np.sign(x) * cdf_x2)
+
+        return cdf, a * np.array([-1, 1])
+
     a2 = 2 / (3 * g_4) * (np.sqrt(g_2**2 + 12 * g_4) - g_2)
     a = np.sqrt(a2)
 
-- 
2.43.0


From 505ed192ae057f2e07d16168e981494236ae0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 42/51] fix: limit shape evaluated at integers

---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index e4fedb5..44d76f0 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -274,7 +274,7 @@ def limit_shape(x):
         - :cite:`Ker96`
     """
 
-    w_x = np.zeros_like(x)
+    w_x = np.zeros_like(x, dtype=float)
 
     abs_x_gt2 = np.abs(x) >= 2.0
 
-- 
2.43.0


From 6eb83335a9a1f03fa1826fa6d52d864e317ded50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 43/51] fix: error messages for invalid projection and
 kernel_type arguments

---
 dppy/finite_dpps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index eca9373..ce36998 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -195,7 +195,7 @@ class FiniteDPP:
 
         if not isinstance(self.projection, bool):
             err_print = ['`projection` argument is not boolean',
-                         'Given: {}'.format(self.is_projection)]
+                         'Given: {}'.format(self.projection)]
             raise ValueError('\n'.join(err_print))
 
         K_type, K_params = 'correlation', {'K', 'K_eig_dec', 'A_zono'}
@@ -237,7 +237,7 @@ class FiniteDPP:
             err_print =\
                 ['Invalid `kernel_type`, choose among:',
                  '- `correlation`: K kernel',
-                 '- `likelihood`: L kernel'
+                 '- `likelihood`: L kernel',
                  'Given: {}'.format(self.params_keys)]
             raise ValueError('\n'.join(err_print))
 
-- 
2.43.0


From b88c6121c4f37c3b2ada860f1a5a3ccbc9b848f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 44/51] fix: refuse sizes beyond the number of eigenvectors

---
 dppy/exact_sampling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index e517a44..9bbac25 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -415,6 +415,11 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
 
     rng = check_random_state(random_state)
 
+    if size:
+        rank = eig_vecs.shape[1]
+        if size > rank:
+            raise ValueError('size k={} > rank={}'.format(size, rank))
+
     if eig_vecs.shape[1] or mode not in ('GS', 'GS_bis', 'KuTa12'):
         # Phase 2: Sample from projection kernel VV.T
         # Chain rule, conditionals are updated using:
-- 
2.43.0


From 1ae9e703b66f3697e6c08b350e3ab72a9e9d519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 45/51] fix: error message for negative beta

---
 dppy/beta_ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 128ff89..fb8775d 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -50,7 +50,7 @@ class BetaEnsemble(metaclass=ABCMeta):
     def __init__(self, beta=2):
 
         if not (beta >= 0):
-            raise ValueError('`beta` must be >=0. Given: {}'.format(self.beta))
+            raise ValueError('`beta` must be >=0. Given: {}'.format(beta))
         self.beta = beta
 
         # Split object name at uppercase
-- 
2.43.0


From 6d456ef13450ca7f28a7cb0fb8525b19754a97e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 46/51] fix: sampling parameters of beta ensembles updated only
 by successful calls

---
 dppy/beta_ensembles.py | 112 ++++++++++++++++++++---------------------
 1 file changed, 54 insertions(+), 58 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index fb8775d..17676c0 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -151,20 +151,20 @@ class HermiteEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
         params = {'loc': 0.0, 'scale': np.sqrt(2.0), 'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample N i.i.d. gaussian N(0,2)
-            sampl = rng.normal(loc=self.params['loc'],
-                               scale=self.params['scale'],
-                               size=self.params['size_N'])
+            sampl = rng.normal(loc=params['loc'],
+                               scale=params['scale'],
+                               size=params['size_N'])
         else:  # if beta > 0
-            sampl = rm.hermite_sampler_full(N=self.params['size_N'],
+            sampl = rm.hermite_sampler_full(N=params['size_N'],
                                             beta=self.beta,
                                             random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -203,23 +203,23 @@ class HermiteEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
         params = {'loc': loc, 'scale': scale, 'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample N i.i.d. gaussian N(mu, sigma^2)
-            sampl = rng.normal(loc=self.params['loc'],
-                               scale=self.params['scale'],
-                               size=self.params['size_N'])
+            sampl = rng.normal(loc=params['loc'],
+                               scale=params['scale'],
+                               size=params['size_N'])
         else:  # if beta > 0
             sampl = rm.mu_ref_normal_sampler_tridiag(
-                        loc=self.params['loc'],
-                        scale=self.params['scale'],
+                        loc=params['loc'],
+                        scale=params['scale'],
                         beta=self.beta,
-                        size=self.params['size_N'],
+                        size=params['size_N'],
                         random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -420,8 +420,6 @@ class LaguerreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
-
         if size_M >= size_N:
             # Define the parameters of the associated Gamma distribution
             shape, scale = 0.5 * self.beta * (size_M - size_N + 1), 2.0
@@ -432,26 +430,27 @@ class LaguerreEnsemble(BetaEnsemble):
 
         params = {'shape': shape, 'scale': scale,
                   'size_N': size_N, 'size_M': size_M}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # rng.gamma(shape=0,...) when doesn't return error! contrary to sp.stats.gamma(a=0).rvs(), see https://github.com/numpy/numpy/issues/12367
             # sampl = stats.gamma.rvs(a=params['shape'], loc=0.0, scale=params['scale'],                                       size=params['size_N'])
             if params['shape'] > 0:
-                sampl = rng.gamma(shape=self.params['shape'],
-                                  scale=self.params['scale'],
-                                  size=self.params['size_N'])
+                sampl = rng.gamma(shape=params['shape'],
+                                  scale=params['scale'],
+                                  size=params['size_N'])
             else:
                 err_print = ('shape<=0.',
                              'Here beta=0, hence shape=beta/2*(M-N+1)=0')
                 raise ValueError(' '.join(err_print))
 
         else:  # if beta > 0
-            sampl = rm.laguerre_sampler_full(M=self.params['size_M'],
-                                             N=self.params['size_N'],
+            sampl = rm.laguerre_sampler_full(M=params['size_M'],
+                                             N=params['size_N'],
                                              beta=self.beta,
                                              random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -509,8 +508,6 @@ class LaguerreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
-
         if not size_M:  # Default setting
             if self.beta > 0:
                 size_M = 2 / self.beta * shape + size_N - 1
@@ -528,27 +525,28 @@ class LaguerreEnsemble(BetaEnsemble):
 
         params = {'shape': shape, 'scale': scale,
                   'size_N': size_N, 'size_M': size_M}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # rng.gamma(shape=0,...) when doesn't return error! contrary to sp.stats.gamma(a=0).rvs(), see https://github.com/numpy/numpy/issues/12367
             # sampl = stats.gamma.rvs(a=params['shape'], loc=0.0, scale=params['scale'], size=params['size_N'])
             if params['shape'] > 0:
-                sampl = rng.gamma(shape=self.params['shape'],
-                                  scale=self.params['scale'],
-                                  size=self.params['size_N'])
+                sampl = rng.gamma(shape=params['shape'],
+                                  scale=params['scale'],
+                                  size=params['size_N'])
             else:
                 err_print = ('shape<=0.',
                              'Here beta=0, hence shape=beta/2*(M-N+1)=0')
                 raise ValueError(' '.join(err_print))
 
         else:  # if beta > 0
-            sampl = rm.mu_ref_gamma_sampler_tridiag(shape=self.params['shape'],
-                                                    scale=self.params['scale'],
+            sampl = rm.mu_ref_gamma_sampler_tridiag(shape=params['shape'],
+                                                    scale=params['scale'],
                                                     beta=self.beta,
-                                                    size=self.params['size_N'],
+                                                    size=params['size_N'],
                                                     random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -760,8 +758,6 @@ class JacobiEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
-
         if (size_M1 >= size_N) and (size_M2 >= size_N):
             # all([var >= size_N for var in [size_M1, size_M2]]
             a = 0.5 * self.beta * (size_M1 - size_N + 1)
@@ -776,20 +772,21 @@ class JacobiEnsemble(BetaEnsemble):
 
         params = {'a': a, 'b': b,
                   'size_N': size_N, 'size_M1': size_M1, 'size_M2': size_M2}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample i.i.d. Beta(a,b) if size_M1,2 were used a,b = beta/2 (M_1,2 - N + 1) = 0 => ERROR
-            sampl = rng.beta(a=self.params['a'],
-                             b=self.params['b'],
-                             size=self.params['size_N'])
+            sampl = rng.beta(a=params['a'],
+                             b=params['b'],
+                             size=params['size_N'])
         else:
-            sampl = rm.jacobi_sampler_full(M_1=self.params['size_M1'],
-                                           M_2=self.params['size_M2'],
-                                           N=self.params['size_N'],
+            sampl = rm.jacobi_sampler_full(M_1=params['size_M1'],
+                                           M_2=params['size_M2'],
+                                           N=params['size_N'],
                                            beta=self.beta,
                                            random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -855,8 +852,6 @@ class JacobiEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
-
         if not (size_M1 and size_M2):  # default setting
 
             if self.beta > 0:
@@ -880,21 +875,22 @@ class JacobiEnsemble(BetaEnsemble):
 
         params = {'a': a, 'b': b,
                   'size_N': size_N, 'size_M1': size_M1, 'size_M2': size_M2}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample i.i.d. Beta(a,b)
             # If size_M1,2 is used a, b = beta/2 (M1,2 - N + 1) = 0 => ERROR
-            sampl = rng.beta(a=self.params['a'],
-                             b=self.params['b'],
-                             size=self.params['size_N'])
+            sampl = rng.beta(a=params['a'],
+                             b=params['b'],
+                             size=params['size_N'])
         else:
-            sampl = rm.mu_ref_beta_sampler_tridiag(a=self.params['a'],
-                                                   b=self.params['b'],
+            sampl = rm.mu_ref_beta_sampler_tridiag(a=params['a'],
+                                                   b=params['b'],
                                                    beta=self.beta,
-                                                   size=self.params['size_N'],
+                                                   size=params['size_N'],
                                                    random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1039,20 +1035,20 @@ class CircularEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
         params = {'size_N': size_N, 'haar_mode': haar_mode}
-        self.params.update(params)
 
         if self.beta == 0:  # i.i.d. points uniformly on the circle
             # Answer issue #28 raised by @rbardenet
             sampl = np.exp(2 * 1j * np.pi * rng.rand(params['size_N']))
         else:
             sampl = rm.circular_sampler_full(
-                        N=self.params['size_N'],
+                        N=params['size_N'],
                         beta=self.beta,
-                        haar_mode=self.params['haar_mode'],
+                        haar_mode=params['haar_mode'],
                         random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1077,9 +1073,7 @@ class CircularEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
         params = {'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # i.i.d. points uniformly on the circle
             # Answer issue #28 raised by @rbardenet
@@ -1087,9 +1081,11 @@ class CircularEnsemble(BetaEnsemble):
         else:
             sampl = rm.mu_ref_unif_unit_circle_sampler_quindiag(
                         beta=self.beta,
-                        size=self.params['size_N'],
+                        size=params['size_N'],
                         random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1222,10 +1218,10 @@ class GinibreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.params.update({'size_N': size_N})
-        sampl = rm.ginibre_sampler_full(N=self.params['size_N'],
+        sampl = rm.ginibre_sampler_full(N=size_N,
                                         random_state=rng)
 
+        self.params.update({'size_N': size_N})
         self.list_of_samples.append(sampl)
         return sampl
 
-- 
2.43.0


From 3dee3c2bcca29351961d34da06c9d9675999cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 47/51] fix: size and sampling mode of exotic DPPs updated only
 by successful calls

---
 dppy/exotic_dpps.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index a382350..ef06639 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -162,12 +162,12 @@ class CarriesProcess(Descent):
         """
         rng = check_random_state(random_state)
 
-        self.size = size
-        A = rng.randint(0, self.base, self.size)
+        A = rng.randint(0, self.base, size)
         B = np.mod(np.cumsum(A), self.base)
 
         carries = 1 + np.where(B[:-1] > B[1:])[0]
 
+        self.size = size
         self.list_of_samples.append(carries.tolist())
 
 
@@ -206,11 +206,11 @@ class DescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
-        self.size = size
-        sigma = uniform_permutation(self.size, random_state=rng)
+        sigma = uniform_permutation(size, random_state=rng)
 
         descent = 1 + np.where(sigma[:-1] > sigma[1:])[0]
 
+        self.size = size
         self.list_of_samples.append(descent.tolist())
 
 
@@ -262,18 +262,18 @@ class VirtualDescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
-        self.size = size
         # Fixed points have asymptotic proportion x_0
-        Y = rng.rand(self.size + 1) < self.x_0
+        Y = rng.rand(size + 1) < self.x_0
 
-        sigma = uniform_permutation(self.size + 1, random_state=rng)
+        sigma = uniform_permutation(size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        descent = [i for i in range(1, self.size)
+        descent = [i for i in range(1, size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
 
+        self.size = size
         self.list_of_samples.append(descent)
 
 
@@ -556,35 +556,33 @@ class UST:
 
         rng = check_random_state(random_state)
 
-        self.sampling_mode = mode
-
-        if self.sampling_mode in self._sampling_modes['markov-chain']:
-            if self.sampling_mode == 'Wilson':
+        if mode in self._sampling_modes['markov-chain']:
+            if mode == 'Wilson':
                 sampl = ust_sampler_wilson(self.neighbors,
                                            random_state=rng)
 
-            elif self.sampling_mode == 'Aldous-Broder':
+            elif mode == 'Aldous-Broder':
                 sampl = ust_sampler_aldous_broder(self.neighbors,
                                                   random_state=rng)
 
             sampl = self.nx.relabel_nodes(sampl,
                                           dict(enumerate(self.nodes)))
 
-        elif self.sampling_mode in self._sampling_modes['spectral-method']:
+        elif mode in self._sampling_modes['spectral-method']:
 
             self.compute_kernel_eig_vecs()
             dpp_sample = proj_dpp_sampler_eig(self.kernel_eig_vecs,
-                                              mode=self.sampling_mode,
+                                              mode=mode,
                                               random_state=rng)
 
             sampl = self.nx.Graph()
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
-        elif self.sampling_mode in self._sampling_modes['projection-K-kernel']:
+        elif mode in self._sampling_modes['projection-K-kernel']:
 
             self.compute_kernel()
             dpp_sample = proj_dpp_sampler_kernel(self.kernel,
-                                                 mode=self.sampling_mode,
+                                                 mode=mode,
                                                  random_state=rng)
 
             sampl = self.nx.Graph()
@@ -597,6 +595,7 @@ class UST:
                 'Given {}'.format(mode)])
             raise ValueError(err_print)
 
+        self.sampling_mode = mode
         self.list_of_samples.append(sampl)
 
     def compute_kernel(self):
-- 
2.43.0


From c9daea4c674fef956160e40ea2352c806550301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 48/51] fix: display of empty Poissonized Plancherel samples

---
 dppy/exotic_dpps.py      | 4 ++--
 dppy/exotic_dpps_core.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index ef06639..2521b2a 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -362,7 +362,7 @@ class PoissonizedPlancherel:
         ax.spines['right'].set_visible(False)
 
         # Ticks options
-        x_max = np.max(np.abs(sampl)) + 0.5
+        x_max = np.max(np.abs(sampl), initial=0.0) + 0.5
         minor_ticks = np.arange(-x_max, x_max + 1)
         major_ticks = np.arange(-100, 100 + 1, 10)
         ax.set_xticks(major_ticks)
@@ -404,7 +404,7 @@ class PoissonizedPlancherel:
         y_diag = self.list_of_young_diag[-1]
         sampl = self.list_of_samples[-1].copy()
 
-        x_max = 1.1 * max(y_diag.size, y_diag[0])
+        x_max = 1.1 * max(y_diag.size, np.max(y_diag, initial=1))
         xy_young = xy_young_ru(y_diag)
 
         if normalization:
diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 44d76f0..9bf4390 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -233,7 +233,7 @@ def xy_young_ru(young_diag):
 
     # vertical lines
     uniq, ind = np.unique(young_diag[::-1], return_index=True)
-    gaps = np.ediff1d(uniq, to_begin=young_diag[-1])
+    gaps = np.ediff1d(uniq, to_begin=young_diag[-1:])
 
     x_vert = np.repeat(np.arange(1, 1 + gaps.sum()), repeats=2)
     y_vert = np.repeat(young_diag.size - ind, repeats=gaps)
-- 
2.43.0


From ed9eb41e9507bc333930eedcf7bb611b3628458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 49/51] fix: integer-valued kernels and eigenvectors in the
 exact samplers

---
 dppy/exact_sampling.py        | 14 +++++++-------
 dppy/intermediate_sampling.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 9bbac25..4afaf55 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -107,7 +107,7 @@ def proj_dpp_sampler_kernel_Chol(K, size=None, random_state=None):
         size = rank
     # else: k-DPP with k = size
 
-    A = K.copy()
+    A = K.astype(np.result_type(K, float))
     d = np.diagonal(A).astype(float)
 
     orig_indices = np.arange(N)
@@ -200,7 +200,7 @@ def proj_dpp_sampler_kernel_GS(K, size=None, random_state=None):
     avail = np.ones(N, dtype=bool)  # available items
 
     c = np.zeros((N, size))
-    norm_2 = K.diagonal().copy()  # residual norm^2
+    norm_2 = K.diagonal().astype(np.result_type(K, float))  # residual norm^2
 
     for it in range(size):
         j = rng.choice(ground_set[avail],
@@ -264,7 +264,7 @@ def proj_dpp_sampler_kernel_Schur(K, size=None, random_state=None):
     avail = np.ones(N, dtype=bool)  # available items
 
     # Schur complement list i.e. residual norm^2
-    schur_comp = K.diagonal().copy()
+    schur_comp = K.diagonal().astype(np.result_type(K, float))
     K_inv = np.zeros((size, size))
 
     for it in range(size):
@@ -340,7 +340,7 @@ def dpp_sampler_generic_kernel(K, random_state=None):
 
     rng = check_random_state(random_state)
 
-    A = K.copy()
+    A = K.astype(np.result_type(K, float))
     sample = []
 
     for j in range(len(A)):
@@ -471,7 +471,7 @@ def proj_dpp_sampler_eig_GS(eig_vecs, size=None,
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs
+    V = eig_vecs.astype(np.result_type(eig_vecs, float), copy=False)
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
@@ -533,7 +533,7 @@ def proj_dpp_sampler_eig_GS_bis(eig_vecs, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs.copy()
+    V = eig_vecs.astype(np.result_type(eig_vecs, float))
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
@@ -632,7 +632,7 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs.copy()
+    V = eig_vecs.astype(np.result_type(eig_vecs, float))
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 9b67870..3d96136 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -110,7 +110,7 @@ def estimate_rls_from_weighted_dict_eigendecomp(X_to_estimate,
 
     diag_L_to_estimate = evaluate_L_diagonal(eval_L, X_to_estimate)
     L_DX = eval_L(dict_alphadpp.X, X_to_estimate)
-    L_DX *= W_sqrt
+    L_DX = W_sqrt * L_DX
     E = eigvec.T.dot(L_DX)
     E *= np.sqrt(1.0 / (alpha_hat * eigvals + 1.0)).reshape(-1, 1)
 
-- 
2.43.0


From 490ea7982b4819cfde13f04aa036b38176d80fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:19 +0000
Subject: [PATCH 50/51] fix: is_projection checks M M = M, not only its
 diagonal

---
 dppy/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/utils.py b/dppy/utils.py
index e69e288..1eee87e 100644
--- a/dppy/utils.py
+++ b/dppy/utils.py
@@ -145,9 +145,8 @@ def is_projection(array, col_idx=None):
         col_idx = np.arange(min(20, array.shape[0]))
 
     M_j = array[:, col_idx]
-    Mjj = array[col_idx, col_idx]
 
-    if np.allclose(inner1d(M_j), Mjj):
+    if np.allclose(array.dot(M_j), M_j, atol=1e-5):
         return array
     else:
         raise ValueError('array not seem to be a projection: M^2 != M')
-- 
2.43.0


From 357d8154c07317912f9df19c217da34e3526f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:19 +0000
Subject: [PATCH 51/51] fix: check_random_state refuses tuples with its
 documented error

---
 dppy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/utils.py b/dppy/utils.py
index 1eee87e..6827697 100644
--- a/dppy/utils.py
+++ b/dppy/utils.py
@@ -28,7 +28,7 @@ def check_random_state(seed: object) -> np.random.RandomState:
     if isinstance(seed, np.random.RandomState):
         return seed
     raise ValueError('%r cannot be used to seed a numpy.random.RandomState'
-                     ' instance' % seed)
+                     ' instance' % (seed,))
 
 
 def inner1d(arr1, arr2=None, axis=0):
-- 
2.43.0

