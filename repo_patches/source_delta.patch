From 6ca34c91b01c2d19f5bb105b1f1d8ba438f1f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 01/69] fix: TP-AIS returned overlapping slices of the leaf
 sample histories

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 573cc9b..dbb01af 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -696,10 +696,12 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
         samples = np.zeros((nsamples, self.ndims))
         weights = np.zeros(nsamples)
-        for i, l in enumerate(self.T.leaves):
+        i = 0
+        for l in self.T.leaves:
             nsamples_subspace = len(l.weight_hist)
             samples[i:i + nsamples_subspace] = l.coords_hist
             weights[i:i + nsamples_subspace] = l.weight_hist.flatten()
+            i += nsamples_subspace
         return samples[weights > 0], weights[weights > 0]
 
     def _self_normalize(self):
-- 
2.43.0


From ae6ddfa3b3d694cec70802dfdaa653d82ce326ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 02/69] fix: TP-AIS crashed with the documented ess_target=None

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index dbb01af..399a200 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -687,7 +687,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return len(self._get_samples()[1])
 
     def _get_samples(self):
-        if self.ess_target > 1.0:
+        if self.ess_target is not None and self.ess_target > 1.0:
             return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
 
         nsamples = 0
-- 
2.43.0


From 5f1ca4d12068ed3cc27c3fb453bccfa8137379e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 03/69] fix: tree pyramid find() restarted at the root on every
 step and never returned

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 399a200..6be2132 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -147,9 +147,9 @@ class CTreePyramid:
         :param prev: node that represents the subspace to search
         :return: node that contains val
         """
-        if prev is None and self.root is None:
-            return None
-        else:
+        if prev is None:
+            if self.root is None:
+                return None
             prev = self.root
 
         if prev.is_leaf():
-- 
2.43.0


From e0a142f12df2b3122f562f5fe6168ce37e33623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 04/69] fix: np.int was removed from numpy, TP-AIS dm and
 mixture modes crashed

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 6be2132..41f3144 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -392,7 +392,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # that will be expanded. Each node split generates 2^k samples. Therefore to obtain N samples we
             # have to split X nodes. N = X*2^k, X = N / 2^k
             n_samples_to_get = n_samples - self._get_nsamples()
-            nodes_to_expand = np.int(np.ceil(n_samples_to_get / 2 ** self.ndims))
+            nodes_to_expand = int(np.ceil(n_samples_to_get / 2 ** self.ndims))
 
             # Obtain N samples
             samples = self.sample(nodes_to_expand)
-- 
2.43.0


From c9324b39920c43a071bf3b23b92efcad15e72345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 05/69] fix: TP-AIS simple mode did not count the evaluations
 of the root sample

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 41f3144..baf7cfb 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -444,6 +444,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             self.T.samples[self.T.root.node_idx] = self.T.root.coords
             self._num_q_samples += 1
             self.T.root.weigh(target_d, self.T.root.sampler)
+            self._num_pi_evals += 1  # Count the evaluation operation
+            self._num_q_evals += 1  # Count the evaluation operation
             self.T.weights[self.T.root.node_idx] = self.T.root.weight
             self._update_model()
 
-- 
2.43.0


From f3ce992bdab2f556d576f65e450d1c0c00ff5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 06/69] fix: TP-AIS normal kernel leaf resampling ignored the
 density scaling of the leaf size

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index baf7cfb..17cd310 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -510,7 +510,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # calling self.prob() (which computes computing q(x)) and do it in a vectorized form as shown below.
             proposal_probs = 1 / ((2 * radii) ** self.T.ndims)
         elif self.kernel == "normal":
-            proposal_probs = self.T.sampler.prob(re_samples)
+            proposal_probs = self.T.sampler.prob(re_samples).reshape(-1, 1) / ((2 * radii) ** self.T.ndims)
         self.T.samples[self.T.leaves_idx] = samples
         probs = target_d.prob(samples)
         # re_weights = probs.reshape(-1) / proposal_probs.reshape(-1)
-- 
2.43.0


From cc82865e263ab5808be5659d2493049870568320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 07/69] fix: TP-AIS leaf resampling mixed weights normalized by
 different totals

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 17cd310..489322c 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -522,10 +522,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         self._num_q_evals += len(samples)
         self._num_q_samples += len(samples)
 
-        # Self-normalization of importance weights.
-        self._self_normalize()
-
-        # Update resampled coordinates and weights.
+        # Update resampled coordinates and weights. The sample history keeps unnormalized weights, otherwise it would mix
+        # weights normalized by different totals.
         for node in self.T.leaves:
             node.weight = self.T.weights[node.node_idx]
             # Replace last node sample with the resampled one
@@ -534,6 +532,9 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # TODO: Node value can be updated with all the samples in the subspace instead
             node.value = node.weight * ((2 * node.radius) ** len(node.center))
 
+        # Self-normalization of importance weights.
+        self._self_normalize()
+
     def log_prob(self, x):
         if len(x.shape) == 1:
             x.reshape(-1, self.ndims)
-- 
2.43.0


From d9ea1f782a1b448c376f74063a465615784c3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 08/69] fix: TP-AIS mixed already normalized and unnormalized
 leaf weights across incremental requests

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 489322c..fb65c96 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -713,6 +713,11 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 self.T.weights[self.T.leaves_idx])
 
     def _update_model(self):
+        # The cached leaf weights might have been normalized in a previous update, while the leaves sampled since then
+        # are not. Restore the unnormalized leaf weights so that all of them share the same scale.
+        for node in self.T.leaves:
+            self.T.weights[node.node_idx] = node.weight
+
         weights = self.T.weights[self.T.leaves_idx]
         centers = self.T.centers[self.T.leaves_idx]
         radii = self.T.radii[self.T.leaves_idx]
-- 
2.43.0


From 41dc53c6f3b34c88ea3c8f9798084af8fde4687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 09/69] fix: TP-AIS get_stats computed the NESS of an always
 empty weight set

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index fb65c96..c09fa08 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -330,7 +330,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 "proposal_evals": self._num_q_evals,
                 "target_evals": self._num_pi_evals,
                 "n_samples": self._get_nsamples(),
-                "NESS": self.get_approx_NESS()}
+                "NESS": self.get_NESS()}
 
     def reset(self):
         super(CTreePyramidSampling, self).reset()
-- 
2.43.0


From 4ce61cf7547675b21caff400819cbad87be57280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 10/69] fix: TP-AIS statistics crashed or reported a sample
 before the first request

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index c09fa08..2868d1f 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -690,6 +690,10 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return len(self._get_samples()[1])
 
     def _get_samples(self):
+        # The root is not sampled until the first request
+        if self.T.root.is_leaf() and self.T.root.weight_hist is None:
+            return np.zeros((0, self.ndims)), np.zeros(0)
+
         if self.ess_target is not None and self.ess_target > 1.0:
             return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
 
-- 
2.43.0


From f594eeca080365432ed93ee67fb39cad5b67fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 11/69] fix: rejection sampling counted the requested total
 instead of the proposals drawn on each iteration

---
 ais_benchmarks/sampling_methods/rejection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index d4f4aef..fa493ad 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -19,20 +19,21 @@ class CRejectionSampling(CMixtureSamplingMethod):
         t_elapsed = time.time() - t_ini
         while t_elapsed < timeout and n_samples > len(self.samples):
             # Generate proposal samples from proposal distribution
-            proposals = self.proposal_dist.sample(n_samples - len(self.samples))
-            self._num_q_samples += n_samples
+            n_proposals = n_samples - len(self.samples)
+            proposals = self.proposal_dist.sample(n_proposals)
+            self._num_q_samples += n_proposals
 
             # Obtain the sample likelihood for both the proposal and target distributions
             proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling
-            self._num_pi_evals += n_samples
+            self._num_pi_evals += n_proposals
             proposals_prob_p = target_d.prob(proposals)
-            self._num_q_evals += n_samples
+            self._num_q_evals += n_proposals
 
             # Compute the acceptance ratio
             acceptance_ratio = proposals_prob_p / proposals_prob_q
 
             # Generate acceptance probability values from U[0,1)
-            acceptance_prob = np.random.uniform(0, 1, size=n_samples - len(self.samples))
+            acceptance_prob = np.random.uniform(0, 1, size=n_proposals)
 
             # Obtain the indices of the accepted samples
             accept_idx = (acceptance_ratio > acceptance_prob).reshape(-1)
-- 
2.43.0


From 76f2b54037688d79bc45d4704651391e194fb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 12/69] fix: MCMC-MH sample(n) returned n*n samples

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 8c2db6a..33345a8 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -70,7 +70,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(n_samples, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout)
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
-- 
2.43.0


From ca004104ce57d3b9fca571db0cbaba86a17bb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 13/69] fix: MCMC-MH reset kept the chain state of the previous
 run

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 33345a8..0e40b1e 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -76,6 +76,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
     def reset(self):
         super(self.__class__, self).reset()
+        self.current_sample = self.proposal_d.sample()
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []
-- 
2.43.0


From 4b1843ed5b4093e1c3b3bd9d527aa6fd5ad155e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 14/69] fix: nested sampling retries were not confined to the
 space

---
 ais_benchmarks/sampling_methods/nested.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 33160db..853e15a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -38,7 +38,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
-            new_sample = self.proposal_dist.sample() + sample
+            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
-- 
2.43.0


From 6a00cd433ae6ff00f83ca2783c478fa2c1620162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 15/69] fix: multi nested sampling retries were not confined to
 the space

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 16eb834..dc07d84 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -114,7 +114,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
-            new_sample = ellipsoid.sample()
+            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
-- 
2.43.0


From edad6db7782ac9cf6640049199cbf609b45c56d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 16/69] fix: multi nested sampling reset kept the ellipsoids of
 the previous run

---
 ais_benchmarks/sampling_methods/multi_nested.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dc07d84..f954cbf 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -96,6 +96,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min
         self.L = np.array([])
         self.Z = 0
+        self.ellipsoids = []
         super(CMultiNestedSampling, self).reset()
 
     def get_NESS(self):
-- 
2.43.0


From f0b14cfd3d281675f0602dc4f0e4482899beef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 17/69] fix: DM-AIS and LAIS never counted the proposal
 evaluations

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 1 +
 ais_benchmarks/sampling_methods/layered_ais.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 878f5fb..09b9687 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -73,6 +73,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
             for s in new_samples:
                 w = target_d.prob(s) / self.prob(s)
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index 7f9162b..9350308 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -91,6 +91,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
             for s in new_samples:
                 w = target_d.prob(s) / self.prob(s)
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
-- 
2.43.0


From 204062471f351a03be271b6b2d450f1f6f81cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 18/69] fix: HiDaisee did not update the proposal mass of the
 parent of the sampled leaf

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 32c17a8..9e9aeca 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -203,7 +203,7 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
 
         for t in range(len(self.samples), n_samples):
             # Initialize traversal path and node to the root. Line 3.
-            P = [0]
+            P = []
             n_id = 0
 
             if self.debug:
@@ -247,8 +247,7 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
                 print(self.__class__.__name__, "== Debug ==> ", "    | and weights %s" % str(n.weights.flatten()))
 
             # Update the leaf and ancestors proposal expected evidence values. Line 11
-            # Because the traversal trajectory is stored in P. The last node is a leaf node and the remaining nodes
-            # in the list are ancestors of P.
+            # Because the traversal trajectory is stored in P. The nodes in the list are the ancestors of the leaf node.
             # qi computed using eq.8 for leaves. Which is a MC estimate of the evidence in the subspace.
 
             # Compute the optimism boost (sigma_a) according to the paper description in Theorem 1.
@@ -266,7 +265,7 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
             n.q = (Za + sigma_at) / total_ev
 
             # qi computed using eq.19 for ancestors. Line 11
-            for parent_n in reversed(P[:-1]):
+            for parent_n in reversed(P):
                 self.T.nodes[parent_n].q = self.T.nodes[parent_n].left.q + self.T.nodes[parent_n].right.q
 
             # Determine whether to split the leaf node. Lines 12 to 15
-- 
2.43.0


From db81845171d5cf4aab82d825e6a5ebee6bd5e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 19/69] fix: MCMC-MH chain could start outside of the space

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 0e40b1e..2ee0a84 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -49,7 +49,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         self.n_burnin = params["n_burnin"]
         self.target_d = None
         self.bw = np.array([params["kde_bw"]])
-        self.current_sample = self.proposal_d.sample()
+        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []  # 0:reject 1:accept 2:burn_in 3:decorrelation 4:sample
@@ -76,7 +76,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
     def reset(self):
         super(self.__class__, self).reset()
-        self.current_sample = self.proposal_d.sample()
+        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []
-- 
2.43.0


From cbd3cee5ca043f4d395521527e6c7656192accb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 20/69] fix: multi nested sampling returned less samples than
 requested and exceeded satisfied requests

---
 ais_benchmarks/sampling_methods/multi_nested.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index f954cbf..9ece8c2 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -198,8 +198,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         clusters, c_ellipsoids = self.recursive_clustering(points, inflate_factor=self.inflate_factor)
 
         # Perform nested sampling on each cluster
-        n_samples_ell = int((n_samples-len(self.samples)) / len(c_ellipsoids))
-        n_samples_ell = max(n_samples_ell, 1)
+        n_samples_ell = int(np.ceil((n_samples-len(self.samples)) / len(c_ellipsoids)))
         for idx, c_ellipsoid in enumerate(c_ellipsoids):
             for i in range(n_samples_ell):
                 Lmin = np.min(values[c_ellipsoid.indices])
-- 
2.43.0


From 7535e322eb987d330b1cbad7c06bfce7fc0d6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 21/69] fix: exponential density was only right for unit mean,
 had log-density 0 outside the support and could not sample batches

---
 .../distributions/parametric/CMultivariateExponential.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index be2b148..d7b494a 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -23,22 +23,23 @@ class CMultivariateExponential(CDistribution):
     def set_moments(self, mean):
         self.loc = mean
         self.scale = 1 / mean
-        self.log_scale = np.log(self.scale * np.e)
+        self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
-        return np.random.exponential(self.loc, n_samples)
+        return np.random.exponential(self.loc, size=(n_samples, self.dims))
 
     def log_prob(self, samples):
         samples = self._check_shape(samples)
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
-        res_in = -self.scale.reshape(1, self.dims) * samples[inliers] * self.log_scale.reshape(1, self.dims)
+        res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]
         res_in = np.sum(res_in, axis=1)
         res[inliers] = res_in.flatten()
         return res
 
     def prob(self, samples):
+        samples = self._check_shape(samples)
         res = np.zeros(len(samples))
         inliers = np.all(samples > 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-- 
2.43.0


From b24e42efaa07240f801106991c144f185788e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 22/69] fix: Maxwell log-density was 0 outside the support and
 prob did not accept a single point

---
 ais_benchmarks/distributions/benchden/d03_maxwell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d03_maxwell.py b/ais_benchmarks/distributions/benchden/d03_maxwell.py
index 99607bb..98a9523 100644
--- a/ais_benchmarks/distributions/benchden/d03_maxwell.py
+++ b/ais_benchmarks/distributions/benchden/d03_maxwell.py
@@ -34,7 +34,7 @@ class BenchDenMaxwell(CDistribution):
         else:
             raise ValueError("Shape of samples does not match self.dims")
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
         samples_in = samples[inliers]
         res_in = np.log(samples_in) - ((samples_in * samples_in) / 2)
@@ -43,6 +43,7 @@ class BenchDenMaxwell(CDistribution):
         return res
 
     def prob(self, samples):
+        samples = self._check_shape(samples)
         res = np.zeros(len(samples))
         inliers = np.all(samples > 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-- 
2.43.0


From 95bf817a0dd7ba0a180373e709612498114eac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 23/69] fix: Laplace density was not a flat batch result

---
 ais_benchmarks/distributions/benchden/d04_laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d04_laplace.py b/ais_benchmarks/distributions/benchden/d04_laplace.py
index 30d62af..36ec20a 100644
--- a/ais_benchmarks/distributions/benchden/d04_laplace.py
+++ b/ais_benchmarks/distributions/benchden/d04_laplace.py
@@ -36,7 +36,7 @@ class BenchDenLaplace(CDistribution):
 
         res = np.log(.5) - np.fabs(samples)
         res = np.sum(res, axis=1)
-        return res
+        return res.flatten()
 
     def prob(self, samples):
         return np.exp(self.log_prob(samples))
-- 
2.43.0


From 9bba6a8bec3206ec3482928e2fd8edc46dbf77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 24/69] fix: BenchDen uniform density covered [-0.5, 1.5]
 instead of [0, 1]

---
 ais_benchmarks/distributions/benchden/d01_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d01_uniform.py b/ais_benchmarks/distributions/benchden/d01_uniform.py
index b1a9ceb..0fbc83d 100644
--- a/ais_benchmarks/distributions/benchden/d01_uniform.py
+++ b/ais_benchmarks/distributions/benchden/d01_uniform.py
@@ -20,5 +20,5 @@ class BenchDenUniform(CMultivariateUniform):
         params["dims"] = 1
         params["support"] = np.array([0, 1])
         params["center"] = np.array([.5])
-        params["radius"] = np.array([1])
+        params["radius"] = np.array([.5])
         super(self.__class__, self).__init__(params)
-- 
2.43.0


From 42ea7933237152498be3a63e24ad9d18a73e152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 25/69] fix: delta distribution integral used an undefined name

---
 ais_benchmarks/distributions/parametric/CMultivariateDelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
index b880714..80d9485 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
@@ -46,7 +46,7 @@ class CMultivariateDelta(CDistribution):
 
     def integral(self, a, b, nsamples=None):
         assert np.all(a < b)
-        if np.all(a < center) and np.all(center < b):
+        if np.all(a < self.loc) and np.all(self.loc < b):
             return np.array([1])
         return np.array([0])
 
-- 
2.43.0


From be66c5b05ce5e8cfceaf9171abfec3c4491c0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 26/69] fix: ABC distribution could not be sampled with noisy
 function models

---
 ais_benchmarks/distributions/derived/CABCDistribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/derived/CABCDistribution.py b/ais_benchmarks/distributions/derived/CABCDistribution.py
index e8d9301..852e14a 100644
--- a/ais_benchmarks/distributions/derived/CABCDistribution.py
+++ b/ais_benchmarks/distributions/derived/CABCDistribution.py
@@ -109,10 +109,10 @@ class ABCDistribution(CDistribution):
         z = self.prior_d.sample(nsamples)
 
         self.gen_d.condition(z)
-        x = self.gen_d.sample(nsamples)
+        x = self.gen_d.sample()  # One observation for each of the conditioned values
 
         self.sensor_d.condition(x)
-        o_hat = self.sensor_d.sample(nsamples)
+        o_hat = self.sensor_d.sample()
 
         return o_hat
 
-- 
2.43.0


From 81958d34afeb07a475d0cafc3141317f352e053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 27/69] fix: mixture with no valid weight kept all weights at
 zero instead of using equal weights

---
 ais_benchmarks/distributions/mixture/CMixtureModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 06538f8..7226bb6 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -36,6 +36,7 @@ class CMixtureModel(CDistribution):
         if weights.sum() <= 0:
             print("CMixtureModel. WARNING! All weights are set to zero!. "
                   "Using equal weights for all components.", file=sys.stderr)
+            weights = np.full(len(weights), 1 / len(weights))
         else:
             weights = weights / weights.sum()
         self.weights = weights
-- 
2.43.0


From 2f8890c960f2de1e32dba16c9ff5a513c93fb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 28/69] fix: stream reader could put the kept line behind lines
 that arrived later

---
 ais_benchmarks/utils/misc.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ais_benchmarks/utils/misc.py b/ais_benchmarks/utils/misc.py
index f38ba12..ee02c2d 100644
--- a/ais_benchmarks/utils/misc.py
+++ b/ais_benchmarks/utils/misc.py
@@ -1,5 +1,5 @@
 import numpy as np
-from threading import Thread
+from threading import Thread, Lock
 from queue import Queue, Empty
 
 from ais_benchmarks.sampling_methods.base import make_grid
@@ -10,12 +10,15 @@ class CNonBlockingStreamReader:
     def __init__(self, stream):
         self._s = stream
         self._q = Queue()
+        # Serializes the queue users, read_last_and_clear takes several steps to put back the last line.
+        self._lock = Lock()
 
         def _addqueue(s, q):
             while True:
                 l = s.readline()
                 if l:
-                    q.put(l)
+                    with self._lock:
+                        q.put(l)
 
         self._t = Thread(target=_addqueue, args=(self._s, self._q))
         self._t.daemon = True
@@ -23,18 +26,20 @@ class CNonBlockingStreamReader:
 
     def read_last_and_clear(self, keep_last=True):
         val = None
-        while not self._q.empty():
-            val = self._q.get()
+        with self._lock:
+            while not self._q.empty():
+                val = self._q.get()
 
-        if val is not None and keep_last:
-            self._q.put(val)
+            if val is not None and keep_last:
+                self._q.put(val)
         return val
 
     def read(self):
-        try:
-            return self._q.get(block=False)
-        except Empty:
-            return ""
+        with self._lock:
+            try:
+                return self._q.get(block=False)
+            except Empty:
+                return ""
 
 
 def generateRandomGMM(space_min, space_max, num_gaussians, sigma_min=(0.04, 0.04, 0.04), sigma_max=(0.05, 0.05, 0.05)):
-- 
2.43.0


From 4d9750a9993e52db6543e970f0852027caf5d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 29/69] fix: KL divergence of disjoint distributions was 0 and
 the evaluated log-probabilities were modified in place

---
 ais_benchmarks/metrics/divergences.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 0b85148..c534137 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -143,13 +143,17 @@ class CKLDivergence(CDivergence):
         if  inlier_ratio < .1:
             print("WARNING. KLDD compute. Less than 10% inliers")
 
+        # Disjoint distributions, there is no sample with probability on both sides
+        if num_inliers == 0:
+            return np.array([np.inf])
+
         # Normalize sample probabilities in log space
-        p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])
-        q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])
+        p_logprob = p_samples_logprob[inliers] - np.logaddexp.reduce(p_samples_logprob[inliers])
+        q_logprob = q_samples_logprob[inliers] - np.logaddexp.reduce(q_samples_logprob[inliers])
 
         # Compute discrete KL for each sample
-        res = np.exp(p_samples_logprob[inliers]) * (p_samples_logprob[inliers] - q_samples_logprob[inliers])
-        res[np.isnan(q_samples_logprob[inliers])] = np.inf
+        res = np.exp(p_logprob) * (p_logprob - q_logprob)
+        res[np.isnan(q_logprob)] = np.inf
         return res
 
 
-- 
2.43.0


From 20c8dd3b5a1c4290d03b4456b3d43eef1e7553c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 30/69] fix: JS divergence of disjoint distributions was 0 and
 the evaluated probabilities were modified in place

---
 ais_benchmarks/metrics/divergences.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index c534137..9354afa 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -180,17 +180,22 @@ class CJSDivergence(CDivergence):
         if inlier_ratio < .1:
             print("WARNING. JSD compute. Only %6.3f%% inliers" % (inlier_ratio*100))
 
+        # Disjoint distributions, there is no sample with probability on both sides
+        if num_inliers == 0:
+            self.value = 1.0
+            return self.value
+
         # Normalize sample probabilities
-        p_samples_prob[inliers] = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])
-        q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])
+        p_norm = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])
+        q_norm = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])
 
-        m_samples_prob = 0.5 * (p_samples_prob[inliers] + q_samples_prob[inliers])
+        m_samples_prob = 0.5 * (p_norm + q_norm)
 
         # Renormalize to avoid precision issues
         m_samples_prob = m_samples_prob / np.sum(m_samples_prob)
 
-        res = 0.5 * p_samples_prob[inliers] * np.log(p_samples_prob[inliers] / m_samples_prob) + \
-              0.5 * q_samples_prob[inliers] * np.log(q_samples_prob[inliers] / m_samples_prob)
+        res = 0.5 * p_norm * np.log(p_norm / m_samples_prob) + \
+              0.5 * q_norm * np.log(q_norm / m_samples_prob)
 
         # Remove nans that might have been generated by underflows
         res = res[np.logical_not(np.isnan(res))]
-- 
2.43.0


From 0d27fb76644ea69d21e6b9d6e3582d65bb8bfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 31/69] fix: KL divergence modified the evaluated probabilities
 in place

---
 ais_benchmarks/metrics/divergences.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 9354afa..a53de5a 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -116,21 +116,16 @@ class CKLDivergence(CDivergence):
         if  inlier_ratio < .1:
             print("WARNING. JSD compute. Less than 10% inliers")
 
-        # Normalize sample probabilities
-        if np.sum(p_samples_prob[inliers]) > 0:
-            p_samples_prob[inliers] = (p_samples_prob[inliers] /
-                                       np.sum(p_samples_prob[inliers]))
-        if np.sum(q_samples_prob[inliers]) > 0:
-            q_samples_prob[inliers] = (q_samples_prob[inliers] /
-                                       np.sum(q_samples_prob[inliers]))
-        else:
+        # Disjoint distributions, there is no sample with probability on both sides
+        if num_inliers == 0:
             return np.inf
 
+        # Normalize sample probabilities
+        p_prob = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])
+        q_prob = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])
+
         # Compute discrete KL for each sample
-        res = p_samples_prob[inliers] * np.log(p_samples_prob[inliers] /
-                                               q_samples_prob[inliers])
-        res[q_samples_prob[inliers] <= 0] = 0
-        return res
+        return p_prob * np.log(p_prob / q_prob)
 
     @staticmethod
     def compute_from_log_probs(p_samples_logprob, q_samples_logprob):
-- 
2.43.0


From 13be2da67bc6ad6c56039922f64ed9b1b013cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 32/69] fix: metrics kept the value of the previous run after a
 reset

---
 ais_benchmarks/metrics/divergences.py | 2 +-
 ais_benchmarks/metrics/performance.py | 1 +
 ais_benchmarks/metrics/statistics.py  | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index a53de5a..4aaf977 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -72,7 +72,7 @@ class CDivergence(CMetric):
         pass
 
     def reset(self, **kwargs):
-        pass
+        self.value = 0
 
     def compute(self, **kwargs):
         assert "p" in kwargs.keys() and hasattr(kwargs["p"], "log_prob"), \
diff --git a/ais_benchmarks/metrics/performance.py b/ais_benchmarks/metrics/performance.py
index c975334..88c7d6e 100644
--- a/ais_benchmarks/metrics/performance.py
+++ b/ais_benchmarks/metrics/performance.py
@@ -79,5 +79,6 @@ class CMemoryUsage(CMetric):
         self.mem_ini = 0
         self.mem_end = 0
         self.mem_cum = 0
+        self.value = 0
         gc.collect()
 
diff --git a/ais_benchmarks/metrics/statistics.py b/ais_benchmarks/metrics/statistics.py
index bbfe1e9..721e119 100644
--- a/ais_benchmarks/metrics/statistics.py
+++ b/ais_benchmarks/metrics/statistics.py
@@ -20,7 +20,7 @@ class CExpectedValueMSE(CMetric):
         pass
 
     def reset(self, **kwargs):
-        pass
+        self.value = 0
 
     def compute(self, **kwargs):
         assert "p" in kwargs.keys() and hasattr(kwargs["p"], "log_prob"), \
-- 
2.43.0


From edfdf19a1a5fab9eaf32f0bae4856a64be28af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 33/69] fix: expected value error modified the evaluated
 probabilities in place

---
 ais_benchmarks/metrics/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/metrics/statistics.py b/ais_benchmarks/metrics/statistics.py
index 721e119..29f36c4 100644
--- a/ais_benchmarks/metrics/statistics.py
+++ b/ais_benchmarks/metrics/statistics.py
@@ -37,8 +37,8 @@ class CExpectedValueMSE(CMetric):
     def compute_from_samples(self, p, q, samples):
         samples_pprob = p.prob(samples)
         samples_qprob = q.prob(samples)
-        samples_pprob /= np.sum(samples_pprob)
-        samples_qprob /= np.sum(samples_qprob)
+        samples_pprob = samples_pprob / np.sum(samples_pprob)
+        samples_qprob = samples_qprob / np.sum(samples_qprob)
 
         EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)
         EV_Q = np.sum(samples * samples_qprob.reshape(-1,1), axis=0)
-- 
2.43.0


From 9529053184e0e1cfa5439a1724612b1b9ef19bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 34/69] fix: benchmark could not load the distributions.* types
 used by the shipped files and by to_dict

---
 ais_benchmarks/benchmark/CBenchmark.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 7595023..db4cac4 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -14,6 +14,8 @@ import sys
 # the .yaml files configuring the benchmark
 from ais_benchmarks.distributions import *
 from ais_benchmarks.sampling_methods import *
+# Types can also be referenced by its path in the distributions package, e.g. distributions.benchden.BenchDenUniform
+from ais_benchmarks import distributions
 
 from ais_benchmarks.sampling_methods.base import t_tensor
 from ais_benchmarks.metrics.divergences import CKLDivergence
-- 
2.43.0


From 3fbb7af6756e90afb7e34f752bd9ae1dd5c9bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 35/69] fix: benchmark methods were built with the space bounds
 rounded to 8 decimals

---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index db4cac4..f4eb3c7 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -63,8 +63,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
-                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
+            params = ['"space_min":np.array(%s)' % repr(space_min.tolist()), ",",
+                      '"space_max":np.array(%s)' % repr(space_max.tolist()), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
-- 
2.43.0


From 1d4657ca6e4db01abfc7f77bd916a91d01ffe4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 36/69] fix: benchmark result rows did not match the header
 when NESS was selected or its value was wide

---
 ais_benchmarks/benchmark/CBenchmark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index f4eb3c7..44edcb4 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -166,7 +166,8 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
+        # NESS is always computed and it has its own column after the rest of metrics
+        cols = " ".join(["dims", "output_samples"] + [m for m in self.metrics if m != "NESS"]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -321,7 +322,7 @@ class CBenchmark(object):
     def write_results(results, method, target, nsamples, file):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
-            text += " ".join(["%9.5f" % val for val in results.values()])
+            text += "".join(["%9.5f " % val for val in results.values()])
             text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
-- 
2.43.0


From c975ea833655d643abae4f8aa8519f75a4c632a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 37/69] fix: benchmark never accounted the sampling time so the
 time limit was ignored

---
 ais_benchmarks/benchmark/CBenchmark.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 44edcb4..9e87a53 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -483,8 +483,10 @@ class CBenchmark(object):
                 [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
+                t_sampling = time.time()
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
+                sampling_time += time.time() - t_sampling
 
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
-- 
2.43.0


From c7c69f47d78e9a172ee74c63fe21f325c84dc9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 38/69] fix: redrawn points and axes left the replaced drawing
 on screen

---
 ais_benchmarks/visualization/matplotlib/viz_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/visualization/matplotlib/viz_interface.py b/ais_benchmarks/visualization/matplotlib/viz_interface.py
index 2fc630c..6b7d244 100644
--- a/ais_benchmarks/visualization/matplotlib/viz_interface.py
+++ b/ais_benchmarks/visualization/matplotlib/viz_interface.py
@@ -4,7 +4,7 @@ import numpy as np
 
 
 def draw_point(item, ax):
-    return ax.scatter(item.pos[0], item.pos[1], marker=item.draw_style, color=item.outline_color)
+    return [ax.scatter(item.pos[0], item.pos[1], marker=item.draw_style, color=item.outline_color)]
 
 
 def draw_func(item, ax):
@@ -33,6 +33,7 @@ def draw_axis(item, ax):
         # Draw a small line perpendicular to the axis with size t_size
         l = mlines.Line2D([ini[0], end[0]], [ini[1], end[1]], color=item.outline_color)
         ax.add_line(l)
+        elems.append(l)
 
         # Display label
         # Find the direction that puts the labels outwards
@@ -44,8 +45,6 @@ def draw_axis(item, ax):
         txt = plt.text(text_pos[0], text_pos[1], t_lbl, horizontalalignment="center", verticalalignment="center", color=item.outline_color)
         elems.append(txt)
 
-    elems.append(l)
-
     return elems
 
 
-- 
2.43.0


From 2149b80190df784b8ea91a7c6d023e85021a1d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 39/69] fix: kernel density could not be built or evaluated

---
 ais_benchmarks/distributions/distributions.py                | 3 ++-
 ais_benchmarks/distributions/nonparametric/CKernelDensity.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index b84c69a..93de608 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -321,7 +321,8 @@ class CKernel:
         return self(x)
 
     def __call__(self, x):
-        return self.kernel((x - self.loc) * self.bw) * self.bw
+        # Product kernel, one value per point
+        return np.prod(self.kernel((x - self.loc) * self.bw) * self.bw, axis=-1)
 
     @staticmethod
     def kernel_normal(u):
diff --git a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
index a4da415..e98cc33 100644
--- a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
+++ b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
@@ -33,7 +33,8 @@ class CKernelDensity(CDistribution):
         models = []
         for x in self.samples:
             models.append(CKernel(x, self.kernel_bw, self.kernel_f))
-        self.model = CMixtureModel(models, self.weights)
+        self.model = CMixtureModel({"models": models, "weights": self.weights,
+                                    "dims": self.dims, "support": self.support_vals})
 
     def log_prob(self, data):
         return self.model.log_prob(data)
-- 
2.43.0


From ee4aae29a8e6b958b2457e91b24e290a418b2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 40/69] fix: nearest neighbor distribution used an undefined
 name

---
 ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
index dea9a3d..841c1a1 100644
--- a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
+++ b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
@@ -18,7 +18,7 @@ class CNearestNeighbor(CDistribution):
 
         self.samples = params["samples"]
         self.weights = params["weights"]
-        self.kdtree = spatial.KDTree(samples)
+        self.kdtree = spatial.KDTree(self.samples)
 
     def log_prob(self, samples):
         dist, idx = self.kdtree.query(samples)
-- 
2.43.0


From 880a7d668e580d82cf4b5a95f4515d486662ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 41/69] fix: DM-AIS and LAIS with a single sample per iteration
 lost the batch dimension

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 2 +-
 ais_benchmarks/sampling_methods/layered_ais.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 09b9687..3d02369 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -66,7 +66,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]
                     self._num_q_samples += 1
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index 9350308..fc9f6cc 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -84,7 +84,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]           # Samplers generate samples in a batch. Here we are generating just
                     self._num_q_samples += 1    # one sample and discard the batch dimension
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
-- 
2.43.0


From 74a77137bd510353b6233e49f14a45b4464ce642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 42/69] fix: fix: TP-AIS mixture modes weighted samples with
 the half refined tree instead of the model they were drawn from

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 2868d1f..1a1549c 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -408,7 +408,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 self.T.samples[node.node_idx] = node.coords
                 self._num_q_samples += 1  # Count the sample operation
 
-                node.weigh(target_d, self)
+                node.weigh(target_d, self.model)
                 self._num_pi_evals += 1  # Count the evaluation operation
                 self._num_q_evals += 1  # Count the evaluation operation
                 self.T.weights[node.node_idx] = node.weight
-- 
2.43.0


From 2b8126c6de94b10c4712c6c0e8864567891458ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 43/69] Revert "fix: benchmark never accounted the sampling
 time so the time limit was ignored"

This reverts commit c975ea833655d643abae4f8aa8519f75a4c632a7.
---
 ais_benchmarks/benchmark/CBenchmark.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 9e87a53..44edcb4 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -483,10 +483,8 @@ class CBenchmark(object):
                 [m.pre() for m in metrics_eval]
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
-                t_sampling = time.time()
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
-                sampling_time += time.time() - t_sampling
 
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
-- 
2.43.0


From 17eb83633f3e6f3faa8753f3c5cd3b0d2dca285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 44/69] Revert "fix: benchmark result rows did not match the
 header when NESS was selected or its value was wide"

This reverts commit 1d4657ca6e4db01abfc7f77bd916a91d01ffe4e3.
---
 ais_benchmarks/benchmark/CBenchmark.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 44edcb4..f4eb3c7 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -166,8 +166,7 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        # NESS is always computed and it has its own column after the rest of metrics
-        cols = " ".join(["dims", "output_samples"] + [m for m in self.metrics if m != "NESS"]) + \
+        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -322,7 +321,7 @@ class CBenchmark(object):
     def write_results(results, method, target, nsamples, file):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
-            text += "".join(["%9.5f " % val for val in results.values()])
+            text += " ".join(["%9.5f" % val for val in results.values()])
             text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
-- 
2.43.0


From fce16be22c82909bc63ad71a1e2e8211e19f123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 45/69] Revert "fix: benchmark methods were built with the
 space bounds rounded to 8 decimals"

This reverts commit 3fbb7af6756e90afb7e34f752bd9ae1dd5c9bb1d.
---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index f4eb3c7..db4cac4 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -63,8 +63,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % repr(space_min.tolist()), ",",
-                      '"space_max":np.array(%s)' % repr(space_max.tolist()), ",",
+            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
+                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
-- 
2.43.0


From 7fad15e9278aaa233f7a4514ca4a1c383e770aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 46/69] Revert "fix: benchmark could not load the
 distributions.* types used by the shipped files and by to_dict"

This reverts commit 9529053184e0e1cfa5439a1724612b1b9ef19bf3.
---
 ais_benchmarks/benchmark/CBenchmark.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index db4cac4..7595023 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -14,8 +14,6 @@ import sys
 # the .yaml files configuring the benchmark
 from ais_benchmarks.distributions import *
 from ais_benchmarks.sampling_methods import *
-# Types can also be referenced by its path in the distributions package, e.g. distributions.benchden.BenchDenUniform
-from ais_benchmarks import distributions
 
 from ais_benchmarks.sampling_methods.base import t_tensor
 from ais_benchmarks.metrics.divergences import CKLDivergence
-- 
2.43.0


From 29e66e2e935fda8f3496fc50f0b30e6b27b2c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:13 +0000
Subject: [PATCH 47/69] fix: the first retired live point of the nested methods
 was overwritten by its replacement

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 9ece8c2..4f48462 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -208,7 +208,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 assert len(g_indices) > 0
 
                 min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]
-                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1)
+                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1).copy()
 
                 # Keep the likelihood value associated with the sample
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 853e15a..60a5c13 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -57,7 +57,7 @@ class CNestedSampling(CMixtureSamplingMethod):
             # Add the point with lowest likelihood to the resulting sample set
             Lmin = np.min(values)
             min_idx = np.argmin(values)
-            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)
+            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()
 
             # Keep the likelihood value associated with the sample
             self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
-- 
2.43.0


From bf90cadc275d6d7064502340c6c7543d8400fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 48/69] fix: DM-AIS crashed when no sample of an iteration had
 a positive weight

---
 ais_benchmarks/sampling_methods/dm_ais.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 3d02369..262ad30 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -45,6 +45,10 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                                     "dims": self.ndims, "support": [self.space_min, self.space_max]})
 
     def resample(self, samples, weights):
+        # Without any sample of positive weight there is nothing to recenter the proposals on
+        if not weights.sum() > 0:
+            return
+
         # Normalize weights
         norm_weights = weights / weights.sum()
 
-- 
2.43.0


From 3f67919b193ad5c7668f4ed8b0524a14a909389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:28 +0000
Subject: [PATCH 49/69] fix: Gaussian mixture reported the given weights
 instead of the normalised ones in force

---
 ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
index ff26239..91c8934 100644
--- a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
@@ -36,6 +36,7 @@ class CGaussianMixtureModel(CDistribution):
 
         self.gmm = CMixtureModel({"models": self.models, "weights": self.weights,
                                   "dims": self.dims, "support": self.support})
+        self.weights = self.gmm.weights
 
     def log_prob(self, samples):
         return self.gmm.log_prob(samples)
-- 
2.43.0


From f6735ad0f261f1ec850cf56db105280cf804c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 50/69] fix: shape check crashed on empty batches, so the
 exponential density failed when no point was in the support

---
 ais_benchmarks/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index 93de608..4e6f6a9 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -138,7 +138,7 @@ class CDistribution(metaclass=ABCMeta):
             x = x.reshape(1, self.dims)
         # Check that the sample dimensions matches the PDF.
         elif len(x.shape) == 2:
-            if len(x[0]) != self.dims:
+            if x.shape[1] != self.dims:
                 raise ValueError("""Shape of x does not match self.dims = %d. is Nx%d array that contains N points of %d 
                                     dimensions. x.shape=%s""" % (self.dims, self.dims, self.dims, str(x.shape)))
         else:
-- 
2.43.0


From d61074a223020833ed51c5a76a9350ebcbab289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:17 +0000
Subject: [PATCH 51/69] fix: uniform integral over a box outside of the support
 was not zero

---
 ais_benchmarks/distributions/parametric/CMultivariateUniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index d69d9d9..af91f22 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -65,7 +65,7 @@ class CMultivariateUniform(CDistribution):
         assert np.all(a < b)
         ini = np.maximum(a, self.support_vals[0])
         end = np.minimum(b, self.support_vals[1])
-        return (1 / self.volume) * np.prod((end-ini))
+        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))
 
     def marginal(self, dim):
         raise NotImplementedError
-- 
2.43.0


From b2885041ac2b67f3ba7442f36142afe2116f2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 52/69] fix: uniform and exponential targets could not be
 loaded from a configuration file

---
 .../distributions/parametric/CMultivariateExponential.py       | 2 ++
 .../distributions/parametric/CMultivariateUniform.py           | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index d7b494a..532e7e5 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -10,6 +10,8 @@ class CMultivariateExponential(CDistribution):
         params["family"] = "exponential"
         params["likelihood_f"] = self.prob
         params["loglikelihood_f"] = self.log_prob
+        # The parameters are plain lists when they come from a configuration file
+        params["mean"] = np.array(params["mean"])
         params["dims"] = len(params["mean"])
 
         # Clip the exp support at 4 means
diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index af91f22..4701ece 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -11,6 +11,9 @@ class CMultivariateUniform(CDistribution):
         params["family"] = "uniform"
         params["likelihood_f"] = self.prob
         params["loglikelihood_f"] = self.log_prob
+        # The parameters are plain lists when they come from a configuration file
+        params["center"] = np.array(params["center"])
+        params["radius"] = np.array(params["radius"])
         params["dims"] = len(params["center"])
         params["support"] = [params["center"] - params["radius"], params["center"] + params["radius"]]
         super(CMultivariateUniform, self).__init__(params)
-- 
2.43.0


From 960e297c01005a47b575bd41c48d54b47a478bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 53/69] fix: to_dict crashed for distributions defined with
 lists or a flat support

---
 ais_benchmarks/distributions/distributions.py                 | 2 +-
 ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index 4e6f6a9..6953746 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -303,7 +303,7 @@ class CDistribution(metaclass=ABCMeta):
         dist_yaml["params"] = dict()
         dist_yaml["params"]["family"] = self.family
         dist_yaml["params"]["dims"] = self.dims
-        dist_yaml["params"]["support"] = [v.tolist() for v in self.support_vals]
+        dist_yaml["params"]["support"] = self.support().tolist()
         return dist_yaml
 
 
diff --git a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
index 91c8934..44e1870 100644
--- a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
@@ -58,8 +58,8 @@ class CGaussianMixtureModel(CDistribution):
 
     def to_dict(self, name=None, batch_size=32, nsamples=1000, nsamples_eval=2000):
         res = super(CGaussianMixtureModel, self).to_dict(name, batch_size, nsamples, nsamples_eval)
-        res["params"]["means"] = [v.tolist()for v in self.means]
-        res["params"]["sigmas"] = [v.tolist() for v in self.sigmas]
+        res["params"]["means"] = np.array(self.means).tolist()
+        res["params"]["sigmas"] = np.array(self.sigmas).tolist()
         res["params"]["weights"] = self.weights.tolist()
         return res
 
-- 
2.43.0


From 2ac6b612a54ee0e37c5318bee38829f122f20613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 54/69] fix: ticks of an axis with a position were drawn away
 from the axis

---
 ais_benchmarks/visualization/matplotlib/viz_interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/visualization/matplotlib/viz_interface.py b/ais_benchmarks/visualization/matplotlib/viz_interface.py
index 6b7d244..d5c2ddb 100644
--- a/ais_benchmarks/visualization/matplotlib/viz_interface.py
+++ b/ais_benchmarks/visualization/matplotlib/viz_interface.py
@@ -27,8 +27,8 @@ def draw_axis(item, ax):
         dir_normal = np.array([-dir[1], dir[0], dir[2]])
 
         # Obtain tick initial and final points
-        ini = t * dir - dir_normal * t_size + item.start
-        end = t * dir + dir_normal * t_size + item.start
+        ini = t * dir - dir_normal * t_size + item.start + item.pos
+        end = t * dir + dir_normal * t_size + item.start + item.pos
 
         # Draw a small line perpendicular to the axis with size t_size
         l = mlines.Line2D([ini[0], end[0]], [ini[1], end[1]], color=item.outline_color)
@@ -38,9 +38,9 @@ def draw_axis(item, ax):
         # Display label
         # Find the direction that puts the labels outwards
         if (t * dir)[0] > (t * dir)[1]:
-            text_pos = t * dir - dir_normal * 4 * t_size + item.start
+            text_pos = t * dir - dir_normal * 4 * t_size + item.start + item.pos
         else:
-            text_pos = t * dir + dir_normal * 4 * t_size + item.start
+            text_pos = t * dir + dir_normal * 4 * t_size + item.start + item.pos
 
         txt = plt.text(text_pos[0], text_pos[1], t_lbl, horizontalalignment="center", verticalalignment="center", color=item.outline_color)
         elems.append(txt)
-- 
2.43.0


From 6e2a74710a6b322e1224e4bfcc4704893ca57e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 55/69] fix: CMetropolisHastings.reset forgets the target of
 the previous run

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 2ee0a84..1641ff1 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -76,6 +76,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
     def reset(self):
         super(self.__class__, self).reset()
+        self.target_d = None
         self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
-- 
2.43.0


From f318d8628a89b75e0b137976c00896dbbc5334ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 56/69] fix: nearest neighbor draws used the counts of each
 sample as its index

---
 ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
index 841c1a1..cbff2bc 100644
--- a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
+++ b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
@@ -25,7 +25,8 @@ class CNearestNeighbor(CDistribution):
         return self.weights[idx]
 
     def sample(self, nsamples=1):
-        idxs = np.random.multinomial(nsamples, self.weights)
+        weights = np.asarray(self.weights)
+        idxs = np.random.choice(len(weights), nsamples, p=weights / np.sum(weights))
         return self.samples[idxs]
 
     def prob(self, data):
-- 
2.43.0


From 5870bff352a985111aff06d71dd6cbe5982ac98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 57/69] fix: nearest neighbor evaluation did not take a flat
 vector as one point

---
 ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
index cbff2bc..a78b6c0 100644
--- a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
+++ b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
@@ -21,6 +21,7 @@ class CNearestNeighbor(CDistribution):
         self.kdtree = spatial.KDTree(self.samples)
 
     def log_prob(self, samples):
+        samples = self._check_shape(samples)
         dist, idx = self.kdtree.query(samples)
         return self.weights[idx]
 
-- 
2.43.0


From 10cd668fbd99525c41f2fc7240b36ac17a4b08f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 58/69] fix: two dimensional densities could not be drawn with
 current matplotlib versions

---
 ais_benchmarks/utils/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index 2f1e6ff..a22f875 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -56,7 +56,8 @@ def plot_grid_sampled_pdfs(ax, dims, prob_p, shape=None, marginalize_axes=None,
 
     levels = np.arange(np.min(prob_p_margin), np.max(prob_p_margin), (np.max(prob_p_margin)-np.min(prob_p_margin)) / 15)
     CS = ax.contour(dims[0], dims[1], prob_p_margin, cmap=cmap, levels=levels, linestyles=linestyles, alpha=alpha)
-    return CS.collections if len(CS.collections) else []
+    # The contour set stopped exposing one collection per level, newer versions of matplotlib have a single artist.
+    return list(CS.collections) if hasattr(CS, "collections") else [CS]
 
 
 def plot_pdf2d(ax, pdf, space_min, space_max, resolution=0.1, alpha=0.2, scale=1.0, label=None, colormap=plt.cm.cool, linestyles='solid'):
-- 
2.43.0


From cf886b0e85f55e1be9ca33bba57edbc6ee161c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 59/69] fix: mixture samplers could not be drawn in two
 dimensions

---
 ais_benchmarks/sampling_methods/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 64efff2..c2d17ce 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -208,9 +208,9 @@ class CMixtureSamplingMethod(CSamplingMethod):
         res = []
         if hasattr(self, "proposals"):
             for q in self.proposals:
-                res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o"))
+                res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o"))
                 res.extend(plot_pdf2d(ax, q, self.space_min, self.space_max, alpha=0.3, resolution=0.02, colormap=cm.viridis, linestyles='dashed', scale=1/len(self.proposals)))
-            res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o", label="$q_n(x)$"))
+            res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o", label="$q_n(x)$"))
 
         # for s, w in zip(self.samples, self.weights):
         #     res.append(ax.scatter(s[0], s[1], w, c="g", marker="o", alpha=0.2))
-- 
2.43.0


From ff51d9ec2df7f01947be785eb4f7b9761a2c1f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 60/69] fix: drawing Metropolis-Hastings changed the limits of
 whichever axes were current

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 1641ff1..5ea4aba 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -187,7 +187,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         res.extend(ax.plot(self.space_min[0]-1, 0, "rx", label="MCMC: rejected"))
         res.extend(ax.plot(self.space_min[0]-1, 0, "g.", label="MCMC: intermediate"))
         # res.extend(ax.plot(self.space_min[0]-1, 0, "gx", label="MCMC: sample"))
-        plt.ylim(-0.2, ax.get_ylim()[1])
+        ax.set_ylim(-0.2, ax.get_ylim()[1])
         return res
 
     def draw2d(self, ax):
-- 
2.43.0


From a1515df8d605da51aa765c71fa3b81b1a5fd279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 61/69] fix: drawing a noisy function replaced the value it was
 conditioned on

---
 ais_benchmarks/distributions/derived/CGenericNoisyFunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py b/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
index 8376faf..8fc1682 100644
--- a/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
+++ b/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
@@ -48,6 +48,7 @@ class GenericNoisyFunction(CDistribution):
         # TODO: Check dimensions and make plot for 2d as well
 
         z = np.linspace(self.support_vals[0], self.support_vals[1], n_points).reshape(n_points, 1)
+        x_cond = self.x
         self.condition(z)
         samples = self.sample()
         axis.scatter(z, samples, c=color, label=label)
@@ -56,6 +57,7 @@ class GenericNoisyFunction(CDistribution):
         for _ in range(200):
             x = self.sample()
             xs = np.dstack((xs, x))
+        self.condition(x_cond)
 
         means = np.mean(xs, axis=2).flatten()
         stdevs = np.std(xs, axis=2).flatten()
-- 
2.43.0


From dde5561fe28d4a246225062bc40a48231b00b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 62/69] fix: ABC distributions could not be drawn

---
 .../distributions/derived/CABCDistribution.py       | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/distributions/derived/CABCDistribution.py b/ais_benchmarks/distributions/derived/CABCDistribution.py
index 852e14a..7304b58 100644
--- a/ais_benchmarks/distributions/derived/CABCDistribution.py
+++ b/ais_benchmarks/distributions/derived/CABCDistribution.py
@@ -118,24 +118,25 @@ class ABCDistribution(CDistribution):
 
     def draw(self, ax, n_points=100, label=None, color=None):
         # TODO: Check dimensions and make plot for 2d as well
-        z = np.linspace(self.support()[0], self.support()[1], n_points)
+        z = np.linspace(self.support()[0], self.support()[1], n_points).reshape(n_points, 1)
         # z = self.prior_d.sample(n_points).flatten()
-        self.gen_d.set_params(z)
+        self.gen_d.condition(z)
 
         # For each point in the latent space model, we need to sample the posterior
         xs = self.gen_d.sample()
         self.sensor_d.condition(xs)
-        o_hats = self.sensor_d.sample()
+        o_hats = self.sensor_d.sample().reshape(1, n_points)
         for _ in range(n_points-1):
             x = self.gen_d.sample()
-            xs = np.vstack((xs, x))
             self.sensor_d.condition(x)
-            o_hat = self.sensor_d.sample()
+            o_hat = self.sensor_d.sample().reshape(1, n_points)
             o_hats = np.vstack((o_hats, o_hat))
 
+        z = z.flatten()
         means = np.mean(o_hats, axis=0)
         stdevs = np.std(o_hats, axis=0)
-        ax.fill_between(z, means - 3 * stdevs, means + 3 * stdevs, label=label + " $3\sigma$", color=color, alpha=0.5)
+        band_label = label + " $3\sigma$" if label is not None else None
+        ax.fill_between(z, means - 3 * stdevs, means + 3 * stdevs, label=band_label, color=color, alpha=0.5)
         ax.plot(z, means, label=label, c=color)
 
     def marginal(self, dim):
-- 
2.43.0


From f5d434d433fc21f109dee253a8c3f70e4313dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 63/69] fix: Metropolis-Hastings moved to a rejected point when
 the time ran out

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 5ea4aba..a56f26d 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -117,6 +117,12 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
             self.trajectory_types.append(self.REJECT)
 
+        if not accepted:
+            # There was no time left to accept a move, the chain stays where it is
+            self.trajectory_samples.append(x_old.flatten())
+            self.trajectory_types.append(self.REJECT)
+            x_new = x_old
+
         x_old = x_new
         self.trajectory_types[-1] = self.ACCEPT
         return x_old
-- 
2.43.0


From c2d606c40f4a28d6c840bf8cd10a3f3ced610c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 64/69] fix: Metropolis-Hastings gave the burn in and every
 sample the time of the whole request

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index a56f26d..e53f4b2 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -61,16 +61,17 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         :param timeout:
         :return: generated samples
         """
+        t_ini = time.time()
         # Run the burn in period if necessary
         if not self.is_init:
             for _ in range(self.n_burnin):
-                self.current_sample = self.mcmc_step(self.current_sample)
+                self.current_sample = self.mcmc_step(self.current_sample, timeout - (time.time() - t_ini))
                 self.trajectory_types[-1] = self.BURN_IN
             self.is_init = True
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(1, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout - (time.time() - t_ini))
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
@@ -145,7 +146,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         t_ini = time.time()
 
         while n_samples > len(self.samples) and elapsed_time < timeout:
-            new_samples = self.sample(1, timeout)
+            new_samples = self.sample(1, timeout - elapsed_time)
             self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
             elapsed_time = time.time() - t_ini
 
-- 
2.43.0


From 7883781e1d9222026dba0cd31977ce815ab5c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 65/69] fix: nested sampling gave every replacement the time of
 the whole request

---
 ais_benchmarks/sampling_methods/multi_nested.py | 4 +++-
 ais_benchmarks/sampling_methods/nested.py       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 4f48462..d93202d 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -190,6 +190,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                                          inflate_factor)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        t_ini = time.time()
         points = self.live_points
         values = target_d.prob(points)
         self._num_pi_evals += len(points)
@@ -214,7 +215,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
 
                 # Replace the point with lowest likelihood with a new sample from the proposal distribution
-                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout, self.converged_radius)
+                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout - (time.time() - t_ini),
+                                                                 self.converged_radius)
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 60a5c13..4f8299d 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -50,6 +50,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        t_ini = time.time()
         values = target_d.prob(self.live_points)
         self._num_pi_evals += len(self.live_points)
 
@@ -64,7 +65,8 @@ class CNestedSampling(CMixtureSamplingMethod):
 
             # Replace the point with lowest likelihood with a new sample from the proposal distribution
             # centered on a sample randomly select4ed from the live points
-            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout)
+            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d,
+                                                                        timeout - (time.time() - t_ini))
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-- 
2.43.0


From df13f5ca7c772cbb2bc3d41719fb9445ac5a807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 66/69] fix: HiDaisee ignored the time limit of a request

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 9e9aeca..b10a1ca 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -201,7 +201,13 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
         if self.debug:
             print(self.__class__.__name__, "== Debug ==> ", "importance_sample(n_samples=%d)" % n_samples)
 
+        elapsed_time = 0
+        t_ini = time.time()
+
         for t in range(len(self.samples), n_samples):
+            if elapsed_time >= timeout:
+                break
+
             # Initialize traversal path and node to the root. Line 3.
             P = []
             n_id = 0
@@ -280,6 +286,8 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
             if self.debug:
                 print(self.__class__.__name__, "== Debug ==> ", "    | Current tree: \n", self.T.__repr__())
 
+            elapsed_time = time.time() - t_ini
+
         self._update_model()
         return self._get_samples()
 
-- 
2.43.0


From 8603eb948e5238ee615791a2a55ab5283d45573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 67/69] fix: requests that ran out of time before their first
 sample crashed

---
 ais_benchmarks/sampling_methods/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index c2d17ce..2da1df6 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -160,6 +160,9 @@ class CMixtureSamplingMethod(CSamplingMethod):
         # return np.log(self.prob(s))
 
     def _update_model(self):
+        if len(self.samples) == 0:
+            # Nothing was obtained so far (i.e. no time to accept a sample), there is nothing to estimate from
+            return
         models = []
         indices = np.random.random_integers(0, len(self.samples) - 1, self.n_samples_kde)
         for idx in indices:
-- 
2.43.0


From 348c81c0c08efb1ea329a8a12e8b6f3ab2e38f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 68/69] fix: fitting an ellipsoid to nearly degenerate points
 could crash

---
 ais_benchmarks/sampling_methods/multi_nested.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index d93202d..b0469ba 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -47,19 +47,19 @@ class CEllipsoid:
         assert len(points) >= len(loc)
 
         if len(points[0]) > 1:
-            scale = np.cov(points, rowvar=False)
+            scale = np.cov(points, rowvar=False) * inflate
             if np.linalg.det(scale) <= 0:
                 print("CEllipsoid: ERROR! Ellipsoid fit failed. Negative determinant. Identity covariance.", file=sys.stderr)
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
         else:
-            scale = np.std(points)
+            scale = np.std(points) * inflate
             if scale <= 0:
                 print("Ellipsoid fit failed. Negative or zero STD. Using 1.", file=sys.stderr)
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
 
-        ell = CEllipsoid(loc, scale*inflate)
+        ell = CEllipsoid(loc, scale)
         return ell
 
 
-- 
2.43.0


From 8bc9cfb3eafbfff1e47ede276b18d2cd7c0152ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 69/69] fix: the default support of normal and exponential
 distributions stayed behind when their parameters changed

---
 .../parametric/CMultivariateExponential.py      | 13 +++++++++++--
 .../parametric/CMultivariateNormal.py           | 17 +++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index 532e7e5..901fa1d 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -6,6 +6,8 @@ class CMultivariateExponential(CDistribution):
     def __init__(self, params):
         self._check_param(params, "mean")
 
+        # Work on a copy. Otherwise the support would stick to the parameters of the caller
+        params = dict(params)
         params["type"] = "exp"
         params["family"] = "exponential"
         params["likelihood_f"] = self.prob
@@ -15,17 +17,24 @@ class CMultivariateExponential(CDistribution):
         params["dims"] = len(params["mean"])
 
         # Clip the exp support at 4 means
-        if "support" not in params:
-            params["support"] = np.array([np.zeros_like(params["mean"]), 4 * params["mean"]])
+        self.clip_support = "support" not in params
+        if self.clip_support:
+            params["support"] = self._four_means(params["mean"])
 
         super(CMultivariateExponential, self).__init__(params)
 
         self.set_moments(np.array(params["mean"]))
 
+    @staticmethod
+    def _four_means(mean):
+        return np.array([np.zeros_like(mean), 4 * mean])
+
     def set_moments(self, mean):
         self.loc = mean
         self.scale = 1 / mean
         self.log_scale = np.log(self.scale)
+        if self.clip_support:
+            self.support_vals = self._four_means(mean)
 
     def sample(self, n_samples=1):
         return np.random.exponential(self.loc, size=(n_samples, self.dims))
diff --git a/ais_benchmarks/distributions/parametric/CMultivariateNormal.py b/ais_benchmarks/distributions/parametric/CMultivariateNormal.py
index cdfc284..d116202 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateNormal.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateNormal.py
@@ -27,6 +27,8 @@ class CMultivariateNormal(CDistribution):
         self._check_param(params, "mean")
         self._check_param(params, "sigma")
 
+        # Work on a copy. Otherwise the support would stick to the parameters of the caller
+        params = dict(params)
         params["type"] = "normal"
         params["family"] = "exponential"
         params["likelihood_f"] = self.prob
@@ -34,10 +36,9 @@ class CMultivariateNormal(CDistribution):
         params["dims"] = len(params["mean"])
 
         # Clip the normal support at 6 sigmas
-        if "support" not in params:
-            # TODO: LOW: Compute the support accounting for the cross terms of the covariance
-            params["support"] = np.array([params["mean"] - np.sqrt(np.diag(params["sigma"])) * 6.0,
-                                          params["mean"] + np.sqrt(np.diag(params["sigma"])) * 6.0])
+        self.clip_support = "support" not in params
+        if self.clip_support:
+            params["support"] = self._six_sigmas(params["mean"], params["sigma"])
 
         super(CMultivariateNormal, self).__init__(params)
 
@@ -49,6 +50,12 @@ class CMultivariateNormal(CDistribution):
 
         self.term1 = - 0.5 * self.dims * np.log(np.pi * 2)
 
+    @staticmethod
+    def _six_sigmas(mean, cov):
+        # TODO: LOW: Compute the support accounting for the cross terms of the covariance
+        mean = np.array(mean).flatten()
+        return np.array([mean - np.sqrt(np.diag(cov)) * 6.0, mean + np.sqrt(np.diag(cov)) * 6.0])
+
     def set_moments(self, mean, cov):
         assert cov.shape == (self.dims, self.dims)
 
@@ -60,6 +67,8 @@ class CMultivariateNormal(CDistribution):
         self.inv_cov = np.linalg.inv(cov)
         self.log_det = np.log(self.det)
         self.term2 = - 0.5 * self.log_det
+        if self.clip_support:
+            self.support_vals = self._six_sigmas(mean, cov)
 
     def sample(self, n_samples=1):
         return np.random.multivariate_normal(self._loc.flatten(), self._scale, size=n_samples)
-- 
2.43.0

