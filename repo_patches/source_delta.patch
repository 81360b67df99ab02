From 7a5f7bb04e28858130ca5aa0fc78b947b8657f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 01/26] fix: results reflect every recorded iteration, not
 those at the first access

---
 pocomc/particles.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index b96656c..426a597 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -288,15 +288,14 @@ class Particles:
         >>> particles.compute_results().keys()
         dict_keys(['u', 'logdetj', 'logl', 'logp', 'logw', 'blobs', 'iter', 'logz', 'calls', 'steps', 'efficiency', 'ess', 'accept', 'beta'])
         """
-        if self.results_dict is None:
-            self.results_dict = dict()
-            for key in self.past.keys():
-                self.results_dict[key] = self.get(key)
+        self.results_dict = dict()
+        for key in self.past.keys():
+            self.results_dict[key] = self.get(key)
 
-            logw, _ = self.compute_logw_and_logz(1.0)
+        logw, _ = self.compute_logw_and_logz(1.0)
 
-            self.results_dict["logw"] = logw
-            #self.results_dict["ess"] = np.exp(log_ess)
+        self.results_dict["logw"] = logw
+        #self.results_dict["ess"] = np.exp(log_ess)
 
         return self.results_dict
 
-- 
2.43.0


From d0c8c3a0ad94e7ea4e66b660f3a808845affa8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 02/26] fix: covariance estimates are matrices in one dimension
 too

---
 pocomc/geometry.py | 4 ++--
 pocomc/scaler.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pocomc/geometry.py b/pocomc/geometry.py
index f97a621..30f56cc 100644
--- a/pocomc/geometry.py
+++ b/pocomc/geometry.py
@@ -42,10 +42,10 @@ class Geometry:
         # Learn normal distribution
         if weights is None:
             self.normal_mean = np.mean(theta, axis=0)
-            self.normal_cov = np.cov(theta.T)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T))
         else:
             self.normal_mean = np.average(theta, axis=0, weights=weights)
-            self.normal_cov = np.cov(theta.T, aweights=weights)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T, aweights=weights))
 
         # Learn t distribution
         if weights is not None:
diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index e1f9b3b..9e39bf8 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -172,7 +172,7 @@ class Reparameterize:
         if self.diagonal:
             self.sigma = np.std(u, axis=0)
         else:
-            self.cov = np.cov(u.T)
+            self.cov = np.atleast_2d(np.cov(u.T))
             self.L = np.linalg.cholesky(self.cov)
             self.L_inv = np.linalg.inv(self.L)
             self.log_det_L = np.linalg.slogdet(self.L)[1]
-- 
2.43.0


From 9458a5775f6a30800fca6e7af0428bc6cd6a1ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 03/26] fix: MCMC kernels accept string (object) blobs

---
 pocomc/mcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 2455f26..c7f156f 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -111,7 +111,7 @@ def preconditioned_pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -279,7 +279,7 @@ def preconditioned_rwm(state_dict: dict,
         # Compute log-likelihood, log-prior, and log-posterior
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -440,7 +440,7 @@ def pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -594,7 +594,7 @@ def rwm(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
-- 
2.43.0


From 7bdb725a3dea9dea36a972d9121082d7c824e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 04/26] fix: bounds=None means unbounded parameters

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 9e39bf8..bfbf78b 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -54,7 +54,7 @@ class Reparameterize:
         self.ndim = n_dim
 
         if bounds is None:
-            bounds = np.full((self.ndim, 2), np.inf)
+            bounds = np.tile(np.array([-np.inf, np.inf]), (self.ndim, 1))
         elif len(bounds) == 2 and not np.shape(bounds) == (2, 2):
             bounds = np.tile(np.array(bounds, dtype=np.float32).reshape(2, 1), self.ndim).T
         assert_array_float(bounds)
-- 
2.43.0


From 77004998f99170f8dd6ec60cd313d3c9863a8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 05/26] fix: parameters at or near a bound have finite latent
 coordinates

---
 pocomc/scaler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index bfbf78b..df1f708 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -1,7 +1,7 @@
 from typing import Union, List
 
 import numpy as np
-from scipy.special import erf, erfinv
+from scipy.special import ndtr, ndtri
 
 from .input_validation import assert_array_float, assert_array_within_interval
 
@@ -324,7 +324,7 @@ class Reparameterize:
         -------
         Transformed input data
         """
-        return np.log(x[:, self.mask_left] - self.low[self.mask_left])
+        return np.log(np.maximum(x[:, self.mask_left] - self.low[self.mask_left], np.finfo(float).tiny))
 
     def _inverse_left(self, u: np.ndarray):
         """
@@ -357,7 +357,7 @@ class Reparameterize:
         -------
         Transformed input data
         """
-        return np.log(self.high[self.mask_right] - x[:, self.mask_right])
+        return np.log(np.maximum(self.high[self.mask_right] - x[:, self.mask_right], np.finfo(float).tiny))
 
     def _inverse_right(self, u: np.ndarray):
         """
@@ -390,12 +390,12 @@ class Reparameterize:
         Transformed input data
         """
         p = (x[:, self.mask_both] - self.low[self.mask_both]) / (self.high[self.mask_both] - self.low[self.mask_both])
-        np.clip(p, 1e-13, 1.0 - 1e-13)
+        p = np.clip(p, np.finfo(float).tiny, 1.0 - np.finfo(float).epsneg)
 
         if self.transform == "logit":
             u = np.log(p / (1.0 - p))
         elif self.transform == "probit":
-            u = np.sqrt(2.0) * erfinv(2.0 * p - 1.0)
+            u = ndtri(p)
 
         return u
 
@@ -419,7 +419,7 @@ class Reparameterize:
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
             J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + np.log(p) + np.log(1.0 - p)
         elif self.transform == "probit":
-            p = ( erf(u[:, self.mask_both] / np.sqrt(2.0)) + 1.0 ) / 2.0
+            p = ndtr(u[:, self.mask_both])
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
             J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + (-u[:, self.mask_both]**2.0 / 2.0) - np.log(np.sqrt(2.0 * np.pi))
         return x, J
-- 
2.43.0


From 63e2864c2344ee080fb92840fb236248f5b00c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 06/26] fix: trim_weights terminates for ess=1

---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 1d0c872..ebb8aef 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -46,7 +46,7 @@ def trim_weights(samples, weights, ess=0.99, bins=1000):
         weights_trimmed = weights[mask]
         weights_trimmed /= np.sum(weights_trimmed)
         ess_trimmed = 1.0 / np.sum(weights_trimmed**2.0)
-        if ess_trimmed / ess_total >= ess:
+        if ess_trimmed / ess_total >= ess or i == 0:
             break 
         i -= 1
     
-- 
2.43.0


From 4299d7ad0bbf2db163909c314117b7f13c04d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 07/26] fix: torch_double_to_float(warn=False) casts silently
 instead of raising

---
 pocomc/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index ebb8aef..9a6224b 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -307,8 +307,9 @@ def torch_double_to_float(x: torch.Tensor, warn: bool = True):
     -------
         Single precision (Float32) torch tensor.
     """
-    if x.dtype == torch.float64 and warn:
-        warnings.warn(f"Float64 data is currently unsupported, casting to Float32. Output will also have type Float32.")
+    if x.dtype == torch.float64:
+        if warn:
+            warnings.warn(f"Float64 data is currently unsupported, casting to Float32. Output will also have type Float32.")
         return x.float()
     elif x.dtype == torch.float32:
         return x
-- 
2.43.0


From f4112d9cf442f2bbcf67266454b122d1d2e269f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 08/26] fix: training noise is scaled by the mean
 nearest-neighbour distance

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index ec4e00b..2b8c179 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -242,7 +242,7 @@ class Flow:
             for i in range(n_samples):
                 min_dist = torch.linalg.norm(x[i] - x, axis=1)
                 min_dists[i] = torch.min(min_dist[min_dist > 0.0])
-            mean_min_dist = torch.mean(min_dist)
+            mean_min_dist = torch.mean(min_dists)
 
         if validation_split > 0.0:
             x_train = x[:int(validation_split * n_samples)]
-- 
2.43.0


From 9bcf5c64cc308ef2820296c6dc6882c3968574cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 09/26] fix: evidence samples outside the prior support count
 as zero

---
 pocomc/sampler.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 7c7f2ff..1f2012e 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -894,17 +894,15 @@ class Sampler:
         # compute log prior
         logp = self.log_prior(x_q)
 
-        # keep only finite values
-        x_q = x_q[np.isfinite(logp)]
-        logdetj = logdetj[np.isfinite(logp)]
-        logq = logq[np.isfinite(logp)]
-        logp = logp[np.isfinite(logp)]
+        # evaluate only samples inside the prior support
+        inside = np.isfinite(logp)
 
         # compute log likelihood
-        logl, _ = self._log_like(x_q)
+        logl, _ = self._log_like(x_q[inside])
 
-        # compute log weights
-        logw = logl + logp + logdetj - logq 
+        # compute log weights (samples outside the support have zero weight)
+        logw = np.full(len(logp), -np.inf)
+        logw[inside] = logl + logp[inside] + logdetj[inside] - logq[inside]
 
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
@@ -912,7 +910,7 @@ class Sampler:
         # compute error on log evidence
         dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
 
-        self.calls += len(logw)
+        self.calls += np.sum(inside)
         self.pbar.update_stats(dict(calls=self.calls))
 
         self.logz = logz
-- 
2.43.0


From c418d51ed301240f58b00bb900b7e1f1d81ca609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 10/26] fix: create missing parents of the output directory

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 1f2012e..6358ba2 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1027,7 +1027,7 @@ class Sampler:
             Path to save state.
         """
         print(f'Saving PMC state to {path}')
-        Path(path).parent.mkdir(exist_ok=True)
+        Path(path).parent.mkdir(parents=True, exist_ok=True)
         temp_path = Path(path).with_suffix('.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
-- 
2.43.0


From 82df6747fa4a128fe3160131fec35019c1b38e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 11/26] fix: likelihood calls made for the evidence stay
 counted when a run continues

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 6358ba2..2080171 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -626,7 +626,7 @@ class Sampler:
         current_particles["efficiency"] = results.get('efficiency') / (2.38 / self.n_dim ** 0.5)
         current_particles["steps"] = results.get('steps')
         current_particles["accept"] = results.get('accept')
-        current_particles["calls"] = current_particles.get("calls") + results.get('calls')
+        current_particles["calls"] = self.calls + results.get('calls')
         self.calls = current_particles.get("calls")
         self.proposal_scale = results.get('proposal_scale')
 
-- 
2.43.0


From cbf52ff2b0fd274a7b546d55eb8ded2bdae85aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 12/26] fix: resuming during warm-up continues with the next
 batch

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 2080171..c536413 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -440,7 +440,7 @@ class Sampler:
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
-            for i in range(self.n_prior//self.n_active):
+            for i in range(self.t, self.n_prior//self.n_active):
                 if save_every is not None:
                     if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                         self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
-- 
2.43.0


From bfa445d80e906dde6e2843678996c44ea53b35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 13/26] fix: recorded iteration index advances after warm-up

---
 pocomc/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index c536413..d18a4bc 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -729,6 +729,7 @@ class Sampler:
             Dictionary containing the updated particles.
         """
         # Update iteration index
+        current_particles["iter"] = self.t
         self.t += 1
         self.pbar.update_iter()
 
-- 
2.43.0


From 1a8d827b2b322d4cc91d92c9ecdd29af1a09bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:35 +0000
Subject: [PATCH 14/26] fix: resume from a state saved before the first
 iteration

---
 pocomc/sampler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index d18a4bc..eece4e5 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -407,14 +407,15 @@ class Sampler:
             t0 = self.t
             # Initialise progress bar
             self.pbar = ProgressBar(self.progress, initial=t0)
-            self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
-                                        calls=self.particles.get("calls", -1),
-                                        ESS=self.particles.get("ess", -1),
-                                        logZ=self.particles.get("logz", -1),
-                                        logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
-                                        acc=self.particles.get("accept", -1),
-                                        steps=self.particles.get("steps", -1),
-                                        eff=self.particles.get("efficiency", -1)))
+            if t0 > 0:
+                self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
+                                            calls=self.particles.get("calls", -1),
+                                            ESS=self.particles.get("ess", -1),
+                                            logZ=self.particles.get("logz", -1),
+                                            logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
+                                            acc=self.particles.get("accept", -1),
+                                            steps=self.particles.get("steps", -1),
+                                            eff=self.particles.get("efficiency", -1)))
         else:
             t0 = self.t
             # Run parameters
-- 
2.43.0


From 57b650ab11381f53c5d7ad31b33d576faf99c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:05 +0000
Subject: [PATCH 15/26] fix: SMC evidence accounts for prior mass of zero
 likelihood

---
 pocomc/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index eece4e5..4a50b93 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -361,6 +361,7 @@ class Sampler:
         else:
             self.n_prior = int(np.maximum(n_prior/self.n_active, 1) * self.n_active)
         self.prior_samples = None
+        self.n_prior_finite = 0
 
         self.logz = None
         self.logz_err = None
@@ -455,6 +456,7 @@ class Sampler:
 
                 # Resample prior particles with infinite likelihoods
                 inf_logl_mask = np.isinf(logl)
+                self.n_prior_finite += np.sum(~inf_logl_mask)
                 if np.any(inf_logl_mask):
                     all_idx = np.arange(len(x))
                     infinite_idx = all_idx[inf_logl_mask]
@@ -471,7 +473,7 @@ class Sampler:
                 self.current_particles = dict(u=u,x=x,logl=logl,logp=logp,logdetj=logdetj,
                                     logw=-1e300 * np.ones(self.n_active), blobs=blobs, iter=self.t,
                                     calls=self.calls, steps=1, efficiency=1.0, ess=self.n_effective, 
-                                    accept=1.0, beta=0.0, logz=0.0)
+                                    accept=1.0, beta=0.0, logz=np.log(self.n_prior_finite / self.calls))
                 
                 self.particles.update(self.current_particles)
 
-- 
2.43.0


From 489379974b8838a2e4a12625f065c0e83c425eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:16 +0000
Subject: [PATCH 16/26] fix: systematic resampling never runs past the last
 weight

---
 pocomc/tools.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 9a6224b..f270e51 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -169,19 +169,14 @@ def systematic_resample(size: np.ndarray,
     if random_state is not None:
         np.random.seed(random_state)
 
-    if abs(np.sum(weights) - 1.) > SQRTEPS:
-        weights = np.array(weights) / np.sum(weights)
+    weights = np.array(weights, dtype=float) / np.sum(weights)
 
     positions = (np.random.random() + np.arange(size)) / size
 
-    j = 0
-    cumulative_sum = weights[0]
-    indeces = np.empty(size, dtype=int)
-    for i in range(size):
-        while positions[i] > cumulative_sum:
-            j += 1
-            cumulative_sum += weights[j]
-        indeces[i] = j
+    # The last edge is exactly one, so that no position can fall beyond the weights
+    cumulative_sum = np.cumsum(weights)
+    cumulative_sum /= cumulative_sum[-1]
+    indeces = np.searchsorted(cumulative_sum, np.minimum(positions, np.nextafter(1.0, 0.0)), side='right')
     
     return indeces
 
-- 
2.43.0


From ffbfa7ccf4750cbc3baa43b853191e138f80ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:37 +0000
Subject: [PATCH 17/26] fix: logit log-Jacobian stays exact close to the upper
 bound

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index df1f708..bbae00b 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -417,7 +417,7 @@ class Reparameterize:
         if self.transform == "logit":
             p = np.exp(-np.logaddexp(0, -u[:, self.mask_both]))
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
-            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + np.log(p) + np.log(1.0 - p)
+            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) - np.logaddexp(0, -u[:, self.mask_both]) - np.logaddexp(0, u[:, self.mask_both])
         elif self.transform == "probit":
             p = ndtr(u[:, self.mask_both])
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
-- 
2.43.0


From c8ef5837a1c42fd365fb12d671c4e44d0ae39364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 18/26] fix: a training batch without weight does not turn the
 flow into NaN

---
 pocomc/flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index 2b8c179..0d8c531 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -309,7 +309,7 @@ class Flow:
                     loss = -self.flow().log_prob(x_).sum()
                 else:
                     loss = -self.flow().log_prob(x_) * batch[1] * 1000.0
-                    loss = loss.sum() / batch[1].sum()
+                    loss = loss.sum() / (batch[1].sum() if torch.any(batch[1] > 0.0) else 1.0)
 
                 if laplace_scale is not None or gaussian_scale is not None:
                     loss -= regularization_loss(self.flow, laplace_scale, gaussian_scale)
@@ -338,7 +338,7 @@ class Flow:
                         loss = -self.flow().log_prob(x_).sum()
                     else:
                         loss = -self.flow().log_prob(x_) * batch[1] * 1000.0
-                        loss = loss.sum() / batch[1].sum()
+                        loss = loss.sum() / (batch[1].sum() if torch.any(batch[1] > 0.0) else 1.0)
                     
                     if laplace_scale is not None or gaussian_scale is not None:
                         loss -= regularization_loss(self.flow, laplace_scale, gaussian_scale)
-- 
2.43.0


From ff77e1d17d805c695d1243fcd011a7d449b84170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:42 +0000
Subject: [PATCH 19/26] fix: a single pair of bounds keeps double precision

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index bbae00b..419cd52 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -56,7 +56,7 @@ class Reparameterize:
         if bounds is None:
             bounds = np.tile(np.array([-np.inf, np.inf]), (self.ndim, 1))
         elif len(bounds) == 2 and not np.shape(bounds) == (2, 2):
-            bounds = np.tile(np.array(bounds, dtype=np.float32).reshape(2, 1), self.ndim).T
+            bounds = np.tile(np.array(bounds, dtype=np.float64).reshape(2, 1), self.ndim).T
         assert_array_float(bounds)
 
         self.low = bounds.T[0]
-- 
2.43.0


From 058042d1cb03651bb34815eda45af209d118deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:20 +0000
Subject: [PATCH 20/26] fix: reflective parameters more than a width below the
 lower bound fold into the bounds

---
 pocomc/scaler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 419cd52..4f0a745 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -149,10 +149,11 @@ class Reparameterize:
             x = x.copy()
             for i in self.reflective:
                 for j in range(len(x)):
-                    while x[j, i] > self.high[i]:
-                        x[j, i] = self.high[i] - x[j, i] + self.high[i]
-                    while x[j, i] < self.low[i]:
-                        x[j, i] = self.low[i] + self.low[i] - x[j, i]
+                    while x[j, i] > self.high[i] or x[j, i] < self.low[i]:
+                        if x[j, i] > self.high[i]:
+                            x[j, i] = self.high[i] - x[j, i] + self.high[i]
+                        else:
+                            x[j, i] = self.low[i] + self.low[i] - x[j, i]
 
         return x
 
-- 
2.43.0


From a335efd3f78208f5c6b0c46efa3a8b3e3af446ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:05 +0000
Subject: [PATCH 21/26] fix: validation_split is the fraction used for
 validation, not for training

---
 pocomc/flow.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index 0d8c531..fa7889b 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -245,14 +245,15 @@ class Flow:
             mean_min_dist = torch.mean(min_dists)
 
         if validation_split > 0.0:
-            x_train = x[:int(validation_split * n_samples)]
-            x_valid = x[int(validation_split * n_samples):]
+            n_train = n_samples - int(np.ceil(validation_split * n_samples))
+            x_train = x[:n_train]
+            x_valid = x[n_train:]
             if weights is None:
                 train_dl = DataLoader(TensorDataset(x_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid), batch_size, shuffle)
             else:
-                weights_train = weights[:int(validation_split * n_samples)]
-                weights_valid = weights[int(validation_split * n_samples):]
+                weights_train = weights[:n_train]
+                weights_valid = weights[n_train:]
                 train_dl = DataLoader(TensorDataset(x_train, weights_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid, weights_valid), batch_size, shuffle)
             validation = True
-- 
2.43.0


From 2db33e7bde0db7ee905799224e9505a82bca2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:16 +0000
Subject: [PATCH 22/26] fix: laplace_scale and gaussian_scale work with current
 zuko flows

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index fa7889b..088182f 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -405,7 +405,7 @@ def regularization_loss(model, laplace_scale=None, gaussian_scale=None):
     total_laplace = 0.0
     total_gaussian = 0.0
 
-    for i, transform in enumerate(model.transforms):
+    for transform in model.modules():
         if hasattr(transform, "hyper"):
             for parameter_name, parameter in transform.hyper.named_parameters():
                 if parameter_name.endswith('weight'):
-- 
2.43.0


From fcccf112c04041f2ac195371b103ade50f05a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:16 +0000
Subject: [PATCH 23/26] fix: bounds may be given as a list of pairs

---
 pocomc/scaler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 4f0a745..33e9f25 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -57,6 +57,7 @@ class Reparameterize:
             bounds = np.tile(np.array([-np.inf, np.inf]), (self.ndim, 1))
         elif len(bounds) == 2 and not np.shape(bounds) == (2, 2):
             bounds = np.tile(np.array(bounds, dtype=np.float64).reshape(2, 1), self.ndim).T
+        bounds = np.asarray(bounds)
         assert_array_float(bounds)
 
         self.low = bounds.T[0]
-- 
2.43.0


From 430e0823fe76aaf7f4047e9112ea39db7fe183e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:28 +0000
Subject: [PATCH 24/26] fix: a sweep whose proposals are all outside the prior
 support does not call the likelihood

---
 pocomc/mcmc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index c7f156f..d0a6495 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -112,8 +112,9 @@ def preconditioned_pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
+        if have_blobs and np.any(finite_mask):
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
-        else:
+        elif np.any(finite_mask):
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
         
@@ -280,8 +281,9 @@ def preconditioned_rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
+        if have_blobs and np.any(finite_mask):
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
-        else:
+        elif np.any(finite_mask):
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
 
@@ -441,8 +443,9 @@ def pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
+        if have_blobs and np.any(finite_mask):
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
-        else:
+        elif np.any(finite_mask):
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
         
@@ -595,8 +598,9 @@ def rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
+        if have_blobs and np.any(finite_mask):
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
-        else:
+        elif np.any(finite_mask):
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
 
-- 
2.43.0


From a15d922e3793d57c92931fd39290299c86e86d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 25/26] fix: pool=1 runs serially instead of raising
 AttributeError

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 4a50b93..82cfd6e 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -265,7 +265,7 @@ class Sampler:
 
         # Parallelism
         self.pool = pool
-        if pool is None:
+        if pool is None or (isinstance(pool, int) and pool == 1):
             self.distribute = map
         elif isinstance(pool, int) and pool > 1:
             self.pool = Pool(pool)
-- 
2.43.0


From f5b92015d6464a6fa21b30c956db3d5ee3719a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:17 +0000
Subject: [PATCH 26/26] fix: latent points never land beyond the upper bound by
 rounding

---
 pocomc/scaler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 33e9f25..9395ab5 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -424,6 +424,8 @@ class Reparameterize:
             p = ndtr(u[:, self.mask_both])
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
             J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + (-u[:, self.mask_both]**2.0 / 2.0) - np.log(np.sqrt(2.0 * np.pi))
+        # rounding may carry a point just past the upper bound
+        x = np.minimum(x, self.high[self.mask_both])
         return x, J
 
     def _forward_none(self, x:np.ndarray):
-- 
2.43.0

