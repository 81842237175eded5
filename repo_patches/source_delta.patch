From b0e36b4af79d0d45106d80a5afebeb83065f81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 01/69] fix: exponential density, support and sample shape

The log density was only right for a unit mean, was 0 (not -inf) outside of
the support, samples came without the dimension axis and unbatched points or
list means were not accepted.
---
 .../parametric/CMultivariateExponential.py            | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index be2b148..d8add38 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -8,6 +8,7 @@ class CMultivariateExponential(CDistribution):
 
         params["type"] = "exp"
         params["family"] = "exponential"
+        params["mean"] = np.array(params["mean"])
         params["likelihood_f"] = self.prob
         params["loglikelihood_f"] = self.log_prob
         params["dims"] = len(params["mean"])
@@ -23,22 +24,24 @@ class CMultivariateExponential(CDistribution):
     def set_moments(self, mean):
         self.loc = mean
         self.scale = 1 / mean
-        self.log_scale = np.log(self.scale * np.e)
+        self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
-        return np.random.exponential(self.loc, n_samples)
+        return np.random.exponential(self.loc, (n_samples, self.dims))
 
     def log_prob(self, samples):
         samples = self._check_shape(samples)
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
-        res_in = -self.scale.reshape(1, self.dims) * samples[inliers] * self.log_scale.reshape(1, self.dims)
+        res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]
         res_in = np.sum(res_in, axis=1)
         res[inliers] = res_in.flatten()
         return res
 
     def prob(self, samples):
+        samples = self._check_shape(samples)
+
         res = np.zeros(len(samples))
         inliers = np.all(samples > 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-- 
2.43.0


From c33c374206d1ecf0d61ac275895826ba9c7708d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 02/69] fix: maxwell log density is -inf outside of its support

---
 ais_benchmarks/distributions/benchden/d03_maxwell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d03_maxwell.py b/ais_benchmarks/distributions/benchden/d03_maxwell.py
index 99607bb..98a9523 100644
--- a/ais_benchmarks/distributions/benchden/d03_maxwell.py
+++ b/ais_benchmarks/distributions/benchden/d03_maxwell.py
@@ -34,7 +34,7 @@ class BenchDenMaxwell(CDistribution):
         else:
             raise ValueError("Shape of samples does not match self.dims")
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
         samples_in = samples[inliers]
         res_in = np.log(samples_in) - ((samples_in * samples_in) / 2)
@@ -43,6 +43,7 @@ class BenchDenMaxwell(CDistribution):
         return res
 
     def prob(self, samples):
+        samples = self._check_shape(samples)
         res = np.zeros(len(samples))
         inliers = np.all(samples > 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-- 
2.43.0


From ba7e10350c2acb03be6158d3c11cb05fcaf7176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 03/69] fix: laplace density returns one value per point

---
 ais_benchmarks/distributions/benchden/d04_laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d04_laplace.py b/ais_benchmarks/distributions/benchden/d04_laplace.py
index 30d62af..36ec20a 100644
--- a/ais_benchmarks/distributions/benchden/d04_laplace.py
+++ b/ais_benchmarks/distributions/benchden/d04_laplace.py
@@ -36,7 +36,7 @@ class BenchDenLaplace(CDistribution):
 
         res = np.log(.5) - np.fabs(samples)
         res = np.sum(res, axis=1)
-        return res
+        return res.flatten()
 
     def prob(self, samples):
         return np.exp(self.log_prob(samples))
-- 
2.43.0


From dcc4610f70f92a53d007ab5db2aa34bab2a5a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 04/69] fix: benchden uniform is defined on [0, 1]

---
 ais_benchmarks/distributions/benchden/d01_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d01_uniform.py b/ais_benchmarks/distributions/benchden/d01_uniform.py
index b1a9ceb..0fbc83d 100644
--- a/ais_benchmarks/distributions/benchden/d01_uniform.py
+++ b/ais_benchmarks/distributions/benchden/d01_uniform.py
@@ -20,5 +20,5 @@ class BenchDenUniform(CMultivariateUniform):
         params["dims"] = 1
         params["support"] = np.array([0, 1])
         params["center"] = np.array([.5])
-        params["radius"] = np.array([1])
+        params["radius"] = np.array([.5])
         super(self.__class__, self).__init__(params)
-- 
2.43.0


From 51c3b649aa2e312b8a526ce234ca16fedb3887b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 05/69] fix: uniform integral over boxes disjoint with the
 support, list parameters

---
 .../distributions/parametric/CMultivariateUniform.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index d69d9d9..54955e4 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -12,6 +12,8 @@ class CMultivariateUniform(CDistribution):
         params["likelihood_f"] = self.prob
         params["loglikelihood_f"] = self.log_prob
         params["dims"] = len(params["center"])
+        params["center"] = np.array(params["center"])
+        params["radius"] = np.array(params["radius"])
         params["support"] = [params["center"] - params["radius"], params["center"] + params["radius"]]
         super(CMultivariateUniform, self).__init__(params)
         self.loc = params["center"]
@@ -65,7 +67,7 @@ class CMultivariateUniform(CDistribution):
         assert np.all(a < b)
         ini = np.maximum(a, self.support_vals[0])
         end = np.minimum(b, self.support_vals[1])
-        return (1 / self.volume) * np.prod((end-ini))
+        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))
 
     def marginal(self, dim):
         raise NotImplementedError
-- 
2.43.0


From 0a5f8ecd7dec03a216d2c83eca581caa48540f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 06/69] fix: delta integral uses the location of the instance

---
 ais_benchmarks/distributions/parametric/CMultivariateDelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
index b880714..80d9485 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
@@ -46,7 +46,7 @@ class CMultivariateDelta(CDistribution):
 
     def integral(self, a, b, nsamples=None):
         assert np.all(a < b)
-        if np.all(a < center) and np.all(center < b):
+        if np.all(a < self.loc) and np.all(self.loc < b):
             return np.array([1])
         return np.array([0])
 
-- 
2.43.0


From e9404bce6306358e49209627824378a4ebbfab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 07/69] fix: mixture weights fall back to equal weights and do
 not alias the input

---
 ais_benchmarks/distributions/mixture/CMixtureModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 06538f8..96064e9 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -25,6 +25,9 @@ class CMixtureModel(CDistribution):
     def set_weights(self, weights):
         assert len(self.models) == len(weights), "len(models)=%d , len(weights)=%d" % (len(self.models), len(weights))
 
+        # Do not alter the array of the caller
+        weights = np.array(weights, dtype=np.float64)
+
         # Address NaN or negative
         nan_indices = np.logical_or(np.isnan(weights), weights <= 0)
         if np.any(nan_indices):
@@ -36,6 +39,7 @@ class CMixtureModel(CDistribution):
         if weights.sum() <= 0:
             print("CMixtureModel. WARNING! All weights are set to zero!. "
                   "Using equal weights for all components.", file=sys.stderr)
+            weights = np.ones(len(weights)) / len(weights)
         else:
             weights = weights / weights.sum()
         self.weights = weights
@@ -51,7 +55,7 @@ class CMixtureModel(CDistribution):
             raise ValueError("Unsupported samples data format: " + str(data.shape))
 
         for i in range(len(self.models)):
-            llikelihood[i] = self.models[i].log_prob(data)
+            llikelihood[i] = self.models[i].log_prob(data).flatten()
 
         logprob = logsumexp(llikelihood, b=self.weights.reshape(-1, 1), axis=0)
         return logprob
-- 
2.43.0


From a1cb41e4793b06c348be845b7fedcc9bcd3277ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 08/69] fix: kernel density estimate can be constructed and
 evaluated in any dimension

---
 ais_benchmarks/distributions/distributions.py                | 3 ++-
 ais_benchmarks/distributions/nonparametric/CKernelDensity.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index b84c69a..5d7bfef 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -318,7 +318,8 @@ class CKernel:
         return np.log(self.prob(x))
 
     def prob(self, x):
-        return self(x)
+        # Product kernel. The density of a point is the product of the kernel values of each dimension.
+        return np.prod(self(x).reshape(len(x), -1), axis=1)
 
     def __call__(self, x):
         return self.kernel((x - self.loc) * self.bw) * self.bw
diff --git a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
index a4da415..e98cc33 100644
--- a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
+++ b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
@@ -33,7 +33,8 @@ class CKernelDensity(CDistribution):
         models = []
         for x in self.samples:
             models.append(CKernel(x, self.kernel_bw, self.kernel_f))
-        self.model = CMixtureModel(models, self.weights)
+        self.model = CMixtureModel({"models": models, "weights": self.weights,
+                                    "dims": self.dims, "support": self.support_vals})
 
     def log_prob(self, data):
         return self.model.log_prob(data)
-- 
2.43.0


From c9202c29e14878003a6a2738b58b5f451b5344c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 09/69] fix: exported target descriptions can be loaded by the
 benchmark

---
 ais_benchmarks/distributions/distributions.py             | 4 ++--
 .../distributions/mixture/CGaussianMixtureModel.py        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index 5d7bfef..4e2d4de 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -296,14 +296,14 @@ class CDistribution(metaclass=ABCMeta):
     def to_dict(self, name=None, batch_size=32, nsamples=1000, nsamples_eval=2000):
         dist_yaml = dict()
         dist_yaml["name"] = name if name is not None else self.type
-        dist_yaml["type"] = "distributions." + self.__class__.__name__
+        dist_yaml["type"] = self.__class__.__name__
         dist_yaml["batch_size"] = batch_size
         dist_yaml["nsamples"] = nsamples
         dist_yaml["nsamples_eval"] = nsamples_eval
         dist_yaml["params"] = dict()
         dist_yaml["params"]["family"] = self.family
         dist_yaml["params"]["dims"] = self.dims
-        dist_yaml["params"]["support"] = [v.tolist() for v in self.support_vals]
+        dist_yaml["params"]["support"] = self.support().tolist()
         return dist_yaml
 
 
diff --git a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
index ff26239..7b34c6b 100644
--- a/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CGaussianMixtureModel.py
@@ -35,7 +35,7 @@ class CGaussianMixtureModel(CDistribution):
             self.weights = (1.0 / len(self.means)) * np.array([1] * len(self.means))
 
         self.gmm = CMixtureModel({"models": self.models, "weights": self.weights,
-                                  "dims": self.dims, "support": self.support})
+                                  "dims": self.dims, "support": self.support_vals})
 
     def log_prob(self, samples):
         return self.gmm.log_prob(samples)
@@ -57,9 +57,9 @@ class CGaussianMixtureModel(CDistribution):
 
     def to_dict(self, name=None, batch_size=32, nsamples=1000, nsamples_eval=2000):
         res = super(CGaussianMixtureModel, self).to_dict(name, batch_size, nsamples, nsamples_eval)
-        res["params"]["means"] = [v.tolist()for v in self.means]
-        res["params"]["sigmas"] = [v.tolist() for v in self.sigmas]
-        res["params"]["weights"] = self.weights.tolist()
+        res["params"]["means"] = np.array(self.means).tolist()
+        res["params"]["sigmas"] = np.array(self.sigmas).tolist()
+        res["params"]["weights"] = np.array(self.weights).tolist()
         return res
 
 
-- 
2.43.0


From e58218806a5a3136c72227f2fb6a4dd39d4eb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 10/69] fix: benchden benchmark file references loadable
 distribution types

---
 .../benchmark/benchden/def_benchmark_benchden.yaml        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
index 16143d2..d60be08 100644
--- a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
+++ b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
@@ -1,7 +1,7 @@
 # Define the target densities used for evaluation and label their categories and provide evaluation parameters
 targets:
     - name: uniform
-      type: distributions.benchden.BenchDenUniform
+      type: BenchDenUniform
       params: {}
       space_size: 2.0
       batch_size: 2
@@ -12,7 +12,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: exponential
-      type: distributions.benchden.BenchDenExponential
+      type: BenchDenExponential
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -23,7 +23,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: maxwell
-      type: distributions.benchden.BenchDenMaxwell
+      type: BenchDenMaxwell
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -34,7 +34,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: laplace
-      type: distributions.benchden.BenchDenLaplace
+      type: BenchDenLaplace
       params: {}
       space_size: 10.0
       batch_size: 2
-- 
2.43.0


From fb084ee94ef964acc61ee96364af51e0b66c06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 11/69] fix: noisy function density is centered at the function
 value, ABC sampling

---
 ais_benchmarks/distributions/derived/CABCDistribution.py      | 4 ++--
 ais_benchmarks/distributions/derived/CGenericNoisyFunction.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/distributions/derived/CABCDistribution.py b/ais_benchmarks/distributions/derived/CABCDistribution.py
index e8d9301..b6b0fe7 100644
--- a/ais_benchmarks/distributions/derived/CABCDistribution.py
+++ b/ais_benchmarks/distributions/derived/CABCDistribution.py
@@ -109,10 +109,10 @@ class ABCDistribution(CDistribution):
         z = self.prior_d.sample(nsamples)
 
         self.gen_d.condition(z)
-        x = self.gen_d.sample(nsamples)
+        x = self.gen_d.sample()
 
         self.sensor_d.condition(x)
-        o_hat = self.sensor_d.sample(nsamples)
+        o_hat = self.sensor_d.sample()
 
         return o_hat
 
diff --git a/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py b/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
index 8376faf..135cdc4 100644
--- a/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
+++ b/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
@@ -30,13 +30,13 @@ class GenericNoisyFunction(CDistribution):
     def log_prob(self, x):
         if self.x is None:
             raise ValueError("GenericFunction logprob cannot be evaluated w/o conditioning first with the true x value.")
-        return self.noise_model.log_prob(x-self.x)
+        return self.noise_model.log_prob(x - self.function(self.x, self.z))
 
     def prob(self, x):
         if self.x is None:
             raise ValueError("GenericFunction prob cannot be evaluated w/o conditioning first with the true x value.")
 
-        return self.noise_model.prob(x-self.x)
+        return self.noise_model.prob(x - self.function(self.x, self.z))
 
     def is_ready(self):
         return True
-- 
2.43.0


From bc5e20fb08cee4c2e3ea5ae0910bfdc1e9af59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 12/69] fix: DM-AIS and LAIS with a single sample per iteration

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 2 +-
 ais_benchmarks/sampling_methods/layered_ais.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 878f5fb..68cbdb3 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -66,7 +66,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]
                     self._num_q_samples += 1
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index 7f9162b..f1c3a60 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -84,7 +84,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]           # Samplers generate samples in a batch. Here we are generating just
                     self._num_q_samples += 1    # one sample and discard the batch dimension
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
-- 
2.43.0


From c60b608312e6eb5424a88334359b3ca9b5bdd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 13/69] fix: samplers evaluate the target with batches, DM-AIS
 and LAIS count proposal evals

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 3 ++-
 ais_benchmarks/sampling_methods/hi_daisee.py   | 4 ++--
 ais_benchmarks/sampling_methods/layered_ais.py | 7 ++++---
 ais_benchmarks/sampling_methods/m_pmc.py       | 2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 68cbdb3..ae328f6 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -71,8 +71,9 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
             # Weight samples
             new_weights = t_tensor([])
             for s in new_samples:
-                w = target_d.prob(s) / self.prob(s)
+                w = target_d.prob(s.reshape(1, -1)) / self.prob(s.reshape(1, -1))
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 32c17a8..e05cae0 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -122,12 +122,12 @@ class CHiDaiseeTree:
             if x[sel_dim] < n_left.center[sel_dim] + n_left.radius[sel_dim]:
                 if n_left.prob(x) <= 0:
                     raise ValueError("pl(x) = %f ; pr(x) = %f " % (n_left.prob(x), n_right.prob(x)))
-                w = target_d.prob(x) / n_left.prob(x)
+                w = target_d.prob(x.reshape(1, -1)) / n_left.prob(x)
                 n_left.add_sample(np.array([x]), w)
             else:
                 if n_right.prob(x) <= 0:
                     raise ValueError("pl(x) = %f ; pr(x) = %f " % (n_left.prob(x), n_right.prob(x)))
-                w = target_d.prob(x) / n_right.prob(x)
+                w = target_d.prob(x.reshape(1, -1)) / n_right.prob(x)
                 n_right.add_sample(np.array([x]), w)
 
         # Remove parent from the leaf list and add children
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index f1c3a60..32b9229 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -53,12 +53,12 @@ class CLayeredAIS(CMixtureISSamplingMethod):
 
     def mcmc_mh(self, x, prop_d, target_d, n_steps):
         for _ in range(n_steps):
-            old_val = target_d.prob(x)
+            old_val = target_d.prob(x.reshape(1, -1))
             self._num_pi_evals += 1
             x_delta = self.mhproposal.sample()[0]  # Discard batch dimension from batch sampler
             self._num_q_samples += 1
             x_hat = np.clip(x + x_delta, self.space_min, self.space_max)
-            new_val = target_d.prob(x_hat)
+            new_val = target_d.prob(x_hat.reshape(1, -1))
             self._num_pi_evals += 1
             alpha = np.random.rand()
             ratio = new_val / old_val
@@ -89,8 +89,9 @@ class CLayeredAIS(CMixtureISSamplingMethod):
             # Weight samples
             new_weights = t_tensor([])
             for s in new_samples:
-                w = target_d.prob(s) / self.prob(s)
+                w = target_d.prob(s.reshape(1, -1)) / self.prob(s.reshape(1, -1))
                 self._num_pi_evals += 1
+                self._num_q_evals += 1
                 new_weights = np.concatenate((new_weights, w.reshape(-1))) if new_weights.size else w.reshape(-1)
 
             # Adaptation
diff --git a/ais_benchmarks/sampling_methods/m_pmc.py b/ais_benchmarks/sampling_methods/m_pmc.py
index b6002cf..29f817f 100644
--- a/ais_benchmarks/sampling_methods/m_pmc.py
+++ b/ais_benchmarks/sampling_methods/m_pmc.py
@@ -91,7 +91,7 @@ class CMixturePMC(CMixtureISSamplingMethod):
 
             # For each sample
             for i in range(self.K):
-                pi_x = target_d.log_prob(new_samples[i])
+                pi_x = target_d.log_prob(new_samples[i].reshape(1, -1))
                 q_x = self.log_prob(new_samples[i])
                 new_weights[i] = np.exp(pi_x - q_x)
 
-- 
2.43.0


From 5c6ce1c880618a45efb5fc49807c8184c33eb0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 14/69] fix: M-PMC components or batches without weight do not
 turn the proposal into nan

---
 ais_benchmarks/sampling_methods/m_pmc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/m_pmc.py b/ais_benchmarks/sampling_methods/m_pmc.py
index 29f817f..1a4f9ad 100644
--- a/ais_benchmarks/sampling_methods/m_pmc.py
+++ b/ais_benchmarks/sampling_methods/m_pmc.py
@@ -56,6 +56,10 @@ class CMixturePMC(CMixtureISSamplingMethod):
             # Update mixture weights (alpha_d) eq. 14.1 (Rao-Blackwellised version)
             self.wproposals[d] = np.sum(weights * posteriors[d])
 
+            # A component without responsibility on any sample has no moments to update
+            if self.wproposals[d] <= 0:
+                continue
+
             # Update proposal parameters (gaussian proposal)
             # Mean eq. 14.2
             mu = np.sum(weights.reshape(-1, 1) * posteriors[d].reshape(-1, 1) * samples, axis=0) / self.wproposals[d]
@@ -105,10 +109,10 @@ class CMixturePMC(CMixtureISSamplingMethod):
                     rho[d][i] = np.exp(np.log(alpha_d) + q_d - q_x)
                     self._num_q_evals += 1
 
-            new_weights = new_weights / new_weights.sum()
-
-            # Adaptation
-            self.adapt(new_samples, new_weights, rho)
+            # Adaptation. Not possible if the target has no density on any of the samples
+            if new_weights.sum() > 0:
+                new_weights = new_weights / new_weights.sum()
+                self.adapt(new_samples, new_weights, rho)
 
             self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
             self.weights = np.concatenate((self.weights, new_weights)) if self.weights.size else new_weights
-- 
2.43.0


From dea5a6152141a777ce916402b164479029fd6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 15/69] fix: DM-AIS batches without weight keep the proposals

---
 ais_benchmarks/sampling_methods/dm_ais.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index ae328f6..8a5cf64 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -45,6 +45,10 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                                     "dims": self.ndims, "support": [self.space_min, self.space_max]})
 
     def resample(self, samples, weights):
+        # Keep the proposals if the target has no density on any of the samples
+        if weights.sum() <= 0:
+            return
+
         # Normalize weights
         norm_weights = weights / weights.sum()
 
-- 
2.43.0


From 392ec4f870109769363c51e560cfcd722d973998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 16/69] fix: rejection sampling counts the proposals actually
 evaluated

---
 ais_benchmarks/sampling_methods/rejection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index d4f4aef..e6c58cd 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -20,13 +20,13 @@ class CRejectionSampling(CMixtureSamplingMethod):
         while t_elapsed < timeout and n_samples > len(self.samples):
             # Generate proposal samples from proposal distribution
             proposals = self.proposal_dist.sample(n_samples - len(self.samples))
-            self._num_q_samples += n_samples
+            self._num_q_samples += len(proposals)
 
             # Obtain the sample likelihood for both the proposal and target distributions
             proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling
-            self._num_pi_evals += n_samples
+            self._num_pi_evals += len(proposals)
             proposals_prob_p = target_d.prob(proposals)
-            self._num_q_evals += n_samples
+            self._num_q_evals += len(proposals)
 
             # Compute the acceptance ratio
             acceptance_ratio = proposals_prob_p / proposals_prob_q
-- 
2.43.0


From e3f96db65d8e70c6f4f0b72bab44c0accb44bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 17/69] fix: rejection sampling prob is the density of its
 samples, as log_prob and sample are

---
 ais_benchmarks/sampling_methods/rejection.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index e6c58cd..f9267d2 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -58,20 +58,18 @@ class CRejectionSampling(CMixtureSamplingMethod):
             return self.draw2d(ax)
         return []
 
-    def prob(self, s):
-        return self.proposal_dist.prob(s) * self.scaling
-
     def draw1d(self, ax):
         res = []
-        res.extend(plot_pdf(ax, self, self.space_min, self.space_max, alpha=1.0, options="--", color="r",
-                            resolution=0.01, label="$q(x)$ * scale"))
+        res.extend(plot_pdf(ax, self.proposal_dist, self.space_min, self.space_max, alpha=1.0, options="--", color="r",
+                            resolution=0.01, scale=self.scaling, label="$q(x)$ * scale"))
         # res.extend(plot_pdf(ax, self.proposal_dist, self.space_min, self.space_max, alpha=1.0, options="-", color="r",
         #                     resolution=0.01, label="$q(x)$"))
-        res.extend(plot_pdf(ax, super(CRejectionSampling, self), self.space_min, self.space_max, alpha=1.0, options="-", color="g",
+        res.extend(plot_pdf(ax, self, self.space_min, self.space_max, alpha=1.0, options="-", color="g",
                             resolution=0.01, label="$KDE$"))
         return res
 
     def draw2d(self, ax):
         res = []
-        res.extend(plot_pdf2d(ax, self, self.space_min, self.space_max, alpha=0.5, resolution=0.02, label="$q(x)$"))
+        res.extend(plot_pdf2d(ax, self.proposal_dist, self.space_min, self.space_max, alpha=0.5, resolution=0.02,
+                              scale=self.scaling, label="$q(x)$"))
         return res
\ No newline at end of file
-- 
2.43.0


From 6414332b4387d1c2f9053b92687ee29890043650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 18/69] fix: rejection sampling can time out before the first
 sample is accepted

---
 ais_benchmarks/sampling_methods/rejection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index f9267d2..2ed8104 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -46,8 +46,9 @@ class CRejectionSampling(CMixtureSamplingMethod):
             t_elapsed = time.time() - t_ini
 
         # Return the accepted samples
-        self.weights = np.ones_like(self.weights) * 1 / len(self.weights)
-        self._update_model()
+        self.weights = np.ones(len(self.samples)) / max(len(self.samples), 1)
+        if len(self.samples):
+            self._update_model()
         return self.samples, self.weights
 
     def draw(self, ax):
-- 
2.43.0


From 226065a5ca2166ab1b71ab7a68e3e470d074d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 19/69] fix: metropolis-hastings sample returns the requested
 number of samples

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 8c2db6a..33345a8 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -70,7 +70,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(n_samples, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout)
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
-- 
2.43.0


From b6db8fbb94804703d7feb72927c8c678120a7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 20/69] fix: metropolis-hastings reset restarts the chain
 inside the domain

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 33345a8..2ee0a84 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -49,7 +49,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         self.n_burnin = params["n_burnin"]
         self.target_d = None
         self.bw = np.array([params["kde_bw"]])
-        self.current_sample = self.proposal_d.sample()
+        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []  # 0:reject 1:accept 2:burn_in 3:decorrelation 4:sample
@@ -76,6 +76,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
     def reset(self):
         super(self.__class__, self).reset()
+        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []
-- 
2.43.0


From a0d5534fcb327021d07a6553236163c9f5c45264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 21/69] fix: metropolis-hastings rejected proposals repeat the
 current sample

---
 .../sampling_methods/metropolis_hastings.py   | 67 ++++++++++---------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 2ee0a84..4abc70c 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -65,7 +65,8 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         if not self.is_init:
             for _ in range(self.n_burnin):
                 self.current_sample = self.mcmc_step(self.current_sample)
-                self.trajectory_types[-1] = self.BURN_IN
+                if self.trajectory_types[-1] == self.ACCEPT:
+                    self.trajectory_types[-1] = self.BURN_IN
             self.is_init = True
 
         res = t_tensor([])
@@ -81,43 +82,45 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         self.trajectory_samples = []
         self.trajectory_types = []
 
+    def get_acceptance_rate(self):
+        assert self.samples.size, "Invalid number of samples to compute acceptance rate"
+        return np.mean(np.array(self.trajectory_types) != self.REJECT)
+
     def mcmc_step(self, x_old, timeout=60):
-        accepted = False
-        t_elapsed = 0
-        t_ini = time.time()
-        x_new = x_old
-        while not accepted and timeout > t_elapsed:
-            t_elapsed = time.time() - t_ini
-            # Sample from the proposal distribution to obtain the proposed sample x' ~ p(x'|x)
-            x_new = np.clip(x_old + self.proposal_d.sample(), self.space_min, self.space_max)
+        # Sample from the proposal distribution to obtain the proposed sample x' ~ p(x'|x)
+        x_new = x_old + self.proposal_d.sample()
 
-            self._num_q_samples += 1
-            self.trajectory_samples.append(x_new.flatten())
+        self._num_q_samples += 1
+        self.trajectory_samples.append(x_new.flatten())
 
-            # Compute the symmetric acceptance ratio P(x')/P(x). In its log form: log(P(x')) - log(P(x))
-            pi_x_new = self.target_d.log_prob(x_new)
-            pi_x_old = self.target_d.log_prob(x_old)
-            self._num_pi_evals += 2
-            metropolis_term = pi_x_new - pi_x_old
+        # Proposals outside of the domain are rejected, the chain stays at the current sample.
+        if np.any(x_new < self.space_min) or np.any(x_new > self.space_max):
+            self.trajectory_types.append(self.REJECT)
+            return x_old
 
-            # Compute the assymetric term Q(x'|x)/Q(x|x'). If the proposal distribution is symmetric
-            # Q(x'|x) = Q(x|x') and the assymetric term is 1. In its log form: log(Q(x'|x)) - log(Q(x|x'))
-            hastings_term = self.proposal_d.log_prob(x_old - x_new) - self.proposal_d.log_prob(x_new - x_old)
-            self._num_q_evals += 2
+        # Compute the symmetric acceptance ratio P(x')/P(x). In its log form: log(P(x')) - log(P(x))
+        pi_x_new = self.target_d.log_prob(x_new)
+        pi_x_old = self.target_d.log_prob(x_old)
+        self._num_pi_evals += 2
+        metropolis_term = pi_x_new - pi_x_old
 
-            # Obtain the acceptance ratio. Notice we are working with logs, therefore the sum instead of the product
-            alpha = metropolis_term + hastings_term
+        # Compute the assymetric term Q(x'|x)/Q(x|x'). If the proposal distribution is symmetric
+        # Q(x'|x) = Q(x|x') and the assymetric term is 1. In its log form: log(Q(x'|x)) - log(Q(x|x'))
+        hastings_term = self.proposal_d.log_prob(x_old - x_new) - self.proposal_d.log_prob(x_new - x_old)
+        self._num_q_evals += 2
 
-            # Determine the accept probability a ~ U(0,1)
-            accept = np.random.rand()
+        # Obtain the acceptance ratio. Notice we are working with logs, therefore the sum instead of the product
+        alpha = metropolis_term + hastings_term
 
-            # Accept or reject the proposed new sample x'
-            accepted = alpha > np.log(accept)
+        # Determine the accept probability a ~ U(0,1)
+        accept = np.random.rand()
 
-            self.trajectory_types.append(self.REJECT)
+        # Accept or reject the proposed new sample x'
+        if alpha > np.log(accept):
+            self.trajectory_types.append(self.ACCEPT)
+            return x_new
 
-        x_old = x_new
-        self.trajectory_types[-1] = self.ACCEPT
+        self.trajectory_types.append(self.REJECT)
         return x_old
 
     def mcmc(self, n_samples, n_steps, timeout=60):
@@ -127,8 +130,10 @@ class CMetropolisHastings(CMixtureSamplingMethod):
             for _ in range(n_steps):
                 t_elapsed = time.time() - t_ini
                 self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout-t_elapsed)
-                self.trajectory_types[-1] = self.DECORRELATION
-            self.trajectory_types[-1] = self.SAMPLE
+                if self.trajectory_types[-1] == self.ACCEPT:
+                    self.trajectory_types[-1] = self.DECORRELATION
+            if self.trajectory_types[-1] == self.DECORRELATION:
+                self.trajectory_types[-1] = self.SAMPLE
             samples = np.concatenate((samples, self.current_sample)) if samples.size else self.current_sample
         return samples
 
-- 
2.43.0


From 3b700b6b29b161bc18cd2db5c2acbb5c4d04cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 22/69] fix: nested sampling keeps all the live points inside
 the domain

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 16eb834..dc07d84 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -114,7 +114,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
-            new_sample = ellipsoid.sample()
+            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 33160db..853e15a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -38,7 +38,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
-            new_sample = self.proposal_dist.sample() + sample
+            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
-- 
2.43.0


From 1c13a16c517707b8964f35b9d4ebb6e1c4bab36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 23/69] fix: nested sampling first sample is weighted with its
 prior mass shell

---
 ais_benchmarks/sampling_methods/multi_nested.py | 5 ++---
 ais_benchmarks/sampling_methods/nested.py       | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dc07d84..539b9d7 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -217,9 +217,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout, self.converged_radius)
 
         # Update Z (evidence)
-        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])
-        W = np.concatenate((np.array([X[0]]), W))
+        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
+        W = X[:-1] - X[1:]
         Z = np.sum(self.L * W)
 
         self.weights = (self.L * W) / Z
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 853e15a..e61181a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -67,9 +67,8 @@ class CNestedSampling(CMixtureSamplingMethod):
             self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout)
 
         # Update Z (evidence)
-        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-        W = np.array([X[i - 1] - X[i] for i in range(1, len(self.samples))])
-        W = np.concatenate((np.array([X[0]]), W))
+        X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
+        W = X[:-1] - X[1:]
         Z = np.sum(self.L * W)
 
         self.weights = (self.L * W) / Z
-- 
2.43.0


From a5a2401f45e72c91114d3e54f744f3737c0a7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 24/69] fix: nested sampling NESS with zero weights

---
 ais_benchmarks/sampling_methods/multi_nested.py | 3 ++-
 ais_benchmarks/sampling_methods/nested.py       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 539b9d7..0edac9e 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -99,7 +99,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         super(CMultiNestedSampling, self).reset()
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        weights = self.weights[self.weights > 0]
+        ESS = np.exp(-np.sum(weights * np.log(weights)))
         return ESS / len(self.samples)
 
     def resample(self, value, pdf, ellipsoid, timeout=60, ellipsoid_converged_radius=1e-2):
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index e61181a..fa61e53 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -46,7 +46,8 @@ class CNestedSampling(CMixtureSamplingMethod):
         return new_sample, new_value
 
     def get_NESS(self):
-        ESS = np.exp(-np.sum(self.weights * np.log(self.weights)))
+        weights = self.weights[self.weights > 0]
+        ESS = np.exp(-np.sum(weights * np.log(weights)))
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
-- 
2.43.0


From 25c897efc01a460b31f4a206088d93aabdc34aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 25/69] fix: nested sampling timeout limits the whole call, not
 each sample

---
 ais_benchmarks/sampling_methods/multi_nested.py | 11 ++++++++++-
 ais_benchmarks/sampling_methods/nested.py       |  7 ++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 0edac9e..20a6ca5 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -190,6 +190,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                                          inflate_factor)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        t_ini = time.time()
         points = self.live_points
         values = target_d.prob(points)
         self._num_pi_evals += len(points)
@@ -215,7 +216,15 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
 
                 # Replace the point with lowest likelihood with a new sample from the proposal distribution
-                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout, self.converged_radius)
+                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid,
+                                                                  timeout - (time.time() - t_ini), self.converged_radius)
+
+                # Stop when the time for all the samples is exhausted
+                if time.time() - t_ini >= timeout:
+                    break
+
+            if time.time() - t_ini >= timeout:
+                break
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index fa61e53..97c09c0 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -51,6 +51,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        t_ini = time.time()
         values = target_d.prob(self.live_points)
         self._num_pi_evals += len(self.live_points)
 
@@ -65,7 +66,11 @@ class CNestedSampling(CMixtureSamplingMethod):
 
             # Replace the point with lowest likelihood with a new sample from the proposal distribution
             # centered on a sample randomly select4ed from the live points
-            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout)
+            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout - (time.time() - t_ini))
+
+            # Stop when the time for all the samples is exhausted
+            if time.time() - t_ini >= timeout:
+                break
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples) + 1)])
-- 
2.43.0


From 117e98aec6f06f44b3e4c91b0bc3764512f662db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 26/69] fix: HiDaisee stops sampling when the timeout is
 reached

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index e05cae0..29eb51d 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -201,6 +201,7 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
         if self.debug:
             print(self.__class__.__name__, "== Debug ==> ", "importance_sample(n_samples=%d)" % n_samples)
 
+        t_ini = time.time()
         for t in range(len(self.samples), n_samples):
             # Initialize traversal path and node to the root. Line 3.
             P = [0]
@@ -281,6 +282,9 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
             if self.debug:
                 print(self.__class__.__name__, "== Debug ==> ", "    | Current tree: \n", self.T.__repr__())
 
+            if time.time() - t_ini >= timeout:
+                break
+
         self._update_model()
         return self._get_samples()
 
-- 
2.43.0


From 45940502cb5a6b02d7e8a75c9ff857146faa3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 27/69] fix: HiDaisee updates the expected value of all the
 ancestors of the sampled leaf

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 29eb51d..ad308d8 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -267,7 +267,7 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
             n.q = (Za + sigma_at) / total_ev
 
             # qi computed using eq.19 for ancestors. Line 11
-            for parent_n in reversed(P[:-1]):
+            for parent_n in reversed(P[1:]):
                 self.T.nodes[parent_n].q = self.T.nodes[parent_n].left.q + self.T.nodes[parent_n].right.q
 
             # Determine whether to split the leaf node. Lines 12 to 15
-- 
2.43.0


From 6d74657c54d322304c32f050aeac5de190d1a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 28/69] fix: HiDaisee sample weights account for the number of
 samples in each leaf

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index ad308d8..54fd8b2 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -308,7 +308,8 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
         weights = list()
         for n_idx in self.T.leaves:
             samples.extend(self.T.nodes[n_idx].samples)
-            weights.extend(self.T.nodes[n_idx].weights)
+            # The leaf weights estimate the evidence in the leaf, each sample contributes with 1 / N of it
+            weights.extend(self.T.nodes[n_idx].weights / max(self.T.nodes[n_idx].N, 1))
 
         self.samples = np.array(samples)
         self.weights = np.array(weights)
-- 
2.43.0


From f60d615070211f07ccb8ce4fed7026e7a5adfb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 29/69] fix: tree pyramid finds nodes in trees with more than
 one level

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 573cc9b..7872f39 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -147,9 +147,7 @@ class CTreePyramid:
         :param prev: node that represents the subspace to search
         :return: node that contains val
         """
-        if prev is None and self.root is None:
-            return None
-        else:
+        if prev is None:
             prev = self.root
 
         if prev.is_leaf():
@@ -392,7 +390,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # that will be expanded. Each node split generates 2^k samples. Therefore to obtain N samples we
             # have to split X nodes. N = X*2^k, X = N / 2^k
             n_samples_to_get = n_samples - self._get_nsamples()
-            nodes_to_expand = np.int(np.ceil(n_samples_to_get / 2 ** self.ndims))
+            nodes_to_expand = int(np.ceil(n_samples_to_get / 2 ** self.ndims))
 
             # Obtain N samples
             samples = self.sample(nodes_to_expand)
-- 
2.43.0


From b1470b52fcac3738bd75fa22e2b614dd391890b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 30/69] fix: tree pyramid without ESS target

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 7872f39..1cf5583 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -685,7 +685,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return len(self._get_samples()[1])
 
     def _get_samples(self):
-        if self.ess_target > 1.0:
+        if self.ess_target is None or self.ess_target > 1.0:
             return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
 
         nsamples = 0
-- 
2.43.0


From 01f3fe5e62486fe02e6a99330ef579c10ac5609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 31/69] fix: tree pyramid outputs all the samples of each leaf
 with their weights

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 1cf5583..ac49ceb 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -694,10 +694,13 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
         samples = np.zeros((nsamples, self.ndims))
         weights = np.zeros(nsamples)
-        for i, l in enumerate(self.T.leaves):
+        i = 0
+        for l in self.T.leaves:
             nsamples_subspace = len(l.weight_hist)
             samples[i:i + nsamples_subspace] = l.coords_hist
-            weights[i:i + nsamples_subspace] = l.weight_hist.flatten()
+            # The leaf weights estimate the evidence in the leaf, each sample contributes with 1 / N of it
+            weights[i:i + nsamples_subspace] = l.weight_hist.flatten() / nsamples_subspace
+            i += nsamples_subspace
         return samples[weights > 0], weights[weights > 0]
 
     def _self_normalize(self):
-- 
2.43.0


From a9acc1e9b3b68fb3680f691f61bb520a58a964a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 32/69] fix: tree pyramid weights of different calls are in the
 same scale

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index ac49ceb..bfbd40b 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -518,9 +518,6 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         self._num_q_evals += len(samples)
         self._num_q_samples += len(samples)
 
-        # Self-normalization of importance weights.
-        self._self_normalize()
-
         # Update resampled coordinates and weights.
         for node in self.T.leaves:
             node.weight = self.T.weights[node.node_idx]
@@ -709,6 +706,11 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 self.T.weights[self.T.leaves_idx])
 
     def _update_model(self):
+        # Normalize the weights of all the leaves together, they might have been obtained in different calls
+        for node in self.T.leaves:
+            self.T.weights[node.node_idx] = node.weight
+        self._self_normalize()
+
         weights = self.T.weights[self.T.leaves_idx]
         centers = self.T.centers[self.T.leaves_idx]
         radii = self.T.radii[self.T.leaves_idx]
@@ -732,7 +734,6 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             #                                limits=[self.space_min, self.space_max],
             #                                weight=weights[i]))
             i += 1
-        self._self_normalize()
         self.model = CMixtureModel({"models": models, "weights": weights,
                                     "dims": self.ndims, "support":[self.space_min, self.space_max]})
         # self.viz_elements.append(viz.CProposalDist(0, func=self.model.prob, limits=[self.space_min, self.space_max]))
-- 
2.43.0


From f424a71c478b702a9f85a4af2815e841f2dca898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 33/69] fix: tree pyramid normal kernel resampling density
 accounts for the leaf size

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index bfbd40b..bf4af15 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -506,7 +506,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # calling self.prob() (which computes computing q(x)) and do it in a vectorized form as shown below.
             proposal_probs = 1 / ((2 * radii) ** self.T.ndims)
         elif self.kernel == "normal":
-            proposal_probs = self.T.sampler.prob(re_samples)
+            proposal_probs = self.T.sampler.prob(re_samples).reshape(-1, 1) / ((2 * radii) ** self.T.ndims)
         self.T.samples[self.T.leaves_idx] = samples
         probs = target_d.prob(samples)
         # re_weights = probs.reshape(-1) / proposal_probs.reshape(-1)
-- 
2.43.0


From b1955212a2219f312281f5138365d0877cc41a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 34/69] fix: tree pyramid counts the evaluation of the root
 node

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index bf4af15..8693457 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -442,6 +442,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             self.T.samples[self.T.root.node_idx] = self.T.root.coords
             self._num_q_samples += 1
             self.T.root.weigh(target_d, self.T.root.sampler)
+            self._num_pi_evals += 1  # Count the evaluation operation
+            self._num_q_evals += 1  # Count the evaluation operation
             self.T.weights[self.T.root.node_idx] = self.T.root.weight
             self._update_model()
 
-- 
2.43.0


From 66d1f1250fc6e9c3639bbd568afa0fd49477a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 35/69] fix: tree pyramid stats report the NESS of its samples

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 8693457..a5eca9a 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -328,7 +328,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 "proposal_evals": self._num_q_evals,
                 "target_evals": self._num_pi_evals,
                 "n_samples": self._get_nsamples(),
-                "NESS": self.get_approx_NESS()}
+                "NESS": self.get_NESS()}
 
     def reset(self):
         super(CTreePyramidSampling, self).reset()
-- 
2.43.0


From 717352a7451fdf99fc83e772a727cabe9e1a7df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 36/69] fix: tree pyramid density at a single point

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index a5eca9a..528c910 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -531,7 +531,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
     def log_prob(self, x):
         if len(x.shape) == 1:
-            x.reshape(-1, self.ndims)
+            x = x.reshape(-1, self.ndims)
             llikelihood = np.zeros((len(x)))
         elif len(x.shape) == 2:
             llikelihood = np.zeros((len(x)))
@@ -566,7 +566,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
     def prob(self, x):
         if len(x.shape) == 1:
-            x.reshape(-1, self.ndims)
+            x = x.reshape(-1, self.ndims)
             likelihood = np.zeros((len(x)))
         elif len(x.shape) == 2:
             likelihood = np.zeros((len(x)))
-- 
2.43.0


From f3e56e77417d2b7d76a099549ab70349c96eb8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 37/69] fix: metrics do not modify the evaluated probabilities

---
 ais_benchmarks/metrics/divergences.py | 12 ++++++++++--
 ais_benchmarks/metrics/statistics.py  |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 0b85148..255a73b 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -109,6 +109,10 @@ class CKLDivergence(CDivergence):
 
     @staticmethod
     def compute_from_probs(p_samples_prob, q_samples_prob):
+        # Do not modify the probabilities of the caller
+        p_samples_prob = np.array(p_samples_prob)
+        q_samples_prob = np.array(q_samples_prob)
+
         # Filter zero prob values on any of the sides
         inliers = np.logical_and(p_samples_prob > 0, q_samples_prob > 0)
         num_inliers = len(p_samples_prob[inliers])
@@ -134,6 +138,10 @@ class CKLDivergence(CDivergence):
 
     @staticmethod
     def compute_from_log_probs(p_samples_logprob, q_samples_logprob):
+        # Do not modify the log probabilities of the caller
+        p_samples_logprob = np.array(p_samples_logprob)
+        q_samples_logprob = np.array(q_samples_logprob)
+
         # Filter zero prob values on any of the sides
         inliers = np.logical_and(p_samples_logprob > -np.inf,
                                  q_samples_logprob > -np.inf)
@@ -164,8 +172,8 @@ class CJSDivergence(CDivergence):
 
     def compute_from_samples(self, p, q, samples):
         # Obtain sample probabilities
-        p_samples_prob = p.prob(samples)
-        q_samples_prob = q.prob(samples)
+        p_samples_prob = np.array(p.prob(samples))
+        q_samples_prob = np.array(q.prob(samples))
 
         # Filter zero prob values and nans on any of the sides
         inliers = np.logical_and(p_samples_prob > 0, q_samples_prob > 0)
diff --git a/ais_benchmarks/metrics/statistics.py b/ais_benchmarks/metrics/statistics.py
index bbfe1e9..a51a39f 100644
--- a/ais_benchmarks/metrics/statistics.py
+++ b/ais_benchmarks/metrics/statistics.py
@@ -37,8 +37,8 @@ class CExpectedValueMSE(CMetric):
     def compute_from_samples(self, p, q, samples):
         samples_pprob = p.prob(samples)
         samples_qprob = q.prob(samples)
-        samples_pprob /= np.sum(samples_pprob)
-        samples_qprob /= np.sum(samples_qprob)
+        samples_pprob = samples_pprob / np.sum(samples_pprob)
+        samples_qprob = samples_qprob / np.sum(samples_qprob)
 
         EV_P = np.sum(samples * samples_pprob.reshape(-1,1), axis=0)
         EV_Q = np.sum(samples * samples_qprob.reshape(-1,1), axis=0)
-- 
2.43.0


From b41c8744df1286f9098cada6283693eb34284477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 38/69] fix: KL divergence without common support is infinite

---
 ais_benchmarks/metrics/divergences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 255a73b..13810ac 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -151,6 +151,10 @@ class CKLDivergence(CDivergence):
         if  inlier_ratio < .1:
             print("WARNING. KLDD compute. Less than 10% inliers")
 
+        # Without common support the divergence is infinite
+        if num_inliers == 0:
+            return np.inf
+
         # Normalize sample probabilities in log space
         p_samples_logprob[inliers] -= np.logaddexp.reduce(p_samples_logprob[inliers])
         q_samples_logprob[inliers] -= np.logaddexp.reduce(q_samples_logprob[inliers])
-- 
2.43.0


From 56cf9ac91325ee1101acac551f8bb912beca806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 39/69] fix: JS divergence accounts for the samples where only
 one density is zero

---
 ais_benchmarks/metrics/divergences.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 13810ac..25f2c89 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import rel_entr
 from ais_benchmarks.metrics.base import CMetric
 
 # def bhattacharyya_distance(p_samples_prob, q_samples_prob):
@@ -179,8 +180,9 @@ class CJSDivergence(CDivergence):
         p_samples_prob = np.array(p.prob(samples))
         q_samples_prob = np.array(q.prob(samples))
 
-        # Filter zero prob values and nans on any of the sides
-        inliers = np.logical_and(p_samples_prob > 0, q_samples_prob > 0)
+        # Filter nans on any of the sides and values that are zero on both sides. Values that are zero on one of the
+        # sides contribute to the divergence
+        inliers = np.logical_or(p_samples_prob > 0, q_samples_prob > 0)
         inliers = np.logical_and(inliers, np.logical_not(np.isnan(q_samples_prob)))
         inliers = np.logical_and(inliers, np.logical_not(np.isnan(p_samples_prob)))
         num_inliers = len(p_samples_prob[inliers])
@@ -197,8 +199,8 @@ class CJSDivergence(CDivergence):
         # Renormalize to avoid precision issues
         m_samples_prob = m_samples_prob / np.sum(m_samples_prob)
 
-        res = 0.5 * p_samples_prob[inliers] * np.log(p_samples_prob[inliers] / m_samples_prob) + \
-              0.5 * q_samples_prob[inliers] * np.log(q_samples_prob[inliers] / m_samples_prob)
+        res = 0.5 * rel_entr(p_samples_prob[inliers], m_samples_prob) + \
+              0.5 * rel_entr(q_samples_prob[inliers], m_samples_prob)
 
         # Remove nans that might have been generated by underflows
         res = res[np.logical_not(np.isnan(res))]
-- 
2.43.0


From 8f167a4339faa99c5715a7bc4b0974e573b2ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 40/69] fix: memory metric reset clears its value

---
 ais_benchmarks/metrics/performance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/metrics/performance.py b/ais_benchmarks/metrics/performance.py
index c975334..88c7d6e 100644
--- a/ais_benchmarks/metrics/performance.py
+++ b/ais_benchmarks/metrics/performance.py
@@ -79,5 +79,6 @@ class CMemoryUsage(CMetric):
         self.mem_ini = 0
         self.mem_end = 0
         self.mem_cum = 0
+        self.value = 0
         gc.collect()
 
-- 
2.43.0


From 1be96484ae72c7f985f3070915d1839ab44b47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 41/69] fix: JS divergence is maximum if one of the densities
 is zero on all the samples

---
 ais_benchmarks/metrics/divergences.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 25f2c89..6552044 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -190,6 +190,11 @@ class CJSDivergence(CDivergence):
         if inlier_ratio < .1:
             print("WARNING. JSD compute. Only %6.3f%% inliers" % (inlier_ratio*100))
 
+        # Without mass on one of the sides there is no common support and the divergence is maximum
+        if np.sum(p_samples_prob[inliers]) <= 0 or np.sum(q_samples_prob[inliers]) <= 0:
+            self.value = 1.0
+            return self.value
+
         # Normalize sample probabilities
         p_samples_prob[inliers] = p_samples_prob[inliers] / np.sum(p_samples_prob[inliers])
         q_samples_prob[inliers] = q_samples_prob[inliers] / np.sum(q_samples_prob[inliers])
-- 
2.43.0


From 4a050d04abd896001c2b0c909d670ce782ab8171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 42/69] fix: 2D drawing of the sampling methods

---
 ais_benchmarks/sampling_methods/base.py | 4 ++--
 ais_benchmarks/utils/plot_utils.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 64efff2..c2d17ce 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -208,9 +208,9 @@ class CMixtureSamplingMethod(CSamplingMethod):
         res = []
         if hasattr(self, "proposals"):
             for q in self.proposals:
-                res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o"))
+                res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o"))
                 res.extend(plot_pdf2d(ax, q, self.space_min, self.space_max, alpha=0.3, resolution=0.02, colormap=cm.viridis, linestyles='dashed', scale=1/len(self.proposals)))
-            res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o", label="$q_n(x)$"))
+            res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o", label="$q_n(x)$"))
 
         # for s, w in zip(self.samples, self.weights):
         #     res.append(ax.scatter(s[0], s[1], w, c="g", marker="o", alpha=0.2))
diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index 2f1e6ff..8e28bdb 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -56,7 +56,7 @@ def plot_grid_sampled_pdfs(ax, dims, prob_p, shape=None, marginalize_axes=None,
 
     levels = np.arange(np.min(prob_p_margin), np.max(prob_p_margin), (np.max(prob_p_margin)-np.min(prob_p_margin)) / 15)
     CS = ax.contour(dims[0], dims[1], prob_p_margin, cmap=cmap, levels=levels, linestyles=linestyles, alpha=alpha)
-    return CS.collections if len(CS.collections) else []
+    return list(getattr(CS, "collections", [CS]))
 
 
 def plot_pdf2d(ax, pdf, space_min, space_max, resolution=0.1, alpha=0.2, scale=1.0, label=None, colormap=plt.cm.cool, linestyles='solid'):
-- 
2.43.0


From b000c13fe67cdfaf94afb0f2c10f5f6ffb6875ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 43/69] fix: redrawn points and axes replace all of their
 previous elements

---
 ais_benchmarks/visualization/matplotlib/viz_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/visualization/matplotlib/viz_interface.py b/ais_benchmarks/visualization/matplotlib/viz_interface.py
index 2fc630c..6b7d244 100644
--- a/ais_benchmarks/visualization/matplotlib/viz_interface.py
+++ b/ais_benchmarks/visualization/matplotlib/viz_interface.py
@@ -4,7 +4,7 @@ import numpy as np
 
 
 def draw_point(item, ax):
-    return ax.scatter(item.pos[0], item.pos[1], marker=item.draw_style, color=item.outline_color)
+    return [ax.scatter(item.pos[0], item.pos[1], marker=item.draw_style, color=item.outline_color)]
 
 
 def draw_func(item, ax):
@@ -33,6 +33,7 @@ def draw_axis(item, ax):
         # Draw a small line perpendicular to the axis with size t_size
         l = mlines.Line2D([ini[0], end[0]], [ini[1], end[1]], color=item.outline_color)
         ax.add_line(l)
+        elems.append(l)
 
         # Display label
         # Find the direction that puts the labels outwards
@@ -44,8 +45,6 @@ def draw_axis(item, ax):
         txt = plt.text(text_pos[0], text_pos[1], t_lbl, horizontalalignment="center", verticalalignment="center", color=item.outline_color)
         elems.append(txt)
 
-    elems.append(l)
-
     return elems
 
 
-- 
2.43.0


From 867d5526ccc58cbb2d8843faba3c43dd1f6c992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 44/69] fix: benchmark result columns match their header

---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 7595023..d72d89c 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -164,7 +164,7 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
+        cols = "dims output_samples " + " ".join([m for m in self.metrics if m != "NESS"]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -320,7 +320,7 @@ class CBenchmark(object):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
             text += " ".join(["%9.5f" % val for val in results.values()])
-            text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
+            text += " %9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
             f.write(text + "\n")
-- 
2.43.0


From bcb2cc3ec665eec3f4c6cad27af2fe1033c2ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 45/69] fix: benchmark methods use the exact limits of the
 target

---
 ais_benchmarks/benchmark/CBenchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index d72d89c..81ecb04 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -61,8 +61,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
-                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
+            params = ['"space_min":np.array(%s)' % space_min.tolist(), ",",
+                      '"space_max":np.array(%s)' % space_max.tolist(), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
-- 
2.43.0


From de1eb12b23939fc102762d93ba0b372246de10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 46/69] fix: benchmark enforces the sampling time limit

---
 ais_benchmarks/benchmark/CBenchmark.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 81ecb04..278351e 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -478,11 +478,14 @@ class CBenchmark(object):
 
                 # Initialize metrics before running the evaluated code
                 [m.pre() for m in metrics_eval]
+                t_sampling = time.time()
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
 
+                sampling_time += time.time() - t_sampling
+
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
 
@@ -538,7 +541,7 @@ class CBenchmark(object):
 
                 # Some sampling algorithms may take too long to generate the desired number of samples, the
                 # timeout ensures the operation will end if the specified timeout is reached.
-                if sampling_time > max_sampling_time:
+                if sampling_time >= max_sampling_time:
                     break
 
                 niter += 1
-- 
2.43.0


From bc6efd559046fb0de5c7f1a20698b09d10c4bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 47/69] fix: benchmark debug plot shows the target density

---
 ais_benchmarks/benchmark/CBenchmark.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 278351e..5f19d75 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -435,11 +435,11 @@ class CBenchmark(object):
                 ax = plt.subplot(111)
                 plt.show(block=False)
 
-                grid, log_prob, dims, shape = grid_sample_distribution(target_dist,
-                                                                       np.array(target_dist.support()[0]),
-                                                                       np.array(target_dist.support()[1]),
-                                                                       resolution=0.02)
-                plot_grid_sampled_pdfs(ax, dims, np.exp(log_prob), shape=shape, alpha=1, label="$\pi(x)$", cmap='gray',
+                grid, prob, dims, shape = grid_sample_distribution(target_dist,
+                                                                   np.array(target_dist.support()[0]),
+                                                                   np.array(target_dist.support()[1]),
+                                                                   resolution=0.02)
+                plot_grid_sampled_pdfs(ax, dims, prob, shape=shape, alpha=1, label="$\pi(x)$", cmap='gray',
                                        linestyles='dashed')
 
                 plt.xlim(np.array(target_dist.support()[0][0]), np.array(target_dist.support()[1][0]))
-- 
2.43.0


From 4ebc2ef9aab24314327a320fb78df24749f8c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 48/69] fix: video writer grabs frames with current matplotlib

---
 ais_benchmarks/utils/video_writer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ais_benchmarks/utils/video_writer.py b/ais_benchmarks/utils/video_writer.py
index aaa566c..d138e3d 100644
--- a/ais_benchmarks/utils/video_writer.py
+++ b/ais_benchmarks/utils/video_writer.py
@@ -12,8 +12,7 @@ class CVideoWriter:
     def add_frame(self, fig):
         fig.canvas.draw()
         w, h = fig.canvas.get_width_height()
-        frame = np.fromstring(fig.canvas.tostring_rgb(), dtype=np.uint8)
-        frame.shape = (h, w, 3)
+        frame = np.array(fig.canvas.buffer_rgba(), dtype=np.uint8).reshape(h, w, 4)[:, :, :3].copy()
         self.frames.append(frame)
 
     def save(self):
-- 
2.43.0


From f1aeadf48478e26bd96e869a040f5d7abf0dd4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 49/69] fix: stream reader last value is consistent with lines
 arriving concurrently

---
 ais_benchmarks/utils/misc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ais_benchmarks/utils/misc.py b/ais_benchmarks/utils/misc.py
index f38ba12..f08dd1c 100644
--- a/ais_benchmarks/utils/misc.py
+++ b/ais_benchmarks/utils/misc.py
@@ -23,11 +23,13 @@ class CNonBlockingStreamReader:
 
     def read_last_and_clear(self, keep_last=True):
         val = None
-        while not self._q.empty():
-            val = self._q.get()
-
-        if val is not None and keep_last:
-            self._q.put(val)
+        # Hold the queue while it is emptied, otherwise lines that arrive in between end up before the last value
+        with self._q.mutex:
+            if self._q.queue:
+                val = self._q.queue[-1]
+                self._q.queue.clear()
+                if keep_last:
+                    self._q.queue.append(val)
         return val
 
     def read(self):
-- 
2.43.0


From 928615afecba007329ee7ebe3c1e1f531f69c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 50/69] fix: random GMM default sigmas are valid in any
 dimension

---
 ais_benchmarks/utils/misc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ais_benchmarks/utils/misc.py b/ais_benchmarks/utils/misc.py
index f08dd1c..d23cd62 100644
--- a/ais_benchmarks/utils/misc.py
+++ b/ais_benchmarks/utils/misc.py
@@ -43,6 +43,11 @@ def generateRandomGMM(space_min, space_max, num_gaussians, sigma_min=(0.04, 0.04
     means = []
     covs = []
 
+    # The default sigmas are valid for any number of dimensions
+    if len(set(sigma_min)) == 1 and len(set(sigma_max)) == 1:
+        sigma_min = np.full(len(space_min), sigma_min[0])
+        sigma_max = np.full(len(space_max), sigma_max[0])
+
     for _ in range(num_gaussians):
         sigma = np.random.uniform(sigma_min, sigma_max)
         mu = np.random.uniform(space_min + 5*sigma, space_max - 5*sigma)
-- 
2.43.0


From 9fb3d3d29f01a107d4fc11f0689bc28bc9eee70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 51/69] fix: exponential density of batches entirely outside of
 the support

---
 ais_benchmarks/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index 4e2d4de..24cb751 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -138,7 +138,7 @@ class CDistribution(metaclass=ABCMeta):
             x = x.reshape(1, self.dims)
         # Check that the sample dimensions matches the PDF.
         elif len(x.shape) == 2:
-            if len(x[0]) != self.dims:
+            if x.shape[1] != self.dims:
                 raise ValueError("""Shape of x does not match self.dims = %d. is Nx%d array that contains N points of %d 
                                     dimensions. x.shape=%s""" % (self.dims, self.dims, self.dims, str(x.shape)))
         else:
-- 
2.43.0


From ec22ef878d1b413d453d77f1702c15224a51dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 52/69] Restore the benchmark folder

---
 ais_benchmarks/benchmark/CBenchmark.py        | 23 ++++++++-----------
 .../benchden/def_benchmark_benchden.yaml      |  8 +++----
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/ais_benchmarks/benchmark/CBenchmark.py b/ais_benchmarks/benchmark/CBenchmark.py
index 5f19d75..7595023 100644
--- a/ais_benchmarks/benchmark/CBenchmark.py
+++ b/ais_benchmarks/benchmark/CBenchmark.py
@@ -61,8 +61,8 @@ class CBenchmark(object):
         methods = yaml.load(m_yaml, Loader=yaml.SafeLoader)
         for method in methods["methods"]:
 
-            params = ['"space_min":np.array(%s)' % space_min.tolist(), ",",
-                      '"space_max":np.array(%s)' % space_max.tolist(), ",",
+            params = ['"space_min":np.array(%s)' % np.array2string(space_min, separator=', '), ",",
+                      '"space_max":np.array(%s)' % np.array2string(space_max, separator=', '), ",",
                       '"dims":%d' % dims, ","]
 
             for p in method["params"].items():
@@ -164,7 +164,7 @@ class CBenchmark(object):
         # Enable / disable debug plot save path
         self.debug_plot_save_path = None if not self.debug_plot_save else self.debug_plot_save_path
 
-        cols = "dims output_samples " + " ".join([m for m in self.metrics if m != "NESS"]) + \
+        cols = "dims output_samples " + " ".join([m for m in self.metrics]) + \
                " NESS method target_d accept_rate proposal_samples proposal_evals target_evals\n"
         with open(self.output_file, 'w') as f:
             f.write(cols)
@@ -320,7 +320,7 @@ class CBenchmark(object):
         with open(file, mode='a+') as f:
             text = "%02d %04d " % (target.dims, nsamples)
             text += " ".join(["%9.5f" % val for val in results.values()])
-            text += " %9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
+            text += "%9.3f %s %s %5.3f %d %d %d" % (method.get_NESS(), method.name, target.name,
                                                     method.get_acceptance_rate(), method.num_proposal_samples,
                                                     method.num_proposal_evals, method.num_target_evals)
             f.write(text + "\n")
@@ -435,11 +435,11 @@ class CBenchmark(object):
                 ax = plt.subplot(111)
                 plt.show(block=False)
 
-                grid, prob, dims, shape = grid_sample_distribution(target_dist,
-                                                                   np.array(target_dist.support()[0]),
-                                                                   np.array(target_dist.support()[1]),
-                                                                   resolution=0.02)
-                plot_grid_sampled_pdfs(ax, dims, prob, shape=shape, alpha=1, label="$\pi(x)$", cmap='gray',
+                grid, log_prob, dims, shape = grid_sample_distribution(target_dist,
+                                                                       np.array(target_dist.support()[0]),
+                                                                       np.array(target_dist.support()[1]),
+                                                                       resolution=0.02)
+                plot_grid_sampled_pdfs(ax, dims, np.exp(log_prob), shape=shape, alpha=1, label="$\pi(x)$", cmap='gray',
                                        linestyles='dashed')
 
                 plt.xlim(np.array(target_dist.support()[0][0]), np.array(target_dist.support()[1][0]))
@@ -478,14 +478,11 @@ class CBenchmark(object):
 
                 # Initialize metrics before running the evaluated code
                 [m.pre() for m in metrics_eval]
-                t_sampling = time.time()
 
                 # Perform importance sampling operation to generate a batch of samples and compute the time taken
                 samples_acc, _ = sampling_method.importance_sample(target_d=target_dist, n_samples=n_samples,
                                                                    timeout=max_sampling_time - sampling_time)
 
-                sampling_time += time.time() - t_sampling
-
                 # Compute metrics right after the sampling operation
                 [m.post() for m in metrics_eval]
 
@@ -541,7 +538,7 @@ class CBenchmark(object):
 
                 # Some sampling algorithms may take too long to generate the desired number of samples, the
                 # timeout ensures the operation will end if the specified timeout is reached.
-                if sampling_time >= max_sampling_time:
+                if sampling_time > max_sampling_time:
                     break
 
                 niter += 1
diff --git a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
index d60be08..16143d2 100644
--- a/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
+++ b/ais_benchmarks/benchmark/benchden/def_benchmark_benchden.yaml
@@ -1,7 +1,7 @@
 # Define the target densities used for evaluation and label their categories and provide evaluation parameters
 targets:
     - name: uniform
-      type: BenchDenUniform
+      type: distributions.benchden.BenchDenUniform
       params: {}
       space_size: 2.0
       batch_size: 2
@@ -12,7 +12,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: exponential
-      type: BenchDenExponential
+      type: distributions.benchden.BenchDenExponential
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -23,7 +23,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: maxwell
-      type: BenchDenMaxwell
+      type: distributions.benchden.BenchDenMaxwell
       params: {}
       space_size: 6.0
       batch_size: 2
@@ -34,7 +34,7 @@ targets:
       tags: [benchden, low_kurtosis, low_skew]
 
     - name: laplace
-      type: BenchDenLaplace
+      type: distributions.benchden.BenchDenLaplace
       params: {}
       space_size: 10.0
       batch_size: 2
-- 
2.43.0


From dd52737e38252d907827160309f60f09b3c42aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 53/69] fix: M-PMC crashes when the covariance of a component
 collapses

---
 ais_benchmarks/sampling_methods/m_pmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/m_pmc.py b/ais_benchmarks/sampling_methods/m_pmc.py
index 1a4f9ad..bcda893 100644
--- a/ais_benchmarks/sampling_methods/m_pmc.py
+++ b/ais_benchmarks/sampling_methods/m_pmc.py
@@ -72,7 +72,7 @@ class CMixturePMC(CMixtureISSamplingMethod):
             cov /= self.wproposals[d]
 
             # TODO: Remove this failsafe for collapsing or exploding covariances
-            if np.any(np.isnan(cov)) or np.any(cov > 10):
+            if np.any(np.isnan(cov)) or np.any(cov > 10) or np.linalg.det(cov) <= 0:
                 cov = np.diag(np.ones(self.ndims)*10)
 
             self.proposals[d].set_moments(mu, cov)
-- 
2.43.0


From a835b179e26303c61825e6a102974cc322df2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 54/69] fix: multi-nested sampling returns fewer samples than
 requested with several clusters

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 20a6ca5..dabdf52 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -199,7 +199,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         clusters, c_ellipsoids = self.recursive_clustering(points, inflate_factor=self.inflate_factor)
 
         # Perform nested sampling on each cluster
-        n_samples_ell = int((n_samples-len(self.samples)) / len(c_ellipsoids))
+        n_samples_ell = int(np.ceil((n_samples-len(self.samples)) / len(c_ellipsoids)))
         n_samples_ell = max(n_samples_ell, 1)
         for idx, c_ellipsoid in enumerate(c_ellipsoids):
             for i in range(n_samples_ell):
-- 
2.43.0


From 765f31a21549bd1be61830278011f2850ab23d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 55/69] fix: the first nested sample was an alias of a live
 point and overwritten by its replacement

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dabdf52..66972fe 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -210,7 +210,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 assert len(g_indices) > 0
 
                 min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]
-                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1)
+                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1).copy()
 
                 # Keep the likelihood value associated with the sample
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 97c09c0..01f142b 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -59,7 +59,7 @@ class CNestedSampling(CMixtureSamplingMethod):
             # Add the point with lowest likelihood to the resulting sample set
             Lmin = np.min(values)
             min_idx = np.argmin(values)
-            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)
+            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()
 
             # Keep the likelihood value associated with the sample
             self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
-- 
2.43.0


From 93e54944540e098beec97f4d8ab84dc29b9d4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 56/69] fix: Metropolis-Hastings fails when the time is over
 before the first sample

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 4abc70c..0cebc9c 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -147,8 +147,10 @@ class CMetropolisHastings(CMixtureSamplingMethod):
             self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
             elapsed_time = time.time() - t_ini
 
-        self.weights = np.ones(len(self.samples)) * 1 / len(self.samples)
-        self._update_model()
+        # There are no samples to build the model from if the time was over before obtaining the first one
+        if len(self.samples) > 0:
+            self.weights = np.ones(len(self.samples)) * 1 / len(self.samples)
+            self._update_model()
         return self.samples, self.weights
 
     def draw(self, ax):
-- 
2.43.0


From 28c6fed769b63712d88e30fe303ccc569e592a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 57/69] fix: nested sampling searches ignore the time of their
 first evaluation

---
 ais_benchmarks/sampling_methods/multi_nested.py | 4 ++--
 ais_benchmarks/sampling_methods/nested.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 66972fe..36f9567 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -104,14 +104,14 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         return ESS / len(self.samples)
 
     def resample(self, value, pdf, ellipsoid, timeout=60, ellipsoid_converged_radius=1e-2):
+        elapsed_time = 0
+        t_ini = time.time()
         new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
 
         self._num_q_samples += 1
 
         new_value = pdf.prob(new_sample)
         self._num_pi_evals += 1
-        elapsed_time = 0
-        t_ini = time.time()
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 01f142b..753777a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -29,12 +29,12 @@ class CNestedSampling(CMixtureSamplingMethod):
         super(CNestedSampling, self).reset()
 
     def resample(self, sample, value, pdf, timeout):
+        elapsed_time = 0
+        t_ini = time.time()
         new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
         self._num_q_samples += 1
         new_value = pdf.prob(new_sample)
         self._num_pi_evals += 1
-        elapsed_time = 0
-        t_ini = time.time()
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
-- 
2.43.0


From e968444ca843ce7f775156d79bb92762bb105771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:37 +0000
Subject: [PATCH 58/69] fix: nested sampling overwrites the values returned by
 the target

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 36f9567..dad5bfd 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -192,7 +192,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
     def importance_sample(self, target_d, n_samples, timeout=60):
         t_ini = time.time()
         points = self.live_points
-        values = target_d.prob(points)
+        values = np.array(target_d.prob(points))  # Updated below, the target keeps its own values
         self._num_pi_evals += len(points)
 
         # Perform recursive clustering on the sample points
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 753777a..8477ccc 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -52,7 +52,7 @@ class CNestedSampling(CMixtureSamplingMethod):
 
     def importance_sample(self, target_d, n_samples, timeout=60):
         t_ini = time.time()
-        values = target_d.prob(self.live_points)
+        values = np.array(target_d.prob(self.live_points))  # Updated below, the target keeps its own values
         self._num_pi_evals += len(self.live_points)
 
         for i in range(n_samples - len(self.samples)):
-- 
2.43.0


From a2fad911342db329c4933714156e8db6024820a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:23 +0000
Subject: [PATCH 59/69] fix: JS divergence is infinite when the probability of
 a sample underflows

---
 ais_benchmarks/metrics/divergences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 6552044..701c3a9 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -207,8 +207,8 @@ class CJSDivergence(CDivergence):
         res = 0.5 * rel_entr(p_samples_prob[inliers], m_samples_prob) + \
               0.5 * rel_entr(q_samples_prob[inliers], m_samples_prob)
 
-        # Remove nans that might have been generated by underflows
-        res = res[np.logical_not(np.isnan(res))]
+        # Remove nans and infinities that might have been generated by underflows
+        res = res[np.isfinite(res)]
 
         self.value = res.sum() / self.log2
         return res.sum() / self.log2
-- 
2.43.0


From b143fa2e35c3b6eb6b6075f848a64a9b5f226cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 60/69] fix: order of the grids with more than two dimensions
 does not match their shape

---
 ais_benchmarks/sampling_methods/base.py | 2 +-
 ais_benchmarks/utils/plot_utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index c2d17ce..31e5180 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -260,7 +260,7 @@ def make_grid(space_min, space_max, resolution):
         dimensions.append(np.linspace(space_min[i], space_max[i], num_samples[i]))
         shape[i] = len(dimensions[i])
 
-    samples = np.array(np.meshgrid(*dimensions)).T.reshape(-1, len(space_min))
+    samples = np.stack(np.meshgrid(*dimensions, indexing="ij"), axis=-1).reshape(-1, len(space_min))
     return samples, dimensions, shape
 
 
diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index 8e28bdb..e41dab0 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -21,7 +21,7 @@ def make_grid(space_min, space_max, resolution):
         dimensions.append(np.linspace(space_min[i], space_max[i], num_samples[i]))
         shape[i] = len(dimensions[i])
 
-    samples = np.array(np.meshgrid(*dimensions)).T.reshape(-1, len(space_min))
+    samples = np.stack(np.meshgrid(*dimensions, indexing="ij"), axis=-1).reshape(-1, len(space_min))
     return samples, dimensions, shape
 
 
-- 
2.43.0


From 3a311d5187508d232982c5ff2fc33fa344c14e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 61/69] fix: density of the tree pyramid fails for points on
 the rounded limit of two leaves

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 528c910..78fd989 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -561,6 +561,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 if not np.any(inliers):
                     llikelihood[i] = 0
                 else:
+                    # Adjacent leaves can overlap by the rounding of their limits, use one leaf per sample
+                    inliers = np.flatnonzero(inliers)[:1]
                     llikelihood[i] = self.T.weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
             return np.log(llikelihood)
 
@@ -596,6 +598,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 if not np.any(inliers):
                     likelihood[i] = 0
                 else:
+                    # Adjacent leaves can overlap by the rounding of their limits, use one leaf per sample
+                    inliers = np.flatnonzero(inliers)[:1]
                     likelihood[i] = self.T.weights[inliers] / ((2 * self.T.radii[inliers]) ** self.T.ndims)
             return likelihood
 
-- 
2.43.0


From f51c6001ac500e8b6b0e83b91e1d1789127d2862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:03 +0000
Subject: [PATCH 62/69] fix: partitions cannot be drawn with current numpy and
 matplotlib

---
 ais_benchmarks/utils/plot_utils.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index e41dab0..eee5521 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -83,14 +83,14 @@ def plot_ellipsoids1D(axis, ellipsoids, points):
 def plot_tpyramid_area(axis, T, scale=1, label=None):
     rects = []
     for i, n in enumerate(T.leaves):
-        x = n.center - n.radius
+        x = np.asarray(n.center - n.radius).item()
 
         # heightw = n.weight * scale
 
         # area
-        height = n.weight * n.sampler.prob(n.center) * scale
-        color = cm.cool(height).flatten()
-        rect = patches.Rectangle([x, 0], n.radius*2, height.flatten(), linewidth=1, linestyle="--", alpha=0.4, color=color)
+        height = np.asarray(n.weight * n.sampler.prob(n.center) * scale).item()
+        color = cm.cool(height)
+        rect = patches.Rectangle([x, 0], np.asarray(n.radius*2).item(), height, linewidth=1, linestyle="--", alpha=0.4, color=color)
         rects.append(axis.add_patch(rect))
 
         # weights
@@ -104,10 +104,10 @@ def plot_tpyramid_area(axis, T, scale=1, label=None):
 def plot_tpyramid_weights(axis, T, scale=1, label=None):
     rects = []
     for i, n in enumerate(T.leaves):
-        x = n.center - n.radius
+        x = np.asarray(n.center - n.radius).item()
         # height = n.weight * n.sampler.prob(n.center) * scale
-        height = n.weight * scale
-        rect = patches.Rectangle([x,0], n.radius*2, height.flatten(), linewidth=0, linestyle="--", alpha=0.4, color="r")
+        height = np.asarray(n.weight * scale).item()
+        rect = patches.Rectangle([x,0], np.asarray(n.radius*2).item(), height, linewidth=0, linestyle="--", alpha=0.4, color="r")
         rects.append(axis.add_patch(rect))
     rect.set_label(label)
     return rects
@@ -118,7 +118,7 @@ def plot_tpyramid_volume(axis, T):
         min_coord = n.center - n.radius
         max_coord = n.center + n.radius
         z0 = 0
-        height = n.weight * n.sampler.prob(n.center)
+        height = np.asarray(n.weight * n.sampler.prob(n.center)).item()
         rect_prism(axis, [min_coord[0],max_coord[0]], [min_coord[1],max_coord[1]], [z0,height])
 
 
@@ -141,10 +141,10 @@ def plot_grid_volume(axis, samples, values, resolution):
 # Draw rectangular prism. Obtained from: https://codereview.stackexchange.com/questions/155585/plotting-a-rectangular-prism
 def rect_prism(ax, x_range, y_range, z_range):
     xx, yy = np.meshgrid(x_range, y_range)
-    ax.plot_wireframe(xx, yy, z_range[0], color="r")
-    ax.plot_surface(xx, yy, z_range[0], color="r", alpha=0.2)
-    ax.plot_wireframe(xx, yy, z_range[1], color="r")
-    ax.plot_surface(xx, yy, z_range[1], color="r", alpha=0.2)
+    ax.plot_wireframe(xx, yy, np.full(xx.shape, z_range[0]), color="r")
+    ax.plot_surface(xx, yy, np.full(xx.shape, z_range[0]), color="r", alpha=0.2)
+    ax.plot_wireframe(xx, yy, np.full(xx.shape, z_range[1]), color="r")
+    ax.plot_surface(xx, yy, np.full(xx.shape, z_range[1]), color="r", alpha=0.2)
 
 
     yy, zz = np.meshgrid(y_range, z_range)
-- 
2.43.0


From 2b073db95842ca7e38aafc1ca516212bf90af4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:03 +0000
Subject: [PATCH 63/69] fix: drawing domains thinner than the resolution fails

---
 ais_benchmarks/utils/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/utils/plot_utils.py b/ais_benchmarks/utils/plot_utils.py
index eee5521..de58f48 100644
--- a/ais_benchmarks/utils/plot_utils.py
+++ b/ais_benchmarks/utils/plot_utils.py
@@ -51,7 +51,8 @@ def plot_grid_sampled_pdfs(ax, dims, prob_p, shape=None, marginalize_axes=None,
     if marginalize_axes is not None:
         prob_p_margin = np.sum(prob_p_margin, axis=marginalize_axes)
 
-    if not (np.all(np.min(prob_p_margin) < np.max(prob_p_margin))):
+    # There are no contours without at least two points on each axis
+    if min(prob_p_margin.shape) < 2 or not (np.all(np.min(prob_p_margin) < np.max(prob_p_margin))):
         return []
 
     levels = np.arange(np.min(prob_p_margin), np.max(prob_p_margin), (np.max(prob_p_margin)-np.min(prob_p_margin)) / 15)
-- 
2.43.0


From d3db662c2d7b7aa6e5aad58294045add1a65b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 64/69] fix: CEllipsoid.fit checks the covariance it uses,
 inflated, for a positive determinant

---
 ais_benchmarks/sampling_methods/multi_nested.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dad5bfd..be12123 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -47,19 +47,19 @@ class CEllipsoid:
         assert len(points) >= len(loc)
 
         if len(points[0]) > 1:
-            scale = np.cov(points, rowvar=False)
+            scale = np.cov(points, rowvar=False) * inflate
             if np.linalg.det(scale) <= 0:
                 print("CEllipsoid: ERROR! Ellipsoid fit failed. Negative determinant. Identity covariance.", file=sys.stderr)
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
         else:
-            scale = np.std(points)
+            scale = np.std(points) * inflate
             if scale <= 0:
                 print("Ellipsoid fit failed. Negative or zero STD. Using 1.", file=sys.stderr)
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
 
-        ell = CEllipsoid(loc, scale*inflate)
+        ell = CEllipsoid(loc, scale)
         return ell
 
 
-- 
2.43.0


From 97088a5d22b200e38c41e68ffc603ffd5fc52afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 65/69] fix: NESS of multi-dimensional chains uses the mean of
 every dimension

---
 ais_benchmarks/sampling_methods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 31e5180..1d3abc7 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -45,7 +45,7 @@ class CSamplingMethod(metaclass=ABCMeta):
 
         variogram = lambda t: t_tensor([((x[t:] - x[:(n - t)]) ** 2).sum() / (n - t)])
 
-        mean = x.mean()
+        mean = x.mean(axis=0)
         dist = x - mean
 
         W = (dist ** 2).sum() / (n - 1)
-- 
2.43.0


From 84a55cb047c830e498d4ca6463b4b3515dbf8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 66/69] fix: volume of uniform distributions with integer radii
 does not overflow

---
 .../distributions/parametric/CMultivariateUniform.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index 54955e4..4b730dc 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -21,9 +21,9 @@ class CMultivariateUniform(CDistribution):
         self.dims = len(self._loc)
         # If there is only one value for the radius. All dimensions use the same radius.
         if len(self._scale) == 1:
-            self.volume = (self._scale * 2) ** self.dims
+            self.volume = (self._scale * 2.) ** self.dims
         elif len(self._scale) == self.dims:
-            self.volume = np.prod([self._scale * 2])
+            self.volume = np.prod([self._scale * 2.])
         else:
             raise ValueError("Radius dimensionality not valid. It has to be 1 dim (all dimensions will use the same \
                              radius) or N dim, where N is the dimensionality")
-- 
2.43.0


From ea3bacfb682cbd0b35131a03869f2b241f957d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 67/69] fix: one-dimensional ellipsoids take the variance, not
 the deviation, of their points as covariance

---
 ais_benchmarks/sampling_methods/multi_nested.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index be12123..fcaa379 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -53,9 +53,9 @@ class CEllipsoid:
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
         else:
-            scale = np.std(points) * inflate
+            scale = np.var(points) * inflate
             if scale <= 0:
-                print("Ellipsoid fit failed. Negative or zero STD. Using 1.", file=sys.stderr)
+                print("Ellipsoid fit failed. Negative or zero variance. Using 1.", file=sys.stderr)
                 ell = CEllipsoid(loc, np.diag(np.ones(len(loc)) * inflate))
                 return ell
 
-- 
2.43.0


From f4f78dd23ef344a2b2664b68e8bb81e150dde67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 68/69] fix: drawing a noisy function leaves it conditioned as
 it was

---
 ais_benchmarks/distributions/derived/CGenericNoisyFunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py b/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
index 135cdc4..4906749 100644
--- a/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
+++ b/ais_benchmarks/distributions/derived/CGenericNoisyFunction.py
@@ -48,6 +48,7 @@ class GenericNoisyFunction(CDistribution):
         # TODO: Check dimensions and make plot for 2d as well
 
         z = np.linspace(self.support_vals[0], self.support_vals[1], n_points).reshape(n_points, 1)
+        conditioned = self.x
         self.condition(z)
         samples = self.sample()
         axis.scatter(z, samples, c=color, label=label)
@@ -56,6 +57,7 @@ class GenericNoisyFunction(CDistribution):
         for _ in range(200):
             x = self.sample()
             xs = np.dstack((xs, x))
+        self.condition(conditioned)     # The drawing leaves the model conditioned as it was
 
         means = np.mean(xs, axis=2).flatten()
         stdevs = np.std(xs, axis=2).flatten()
-- 
2.43.0


From 24fe14a66b711f7bfb4e2eac7fc421a613b4b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:34 +0000
Subject: [PATCH 69/69] fix: posterior of derived models can be drawn, without
 changing the parameters of its generative model

---
 .../distributions/derived/CABCDistribution.py | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ais_benchmarks/distributions/derived/CABCDistribution.py b/ais_benchmarks/distributions/derived/CABCDistribution.py
index b6b0fe7..6aabadf 100644
--- a/ais_benchmarks/distributions/derived/CABCDistribution.py
+++ b/ais_benchmarks/distributions/derived/CABCDistribution.py
@@ -118,24 +118,20 @@ class ABCDistribution(CDistribution):
 
     def draw(self, ax, n_points=100, label=None, color=None):
         # TODO: Check dimensions and make plot for 2d as well
-        z = np.linspace(self.support()[0], self.support()[1], n_points)
+        z = np.linspace(self.support()[0], self.support()[1], n_points).reshape(n_points, 1)
         # z = self.prior_d.sample(n_points).flatten()
-        self.gen_d.set_params(z)
+        self.gen_d.condition(z)
 
         # For each point in the latent space model, we need to sample the posterior
-        xs = self.gen_d.sample()
-        self.sensor_d.condition(xs)
-        o_hats = self.sensor_d.sample()
-        for _ in range(n_points-1):
-            x = self.gen_d.sample()
-            xs = np.vstack((xs, x))
-            self.sensor_d.condition(x)
-            o_hat = self.sensor_d.sample()
-            o_hats = np.vstack((o_hats, o_hat))
+        o_hats = []
+        for _ in range(n_points):
+            self.sensor_d.condition(self.gen_d.sample())
+            o_hats.append(self.sensor_d.sample().flatten())
 
         means = np.mean(o_hats, axis=0)
         stdevs = np.std(o_hats, axis=0)
-        ax.fill_between(z, means - 3 * stdevs, means + 3 * stdevs, label=label + " $3\sigma$", color=color, alpha=0.5)
+        ax.fill_between(z.flatten(), means - 3 * stdevs, means + 3 * stdevs,
+                        label=None if label is None else label + " $3\sigma$", color=color, alpha=0.5)
         ax.plot(z, means, label=label, c=color)
 
     def marginal(self, dim):
-- 
2.43.0

