From 74c920c2b6cdc4b8fe638d9eb627dcf2978b8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 01/18] fix: reject covariance and dispersion matrices which
 are not symmetric

---
 src/bmi/samplers/_splitmultinormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 1465923..70b4d8d 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -10,7 +10,7 @@ from bmi.samplers.base import BaseSampler, cast_to_rng
 
 def _can_be_covariance(mat):
     """Checks if `mat` can be a covariance matrix (positive-definite and symmetric)."""
-    if np.all(mat != mat.transpose()):
+    if not np.allclose(mat, mat.transpose()):
         raise ValueError("Covariance matrix is not symmetric.")
 
     if not np.all(np.linalg.eigvals(mat) > 0):
-- 
2.43.0


From 6e234980f1b624e35897c5030843468d46d19c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 02/18] fix: ZeroInflatedPoissonizationSampler did not define
 its dimensions

---
 src/bmi/samplers/_discrete_continuous.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bmi/samplers/_discrete_continuous.py b/src/bmi/samplers/_discrete_continuous.py
index 64bc246..87a154a 100644
--- a/src/bmi/samplers/_discrete_continuous.py
+++ b/src/bmi/samplers/_discrete_continuous.py
@@ -134,6 +134,7 @@ class ZeroInflatedPoissonizationSampler(BaseSampler):
         """
         if p < 0 or p >= 1:
             raise ValueError(f"p must be in [0, 1), was {p}.")
+        super().__init__(dim_x=1, dim_y=1)
         self._p = float(p)
 
         if use_discrete_y:
-- 
2.43.0


From 098efdb9c8b26a443374f1cf342b5a65a76df8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 03/18] fix: mutual information of Student-t overflowed to NaN
 for large df or dimension

---
 src/bmi/samplers/_split_student_t.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index acb8ff1..dcc538f 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 import numpy as np
 from numpy.typing import ArrayLike
 from scipy import stats
-from scipy.special import digamma, gamma
+from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
 from bmi.samplers.base import BaseSampler
@@ -21,7 +21,7 @@ def _differential_entropy(k: int, dof: int) -> float:
     half_sum = 0.5 * (dof + k)
     digamma_term = half_sum * (digamma(half_sum) - digamma(0.5 * dof))
 
-    log_term = -np.log(gamma(half_sum)) + np.log(gamma(0.5 * dof)) + 0.5 * k * np.log(dof * np.pi)
+    log_term = -gammaln(half_sum) + gammaln(0.5 * dof) + 0.5 * k * np.log(dof * np.pi)
 
     return log_term + digamma_term
 
@@ -152,7 +152,8 @@ class SplitStudentT(BaseSampler):
               on the means or the dispersion
         """
 
-        return self.mi_normal() + self.mi_correction()
+        # Both terms are non-negative, up to the rounding errors (which matter for large `df`)
+        return self.mi_normal() + max(0.0, self.mi_correction())
 
     @staticmethod
     def mi_correction_function(df: int, dim_x: int, dim_y: int) -> float:
-- 
2.43.0


From 4e10a773e8e19128e1ccfc81f5aa51982f435615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 04/18] fix: SplitStudentT with df=np.inf (documented as
 Gaussian) reported NaN

---
 src/bmi/samplers/_split_student_t.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index dcc538f..ad75275 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -124,6 +124,8 @@ class SplitStudentT(BaseSampler):
             raise ValueError(
                 f"For degrees of freedom {self.df} <= 2 the covariance is not defined."
             )
+        elif np.isinf(self.df):  # Gaussian
+            return self._dispersion
         else:
             return self.df * self._dispersion / (self.df - 2.0)
 
@@ -161,6 +163,8 @@ class SplitStudentT(BaseSampler):
         decomposes as the sum of mutual information of Gaussian variables
         and the correction term.
         """
+        if np.isinf(df):  # Gaussian, no correction is needed
+            return 0.0
         h_x = _differential_entropy(k=dim_x, dof=df)
         h_y = _differential_entropy(k=dim_y, dof=df)
         h_xy = _differential_entropy(k=dim_x + dim_y, dof=df)
-- 
2.43.0


From 3551227b7530a07309990b6695bf57ed6fda097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 05/18] fix: SplitStudentT could not draw a sample consisting
 of a single point

---
 src/bmi/samplers/_split_student_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index ad75275..10a4c6c 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -98,7 +98,7 @@ class SplitStudentT(BaseSampler):
             df=self._degrees_of_freedom,
             size=n_points,
             random_state=rng,
-        )
+        ).reshape(n_points, -1)  # SciPy drops the first axis if n_points is 1
         assert xy.shape == (
             n_points,
             self.dim_total,
-- 
2.43.0


From 412b5d2e0168ac109083f169de84f68413435d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 06/18] fix: SplitStudentT.sample did not accept JAX keys

---
 src/bmi/samplers/_split_student_t.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_split_student_t.py b/src/bmi/samplers/_split_student_t.py
index 10a4c6c..5cf7f18 100644
--- a/src/bmi/samplers/_split_student_t.py
+++ b/src/bmi/samplers/_split_student_t.py
@@ -1,11 +1,13 @@
-from typing import Optional
+from typing import Optional, Union
 
+import jax
 import numpy as np
 from numpy.typing import ArrayLike
 from scipy import stats
 from scipy.special import digamma, gammaln
 
 import bmi.samplers._splitmultinormal as spl
+from bmi.interface import KeyArray
 from bmi.samplers.base import BaseSampler
 
 
@@ -86,12 +88,16 @@ class SplitStudentT(BaseSampler):
 
         self._dispersion = np.asarray(dispersion)
 
-    def sample(self, n_points: int, rng: int) -> tuple[np.ndarray, np.ndarray]:
+    def sample(self, n_points: int, rng: Union[KeyArray, int]) -> tuple[np.ndarray, np.ndarray]:
         """Sampling from multivariate Student distribution.
 
         Note:
             This function is based on SciPy's sampling.
         """
+        # SciPy does not accept JAX keys
+        if isinstance(rng, jax.Array):
+            rng = int(jax.random.randint(rng, shape=(), minval=0, maxval=2**31 - 1))
+
         xy = stats.multivariate_t.rvs(
             loc=self._mean,
             shape=self._dispersion,
-- 
2.43.0


From 6817ad7c61e43c4834a4b71de6b0ba4e2571d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 07/18] fix: KSG estimator gave wrong results when a
 neighborhood was repeated

---
 src/bmi/estimators/ksg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/ksg.py b/src/bmi/estimators/ksg.py
index 43c7250..ac1a5c1 100644
--- a/src/bmi/estimators/ksg.py
+++ b/src/bmi/estimators/ksg.py
@@ -106,7 +106,7 @@ class KSGEnsembleFirstEstimator(IMutualInformationPointEstimator):
             # Shape is also (batch_size, n_points)
             closest_points = np.argsort(distances_xy, axis=-1)
 
-            for k in self._params.neighborhoods:
+            for k in digammas_dict:
                 # Note that the points are 0-indexed and that the "0th neighbor"
                 # is the point itself (as distance(x, x) = 0 is the smallest possible)
                 # Hence, the kth neighbour is at index k
-- 
2.43.0


From 81d103c6747baf6c05f0011f4535d0da296cf5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 08/18] fix: GMMEstimator ignored the alpha parameter

---
 src/bmi/estimators/external/gmm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/gmm.py b/src/bmi/estimators/external/gmm.py
index 3760a7f..c98fb16 100644
--- a/src/bmi/estimators/external/gmm.py
+++ b/src/bmi/estimators/external/gmm.py
@@ -189,7 +189,9 @@ class GMMEstimator(IMutualInformationPointEstimator):
             num_samples=self._params.mcmc_num_samples,
             num_warmup=self._params.mcmc_num_warmup,
         )
-        mcmc.run(subkey, data=space.xy, K=self._params.n_components)
+        mcmc.run(
+            subkey, data=space.xy, K=self._params.n_components, alpha=self._params.alpha
+        )
 
         self._mcmc = mcmc
         self._dim_x = space.dim_x
-- 
2.43.0


From ae11b2a89871cee365abd8a85230632eb37ec045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 09/18] fix: RBNSLEstimator rejected the documented value
 proc=0

---
 src/bmi/estimators/external/r_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/r_estimators.py b/src/bmi/estimators/external/r_estimators.py
index 6c56a53..80f9dac 100644
--- a/src/bmi/estimators/external/r_estimators.py
+++ b/src/bmi/estimators/external/r_estimators.py
@@ -89,7 +89,7 @@ class RLNNEstimator(ExternalEstimator):
 
 
 class BNSLParams(BaseModel):
-    proc: pydantic.PositiveInt
+    proc: pydantic.NonNegativeInt
 
 
 class RBNSLEstimator(ExternalEstimator):
-- 
2.43.0


From 79e96fe5a7d19640facd20bdc0668bcbaebcd56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 10/18] fix: mutual information of Gaussians was wrong when the
 determinant under- or overflows

---
 src/bmi/samplers/_splitmultinormal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bmi/samplers/_splitmultinormal.py b/src/bmi/samplers/_splitmultinormal.py
index 70b4d8d..c0d5eb7 100644
--- a/src/bmi/samplers/_splitmultinormal.py
+++ b/src/bmi/samplers/_splitmultinormal.py
@@ -30,8 +30,9 @@ class _Multinormal:
         self._mean = np.asarray(mean)
         self._covariance = np.asarray(covariance)
 
-        # The determinant of the covariance, used to calculate entropy
-        self._det_covariance: float = np.linalg.det(self._covariance)
+        # The log-determinant of the covariance, used to calculate entropy
+        # (the determinant itself may underflow or overflow in high dimensions)
+        self._logdet_covariance: float = np.linalg.slogdet(self._covariance)[1]
 
         # Dimensionality of the space
         self._dim = self._mean.shape[0]
@@ -67,7 +68,7 @@ class _Multinormal:
 
     def entropy(self) -> float:
         """Entropy in nats."""
-        return 0.5 * (np.log(self._det_covariance) + self.dim * (1 + np.log(2 * np.pi)))
+        return 0.5 * (self._logdet_covariance + self.dim * (1 + np.log(2 * np.pi)))
 
 
 class SplitMultinormal(BaseSampler):
-- 
2.43.0


From ff507b4b896727340af41b23e7357122e6b53385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 11/18] fix: MINE gradient smoothing used alpha the wrong way
 around (values close to 1 should smooth less)

---
 src/bmi/estimators/neural/_mine_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmi/estimators/neural/_mine_estimator.py b/src/bmi/estimators/neural/_mine_estimator.py
index b735a50..43a6a19 100644
--- a/src/bmi/estimators/neural/_mine_estimator.py
+++ b/src/bmi/estimators/neural/_mine_estimator.py
@@ -86,8 +86,8 @@ def _mine_value_neg_grad_log_denom(
     # compute denominator (with exponential smoothing)
     log_denom_batch = lme_T_u
     log_denom = jnp.logaddexp(
-        jnp.log(alpha) + log_denom_prev,
-        jnp.log(1.0 - alpha) + log_denom_batch,
+        jnp.log(1.0 - alpha) + log_denom_prev,
+        jnp.log(alpha) + log_denom_batch,
     )
     correction = jnp.exp(log_denom_batch - log_denom)
 
-- 
2.43.0


From b0b7c4b74d99dd44c50200990ca9e1a407d0107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:00 +0000
Subject: [PATCH 12/18] fix: bend-and-mix normal and Student distributions did
 not accept integer means

---
 src/bmi/samplers/_tfp/_normal.py  | 2 +-
 src/bmi/samplers/_tfp/_student.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bmi/samplers/_tfp/_normal.py b/src/bmi/samplers/_tfp/_normal.py
index a41bfef..4475a57 100644
--- a/src/bmi/samplers/_tfp/_normal.py
+++ b/src/bmi/samplers/_tfp/_normal.py
@@ -44,7 +44,7 @@ class MultivariateNormalDistribution(JointDistribution):
         # The default mean vector is zero
         if mean is None:
             mean = jnp.zeros(dim_x + dim_y)
-        mean = jnp.array(mean)
+        mean = jnp.array(mean, dtype=float)
         covariance = jnp.array(covariance)
 
         # Calculate MI and implicitly validate the shapes
diff --git a/src/bmi/samplers/_tfp/_student.py b/src/bmi/samplers/_tfp/_student.py
index 3117253..3c14de7 100644
--- a/src/bmi/samplers/_tfp/_student.py
+++ b/src/bmi/samplers/_tfp/_student.py
@@ -63,7 +63,7 @@ class MultivariateStudentDistribution(JointDistribution):
         # The default mean vector is zero
         if mean is None:
             mean = jnp.zeros(dim_x + dim_y)
-        mean = jnp.array(mean)
+        mean = jnp.array(mean, dtype=float)
         dispersion = jnp.array(dispersion)
 
         # Calculate MI and implicitly validate the shapes
-- 
2.43.0


From 48bd150e1aabecda99d1f3a18d3fe30ad1193eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 13/18] fix: RBNSLEstimator refuses proc values the R script
 does not accept

---
 src/bmi/estimators/external/r_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi/estimators/external/r_estimators.py b/src/bmi/estimators/external/r_estimators.py
index 80f9dac..b5506cd 100644
--- a/src/bmi/estimators/external/r_estimators.py
+++ b/src/bmi/estimators/external/r_estimators.py
@@ -89,7 +89,7 @@ class RLNNEstimator(ExternalEstimator):
 
 
 class BNSLParams(BaseModel):
-    proc: pydantic.NonNegativeInt
+    proc: Literal[0, 1, 2, 10]
 
 
 class RBNSLEstimator(ExternalEstimator):
-- 
2.43.0


From 06a3f4a25cc130fa6730f9a8a686c332ef89aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 14/18] fix: a sampler's Monte Carlo mutual information is
 never negative

---
 src/bmi/samplers/_tfp/_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi/samplers/_tfp/_wrapper.py b/src/bmi/samplers/_tfp/_wrapper.py
index 61b6d64..37434f8 100644
--- a/src/bmi/samplers/_tfp/_wrapper.py
+++ b/src/bmi/samplers/_tfp/_wrapper.py
@@ -49,7 +49,9 @@ class BMMSampler(BaseSampler):
             return self._mi
         else:
             rng = cast_to_rng(self._mi_estimate_seed)
-            self._mi, self._mi_stderr = monte_carlo_mi_estimate(
+            estimate, self._mi_stderr = monte_carlo_mi_estimate(
                 key=rng, dist=self._dist, n=self._mi_estimate_sample
             )
+            # Mutual information is non-negative, although the estimate may be below zero.
+            self._mi = max(estimate, 0.0)
             return self._mi
-- 
2.43.0


From f497580e79124e62f3ad140a78ee322b4520069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:47 +0000
Subject: [PATCH 15/18] fix: table of mutual information estimates fails when a
 task has no results at the largest sample size

make_benchmark_table keeps the tasks with results (all runs of a task may be missing
or be failed neural runs), while the row of true values listed all tasks.
---
 workflows/projects/Beyond_Normal/_common_figure_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/workflows/projects/Beyond_Normal/_common_figure_utils.py b/workflows/projects/Beyond_Normal/_common_figure_utils.py
index d4476e6..dd76b3a 100644
--- a/workflows/projects/Beyond_Normal/_common_figure_utils.py
+++ b/workflows/projects/Beyond_Normal/_common_figure_utils.py
@@ -242,7 +242,10 @@ def plot_benchmark_mi_estimate(ax, results, estimators, tasks, estimator_names={
     )
 
     table_estimate = make_benchmark_table(data, "mi_estimate", estimators, tasks, estimator_names)
-    table_estimate["True MI"] = [task.mutual_information for task in tasks.values()]
+    present_tasks = set(data["task_id"])  # as in make_benchmark_table
+    table_estimate["True MI"] = [
+        task.mutual_information for task_id, task in tasks.items() if task_id in present_tasks
+    ]
 
     table_log_rel_err = make_benchmark_table(
         data, "log_relative_error", estimators, tasks, estimator_names
-- 
2.43.0


From d33fadd552029f745a814a89044339b9b3d647ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:04 +0000
Subject: [PATCH 16/18] fix: plots of pointwise mutual information pass the
 sample size and the key in the wrong order

---
 workflows/projects/Mixtures/pmi_plot_1v1.smk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workflows/projects/Mixtures/pmi_plot_1v1.smk b/workflows/projects/Mixtures/pmi_plot_1v1.smk
index e4ddf58..b21ab88 100644
--- a/workflows/projects/Mixtures/pmi_plot_1v1.smk
+++ b/workflows/projects/Mixtures/pmi_plot_1v1.smk
@@ -68,7 +68,7 @@ rule plot_pmi:
         ax.set_ylabel('y')
 
         ax = axs[0, 1]
-        x, y = dist.sample(key, 10_000)
+        x, y = dist.sample(10_000, key)
         ax.scatter(x.ravel(), y.ravel(), s=1, alpha=0.5, c="black", marker=".", rasterized=True)
         ax.set_title(f'Joint distribution')
         ax.set_xlabel('x')
-- 
2.43.0


From 1510f1f9fd4b6c356f901f4be3ee1f76028b1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:04 +0000
Subject: [PATCH 17/18] fix: figure of distinct profiles passes the sample size
 and the key in the wrong order

---
 workflows/projects/Mixtures/distinct_profiles.smk | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workflows/projects/Mixtures/distinct_profiles.smk b/workflows/projects/Mixtures/distinct_profiles.smk
index 351e5d7..248eec9 100644
--- a/workflows/projects/Mixtures/distinct_profiles.smk
+++ b/workflows/projects/Mixtures/distinct_profiles.smk
@@ -40,7 +40,7 @@ rule sample_normal:
     output: "normal.npz"
     run:
         key = jax.random.PRNGKey(0)
-        x, y = bivariate_normal.sample(key, n_samples)
+        x, y = bivariate_normal.sample(n_samples, key)
         pmi_profile = bivariate_normal.pmi(x, y)
 
         np.savez(
@@ -103,7 +103,7 @@ rule sample_u_shape:
         )
 
         key = jax.random.PRNGKey(0)
-        x, y = dist.sample(key, n_samples)
+        x, y = dist.sample(n_samples, key)
         pmi_profile = dist.pmi(x, y)
         np.savez(
             str(output),
-- 
2.43.0


From e5fc7dabbc02333f700c1cadc38560164e060f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:04 +0000
Subject: [PATCH 18/18] fix: table of version 2 results mixes all sample sizes

---
 workflows/projects/Mixtures/v2_results_table.smk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workflows/projects/Mixtures/v2_results_table.smk b/workflows/projects/Mixtures/v2_results_table.smk
index f5291be..b9a0557 100644
--- a/workflows/projects/Mixtures/v2_results_table.smk
+++ b/workflows/projects/Mixtures/v2_results_table.smk
@@ -39,7 +39,7 @@ def create_benchmark_table(results, n_samples):
         n_samples = results["n_samples"].max()
 
     data = results[results["n_samples"] == n_samples]
-    data = results[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
+    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
 
     # mean over seeds
     data_mean = (
-- 
2.43.0

