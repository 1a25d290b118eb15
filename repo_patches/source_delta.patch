From 7903e17b857fed17c501ea299fce7e9edf373f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:20 +0000
Subject: [PATCH 01/29] fix: do not modify the caller's arrays in
 mu_var_max_to_alpha_beta_max

---
 gwpopulation/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/conversions.py b/gwpopulation/conversions.py
index f2afbcf..f4ecf25 100644
--- a/gwpopulation/conversions.py
+++ b/gwpopulation/conversions.py
@@ -128,8 +128,8 @@ def mu_var_max_to_alpha_beta_max(mu, var, amax):
     amax: float
         The maximum spin (:math:`a_\max`)
     """
-    mu /= amax
-    var /= amax**2
+    mu = mu / amax
+    var = var / amax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta, amax
-- 
2.43.0


From 828a620868b7e58254d36e27a2f99826eff05338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:20 +0000
Subject: [PATCH 02/29] fix: use the determinant of the covariance matrix in
 unnormalized_2d_gaussian

det(Sigma) = sigma_x^2 sigma_y^2 (1 - rho^2), not (1 - rho).
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index b8a909a..790dfd4 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -217,7 +217,7 @@ def unnormalized_2d_gaussian(xx, yy, mu_x, mu_y, sigma_x, sigma_y, covariance):
     prob: array-like
         The unnormalized probability distribution (:math:`p(x)`)
     """
-    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance)
+    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance**2)
     residual_x = (mu_x - xx) * sigma_y
     residual_y = (mu_y - yy) * sigma_x
     prob = xp.exp(
-- 
2.43.0


From d08639f2576f4eb02e54f87a8b81618a23417a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:20 +0000
Subject: [PATCH 03/29] fix: beta_dist at the edges of its support for unit
 shape parameters

0 * log(0) gave NaN, which was replaced by zero, so e.g. the uniform
distribution (alpha=beta=1) vanished at x=0 and x=scale.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 790dfd4..ef5d781 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -85,7 +85,7 @@ def beta_dist(xx, alpha, beta, scale=1):
         The distribution evaluated at `xx`
 
     """
-    ln_beta = (alpha - 1) * xp.log(xx) + (beta - 1) * xp.log(scale - xx)
+    ln_beta = scs.xlogy(alpha - 1, xx) + scs.xlogy(beta - 1, scale - xx)
     ln_beta -= scs.betaln(alpha, beta)
     ln_beta -= (alpha + beta - 1) * xp.log(scale)
     prob = xp.exp(ln_beta)
-- 
2.43.0


From 2e4e54b148f14b49282f3065b2c9d0ccb3dc25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:20 +0000
Subject: [PATCH 04/29] fix: GridVT no longer removes 'vt' from the caller's
 dictionary

---
 gwpopulation/vt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 1e17d80..2b72a12 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -85,6 +85,7 @@ class GridVT(_BaseVT):
     """
 
     def __init__(self, model, data):
+        data = dict(data)
         self.vts = xp.asarray(data.pop("vt"))
         super(GridVT, self).__init__(model=model, data=data)
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
-- 
2.43.0


From 1e022cf43d34e0ca82c9dedcde42085aefb1a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:58 +0000
Subject: [PATCH 05/29] fix: powerlaw accepts a spectral index of one

The guard rejected alpha=1, for which the density is well defined (the only
special case, alpha=-1, is handled explicitly).
---
 gwpopulation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index ef5d781..1384232 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -3,7 +3,7 @@ Helper functions for probability distributions and backend switching.
 """
 
 from numbers import Number
-from operator import ge, gt, ne
+from operator import ge, gt
 
 import numpy as np
 from scipy import special as scs
@@ -94,7 +94,7 @@ def beta_dist(xx, alpha, beta, scale=1):
     return prob
 
 
-@apply_conditions(dict(low=(ge, 0), alpha=(ne, 1)))
+@apply_conditions(dict(low=(ge, 0)))
 def powerlaw(xx, alpha, high, low):
     r"""
     Power-law probability
-- 
2.43.0


From 32dba15476b61a08fb345a0d0724c1ec7ee4e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:58 +0000
Subject: [PATCH 06/29] fix: powerlaw accepts a lower edge of zero

low=0 is allowed by the guard but Python floats raised ZeroDivisionError in
the branch only used for alpha=-1.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 1384232..04f4e42 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -121,7 +121,7 @@ def powerlaw(xx, alpha, high, low):
     """
     norm = xp.where(
         xp.array(alpha) == -1,
-        1 / xp.log(high / low),
+        1 / xp.log(high / xp.array(low)),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob = xp.power(xx, alpha)
-- 
2.43.0


From c86016d194316293f92a669f4c9fd8718a9d973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:58 +0000
Subject: [PATCH 07/29] fix: powerlaw is zero, not NaN, at non-positive values
 outside its support

---
 gwpopulation/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index 04f4e42..d52abe0 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -124,9 +124,10 @@ def powerlaw(xx, alpha, high, low):
         1 / xp.log(high / xp.array(low)),
         (1 + alpha) / xp.array(high ** (1 + alpha) - low ** (1 + alpha)),
     )
-    prob = xp.power(xx, alpha)
+    in_bounds = (xx <= high) & (xx >= low)
+    prob = xp.power(xp.where(in_bounds, xx, high), alpha)
     prob *= norm
-    prob *= (xx <= high) & (xx >= low)
+    prob *= in_bounds
     return prob
 
 
-- 
2.43.0


From a83631b78b9b58bbb9772d0101c23d58a8a74405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 08/29] fix: detector_frame_to_source_frame no longer depends
 on the key order

A detector-frame key listed before 'redshift' raised KeyError (or used a
different redshift when a luminosity distance was also given).
---
 gwpopulation/experimental/cosmo_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 14b346a..2e7b5fc 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -107,6 +107,9 @@ class CosmoMixin:
         else:
             jacobian = xp.ones(data["redshift"].shape)
 
+        if "redshift" in data:
+            samples["redshift"] = data["redshift"]
+
         for key in list(data.keys()):
             if key.endswith("_detector"):
                 samples[key[:-9]] = data[key] / (1 + samples["redshift"])
-- 
2.43.0


From bf3d35992d8259d7a4528a8210a163c865e7ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 09/29] fix: numpyro predictive resampling uses the weights of
 the requested event

The weights have shape (events, samples).
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 9c55d93..d001cbd 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -128,7 +128,7 @@ def posterior_predictive_resample(
         The keys to fit. Default is :code:`None`, which fits all keys in :code:data.
     """
     if event is not None:
-        weights = weights[:, event]
+        weights = weights[event]
     weights /= jnp.sum(weights)
     n_points = int(weights.shape[0])
     idx = jax.random.choice(
-- 
2.43.0


From b1eb2420b0e1bb228b5eed5621d5075d9c1d0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 10/29] fix: numpyro rate site has rate parameter VT

numpyro's Gamma takes (concentration, rate); p(R) = Gamma(N, scale=1/VT), as in
HyperparameterLikelihood.generate_rate_posterior_sample.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index d001cbd..ebce2ec 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -75,7 +75,7 @@ def gwpopulation_likelihood_model(
 
         total_hypervolume = selector.surveyed_hypervolume(parameters)
         vt = total_hypervolume * efficiency
-        _ = sample("rate", Gamma(likelihood.n_posteriors, 1 / vt))
+        _ = sample("rate", Gamma(likelihood.n_posteriors, vt))
         if predictive_resample:
             posterior_predictive_resample(
                 selector.data,
-- 
2.43.0


From 5795392c37bbac539dec88ec359ada65046b2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 11/29] fix: compare the variance with the squared maximum
 uncertainty

maximum_uncertainty is documented as the maximum uncertainty, and its setter
already computes the corresponding variance, which was not used.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 7451ef8..8ba8cc0 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self.maximum_uncertainty < variance), nan=0)
+        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From 44af85ab5f04e0b86204800b3a77efbb679c2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 12/29] fix: extra statistics report the variance of the
 likelihood being used

RateLikelihood has a different selection variance than
HyperparameterLikelihood, but the latter was always reported.
---
 gwpopulation/hyperpe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 8ba8cc0..9b1e1ee 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -266,8 +266,8 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance /= selection**2
-        selection_variance = variance * self.n_posteriors**2
+        variance = variance / selection**2
+        _, selection_variance = self._get_selection_factor(parameters=parameters)
         sample["selection"] = selection
         sample["selection_variance"] = variance
         total_variance += selection_variance
-- 
2.43.0


From 08f863fcd21537786cbfaa6aa7e32f5808a30d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 13/29] fix: keep the configuration of a spline model when
 inferring the number of nodes

Calling __init__ with only the number of nodes reset the range, kind and
regularization of the model (and failed for the base class).
---
 gwpopulation/models/interped.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 9a93929..8bd7cbb 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -255,4 +255,13 @@ class InterpolatedNoBaseModelIdentical:
             print(
                 f"Different number of nodes! Using {nodes} nodes instead of {self.nodes}"
             )
-            self.__init__(nodes=nodes)
+            InterpolatedNoBaseModelIdentical.__init__(
+                self,
+                parameters=self.parameters,
+                minimum=self.min,
+                maximum=self.max,
+                nodes=nodes,
+                kind=self.kind,
+                log_nodes=self.log_nodes,
+                regularize=self.regularize,
+            )
-- 
2.43.0


From 65beda3c05a48eabc906ae52febe43327b5b020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 14/29] fix: normalise InterpolatedPowerlaw over the range
 where it is non-zero

The density is cut at the first and last spline node but the normalisation
was not.
---
 gwpopulation/models/mass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 826d827..7e64c5a 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -936,10 +936,12 @@ class InterpolatedPowerlaw(
         )
         p_m *= self.p_x_unnormed(dataset, "mass_1", m_splines, f_splines, **kwargs)
 
-        norm = self.norm_p_m1(delta_m=delta_m, f_splines=f_splines, **kwargs)
+        norm = self.norm_p_m1(
+            delta_m=delta_m, f_splines=f_splines, m_splines=m_splines, **kwargs
+        )
         return p_m / norm
 
-    def norm_p_m1(self, delta_m, f_splines=None, **kwargs):
+    def norm_p_m1(self, delta_m, f_splines=None, m_splines=None, **kwargs):
         mmin = kwargs.get("mmin", self.mmin)
         p_m = self.__class__.primary_model(
             self.m1s, **{key: kwargs[key] for key in ["alpha", "mmin", "mmax"]}
@@ -948,5 +950,7 @@ class InterpolatedPowerlaw(
             delta_m > 0
         )
         p_m *= xp.exp(self._norm_spline(y=f_splines))
+        if m_splines is not None:
+            p_m *= (self.m1s >= m_splines[0]) & (self.m1s <= m_splines[-1])
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From ad1d2126014aecc8623ec374c9b6865c5af510fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 15/29] fix: update every function registered by a module
 through gwpopulation.other

Only the last function registered for a module was kept.
---
 gwpopulation/backend.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 3dd127a..1379ab8 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -59,7 +59,7 @@ def modules_to_update():
         (:code:`scipy.special`).
     others: dict
         Dictionary of all modules that need to be updated with arbitrary functions
-        from :code:`scipy`.
+        from :code:`scipy` and the list of those functions.
     """
     import sys
 
@@ -72,7 +72,9 @@ def modules_to_update():
     other_entries = [
         module.value.split(":") for module in entry_points(group="gwpopulation.other")
     ]
-    others = {key: value for key, value in other_entries}
+    others = dict()
+    for key, value in other_entries:
+        others.setdefault(key, []).append(value)
     return all_with_xp, all_with_scs, others
 
 
@@ -148,9 +150,10 @@ def set_backend(backend="numpy"):
         setattr(import_module(module), "xp", xp)
     for module in all_with_scs:
         setattr(import_module(module), "scs", scs)
-    for module, func in others.items():
-        setattr(
-            import_module(module),
-            func.split(".")[-1],
-            _load_arbitrary(func, backend),
-        )
+    for module, funcs in others.items():
+        for func in funcs:
+            setattr(
+                import_module(module),
+                func.split(".")[-1],
+                _load_arbitrary(func, backend),
+            )
-- 
2.43.0


From faa3f95f10761ddbda7f7a8c25d2e523964ec6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:21 +0000
Subject: [PATCH 16/29] fix: set_backend only records the backend once every
 module is updated

When a registered module could not be imported, some modules kept the old
backend and repeating the request was a no-op.
---
 gwpopulation/backend.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 1379ab8..cbef344 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -144,16 +144,15 @@ def set_backend(backend="numpy"):
 
     xp, scs = _load_numpy_and_scipy(backend)
 
-    __backend__ = backend
     all_with_xp, all_with_scs, others = modules_to_update()
-    for module in all_with_xp:
-        setattr(import_module(module), "xp", xp)
-    for module in all_with_scs:
-        setattr(import_module(module), "scs", scs)
+    updates = [(import_module(module), "xp", xp) for module in all_with_xp]
+    updates += [(import_module(module), "scs", scs) for module in all_with_scs]
     for module, funcs in others.items():
         for func in funcs:
-            setattr(
-                import_module(module),
-                func.split(".")[-1],
-                _load_arbitrary(func, backend),
+            name = func.split(".")[-1]
+            updates.append(
+                (import_module(module), name, _load_arbitrary(func, backend))
             )
+    for module, name, value in updates:
+        setattr(module, name, value)
+    __backend__ = backend
-- 
2.43.0


From 02bac3881e57118a744bbb2137f787866ddd7e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:57 +0000
Subject: [PATCH 17/29] fix: do not reuse the cached mass-ratio normalisation
 for other data

The interpolant was kept for the first dataset of a given shape, so evaluating
one instance on a second dataset (or on source-frame masses that change with
the cosmology in a CosmoModel) silently used the wrong normalisation.
---
 gwpopulation/models/mass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 7e64c5a..fd4a5d5 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -621,7 +621,7 @@ class BaseSmoothedMassDistribution:
         )
 
         try:
-            if self.cache:
+            if self.cache and self._cached_masses is dataset["mass_1"]:
                 p_q /= self.norm_p_q(beta=beta, mmin=mmin, delta_m=delta_m)
             else:
                 self._cache_q_norms(dataset["mass_1"])
@@ -652,6 +652,7 @@ class BaseSmoothedMassDistribution:
         """
         from .interped import _setup_interpolant
 
+        self._cached_masses = masses
         self._q_interpolant = _setup_interpolant(
             self.m1s, masses, kind="linear", backend=xp
         )
-- 
2.43.0


From 62d769834a7e9fff702413fa4c288706ff47271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:57 +0000
Subject: [PATCH 18/29] fix: do not reuse cached spline interpolants for other
 data or nodes

The interpolants of the first call were used for every later dataset and node
positions, silently giving the wrong density.
---
 gwpopulation/models/interped.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 8bd7cbb..2a7061c 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -119,12 +119,30 @@ class InterpolatedNoBaseModelIdentical:
         else:
             func = xp.array
         kwargs = dict(kind=self.kind, backend=xp)
+        self._nodes = nodes
+        self._data_values = {param: values[param] for param in self.parameters}
         self._norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
         self._data_spline = {
             param: _setup_interpolant(func(nodes), func(values[param]), **kwargs)
             for param in self.parameters
         }
 
+    def _interpolant_is_current(self, nodes, values):
+        """
+        Whether the cached interpolants were set up for these nodes and data.
+        This can't be determined for nodes that are being traced by :code:`jax`,
+        in that case, the cached interpolants are used.
+        """
+        if self._norm_spline is None:
+            return False
+        try:
+            same_nodes = bool(xp.all(nodes == self._nodes))
+        except TypeError:
+            return True
+        return same_nodes and all(
+            self._data_values[key] is values[key] for key in self.parameters
+        )
+
     def p_x_unnormed(self, dataset, parameter, x_splines, f_splines, **kwargs):
         """
         Calculate the unnormalized likelihood of the dataset given the model
@@ -147,7 +165,7 @@ class InterpolatedNoBaseModelIdentical:
             The unnormalized likelihood of the dataset given the model at the
             provided points
         """
-        if self._norm_spline is None:
+        if not self._interpolant_is_current(x_splines, dataset):
             self.setup_interpolant(x_splines, dataset)
 
         perturbation = self._data_spline[parameter](y=f_splines)
-- 
2.43.0


From 7be422f71c4bd218c50197d21a406a38204b6a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:57 +0000
Subject: [PATCH 19/29] fix: GridVT with grids of equal length

Axes were identified by their length only, so two parameters with grids of the
same length were assigned to the same axis and only one was integrated over.
---
 gwpopulation/vt.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 2b72a12..d3866ea 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -91,7 +91,16 @@ class GridVT(_BaseVT):
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
         shape = np.array(list(self.data.values())[0].shape)
         lens = {key: len(self.values[key]) for key in self.data}
-        self.axes = {int(np.where(shape == lens[key])[0][0]): key for key in self.data}
+        self.axes = dict()
+        for key in self.data:
+            axes = [int(axis) for axis in np.where(shape == lens[key])[0]]
+            if len(axes) > 1:
+                axes = [
+                    axis
+                    for axis in axes
+                    if bool(xp.any(xp.diff(self.data[key], axis=axis) != 0))
+                ]
+            self.axes[axes[0]] = key
         self.ndim = len(self.axes)
 
     def __call__(self, parameters):
-- 
2.43.0


From 83f0c5fd9120f635e04dfb219a3f8a4770841f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:54 +0000
Subject: [PATCH 20/29] fix: uncertainty-marginalised vt factor for vanishing
 variance or efficiency

A vanishing variance (equal weights with every injection found) or
efficiency raised ZeroDivisionError with the numpy backend.
---
 gwpopulation/vt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index d3866ea..3aeb65b 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -237,8 +237,8 @@ class ResamplingVT(_BaseVT):
         """
         mu, var = self.detection_efficiency(parameters)
         _, correction = self.check_convergence(mu, var)
-        n_effective = mu**2 / var
-        vt_factor = mu / xp.exp((3 + self.n_events) / 2 / n_effective)
+        inverse_n_effective = var / xp.where(mu > 0, mu, 1.0) ** 2
+        vt_factor = mu / xp.exp((3 + self.n_events) / 2 * inverse_n_effective)
         vt_factor += correction
         return vt_factor
 
-- 
2.43.0


From 25284269aa021c27f33a4d3e16fed122d452027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 21/29] fix: reject points whose variance is too large even if
 the estimate is infinite

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 9b1e1ee..1f37c24 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
+        ln_l = xp.where(self._max_variance < variance, -xp.inf, ln_l)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From e1f28ecce4ed8761b01aa54c1a3391f277871984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:46 +0000
Subject: [PATCH 22/29] fix: rate likelihood and extra statistics with
 vanishing detection probability

---
 gwpopulation/hyperpe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 1f37c24..c87113d 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -266,7 +266,7 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance = variance / selection**2
+        variance = xp.divide(variance, selection**2)
         _, selection_variance = self._get_selection_factor(parameters=parameters)
         sample["selection"] = selection
         sample["selection_variance"] = variance
@@ -467,7 +467,7 @@ class RateLikelihood(HyperparameterLikelihood):
         n_expected = selection * parameters["rate"]
         total_selection = -n_expected + self.n_posteriors * xp.log(parameters["rate"])
         if return_uncertainty:
-            total_variance = n_expected * variance / selection**2
+            total_variance = xp.divide(n_expected * variance, selection**2)
             return total_selection, total_variance
         else:
             return total_selection
-- 
2.43.0


From 47b791b8d82a485189cc8cab87fadd8380a6bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:40 +0000
Subject: [PATCH 23/29] fix: JittedLikelihood keyword arguments are not traced

---
 gwpopulation/experimental/jax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 0bf670d..0625560 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -56,11 +56,11 @@ class JittedLikelihood(Likelihood):
             kwargs = dict()
         self.kwargs = kwargs
         self._likelihood = likelihood
-        self.likelihood_func = jit(partial(likelihood_func, likelihood))
+        self.likelihood_func = jit(partial(likelihood_func, likelihood, **kwargs))
         super().__init__()
 
     def __getattr__(self, name):
         return getattr(self._likelihood, name)
 
     def log_likelihood_ratio(self, parameters):
-        return float(np.nan_to_num(self.likelihood_func(parameters, **self.kwargs)))
+        return float(np.nan_to_num(self.likelihood_func(parameters)))
-- 
2.43.0


From d14613ccc921bedbbb67aab59e55a75d05a1b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:40 +0000
Subject: [PATCH 24/29] fix: numpyro predictive resampling skips scalar
 metadata of the injections

---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index ebce2ec..6b984dd 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -139,7 +139,7 @@ def posterior_predictive_resample(
         replace=False,
     )
     if fit_keys is None:
-        fit_keys = data.keys()
+        fit_keys = [key for key in data if jnp.ndim(data[key]) > 0]
     for key in fit_keys:
         if event is None:
             deterministic(f"{key}_{label}", data[key][idx])
-- 
2.43.0


From 934327a25409efc185c2a68220a985ddb279c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:25 +0000
Subject: [PATCH 25/29] fix: keep spline densities zero outside the node range
 when the extrapolated spline overflows

---
 gwpopulation/models/interped.py | 9 ++++-----
 gwpopulation/models/mass.py     | 6 ++++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 2a7061c..6b79a53 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -170,11 +170,10 @@ class InterpolatedNoBaseModelIdentical:
 
         perturbation = self._data_spline[parameter](y=f_splines)
 
-        p_x = xp.exp(perturbation)
-        p_x *= (dataset[f"{parameter}"] >= x_splines[0]) & (
+        in_range = (dataset[f"{parameter}"] >= x_splines[0]) & (
             dataset[f"{parameter}"] <= x_splines[-1]
         )
-        return p_x
+        return xp.exp(xp.where(in_range, perturbation, -xp.inf))
 
     def norm_p_x(self, f_splines=None, x_splines=None, **kwargs):
         """
@@ -194,8 +193,8 @@ class InterpolatedNoBaseModelIdentical:
             The normalization of the spline
         """
         perturbation = self._norm_spline(y=f_splines)
-        p_x = xp.exp(perturbation)
-        p_x *= (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        in_range = (self._xs >= x_splines[0]) & (self._xs <= x_splines[-1])
+        p_x = xp.exp(xp.where(in_range, perturbation, -xp.inf))
         norm = trapezoid(p_x, self._xs)
         return norm
 
diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index fd4a5d5..005e801 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -950,8 +950,10 @@ class InterpolatedPowerlaw(
         p_m *= self.smoothing(self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m) ** (
             delta_m > 0
         )
-        p_m *= xp.exp(self._norm_spline(y=f_splines))
+        perturbation = self._norm_spline(y=f_splines)
         if m_splines is not None:
-            p_m *= (self.m1s >= m_splines[0]) & (self.m1s <= m_splines[-1])
+            in_range = (self.m1s >= m_splines[0]) & (self.m1s <= m_splines[-1])
+            perturbation = xp.where(in_range, perturbation, -xp.inf)
+        p_m *= xp.exp(perturbation)
         norm = trapezoid(p_m, self.m1s)
         return norm
-- 
2.43.0


From dba84d6817a099fe5f6b72a5872d28d2997a788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 26/29] fix: do not keep the larger number of spline nodes of
 an earlier evaluation

---
 gwpopulation/models/interped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 6b79a53..24f060c 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -77,6 +77,7 @@ class InterpolatedNoBaseModelIdentical:
         regularize=False,
     ):
         self.nodes = nodes
+        self._minimum_nodes = nodes
         self._norm_spline = None
         self._data_spline = dict()
         self.kind = kind
@@ -260,7 +261,8 @@ class InterpolatedNoBaseModelIdentical:
         :code:`f{self.base}{nodes}` and updates the number of nodes
         to the number of found parameters.
         """
-        nodes = self.nodes
+        minimum_nodes = self._minimum_nodes
+        nodes = minimum_nodes
 
         while True:
             if f"f{self.base}{nodes}" in kwargs:
@@ -282,3 +284,4 @@ class InterpolatedNoBaseModelIdentical:
                 log_nodes=self.log_nodes,
                 regularize=self.regularize,
             )
+            self._minimum_nodes = minimum_nodes
-- 
2.43.0


From 566c4d655ab1be0e57e6609b7287c15405080c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:04 +0000
Subject: [PATCH 27/29] fix: evaluate power laws of integers in floating point

---
 gwpopulation/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index d52abe0..b66543a 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -119,6 +119,7 @@ def powerlaw(xx, alpha, high, low):
         The distribution evaluated at `xx`
 
     """
+    alpha = alpha * 1.0  # integers cannot be raised to negative integer powers
     norm = xp.where(
         xp.array(alpha) == -1,
         1 / xp.log(high / xp.array(low)),
-- 
2.43.0


From b32df5917e6c4b4203a383a292cef03547bcd3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:04 +0000
Subject: [PATCH 28/29] fix: evaluate the redshift models of integer redshifts
 in floating point

---
 gwpopulation/models/redshift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/redshift.py b/gwpopulation/models/redshift.py
index 6444b7d..93b7c96 100644
--- a/gwpopulation/models/redshift.py
+++ b/gwpopulation/models/redshift.py
@@ -212,7 +212,7 @@ class PowerLawRedshift(_Redshift):
         lamb: float
             The spectral index :math:`\lambda`.
         """
-        return (1 + redshift) ** parameters["lamb"]
+        return (1.0 + redshift) ** parameters["lamb"]
 
 
 class MadauDickinsonRedshift(_Redshift):
@@ -242,7 +242,7 @@ class MadauDickinsonRedshift(_Redshift):
         gamma = parameters["gamma"]
         kappa = parameters["kappa"]
         z_peak = parameters["z_peak"]
-        psi_of_z = (1 + redshift) ** gamma / (
+        psi_of_z = (1.0 + redshift) ** gamma / (
             1 + ((1 + redshift) / (1 + z_peak)) ** kappa
         )
         psi_of_z *= 1 + (1 + z_peak) ** (-kappa)
-- 
2.43.0


From 101206f6e7724e7fae05d27ca7d4fb64d11147ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:04 +0000
Subject: [PATCH 29/29] fix: use floating-point spline nodes when the
 parameters are integers

---
 gwpopulation/models/interped.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 24f060c..39d466b 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -216,10 +216,10 @@ class InterpolatedNoBaseModelIdentical:
         x_splines: array-like
             The positions of the spline nodes
         """
-        f_splines = xp.array([kwargs[key] for key in self.fkeys])
+        f_splines = xp.array([kwargs[key] for key in self.fkeys], dtype=float)
         if self.regularize:
             f_splines *= kwargs[f"rms{self.base}"] / xp.mean(f_splines**2) ** 0.5
-        x_splines = xp.array([kwargs[key] for key in self.xkeys])
+        x_splines = xp.array([kwargs[key] for key in self.xkeys], dtype=float)
         return f_splines, x_splines
 
     def p_x_identical(self, dataset, **kwargs):
-- 
2.43.0

