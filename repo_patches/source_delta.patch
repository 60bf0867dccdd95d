From 14267c989339ab97279c4454c32af12202df1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 01/99] fix: keep Cosine and Sine rescale finite at the end
 points of the unit interval

Rounding could push the argument of arcsin/arccos just outside [-1, 1], so
e.g. Sine(0.548, pi).rescale(1.0) returned nan instead of the upper bound.
---
 bilby/core/prior/analytical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 5e7b309..43425dc 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -399,7 +399,7 @@ class Cosine(Prior):
         This maps to the inverse CDF. This has been analytically solved for this case.
         """
         norm = 1 / (np.sin(self.maximum) - np.sin(self.minimum))
-        return np.arcsin(val / norm + np.sin(self.minimum))
+        return np.arcsin(np.clip(val / norm + np.sin(self.minimum), -1, 1))
 
     def prob(self, val):
         """Return the prior probability of val. Defined over [-pi/2, pi/2].
@@ -453,7 +453,7 @@ class Sine(Prior):
         This maps to the inverse CDF. This has been analytically solved for this case.
         """
         norm = 1 / (np.cos(self.minimum) - np.cos(self.maximum))
-        return np.arccos(np.cos(self.minimum) - val / norm)
+        return np.arccos(np.clip(np.cos(self.minimum) - val / norm, -1, 1))
 
     def prob(self, val):
         """Return the prior probability of val. Defined over [0, pi].
-- 
2.43.0


From 659f1412b3dfc20d0aaf6bcd87bc91438b1850ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 02/99] fix: normalise Cosine and Sine priors over their actual
 range

prob divided by two whatever the bounds, so the density of a cosine or sine
prior with non-default bounds did not integrate to one and disagreed with cdf.
---
 bilby/core/prior/analytical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 43425dc..6d183ea 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -412,7 +412,7 @@ class Cosine(Prior):
         =======
         float: Prior probability of val
         """
-        return np.cos(val) / 2 * self.is_in_prior_range(val)
+        return np.cos(val) / (np.sin(self.maximum) - np.sin(self.minimum)) * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.sin(val) - np.sin(self.minimum)) /
@@ -466,7 +466,7 @@ class Sine(Prior):
         =======
         Union[float, array_like]: Prior probability of val
         """
-        return np.sin(val) / 2 * self.is_in_prior_range(val)
+        return np.sin(val) / (np.cos(self.minimum) - np.cos(self.maximum)) * self.is_in_prior_range(val)
 
     def cdf(self, val):
         _cdf = np.atleast_1d((np.cos(val) - np.cos(self.minimum)) /
-- 
2.43.0


From d045b1f9065420ad2d50045b432cc6b222ec1630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 03/99] fix: SymmetricLogUniform.ln_prob is -inf outside the
 prior range

It returned a finite value everywhere, in disagreement with prob.
---
 bilby/core/prior/analytical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 6d183ea..34507da 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -353,7 +353,11 @@ class SymmetricLogUniform(Prior):
         float:
 
         """
-        return np.nan_to_num(- np.log(2 * np.abs(val)) - np.log(np.log(self.maximum / self.minimum)))
+        val = np.abs(val)
+        with np.errstate(divide='ignore'):
+            ln_in_range = np.log(1. * self.is_in_prior_range(val))
+            ln_p = np.nan_to_num(- np.log(2 * val) - np.log(np.log(self.maximum / self.minimum)))
+        return ln_p + ln_in_range
 
     def cdf(self, val):
         val = np.atleast_1d(val)
-- 
2.43.0


From 2398f4c25743ea4a4b4ee3cb62fcd7a945ca798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 04/99] fix: generate_component_masses returns the sample when
 only mass_2 is given

The return was missing, so a sample with mass_2 as its only mass parameter
raised KeyError even with require_add=False.
---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index fe1688f..6a01e2e 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1920,7 +1920,7 @@ def generate_component_masses(sample, require_add=False, source=False):
                     chirp_mass=output_sample[chirp_mass_key])
             )
         else:
-            check_and_return_quietly(require_add, sample)
+            return check_and_return_quietly(require_add, sample)
 
         output_sample[mass_1_key] = 1 / output_sample["mass_ratio"] * (
             output_sample[mass_2_key]
-- 
2.43.0


From 424057b361f2d8eb65e1ae26407d5f56b1ab6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 05/99] fix: mass_2_and_chirp_mass_to_mass_ratio is no longer
 nan for mass ratios below 1/3

---
 bilby/gw/conversion.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 6a01e2e..1c19cb4 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1111,10 +1111,17 @@ def mass_2_and_chirp_mass_to_mass_ratio(mass_2, chirp_mass):
     mass_ratio: float
         Mass ratio of the binary
     """
-    # Passing mass_2, the expression from the function above
-    # returns 1/q (because chirp mass is invariant under
-    # mass_1 <-> mass_2)
-    return 1 / mass_1_and_chirp_mass_to_mass_ratio(mass_2, chirp_mass)
+    # With x = 1/q the equation is x**3 = temp * (1 + x), it has three real
+    # roots if q < 1/3, so the largest one is found with the trigonometric
+    # solution, and a single one, found with the hyperbolic solution, otherwise
+    temp = (chirp_mass / mass_2) ** 5
+    arg = 1.5 * (3 / temp) ** 0.5
+    root = np.where(
+        arg < 1,
+        np.cos(np.arccos(np.minimum(arg, 1)) / 3),
+        np.cosh(np.arccosh(np.maximum(arg, 1)) / 3)
+    )
+    return 1 / (2 * (temp / 3) ** 0.5 * root)
 
 
 def lambda_1_lambda_2_to_lambda_tilde(lambda_1, lambda_2, mass_1, mass_2):
-- 
2.43.0


From 8e12bdd0a2ce2af4774ae577d23e080af81bb6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 06/99] fix: ConditionalPriorDict.rescale follows a change of
 the dependencies between keys

---
 bilby/core/prior/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 3722c62..44eb8f7 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -695,6 +695,8 @@ class ConditionalPriorDict(PriorDict):
             key for key in self.keys() if hasattr(self[key], "condition_func")
         ]
         self._conditional_keys = []
+        # the order of the keys may have changed, so the cached indexes for rescaling are no longer valid
+        self._least_recently_rescaled_keys = []
         for _ in range(len(self)):
             for key in conditional_keys_unsorted[:]:
                 if self._check_conditions_resolved(key, self.sorted_keys):
-- 
2.43.0


From a83085befa6eafd5801b48bf1c95cc51dcca2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:36 +0000
Subject: [PATCH 07/99] fix: source-frame masses can be converted when only the
 comoving distance is given

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 1c19cb4..56d5b85 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -221,7 +221,7 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
             if 'redshift' not in converted_parameters.keys():
                 converted_parameters['redshift'] =\
                     luminosity_distance_to_redshift(
-                        parameters['luminosity_distance'])
+                        converted_parameters['luminosity_distance'])
             converted_parameters[key[:-7]] = converted_parameters[key] * (
                 1 + converted_parameters['redshift'])
 
-- 
2.43.0


From fad7279c27dfe80b4428fabee3b25db3c543a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 08/99] fix: the spin tilt is one for vanishing spins only,
 element by element

---
 bilby/gw/conversion.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 56d5b85..357bcbb 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -178,6 +178,16 @@ def transform_precessing_spins(*args):
     return lalsim_SimInspiralTransformPrecessingNewInitialConditions(*args)
 
 
+def _cosine_tilt(chi, a):
+    """
+    Cosine of the tilt angle from the aligned component and the magnitude of
+    a spin, one where the spin vanishes.
+    """
+    vanishing = (chi == 0) & (a == 0)
+    with np.errstate(divide="ignore"):
+        return np.where(vanishing, 1.0, chi) / np.where(vanishing, 1.0, a)
+
+
 def convert_to_lal_binary_black_hole_parameters(parameters):
     """
     Convert parameters we have into parameters we need.
@@ -236,9 +246,8 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
                     converted_parameters[f"chi_{idx}"] ** 2
                     + converted_parameters[f"chi_{idx}_in_plane"] ** 2
                 ) ** 0.5
-                converted_parameters[f"cos_tilt_{idx}"] = (
-                    converted_parameters[f"chi_{idx}"]
-                    / converted_parameters[f"a_{idx}"]
+                converted_parameters[f"cos_tilt_{idx}"] = _cosine_tilt(
+                    converted_parameters[key], converted_parameters[f"a_{idx}"]
                 )
             elif "a_{}".format(idx) not in original_keys:
                 converted_parameters['a_{}'.format(idx)] = abs(
@@ -246,18 +255,9 @@ def convert_to_lal_binary_black_hole_parameters(parameters):
                 converted_parameters['cos_tilt_{}'.format(idx)] = \
                     np.sign(converted_parameters[key])
             else:
-                with np.errstate(invalid="raise"):
-                    try:
-                        converted_parameters[f"cos_tilt_{idx}"] = (
-                            converted_parameters[key] / converted_parameters[f"a_{idx}"]
-                        )
-                    except (FloatingPointError, ZeroDivisionError):
-                        logger.debug(
-                            "Error in conversion to spherical spin tilt. "
-                            "This is often due to the spin parameters being zero. "
-                            f"Setting cos_tilt_{idx} = 1."
-                        )
-                        converted_parameters[f"cos_tilt_{idx}"] = 1.0
+                converted_parameters[f"cos_tilt_{idx}"] = _cosine_tilt(
+                    converted_parameters[key], converted_parameters[f"a_{idx}"]
+                )
 
     for key in ["phi_jl", "phi_12"]:
         if key not in converted_parameters:
-- 
2.43.0


From 58259e8210d0e11b22d6448314ccb010b75c6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 09/99] fix: PriorDict.rescale assigns the values of joint
 priors to their own keys in any key order

---
 bilby/core/prior/dict.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 44eb8f7..7e4d664 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -609,9 +609,25 @@ class PriorDict(dict):
         """
         from matplotlib.cbook import flatten
 
-        return list(
-            flatten([self[key].rescale(sample) for key, sample in zip(keys, theta)])
-        )
+        keys = list(keys)
+        result = dict()
+        for key, units in zip(keys, theta):
+            result.update(self._split_joint_sample(key, keys, self[key].rescale(units)))
+        return list(flatten([result[key] for key in keys]))
+
+    def _split_joint_sample(self, key, keys, sample):
+        """
+        Assign the output of the rescale method of the prior of a key to the
+        keys it belongs to: joint distributions return the rescaled values of
+        all their parameters, in the order of their names, with the last one
+        """
+        prior = self[key]
+        if not isinstance(prior, JointPrior) or len(prior.dist) == 1 or len(sample) == 0:
+            return {key: sample}
+        return {
+            joint_key: sample.T[prior.dist.names.index(self[joint_key].name)]
+            for joint_key in keys if getattr(self[joint_key], "dist", None) is prior.dist
+        }
 
     def test_redundancy(self, key, disable_logging=False):
         """Empty redundancy test, should be overwritten in subclasses"""
@@ -850,10 +866,12 @@ class ConditionalPriorDict(PriorDict):
         for key, index in zip(
             self.sorted_keys_without_fixed_parameters, self._rescale_indexes
         ):
-            result[key] = self[key].rescale(
-                theta[index], **self.get_required_variables(key)
+            rescaled = self._split_joint_sample(
+                key, keys, self[key].rescale(theta[index], **self.get_required_variables(key))
             )
-            self[key].least_recently_sampled = result[key]
+            for rescaled_key, value in rescaled.items():
+                result[rescaled_key] = value
+                self[rescaled_key].least_recently_sampled = value
         return list(flatten([result[key] for key in keys]))
 
     def _update_rescale_keys(self, keys):
-- 
2.43.0


From 65c929ae85d4aacda8271de710710aff9c39781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 10/99] fix: joint priors apply the bounds of all parameters to
 all samples

---
 bilby/core/prior/joint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index 43c8913..f44a1f4 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -209,11 +209,9 @@ class BaseJointPriorDist(object):
             raise ValueError("Array is the wrong shape")
 
         # check sample(s) is within bounds
-        outbounds = np.ones(samp.shape[0], dtype=bool)
+        outbounds = np.zeros(samp.shape[0], dtype=bool)
         for s, bound in zip(samp.T, self.bounds.values()):
-            outbounds = (s < bound[0]) | (s > bound[1])
-            if np.any(outbounds):
-                break
+            outbounds |= (s < bound[0]) | (s > bound[1])
         return samp, outbounds
 
     def ln_prob(self, value):
-- 
2.43.0


From 72f15713b35a6ddb31bb745b181f43ad3fdca62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 11/99] fix: the modes of MultivariateGaussianDist are weighted
 in ln_prob as in sample

---
 bilby/core/prior/joint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index f44a1f4..e00d8c9 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -674,12 +674,15 @@ class MultivariateGaussianDist(BaseJointPriorDist):
         return samps
 
     def _ln_prob(self, samp, lnprob, outbounds):
+        ln_weights = np.log(self.weights) - np.log(np.sum(self.weights))
         for j in range(samp.shape[0]):
-            # loop over the modes and sum the probabilities
+            # loop over the modes and sum the weighted probabilities
             for i in range(self.nmodes):
                 # self.mvn[i] is a "standard" multivariate normal distribution; see add_mode()
                 z = (samp[j] - self.mus[i]) / self.sigmas[i]
-                lnprob[j] = np.logaddexp(lnprob[j], self.mvn[i].logpdf(z) - self.logprodsigmas[i])
+                lnprob[j] = np.logaddexp(
+                    lnprob[j], ln_weights[i] + self.mvn[i].logpdf(z) - self.logprodsigmas[i]
+                )
 
         # set out-of-bounds values to -inf
         lnprob[outbounds] = -np.inf
-- 
2.43.0


From d3a143a476bd4bd08cae700c4a455bc8d6c3b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 12/99] fix: Categorical.prob includes the last category for
 any number of categories

---
 bilby/core/prior/analytical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/prior/analytical.py b/bilby/core/prior/analytical.py
index 34507da..82166a7 100644
--- a/bilby/core/prior/analytical.py
+++ b/bilby/core/prior/analytical.py
@@ -1455,7 +1455,7 @@ class Categorical(Prior):
             name=name, latex_label=latex_label, minimum=minimum,
             maximum=maximum, unit=unit, boundary=boundary)
         self.ncategories = ncategories
-        self.categories = np.arange(self.minimum, self.maximum)
+        self.categories = np.arange(self.ncategories)
         self.p = 1 / self.ncategories
         self.lnp = -np.log(self.ncategories)
 
-- 
2.43.0


From 00d5c757bd70afea373f72a42b3995c724eff1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 13/99] fix: SlabSpikePrior.rescale follows changes of the
 spike location and height

---
 bilby/core/prior/slabspike.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bilby/core/prior/slabspike.py b/bilby/core/prior/slabspike.py
index 92664b1..8bc03d9 100644
--- a/bilby/core/prior/slabspike.py
+++ b/bilby/core/prior/slabspike.py
@@ -36,10 +36,6 @@ class SlabSpikePrior(Prior):
                          check_range_nonzero=self.slab.check_range_nonzero, boundary=self.slab.boundary)
         self.spike_location = spike_location
         self.spike_height = spike_height
-        try:
-            self.inverse_cdf_below_spike = self._find_inverse_cdf_fraction_before_spike()
-        except Exception as e:
-            logger.warning("Disregard the following warning when running tests:\n {}".format(e))
 
     @property
     def spike_location(self):
@@ -69,7 +65,9 @@ class SlabSpikePrior(Prior):
         """ Relative prior weight of the slab. """
         return 1 - self.spike_height
 
-    def _find_inverse_cdf_fraction_before_spike(self):
+    @property
+    def inverse_cdf_below_spike(self):
+        """ Cumulative probability below the spike, for its current location and height """
         return float(self.slab.cdf(self.spike_location)) * self.slab_fraction
 
     def rescale(self, val):
-- 
2.43.0


From 7479a94d6ef5af97c0f69826d31320eec7f635c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 14/99] fix: ConditionalChiInPlane.cdf is one above the maximum

---
 bilby/gw/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/prior.py b/bilby/gw/prior.py
index b353c60..5a3850e 100644
--- a/bilby/gw/prior.py
+++ b/bilby/gw/prior.py
@@ -610,7 +610,7 @@ class ConditionalChiInPlane(ConditionalBasePrior):
         self.update_conditions(**required_variables)
         chi_aligned = abs(required_variables[self._required_variables[0]])
         return np.maximum(np.minimum(
-            (val >= self.minimum) * (val <= self.maximum)
+            (val >= self.minimum)
             * np.log(1 + (val / chi_aligned) ** 2)
             / 2 / np.log(self._reference_maximum / chi_aligned)
             , 1
-- 
2.43.0


From 322bd2fa7bafb2acedeb6269b98138c1e3b8863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:01 +0000
Subject: [PATCH 15/99] fix: FromFile can be used with its default range, the
 one of the file

---
 bilby/core/prior/interpolated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/prior/interpolated.py b/bilby/core/prior/interpolated.py
index 2cee669..af30819 100644
--- a/bilby/core/prior/interpolated.py
+++ b/bilby/core/prior/interpolated.py
@@ -201,6 +201,8 @@ class FromFile(Interped):
         try:
             self.file_name = file_name
             xx, yy = np.genfromtxt(self.file_name).T
+            minimum = np.nan if minimum is None else minimum
+            maximum = np.nan if maximum is None else maximum
             super(FromFile, self).__init__(xx=xx, yy=yy, minimum=minimum,
                                            maximum=maximum, name=name, latex_label=latex_label,
                                            unit=unit, boundary=boundary)
-- 
2.43.0


From eee28ed1f7e5febcc14b1d0c641dd3b2c5855c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 16/99] fix: time marginalised likelihood weights each delay
 with the prior at the time it corresponds to

---
 bilby/gw/likelihood/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index d04b28d..5cafa5a 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -992,7 +992,7 @@ class GravitationalWaveTransient(Likelihood):
             self.interferometers.start_time + np.linspace(
                 0, self.interferometers.duration,
                 int(self.interferometers.duration / 2 *
-                    self.waveform_generator.sampling_frequency + 1))[1:]
+                    self.waveform_generator.sampling_frequency + 1))[:-1]
         self.time_prior_array = \
             self.priors['geocent_time'].prob(self._times) * self._delta_tc
 
-- 
2.43.0


From da5d6553b7fa8b917cb4955e586fe5ac178c71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:37 +0000
Subject: [PATCH 17/99] fix: distance lookup table given as a dictionary is
 only used if it matches

---
 bilby/gw/likelihood/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 5cafa5a..dea4cef 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -884,7 +884,8 @@ class GravitationalWaveTransient(Likelihood):
             lookup_table = self.load_lookup_table(
                 self.cached_lookup_table_filename)
         if isinstance(lookup_table, dict):
-            if self._test_cached_lookup_table(lookup_table):
+            match, failure = self._test_cached_lookup_table(lookup_table)
+            if match:
                 self._dist_margd_loglikelihood_array = lookup_table[
                     'lookup_table']
             else:
-- 
2.43.0


From 367b95fc332e23a9cda76f0a5825a27f842a2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:35 +0000
Subject: [PATCH 18/99] fix: marginalising over calibration, time and distance
 pairs each draw with its own optimal SNR

---
 bilby/gw/likelihood/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index dea4cef..80c26e1 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -777,6 +777,8 @@ class GravitationalWaveTransient(Likelihood):
             d_inner_h_tc_array = d_inner_h_tc_array[time_mask]
 
         if self.distance_marginalization:
+            if self.calibration_marginalization:
+                h_inner_h = h_inner_h[:, np.newaxis]
             log_l_tc_array = self.distance_marginalized_likelihood(
                 d_inner_h=d_inner_h_tc_array, h_inner_h=h_inner_h)
         elif self.phase_marginalization:
-- 
2.43.0


From d768b8dd428db74fbf3fbbfbd8281fc33f92a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 19/99] fix: reconstructed time posterior normalises the
 matched filter output for any duration

---
 bilby/gw/likelihood/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 80c26e1..ebfda62 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -607,7 +607,7 @@ class GravitationalWaveTransient(Likelihood):
             signal_long[:ifo_length] = signal
             data[:ifo_length] = np.conj(ifo.frequency_domain_strain)
             psd[:ifo_length][mask] = ifo.power_spectral_density_array[mask]
-            d_inner_h += np.fft.fft(signal_long * data / psd)[in_prior]
+            d_inner_h += 4 / self.waveform_generator.duration * np.fft.fft(signal_long * data / psd)[in_prior]
             h_inner_h += ifo.optimal_snr_squared(signal=signal).real
 
         if self.distance_marginalization:
-- 
2.43.0


From 56b08e4c2c0c22315464ec86c99c370cd05a9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 20/99] fix: reconstructed time posterior uses the calibration
 draw it is conditioned on

---
 bilby/gw/likelihood/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index ebfda62..723ab75 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -604,6 +604,8 @@ class GravitationalWaveTransient(Likelihood):
                 signal_polarizations=signal_polarizations,
                 interferometer=ifo,
             )
+            if 'recalib_index' in self.parameters:
+                signal[mask] *= self.calibration_draws[ifo.name][int(self.parameters['recalib_index'])]
             signal_long[:ifo_length] = signal
             data[:ifo_length] = np.conj(ifo.frequency_domain_strain)
             psd[:ifo_length][mask] = ifo.power_spectral_density_array[mask]
-- 
2.43.0


From 7e2e05c612d67d516f2b323cd3886c4fc64e7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:38 +0000
Subject: [PATCH 21/99] fix: likelihood of each calibration draw is evaluated
 at the jittered time

---
 bilby/gw/likelihood/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index 723ab75..c213658 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -794,6 +794,9 @@ class GravitationalWaveTransient(Likelihood):
         return logsumexp(log_l_tc_array, b=time_prior_array, axis=-1)
 
     def get_calibration_log_likelihoods(self, signal_polarizations=None):
+        if self.time_marginalization and self.jitter_time:
+            self.parameters['geocent_time'] += self.parameters['time_jitter']
+
         self.parameters.update(self.get_sky_frame_parameters())
         if signal_polarizations is None:
             signal_polarizations = \
@@ -808,6 +811,9 @@ class GravitationalWaveTransient(Likelihood):
 
             total_snrs += per_detector_snr
 
+        if self.time_marginalization and self.jitter_time:
+            self.parameters['geocent_time'] -= self.parameters['time_jitter']
+
         if self.time_marginalization:
             log_l_cal_array = self.time_marginalized_likelihood(
                 d_inner_h_tc_array=total_snrs.d_inner_h_array,
-- 
2.43.0


From 993748eb8844fe894562891906452c6ddb9031ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 22/99] fix: maximum frequency is limited by the Nyquist
 frequency of the current data only

---
 bilby/gw/detector/strain_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 06e0c01..7cb45f2 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -102,7 +102,7 @@ class InterferometerStrainData(object):
         """ Force the maximum frequency be less than the Nyquist frequency """
         if self.sampling_frequency is not None:
             if 2 * self._maximum_frequency > self.sampling_frequency:
-                self._maximum_frequency = self.sampling_frequency / 2.
+                return self.sampling_frequency / 2.
         return self._maximum_frequency
 
     @maximum_frequency.setter
-- 
2.43.0


From 3aabaea2d700f69e1c09f5100457dbd882d515ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 23/99] fix: frequency mask follows the frequencies of newly
 set data

---
 bilby/gw/detector/strain_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 7cb45f2..9238e98 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -46,6 +46,7 @@ class InterferometerStrainData(object):
 
         self._frequency_mask_updated = False
         self._frequency_mask = None
+        self._masked_frequency_array = None
         self._frequency_domain_strain = None
         self._time_domain_strain = None
         self._channel = None
@@ -144,6 +145,9 @@ class InterferometerStrainData(object):
         mask: np.ndarray
             An array of boolean values
         """
+        if self._masked_frequency_array is not None and \
+                self._masked_frequency_array is not self._times_and_frequencies.frequency_array:
+            self._frequency_mask_updated = False
         if not self._frequency_mask_updated:
             frequency_array = self._times_and_frequencies.frequency_array
             mask = ((frequency_array >= self.minimum_frequency) &
@@ -151,12 +155,14 @@ class InterferometerStrainData(object):
             for notch in self.notch_list:
                 mask[notch.get_idxs(frequency_array)] = False
             self._frequency_mask = mask
+            self._masked_frequency_array = frequency_array
             self._frequency_mask_updated = True
         return self._frequency_mask
 
     @frequency_mask.setter
     def frequency_mask(self, mask):
         self._frequency_mask = mask
+        self._masked_frequency_array = None
         self._frequency_mask_updated = True
 
     @property
-- 
2.43.0


From 180ee8bd6b07d82d3db99170b645083f97e36ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 24/99] fix: setting frequency domain data discards earlier
 time domain data and its window

---
 bilby/gw/detector/strain_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 9238e98..1a88a45 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -608,6 +608,7 @@ class InterferometerStrainData(object):
         logger.debug('Setting data using provided frequency_domain_strain')
         if np.shape(frequency_domain_strain) == np.shape(self.frequency_array):
             self._frequency_domain_strain = frequency_domain_strain
+            self._time_domain_strain = None
             self.window_factor = 1
         else:
             raise ValueError("Data frequencies do not match frequency_array")
@@ -642,6 +643,8 @@ class InterferometerStrainData(object):
 
         if np.array_equal(frequency_array, self.frequency_array):
             self._frequency_domain_strain = frequency_domain_strain
+            self._time_domain_strain = None
+            self.window_factor = 1
         else:
             raise ValueError("Data frequencies do not match frequency_array")
 
@@ -665,6 +668,8 @@ class InterferometerStrainData(object):
         logger.debug('Setting zero noise data')
         self._frequency_domain_strain = np.zeros_like(self.frequency_array,
                                                       dtype=complex)
+        self._time_domain_strain = None
+        self.window_factor = 1
 
     def set_from_frame_file(
             self, frame_file, sampling_frequency, duration, start_time=0,
-- 
2.43.0


From 63150840cbae6a2af80a22fead3c637e93d23e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 25/99] fix: analysis segment inside the data is removed from
 the PSD estimate

---
 bilby/gw/detector/strain_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 1a88a45..71551d4 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -401,7 +401,7 @@ class InterferometerStrainData(object):
 
         if analysis_segment_start_time is not None:
             analysis_segment_end_time = analysis_segment_start_time + fft_length
-            inside = (analysis_segment_start_time > self.time_array[0] +
+            inside = (analysis_segment_start_time > self.time_array[0] and
                       analysis_segment_end_time < self.time_array[-1])
             if inside:
                 logger.info("Removing analysis segment data from the PSD data")
-- 
2.43.0


From c0f06714ef789360b647518235d70f31bdacda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 26/99] fix: setting one array of a coupled series renews the
 other

---
 bilby/core/series.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/core/series.py b/bilby/core/series.py
index ba1d0ff..fbb9a57 100644
--- a/bilby/core/series.py
+++ b/bilby/core/series.py
@@ -54,6 +54,7 @@ class CoupledTimeAndFrequencySeries(object):
         self._sampling_frequency, self._duration = \
             utils.get_sampling_frequency_and_duration_from_frequency_array(frequency_array)
         self._frequency_array_updated = True
+        self._time_array_updated = False
 
     @property
     def time_array(self):
@@ -85,6 +86,7 @@ class CoupledTimeAndFrequencySeries(object):
             utils.get_sampling_frequency_and_duration_from_time_array(time_array)
         self._start_time = time_array[0]
         self._time_array_updated = True
+        self._frequency_array_updated = False
 
     @property
     def duration(self):
-- 
2.43.0


From 2e150c9eb0632208edc1eb73ac5758330a20468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 27/99] fix: time domain strain computed from frequency domain
 data follows the frequency mask

---
 bilby/gw/detector/strain_data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 71551d4..7c8dd7c 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -204,9 +204,8 @@ class InterferometerStrainData(object):
         if self._time_domain_strain is not None:
             return self._time_domain_strain
         elif self._frequency_domain_strain is not None:
-            self._time_domain_strain = utils.infft(
+            return utils.infft(
                 self.frequency_domain_strain, self.sampling_frequency)
-            return self._time_domain_strain
 
         else:
             raise ValueError("time domain strain data not yet set")
-- 
2.43.0


From ccc602ebd0afbb4cba5cf528a450cd444d68299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:00 +0000
Subject: [PATCH 28/99] fix: window factor of time domain data does not depend
 on earlier access to the strain

---
 bilby/gw/detector/strain_data.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 7c8dd7c..0193157 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -165,6 +165,17 @@ class InterferometerStrainData(object):
         self._masked_frequency_array = None
         self._frequency_mask_updated = True
 
+    @property
+    def window_factor(self):
+        """ Power loss due to windowing, always that of the current data """
+        if self._frequency_domain_strain is None and self._time_domain_strain is not None:
+            self.time_domain_window()
+        return self._window_factor
+
+    @window_factor.setter
+    def window_factor(self, window_factor):
+        self._window_factor = window_factor
+
     @property
     def alpha(self):
         return 2 * self.roll_off / self.duration
-- 
2.43.0


From 25b10ea60e834b2865f989563ee3c0fbc02fe48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 29/99] fix: create_time_series rounds the number of samples
 like create_frequency_series

---
 bilby/core/utils/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/utils/series.py b/bilby/core/utils/series.py
index ccd5937..e9bc253 100644
--- a/bilby/core/utils/series.py
+++ b/bilby/core/utils/series.py
@@ -98,7 +98,7 @@ def create_time_series(sampling_frequency, duration, starting_time=0.):
 
     """
     _check_legal_sampling_frequency_and_duration(sampling_frequency, duration)
-    number_of_samples = int(duration * sampling_frequency)
+    number_of_samples = int(np.round(duration * sampling_frequency))
     return np.linspace(start=starting_time,
                        stop=duration + starting_time - 1 / sampling_frequency,
                        num=number_of_samples)
-- 
2.43.0


From 8a2de572c934708b8d848914fa9db52360b4c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 30/99] fix: spectral densities can be given as lists

---
 bilby/gw/detector/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/detector/psd.py b/bilby/gw/detector/psd.py
index a3948f9..eddf472 100644
--- a/bilby/gw/detector/psd.py
+++ b/bilby/gw/detector/psd.py
@@ -211,7 +211,7 @@ class PowerSpectralDensity(object):
     def psd_array(self, psd_array):
         self.__check_frequency_array_matches_density_array(psd_array)
         self.__psd_array = np.array(psd_array)
-        self.__asd_array = psd_array ** 0.5
+        self.__asd_array = self.__psd_array ** 0.5
         self.__interpolate_power_spectral_density()
 
     @property
@@ -222,7 +222,7 @@ class PowerSpectralDensity(object):
     def asd_array(self, asd_array):
         self.__check_frequency_array_matches_density_array(asd_array)
         self.__asd_array = np.array(asd_array)
-        self.__psd_array = asd_array ** 2
+        self.__psd_array = self.__asd_array ** 2
         self.__interpolate_power_spectral_density()
 
     def __check_frequency_array_matches_density_array(self, density_array):
-- 
2.43.0


From e9255465b625d92d4bf81106cb6d62074b1816fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 31/99] fix: cached spectral density is not reused after the
 frequency array was changed in place

---
 bilby/gw/detector/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/psd.py b/bilby/gw/detector/psd.py
index eddf472..0c65041 100644
--- a/bilby/gw/detector/psd.py
+++ b/bilby/gw/detector/psd.py
@@ -60,7 +60,7 @@ class PowerSpectralDensity(object):
         psd_array = self.power_spectral_density_interpolated(frequency_array)
         self._cache['psd_array'] = psd_array
         self._cache['asd_array'] = psd_array**0.5
-        self._cache['frequency_array'] = frequency_array
+        self._cache['frequency_array'] = np.array(frequency_array)
 
     def __eq__(self, other):
         if self.psd_file == other.psd_file \
-- 
2.43.0


From 51751ae87ff881e66f2df48f2c6ec608bb1fde3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 32/99] fix: detectors with different GPS start times are not
 accepted in one network

---
 bilby/gw/detector/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/networks.py b/bilby/gw/detector/networks.py
index 7ff6f44..bee1fc2 100644
--- a/bilby/gw/detector/networks.py
+++ b/bilby/gw/detector/networks.py
@@ -68,7 +68,7 @@ class InterferometerList(list):
                         )
                     )
             except ValueError as e:
-                if not all(math.isclose(y, x[0], abs_tol=1e-5) for y in x):
+                if not all(math.isclose(y, x[0], rel_tol=0, abs_tol=1e-5) for y in x):
                     raise ValueError(e)
                 else:
                     logger.warning(e)
-- 
2.43.0


From 59e2a9de56c8eaef59197348ca1faf6dc0aee8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 33/99] fix: Interferometer.to_pickle creates the given
 directory

---
 bilby/gw/detector/interferometer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/detector/interferometer.py b/bilby/gw/detector/interferometer.py
index ac0c148..2e9b243 100644
--- a/bilby/gw/detector/interferometer.py
+++ b/bilby/gw/detector/interferometer.py
@@ -898,7 +898,7 @@ class Interferometer(object):
         format="pickle", extra=".. versionadded:: 1.1.0"
     ))
     def to_pickle(self, outdir="outdir", label=None):
-        utils.check_directory_exists_and_if_not_mkdir('outdir')
+        utils.check_directory_exists_and_if_not_mkdir(outdir)
         filename = self._filename_from_outdir_label_extension(outdir, label, extension="pkl")
         safe_file_dump(self, filename, "dill")
 
-- 
2.43.0


From 887833a4c1e3c89d9b009e9c1d9a881eb2a09ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 34/99] fix: calibration parameters read from a file belong to
 the curves read from it

---
 bilby/gw/detector/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 51f776c..033a5d6 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -60,7 +60,8 @@ def read_calibration_file(filename, frequency_array, number_of_response_curves,
         bounds_error=False, fill_value=1)(frequency_array)
 
     try:
-        parameter_draws = pd.read_hdf(filename, key="CalParams")
+        parameter_draws = pd.read_hdf(filename, key="CalParams").iloc[
+            starting_index:number_of_response_curves + starting_index]
     except KeyError:
         parameter_draws = None
 
-- 
2.43.0


From 4c626306db9b4d0f4988bc3826fe99775be1adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 35/99] fix: precomputed calibration curves without parameters
 can be marginalised over

---
 bilby/gw/detector/calibration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 033a5d6..4335d53 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -412,7 +412,10 @@ def build_calibration_lookup(
             model = interferometer.calibration_model
             idxs = np.arange(number_of_response_curves, dtype=int) + starting_index
             draws[name] = model.curves[idxs]
-            parameters[name] = pd.DataFrame(model.parameters.iloc[idxs])
+            if model.parameters is None:
+                parameters[name] = pd.DataFrame(index=idxs)
+            else:
+                parameters[name] = pd.DataFrame(model.parameters.iloc[idxs])
             parameters[name][model.prefix] = idxs
         else:
             if priors is None:
-- 
2.43.0


From df9857555f4f99f0fd10fa57929b11d32bd49c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 36/99] fix: calibration draws are curves of the calibration
 model of the detector

---
 bilby/gw/detector/calibration.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/detector/calibration.py b/bilby/gw/detector/calibration.py
index 4335d53..ca1b1c8 100644
--- a/bilby/gw/detector/calibration.py
+++ b/bilby/gw/detector/calibration.py
@@ -452,15 +452,20 @@ def _generate_calibration_draws(interferometer, priors, n_curves):
         n_points=interferometer.calibration_model.n_points,
         frequency_array=frequencies,
         n_curves=n_curves,
+        minimum_frequency=interferometer.calibration_model.minimum_frequency,
+        maximum_frequency=interferometer.calibration_model.maximum_frequency,
     ))
     return draws, parameters
 
 
-def curves_from_spline_and_prior(parameters, label, n_points, frequency_array, n_curves):
+def curves_from_spline_and_prior(
+    parameters, label, n_points, frequency_array, n_curves,
+    minimum_frequency=None, maximum_frequency=None,
+):
     spline = CubicSpline(
         prefix=f"recalib_{label}_",
-        minimum_frequency=frequency_array[0],
-        maximum_frequency=frequency_array[-1],
+        minimum_frequency=frequency_array[0] if minimum_frequency is None else minimum_frequency,
+        maximum_frequency=frequency_array[-1] if maximum_frequency is None else maximum_frequency,
         n_points=n_points,
     )
     curves = list()
-- 
2.43.0


From 004b5d11abb156950c5c32a1350f76e9ba48b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 37/99] fix: sky frame parameters are assigned to the samples
 they are computed from for any index

---
 bilby/gw/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 357bcbb..643ed8d 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -2548,7 +2548,7 @@ def generate_sky_frame_parameters(samples, likelihood):
         new_samples.append(likelihood.get_sky_frame_parameters())
     new_samples = DataFrame(new_samples)
     for key in new_samples:
-        samples[key] = new_samples[key]
+        samples[key] = new_samples[key].values
 
 
 def fill_sample(args):
-- 
2.43.0


From 818d0bf891648090da5f3cc73f659078af871d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 38/99] fix: sky position is computed at the geocenter time
 when the reference detector time is not given

---
 bilby/gw/likelihood/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/gw/likelihood/base.py b/bilby/gw/likelihood/base.py
index c213658..7a3926a 100644
--- a/bilby/gw/likelihood/base.py
+++ b/bilby/gw/likelihood/base.py
@@ -1084,6 +1084,7 @@ class GravitationalWaveTransient(Likelihood):
                 f"Cannot find {self.time_reference}_time in parameters. "
                 "Falling back to geocent time"
             )
+            time = parameters["geocent_time"]
         if not self.reference_frame == "sky":
             try:
                 ra, dec = zenith_azimuth_to_ra_dec(
-- 
2.43.0


From 39dad9b24d065eab5e0322b1ec3628bbe9404171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 39/99] fix: likelihoods of the emcee result belong to the
 samples of the same row

---
 bilby/core/sampler/emcee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/core/sampler/emcee.py b/bilby/core/sampler/emcee.py
index 2c12ee3..ec2e046 100644
--- a/bilby/core/sampler/emcee.py
+++ b/bilby/core/sampler/emcee.py
@@ -418,8 +418,11 @@ class Emcee(MCMCSampler):
 
         self._generate_result()
 
-        self.result.samples = self.sampler.chain[:, self.nburn :, :].reshape(
-            (-1, self.ndim)
+        # the blobs holding the likelihoods are ordered (iterations, nwalkers)
+        self.result.samples = (
+            self.sampler.chain[:, self.nburn :, :]
+            .swapaxes(0, 1)
+            .reshape((-1, self.ndim))
         )
         self.result.walkers = self.sampler.chain
         return self.result
-- 
2.43.0


From 9d44b3586b19c6c66b6c69063c4deb473b9ecb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 40/99] fix: walkers of the kombine result are the chains of
 the walkers

---
 bilby/core/sampler/kombine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bilby/core/sampler/kombine.py b/bilby/core/sampler/kombine.py
index 4677519..e351823 100644
--- a/bilby/core/sampler/kombine.py
+++ b/bilby/core/sampler/kombine.py
@@ -212,9 +212,7 @@ class Kombine(Emcee):
 
         tmp_chain = self.sampler.chain[self.nburn :, :, :].copy()
         self.result.samples = tmp_chain.reshape((-1, self.ndim))
-        self.result.walkers = self.sampler.chain.reshape(
-            (self.nwalkers, self.nsteps, self.ndim)
-        )
+        self.result.walkers = self.sampler.chain.swapaxes(0, 1)
         return self.result
 
     def _setup_pool(self):
-- 
2.43.0


From 8cd6509e66ce961e56a5ea5eceec441822e2824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 41/99] fix: nessai rescales from the unit hypercube with the
 joint and conditional priors

---
 bilby/core/sampler/nessai.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bilby/core/sampler/nessai.py b/bilby/core/sampler/nessai.py
index 440e4a0..5e7fded 100644
--- a/bilby/core/sampler/nessai.py
+++ b/bilby/core/sampler/nessai.py
@@ -161,10 +161,11 @@ class Nessai(NestedSampler):
             @staticmethod
             def from_unit_hypercube(x):
                 """Map samples from the unit hypercube to the prior."""
-                theta = {}
-                for n in self._search_parameter_keys:
-                    theta[n] = self.priors[n].rescale(x[n])
-                return dict_to_live_points(theta)
+                keys = self._search_parameter_keys
+                units = np.array([x[n] for n in keys]).T.reshape((-1, len(keys)))
+                theta = np.array([self.priors.rescale(keys, unit) for unit in units])
+                theta = theta.reshape((-1, len(keys)))
+                return dict_to_live_points({n: theta[:, i] for i, n in enumerate(keys)})
 
             @staticmethod
             def to_unit_hypercube(x):
-- 
2.43.0


From 1380d47b1e594b1c04e8cde29e9042e0bd6a54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 42/99] fix: ptemcee gives up minimisation of the initial
 positions after 100 trials

---
 bilby/core/sampler/ptemcee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/sampler/ptemcee.py b/bilby/core/sampler/ptemcee.py
index 1d74a6f..c3cbcf0 100644
--- a/bilby/core/sampler/ptemcee.py
+++ b/bilby/core/sampler/ptemcee.py
@@ -366,6 +366,7 @@ class Ptemcee(MCMCSampler):
             )
             if res.success:
                 success.append(res.x)
+            trials += 1
             if trials > 100:
                 raise SamplerError("Unable to set pos0 from minimize")
             if len(success) >= 10:
-- 
2.43.0


From 741f1561335e2599a60855cce675acce24524a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 43/99] fix: sampling time in the run statistics includes days
 of dynesty runs

---
 bilby/core/sampler/dynesty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty.py b/bilby/core/sampler/dynesty.py
index 539531c..86898dc 100644
--- a/bilby/core/sampler/dynesty.py
+++ b/bilby/core/sampler/dynesty.py
@@ -650,7 +650,7 @@ class Dynesty(NestedSampler):
         self.result.meta_data["run_statistics"] = dict(
             nlikelihood=self.result.num_likelihood_evaluations,
             neffsamples=neffsamples,
-            sampling_time_s=self.sampling_time.seconds,
+            sampling_time_s=self.sampling_time.total_seconds(),
             ncores=self.kwargs.get("queue_size", 1),
         )
         self.kwargs["rstate"] = None
-- 
2.43.0


From 07f572c918479133c4e4afd30a14d70695d73267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 44/99] fix: sampling time in the run statistics includes days
 of bilby_mcmc runs

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index c8ccf25..8a7d2dd 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -289,7 +289,7 @@ class Bilby_MCMC(MCMCSampler):
         result.meta_data["run_statistics"] = dict(
             nlikelihood=ptsampler.position * ptsampler.L1steps * ptsampler._nsamplers,
             neffsamples=ptsampler.nsamples * ptsampler.convergence_inputs.thin_by_nact,
-            sampling_time_s=result.sampling_time.seconds,
+            sampling_time_s=result.sampling_time.total_seconds(),
             ncores=npool,
         )
 
-- 
2.43.0


From 1643ba40282e7d221d32a908efb39121e788d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 45/99] fix: signal handlers are restored when a sampler raises
 an error

---
 bilby/core/sampler/base_sampler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/bilby/core/sampler/base_sampler.py b/bilby/core/sampler/base_sampler.py
index 17a7b11..743456e 100644
--- a/bilby/core/sampler/base_sampler.py
+++ b/bilby/core/sampler/base_sampler.py
@@ -94,12 +94,13 @@ def signal_wrapper(method):
                 "This is likely the case if you are running on a Windows machine "
                 "and can be safely ignored."
             )
-        output = method(self, *args, **kwargs)
-        if _set:
-            signal.signal(signal.SIGTERM, old_term)
-            signal.signal(signal.SIGINT, old_int)
-            signal.signal(signal.SIGALRM, old_alarm)
-        return output
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            if _set:
+                signal.signal(signal.SIGTERM, old_term)
+                signal.signal(signal.SIGINT, old_int)
+                signal.signal(signal.SIGALRM, old_alarm)
 
     return wrapped
 
-- 
2.43.0


From e8e9a9e1e7efa902d2c4e37005d1884ee4c99f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 46/99] fix: reflection by exactly one prior width puts the
 sample at the maximum

---
 bilby/core/sampler/proposal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/sampler/proposal.py b/bilby/core/sampler/proposal.py
index d23d19b..1db745c 100644
--- a/bilby/core/sampler/proposal.py
+++ b/bilby/core/sampler/proposal.py
@@ -83,7 +83,7 @@ class JumpProposal(object):
                     sample[key] = (
                         2 * self.priors[key].maximum - self.priors[key].minimum - delta
                     )
-                elif delta < r:
+                else:
                     sample[key] = self.priors[key].minimum + delta
         return sample
 
-- 
2.43.0


From 3ccd92bbf466aa3fb65200076a14ead5746d16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 47/99] fix: UniformProposal moves parameters with finite prior
 width

---
 bilby/bilby_mcmc/proposals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 6100d75..62959e2 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -346,7 +346,7 @@ class UniformProposal(BaseProposal):
         sample = chain.current_sample
         for key in self.parameters:
             width = self.prior_width_dict[key]
-            if np.isinf(width) is False:
+            if not np.isinf(width):
                 sample[key] = random.rng.uniform(
                     self.prior_minimum_dict[key], self.prior_maximum_dict[key]
                 )
-- 
2.43.0


From 73ccfd3c75fcc8885088cac53b26a72fdf9a7eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 48/99] fix: density proposals are verified parameter by
 parameter

---
 bilby/bilby_mcmc/proposals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bilby/bilby_mcmc/proposals.py b/bilby/bilby_mcmc/proposals.py
index 62959e2..e1a2aeb 100644
--- a/bilby/bilby_mcmc/proposals.py
+++ b/bilby/bilby_mcmc/proposals.py
@@ -480,7 +480,7 @@ class DensityEstimateProposal(BaseProposal):
         self.next_refit_time *= self.fit_multiplier
 
         # Verify training hasn't overconstrained
-        new_draws = np.atleast_2d(self._sample(1000))
+        new_draws = np.reshape(self._sample(1000), (-1, self.ndim))
         verification_dataset = np.array(verification_dataset)
         fail_parameters = []
         for ii, key in enumerate(self.parameters):
@@ -541,7 +541,7 @@ class KDEProposal(DensityEstimateProposal):
         return self.density.logpdf(point)[0]
 
     def _sample(self, nsamples=None):
-        return np.atleast_1d(np.squeeze(self.density.resample(nsamples)))
+        return np.atleast_1d(np.squeeze(self.density.resample(nsamples).T))
 
 
 class GMMProposal(DensityEstimateProposal):
@@ -559,7 +559,7 @@ class GMMProposal(DensityEstimateProposal):
         return np.squeeze(self.density.score_samples(np.atleast_2d(point)))
 
     def _sample(self, nsamples=None):
-        return np.squeeze(self.density.sample(n_samples=nsamples)[0])
+        return np.atleast_1d(np.squeeze(self.density.sample(n_samples=nsamples)[0]))
 
     @staticmethod
     def check_dependencies(warn=True):
-- 
2.43.0


From ef34fb465ed2a1d8738e4184d72893e60cd6c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 49/99] fix: swapped samples become the current samples of
 tempered chains

---
 bilby/bilby_mcmc/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/bilby_mcmc/chain.py b/bilby/bilby_mcmc/chain.py
index 0c19134..943e976 100644
--- a/bilby/bilby_mcmc/chain.py
+++ b/bilby/bilby_mcmc/chain.py
@@ -127,6 +127,8 @@ class Chain(object):
             index = index + self.position + 1
 
         self._chain_array[index] = sample.list
+        if index == self.position:
+            self.current_sample = sample
 
     def key_to_idx(self, key):
         return self.keys.index(key)
-- 
2.43.0


From 7893d0c999032ae586e003e7f920171c07f79eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 50/99] fix: zero temperature chains of an ensemble are counted
 once

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 8a7d2dd..3f8a703 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -768,7 +768,7 @@ class BilbyPTMCMCSampler(object):
         for sampler in self.zerotemp_sampler_list:
             nsamples_list.append(sampler.nsamples)
         if self.pt_rejection_sample:
-            for samp in self.sampler_list[1:]:
+            for samp in self.tempered_sampler_list:
                 nsamples_list.append(
                     len(samp.rejection_sample_zero_temperature_samples())
                 )
-- 
2.43.0


From 334bf2c4671d94c2a61411027e2bddc13b1052d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 51/99] fix: rejection sampling of hot samples leaves the chain
 unchanged

---
 bilby/bilby_mcmc/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index 3f8a703..d3b17bd 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1350,8 +1350,9 @@ class BilbyMCMCSampler(object):
 
         # Revert to true likelihood if needed
         if _sampling_convenience_dump.use_ratio:
-            zerotemp_logl += (
-                _sampling_convenience_dump.likelihood.noise_log_likelihood()
+            zerotemp_logl = (
+                zerotemp_logl
+                + _sampling_convenience_dump.likelihood.noise_log_likelihood()
             )
 
         # Calculate normalised weights
-- 
2.43.0


From c4a51b5f36829719cbdbc7934999634f93306130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:50 +0000
Subject: [PATCH 52/99] fix: points without prior support are not the maximum
 posterior point

---
 bilby/bilby_mcmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/bilby_mcmc/sampler.py b/bilby/bilby_mcmc/sampler.py
index d3b17bd..248578e 100644
--- a/bilby/bilby_mcmc/sampler.py
+++ b/bilby/bilby_mcmc/sampler.py
@@ -1396,7 +1396,7 @@ def get_initial_maximimum_posterior_sample(beta):
         ln_prior = priors.ln_prob(sample)
 
         if np.isinf(ln_prior):
-            return -np.inf
+            return np.inf
 
         likelihood.parameters.update(sample)
 
-- 
2.43.0


From 9abb0896eff6efd07171b15968d76204fa395b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:01 +0000
Subject: [PATCH 53/99] fix: ACT tracking walk without accepted point returns a
 random point

---
 bilby/core/sampler/dynesty_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bilby/core/sampler/dynesty_utils.py b/bilby/core/sampler/dynesty_utils.py
index fb7b8d2..70ec2d9 100644
--- a/bilby/core/sampler/dynesty_utils.py
+++ b/bilby/core/sampler/dynesty_utils.py
@@ -292,12 +292,14 @@ class ACTTrackingRWalk:
                 next_check += check_interval
 
         most_failures = max(most_failures, current_failures)
-        self.act = self._calculate_act(
+        final_act = self._calculate_act(
             accept=accept,
             iteration=iteration,
             samples=np.array(u_list),
             most_failures=most_failures,
         )
+        if np.isfinite(final_act):
+            self.act = final_act
         reject += nfail
         blob = {"accept": accept, "reject": reject, "scale": args.scale}
         iact = int(np.ceil(self.act))
-- 
2.43.0


From 334bb37039a1d40d2e4df77527ab4cde545c9325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:50 +0000
Subject: [PATCH 54/99] fix: a ready-made NotchList can be set as the notch
 list

---
 bilby/gw/detector/strain_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/detector/strain_data.py b/bilby/gw/detector/strain_data.py
index 0193157..c6c3ef1 100644
--- a/bilby/gw/detector/strain_data.py
+++ b/bilby/gw/detector/strain_data.py
@@ -128,10 +128,10 @@ class InterferometerStrainData(object):
         """
         if notch_list is None:
             self._notch_list = NotchList(None)
-        elif isinstance(notch_list, list):
-            self._notch_list = NotchList(notch_list)
         elif isinstance(notch_list, NotchList):
             self._notch_list = notch_list
+        elif isinstance(notch_list, list):
+            self._notch_list = NotchList(notch_list)
         else:
             raise ValueError("notch_list {} not understood".format(notch_list))
         self._frequency_mask_updated = False
-- 
2.43.0


From f67d212fa9d259bb5eccd9dfc3578cc3502f20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 55/99] fix: reweighting resumes after the last sample with
 complete weights

---
 bilby/core/result.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index c5d27bf..1954582 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -191,14 +191,16 @@ def get_weights_for_reweighting(
         old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array = \
             np.genfromtxt(resume_file)
 
-        starting_index = np.argmin(np.abs(old_log_likelihood_array))
+        # samples up to the first one without a new prior value are complete
+        missing = np.isnan(new_log_prior_array)
+        starting_index = np.argmax(missing) if np.any(missing) else nposterior
         logger.info(f'Checkpoint resuming from {starting_index}.')
 
     else:
-        old_log_likelihood_array = np.zeros(nposterior)
-        old_log_prior_array = np.zeros(nposterior)
-        new_log_likelihood_array = np.zeros(nposterior)
-        new_log_prior_array = np.zeros(nposterior)
+        old_log_likelihood_array = np.full(nposterior, np.nan)
+        old_log_prior_array = np.full(nposterior, np.nan)
+        new_log_likelihood_array = np.full(nposterior, np.nan)
+        new_log_prior_array = np.full(nposterior, np.nan)
 
         starting_index = 0
 
@@ -251,8 +253,7 @@ def get_weights_for_reweighting(
             new_log_prior_array[ii] = old_log_prior_array[ii]
 
         if (ii % (n_checkpoint) == 0) and (resume_file is not None):
-            checkpointed_index = np.argmin(np.abs(old_log_likelihood_array))
-            logger.info(f'Checkpointing with {checkpointed_index} samples')
+            logger.info(f'Checkpointing with {ii + 1} samples')
             np.savetxt(
                 resume_file,
                 [old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array])
-- 
2.43.0


From 7841178cc7e8b1c754b844a468c03d553d0982df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 56/99] fix: nested samples can be reweighted

---
 bilby/core/result.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 1954582..f4542a8 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -238,8 +238,8 @@ def get_weights_for_reweighting(
                                 start=starting_index):
         # prior calculation needs to not have prior or likelihood keys
         ln_prior = sample.pop("log_prior", np.nan)
-        if "log_likelihood" in sample:
-            del sample["log_likelihood"]
+        for key in ["log_likelihood", "weights"]:
+            sample.pop(key, None)
 
         if old_prior is not None:
             old_log_prior_array[ii] = old_prior.ln_prob(sample)
@@ -258,8 +258,9 @@ def get_weights_for_reweighting(
                 resume_file,
                 [old_log_likelihood_array, old_log_prior_array, new_log_likelihood_array, new_log_prior_array])
 
-    ln_weights = (
-        new_log_likelihood_array + new_log_prior_array - old_log_likelihood_array - old_log_prior_array)
+    ln_weights = new_log_likelihood_array - old_log_likelihood_array
+    if new_prior is not None:
+        ln_weights = ln_weights + new_log_prior_array - old_log_prior_array
 
     return ln_weights, new_log_likelihood_array, new_log_prior_array, old_log_likelihood_array, old_log_prior_array
 
-- 
2.43.0


From 11c40ddd3e97b8d978596497ba1018bdd54abfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 57/99] fix: reweighting does not change the original result

---
 bilby/core/result.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index f4542a8..e726b28 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -340,9 +340,11 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
     from scipy.special import logsumexp
 
     result = copy(result)
-
-    if use_nested_samples:
-        result.posterior = result.nested_samples
+    # the posterior, meta data and priors are changed below
+    result.posterior = (result.nested_samples if use_nested_samples else result.posterior).copy()
+    result.meta_data = copy(result.meta_data)
+    if new_prior is not None:
+        result.priors = result.priors.copy()
 
     nposterior = len(result.posterior)
     logger.info("Reweighting posterior with {} samples".format(nposterior))
-- 
2.43.0


From 2c665c6e6bee914b3c87d70538104a3188e52e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 58/99] fix: reweighting updates the Bayes factor along with
 the evidence

---
 bilby/core/result.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index e726b28..c0ca490 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -370,9 +370,11 @@ def reweight(result, label=None, new_likelihood=None, new_prior=None,
     result.meta_data["reweighted_using_rejection_sampling"] = True
 
     if use_nested_samples:
-        result.log_evidence += np.log(np.sum(weights))
+        log_evidence_change = np.log(np.sum(weights))
     else:
-        result.log_evidence += logsumexp(ln_weights) - np.log(nposterior)
+        log_evidence_change = logsumexp(ln_weights) - np.log(nposterior)
+    result.log_evidence += log_evidence_change
+    result.log_bayes_factor += log_evidence_change
 
     if new_prior is not None:
         for key, prior in new_prior.items():
-- 
2.43.0


From 35cba6bbbb85792aa012d63cb5156dfa6e1ed7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 59/99] fix: density estimate of the posterior is renewed with
 the posterior

---
 bilby/core/result.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index c0ca490..60d7681 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -709,6 +709,7 @@ class Result(object):
     @posterior.setter
     def posterior(self, posterior):
         self._posterior = posterior
+        self._kde = None
 
     @property
     def log_10_bayes_factor(self):
-- 
2.43.0


From 33b6a3a12d762b31be9e5b1812d73ceef2f52bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 60/99] fix: shuffled combined samples are numbered in their
 order and follow the random seed

---
 bilby/core/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 60d7681..8ec969b 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1861,7 +1861,8 @@ class ResultList(list):
         combined_posteriors = pd.concat(posteriors, ignore_index=True)
 
         if shuffle:
-            result.posterior = combined_posteriors.sample(len(combined_posteriors))
+            result.posterior = combined_posteriors.sample(
+                len(combined_posteriors), ignore_index=True, random_state=random.rng)
         else:
             result.posterior = combined_posteriors
 
-- 
2.43.0


From 5c60628c12dcdbbacbb08370c069d0d8d9a02a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 61/99] fix: results without evidence error do not lower the
 combined evidence error

---
 bilby/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 8ec969b..60f4d87 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1901,7 +1901,7 @@ class ResultList(list):
         # Propagate uncertainty in combined evidence
         log_errs = [res.log_evidence_err for res in self if np.isfinite(res.log_evidence_err)]
         if len(log_errs) > 0:
-            result.log_evidence_err = 0.5 * logsumexp(2 * np.array(log_errs), b=1. / len(self))
+            result.log_evidence_err = 0.5 * logsumexp(2 * np.array(log_errs), b=1. / len(log_errs))
         else:
             result.log_evidence_err = np.nan
 
@@ -1947,7 +1947,7 @@ class ResultList(list):
         # Propagate uncertainty in combined evidence
         log_errs = [res.log_evidence_err for res in self if np.isfinite(res.log_evidence_err)]
         if len(log_errs) > 0:
-            result.log_evidence_err = 0.5 * logsumexp(2 * np.array(log_errs), b=1. / len(self))
+            result.log_evidence_err = 0.5 * logsumexp(2 * np.array(log_errs), b=1. / len(log_errs))
         else:
             result.log_evidence_err = np.nan
 
-- 
2.43.0


From fe035c7a03f34d1800640fd6103ecea2c35ef563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 62/99] fix: posterior volume is the root of the determinant of
 the covariance

---
 bilby/core/result.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 60f4d87..d312e47 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -914,8 +914,7 @@ class Result(object):
         if self.covariance_matrix.ndim == 0:
             return np.sqrt(self.covariance_matrix)
         else:
-            return 1 / np.sqrt(np.abs(np.linalg.det(
-                1 / self.covariance_matrix)))
+            return np.sqrt(np.abs(np.linalg.det(self.covariance_matrix)))
 
     @staticmethod
     def prior_volume(priors):
-- 
2.43.0


From 875a7d2355ed12925173f1d535c7413e0a37fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 63/99] fix: callable sampler keyword arguments are saved as
 their own string

---
 bilby/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index d312e47..af6ac6c 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -800,7 +800,7 @@ class Result(object):
         if dictionary.get('sampler_kwargs', None) is not None:
             for key in dictionary['sampler_kwargs']:
                 if hasattr(dictionary['sampler_kwargs'][key], '__call__'):
-                    dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'])
+                    dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'][key])
 
         try:
             # convert priors to JSON dictionary for both JSON and hdf5 files
-- 
2.43.0


From dc55a8632e46ec6d26f572203d542cff3f9780e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 64/99] fix: saving a result does not change its sampler
 keyword arguments

---
 bilby/core/result.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index af6ac6c..434d38f 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -798,6 +798,7 @@ class Result(object):
 
         # Convert callable sampler_kwargs to strings
         if dictionary.get('sampler_kwargs', None) is not None:
+            dictionary['sampler_kwargs'] = dictionary['sampler_kwargs'].copy()
             for key in dictionary['sampler_kwargs']:
                 if hasattr(dictionary['sampler_kwargs'][key], '__call__'):
                     dictionary['sampler_kwargs'][key] = str(dictionary['sampler_kwargs'][key])
-- 
2.43.0


From 0c69aaa2c2ae86acf5de1c57d80cdfb7fd95923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:02 +0000
Subject: [PATCH 65/99] fix: weights by a new prior are in the order of the
 samples

---
 bilby/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 434d38f..fde33f6 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1686,13 +1686,13 @@ class Result(object):
                                  key in old_prior and key in prior_names}
         else:
             shared_parameters = {key: self.posterior[key] for key in new_prior if key in old_prior}
-        parameters = [{key: self.posterior[key][i] for key in shared_parameters.keys()}
+        parameters = [{key: self.posterior[key].values[i] for key in shared_parameters.keys()}
                       for i in range(len(self.posterior))]
 
         for i in range(len(self.posterior)):
             weight = 1
             for prior_key in shared_parameters.keys():
-                val = self.posterior[prior_key][i]
+                val = self.posterior[prior_key].values[i]
                 weight *= new_prior.evaluate_constraints(parameters[i])
                 weight *= new_prior[prior_key].prob(val) / old_prior[prior_key].prob(val)
 
-- 
2.43.0


From 7a4f7d1b0de08f2e9f887c8db7ae6c9c55eefc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 66/99] fix: copies of prior dictionaries keep the conversion
 function

---
 bilby/core/prior/dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 7e4d664..26de7fb 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -661,7 +661,10 @@ class PriorDict(dict):
         We have to overwrite the copy method as it fails due to the presence of
         defaults.
         """
-        return self.__class__(dictionary=dict(self))
+        new = self.__class__(dictionary=dict(self))
+        if self.conversion_function != self.default_conversion_function:
+            new.conversion_function = self.conversion_function
+        return new
 
 
 class PriorDictException(Exception):
-- 
2.43.0


From dc1ea4e49f784ed8745ce94f4dcaf72f0289f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:37 +0000
Subject: [PATCH 67/99] fix: results with priors of other parameters are
 reported as inconsistent

---
 bilby/core/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index fde33f6..84b7de5 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -1977,10 +1977,10 @@ class ResultList(list):
 
     def check_consistent_priors(self):
         for res in self:
-            for p in self[0].priors.keys():
-                if not self[0].priors[p] == res.priors[p] or len(self[0].priors) != len(res.priors):
-                    msg = "Inconsistent priors between results"
-                    self._error_or_warning_consistency(msg)
+            if set(self[0].priors.keys()) != set(res.priors.keys()) or not all(
+                    self[0].priors[p] == res.priors[p] for p in self[0].priors.keys()):
+                msg = "Inconsistent priors between results"
+                self._error_or_warning_consistency(msg)
 
     def check_consistent_parameters(self):
         if not np.all([set(self[0].search_parameter_keys) == set(res.search_parameter_keys) for res in self]):
-- 
2.43.0


From a4a352a9c632255112a4532941b261651f25b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 68/99] fix: quoted strings in prior files may contain commas
 and spaces

---
 bilby/core/prior/base.py | 53 +++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/bilby/core/prior/base.py b/bilby/core/prior/base.py
index 0dcac2c..75ef053 100644
--- a/bilby/core/prior/base.py
+++ b/bilby/core/prior/base.py
@@ -338,7 +338,6 @@ class Prior(object):
     def _from_repr(cls, string):
         subclass_args = infer_args_from_method(cls.__init__)
 
-        string = string.replace(' ', '')
         kwargs = cls._split_repr(string)
         for key in kwargs:
             val = kwargs[key]
@@ -360,21 +359,10 @@ class Prior(object):
     @classmethod
     def _split_repr(cls, string):
         subclass_args = infer_args_from_method(cls.__init__)
-        args = string.split(',')
-        remove = list()
-        for ii, key in enumerate(args):
-            if '(' in key:
-                jj = ii
-                while ')' not in args[jj]:
-                    jj += 1
-                    args[ii] = ','.join([args[ii], args[jj]]).strip()
-                    remove.append(jj)
-        remove.reverse()
-        for ii in remove:
-            del args[ii]
+        args = _split_arguments(string)
         kwargs = dict()
         for ii, arg in enumerate(args):
-            if '=' not in arg:
+            if '=' not in arg.split('(')[0].split("'")[0].split('"')[0]:
                 logger.debug(
                     'Reading priors with non-keyword arguments is dangerous!')
                 key = subclass_args[ii]
@@ -461,6 +449,43 @@ class Prior(object):
         return val
 
 
+def _split_arguments(string):
+    """
+    Split a string at the commas between arguments, i.e., not at commas within
+    brackets or quotes, and remove the spaces outside quotes.
+
+    Parameters
+    ==========
+    string: str
+        The arguments of a prior as in its representation
+
+    Returns
+    =======
+    list: The arguments
+
+    """
+    args = ['']
+    quote = None
+    depth = 0
+    for ii, char in enumerate(string):
+        if quote is not None:
+            if char == quote:
+                quote = None
+        elif char in "'\"" and char in string[ii + 1:]:
+            quote = char
+        elif char in '([{':
+            depth += 1
+        elif char in ')]}':
+            depth -= 1
+        elif char == ' ':
+            continue
+        elif char == ',' and depth == 0:
+            args.append('')
+            continue
+        args[-1] += char
+    return args
+
+
 class Constraint(Prior):
 
     def __init__(self, minimum, maximum, name=None, latex_label=None,
-- 
2.43.0


From 8fd92e85096def86ebfdee691c1b438065c51271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:43 +0000
Subject: [PATCH 69/99] fix: prior files with characters beyond ASCII are read
 as written

---
 bilby/core/prior/dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 26de7fb..25f61bf 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -92,7 +92,8 @@ class PriorDict(dict):
         prior_file = os.path.join(outdir, "{}.prior".format(label))
         logger.debug("Writing priors to {}".format(prior_file))
         joint_dists = []
-        with open(prior_file, "w") as outfile:
+        # prior files are read with unicode escapes
+        with open(prior_file, "w", encoding="ascii", errors="backslashreplace") as outfile:
             for key in self.keys():
                 if JointPrior in self[key].__class__.__mro__:
                     distname = "_".join(self[key].dist.names) + "_{}".format(
-- 
2.43.0


From 371ef66fb9c829ad87d49deb58547dfa8306c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:43 +0000
Subject: [PATCH 70/99] fix: joint priors of a saved result share their
 distribution when read

---
 bilby/core/prior/dict.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index 25f61bf..bfb3817 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -178,6 +178,19 @@ class PriorDict(dict):
             if key in prior_dict:
                 del prior_dict[key]
         obj = class_(prior_dict)
+
+        # make sure priors containing JointDists are properly handled and point
+        # to the same object when required
+        jointdists = {}
+        for key in obj:
+            if isinstance(obj[key], JointPrior):
+                for name in obj[key].dist.names:
+                    jointdists[name] = obj[key].dist
+        # set dist for joint values so that they point to the same object
+        for key in obj:
+            if isinstance(obj[key], JointPrior):
+                obj[key].dist = jointdists[obj[key].name]
+
         return obj
 
     @classmethod
@@ -192,18 +205,6 @@ class PriorDict(dict):
         with open(filename, "r") as ff:
             obj = json.load(ff, object_hook=decode_bilby_json)
 
-        # make sure priors containing JointDists are properly handled and point
-        # to the same object when required
-        jointdists = {}
-        for key in obj:
-            if isinstance(obj[key], JointPrior):
-                for name in obj[key].dist.names:
-                    jointdists[name] = obj[key].dist
-        # set dist for joint values so that they point to the same object
-        for key in obj:
-            if isinstance(obj[key], JointPrior):
-                obj[key].dist = jointdists[key]
-
         return obj
 
     def from_dictionary(self, dictionary):
-- 
2.43.0


From 950748f692a03a5c710f0837d160b7ee8406b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:43 +0000
Subject: [PATCH 71/99] fix: priors read from hdf5 results are of the class
 that was saved

---
 bilby/core/result.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 84b7de5..840b013 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -544,9 +544,7 @@ class Result(object):
         with h5py.File(filename, "r") as ff:
             data = recursively_load_dict_contents_from_group(ff, '/')
         data["posterior"] = pd.DataFrame(data["posterior"])
-        data["priors"] = PriorDict._get_from_json_dict(
-            json.loads(data["priors"], object_hook=decode_bilby_json)
-        )
+        data["priors"] = json.loads(data["priors"], object_hook=decode_bilby_json)
         try:
             cls = getattr(import_module(data['__module__']), data['__name__'])
         except ImportError:
-- 
2.43.0


From 5f746986f34487c536f84838017a196c29994b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:43 +0000
Subject: [PATCH 72/99] fix: pickled results are found by output directory and
 label

---
 bilby/core/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 840b013..1ef498c 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -531,7 +531,7 @@ class Result(object):
     @staticmethod
     @docstring(_load_doctstring.format(format="pickle"))
     def from_pickle(filename=None, outdir=None, label=None):
-        filename = _determine_file_name(filename, outdir, label, 'hdf5', False)
+        filename = _determine_file_name(filename, outdir, label, 'pkl', False)
         import dill
         with open(filename, "rb") as ff:
             return dill.load(ff)
-- 
2.43.0


From 2e253cff7af07c8ebdbd2eff88104a207ee494ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 73/99] fix: numpy scalars of every type and lists of booleans
 can be saved

---
 bilby/core/utils/io.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index cc8329e..6225ac0 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -35,6 +35,8 @@ class BilbyJsonEncoder(json.JSONEncoder):
             return int(obj)
         if isinstance(obj, np.floating):
             return float(obj)
+        if isinstance(obj, np.bool_):
+            return bool(obj)
         if isinstance(obj, PriorDict):
             return {"__prior_dict__": True, "content": obj._get_json_dict()}
         if isinstance(obj, (BaseJointPriorDist, Prior)):
@@ -264,12 +266,14 @@ def encode_for_hdf5(key, item):
     """
     from ..prior.dict import PriorDict
 
-    if isinstance(item, np.int_):
+    if isinstance(item, np.integer):
         item = int(item)
-    elif isinstance(item, np.float64):
+    elif isinstance(item, np.floating):
         item = float(item)
-    elif isinstance(item, np.complex128):
+    elif isinstance(item, np.complexfloating):
         item = complex(item)
+    elif isinstance(item, np.bool_):
+        item = bool(item)
     if isinstance(item, np.ndarray):
         # Numpy's wide unicode strings are not supported by hdf5
         if item.dtype.kind == 'U':
@@ -283,7 +287,7 @@ def encode_for_hdf5(key, item):
         item_array = np.array(item)
         if len(item) == 0:
             output = item
-        elif np.issubdtype(item_array.dtype, np.number):
+        elif np.issubdtype(item_array.dtype, np.number) or item_array.dtype == bool:
             output = np.array(item)
         elif issubclass(item_array.dtype.type, str) or None in item:
             output = list()
-- 
2.43.0


From 074f7d3d605335946bbf7d6a386c4c02819e7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 74/99] fix: lists with missing values are read from hdf5 files
 as they were saved

---
 bilby/core/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index 6225ac0..9db389e 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -238,7 +238,7 @@ def decode_from_hdf5(item):
         if item.size == 0:
             output = item
         elif "|S" in str(item.dtype) or isinstance(item[0], bytes):
-            output = [it.decode() for it in item]
+            output = [None if it == b"__none__" else it.decode() for it in item]
         else:
             output = item
     elif isinstance(item, np.bool_):
-- 
2.43.0


From a28f44e33a17db8f3a29641701aa9e5918bf9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 75/99] fix: empty dictionaries are kept in hdf5 files

---
 bilby/core/utils/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index 9db389e..da1886e 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -370,6 +370,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic):
     for key, item in dic.items():
         item = encode_for_hdf5(key, item)
         if isinstance(item, dict):
+            h5file.require_group(path + key)
             recursively_save_dict_contents_to_group(h5file, path + key + "/", item)
         else:
             h5file[path + key] = item
-- 
2.43.0


From dd6f2fe8294db346bfbd95ef952eba86c47bd6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 76/99] fix: series keep their index when written as json

---
 bilby/core/utils/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index da1886e..e734a78 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -66,7 +66,7 @@ class BilbyJsonEncoder(json.JSONEncoder):
         if isinstance(obj, pd.DataFrame):
             return {"__dataframe__": True, "content": obj.to_dict(orient="list")}
         if isinstance(obj, pd.Series):
-            return {"__series__": True, "content": obj.to_dict()}
+            return {"__series__": True, "content": obj.tolist(), "index": obj.index.tolist()}
         if inspect.isfunction(obj):
             return {
                 "__function__": True,
@@ -179,7 +179,7 @@ def decode_bilby_json(dct):
     if dct.get("__dataframe__", False):
         return pd.DataFrame(dct["content"])
     if dct.get("__series__", False):
-        return pd.Series(dct["content"])
+        return pd.Series(dct["content"], index=dct.get("index", None))
     if dct.get("__function__", False) or dct.get("__class__", False):
         default = ".".join([dct["__module__"], dct["__name__"]])
         return getattr(import_module(dct["__module__"]), dct["__name__"], default)
-- 
2.43.0


From edd745f7797061a952832c38c2d3445f686cc9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 77/99] fix: incomplete files are removed if a result cannot be
 saved

---
 bilby/core/result.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 1ef498c..158b4e0 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -825,6 +825,9 @@ class Result(object):
             else:
                 raise ValueError("Extension type {} not understood".format(extension))
         except Exception as e:
+            # do not leave an incomplete file behind
+            if os.path.isfile(filename):
+                os.remove(filename)
             filename = ".".join(filename.split(".")[:-1]) + ".pkl"
             safe_file_dump(self, filename, "dill")
             logger.error(
-- 
2.43.0


From 267bccdf651a0f971a0ecf21de7ac2c746365da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 78/99] fix: results without priors or posterior can be saved
 and read

---
 bilby/core/result.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bilby/core/result.py b/bilby/core/result.py
index 158b4e0..5ddf72b 100644
--- a/bilby/core/result.py
+++ b/bilby/core/result.py
@@ -543,8 +543,10 @@ class Result(object):
         filename = _determine_file_name(filename, outdir, label, 'hdf5', False)
         with h5py.File(filename, "r") as ff:
             data = recursively_load_dict_contents_from_group(ff, '/')
-        data["posterior"] = pd.DataFrame(data["posterior"])
-        data["priors"] = json.loads(data["priors"], object_hook=decode_bilby_json)
+        if "posterior" in data:
+            data["posterior"] = pd.DataFrame(data["posterior"])
+        if "priors" in data:
+            data["priors"] = json.loads(data["priors"], object_hook=decode_bilby_json)
         try:
             cls = getattr(import_module(data['__module__']), data['__name__'])
         except ImportError:
@@ -804,7 +806,8 @@ class Result(object):
         try:
             # convert priors to JSON dictionary for both JSON and hdf5 files
             if extension == 'json':
-                dictionary["priors"] = dictionary["priors"]._get_json_dict()
+                if "priors" in dictionary:
+                    dictionary["priors"] = dictionary["priors"]._get_json_dict()
                 if gzip:
                     import gzip
                     # encode to a string
-- 
2.43.0


From 13fe971a2e68ae50d9fc286e10390ea71bfdd1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:24 +0000
Subject: [PATCH 79/99] fix: making a prior dictionary does not change the
 dictionary it is made from

---
 bilby/core/prior/dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index bfb3817..c8e85ef 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -209,6 +209,7 @@ class PriorDict(dict):
 
     def from_dictionary(self, dictionary):
         jpdkwargs = {}
+        dictionary = dict(dictionary)
         for key in list(dictionary.keys()):
             val = dictionary[key]
             if isinstance(val, Prior):
-- 
2.43.0


From 8c1c720a8a44a889a2c405be3c4d283e04e10ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:23 +0000
Subject: [PATCH 80/99] fix: bounds of joint distributions are kept when read
 from files

---
 bilby/core/prior/joint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bilby/core/prior/joint.py b/bilby/core/prior/joint.py
index e00d8c9..67497dd 100644
--- a/bilby/core/prior/joint.py
+++ b/bilby/core/prior/joint.py
@@ -35,6 +35,9 @@ class BaseJointPriorDist(object):
         self.num_vars = len(self.names)
 
         # set the bounds for each parameter
+        if isinstance(bounds, dict):
+            # as in the representation of the distribution
+            bounds = [bounds[name] for name in self.names]
         if isinstance(bounds, list):
             if len(bounds) != len(self):
                 raise ValueError("Wrong number of parameter bounds")
-- 
2.43.0


From 5acf0e11aa02da606150d4aaf94504f488cd067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:23 +0000
Subject: [PATCH 81/99] fix: labels of joint priors are read from prior files
 as written

---
 bilby/core/prior/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/prior/dict.py b/bilby/core/prior/dict.py
index c8e85ef..b0bd7c9 100644
--- a/bilby/core/prior/dict.py
+++ b/bilby/core/prior/dict.py
@@ -256,7 +256,7 @@ class PriorDict(dict):
                     jpkwargs = {
                         item[0].strip(): cls._parse_argument_string(item[1])
                         for item in cls._split_repr(
-                            ", ".join(
+                            ",".join(
                                 [arg for arg in args.split(",") if "dist=" not in arg]
                             )
                         ).items()
-- 
2.43.0


From 9b61c2dab142623b8e3286c3a67e44c45bc4828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:23 +0000
Subject: [PATCH 82/99] fix: complex scalars of every type can be saved as json

---
 bilby/core/utils/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/core/utils/io.py b/bilby/core/utils/io.py
index e734a78..bdc3936 100644
--- a/bilby/core/utils/io.py
+++ b/bilby/core/utils/io.py
@@ -61,7 +61,7 @@ class BilbyJsonEncoder(json.JSONEncoder):
             logger.debug("Cannot import astropy, cannot write cosmological priors")
         if isinstance(obj, np.ndarray):
             return {"__array__": True, "content": obj.tolist()}
-        if isinstance(obj, complex):
+        if isinstance(obj, (complex, np.complexfloating)):
             return {"__complex__": True, "real": obj.real, "imag": obj.imag}
         if isinstance(obj, pd.DataFrame):
             return {"__dataframe__": True, "content": obj.to_dict(orient="list")}
-- 
2.43.0


From bedf9807f1fc5d7484e14e0767ebf263c9883e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 83/99] fix: cached reconstructed samples can be continued with
 another block size

---
 bilby/gw/conversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 643ed8d..09e88e6 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -2499,8 +2499,9 @@ def generate_posterior_samples_from_marginalized_likelihood(
     pbar = tqdm(total=len(samples), file=sys.stdout)
     while ii < len(samples):
         if ii in cached_samples_dict:
-            ii += block
-            pbar.update(block)
+            n_cached = len(cached_samples_dict[ii])
+            ii += n_cached
+            pbar.update(n_cached)
             continue
 
         if pool is not None:
-- 
2.43.0


From a4fc1fcfd12dc3dc5f75d12ba1e51288edd36c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 84/99] fix: waveform settings of a sample are not replaced by
 the defaults

---
 bilby/gw/conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/conversion.py b/bilby/gw/conversion.py
index 09e88e6..3abe81b 100644
--- a/bilby/gw/conversion.py
+++ b/bilby/gw/conversion.py
@@ -1646,6 +1646,8 @@ def _generate_all_cbc_parameters(sample, defaults, base_conversion,
             output_sample[key] = \
                 likelihood.waveform_generator.waveform_arguments[key]
         except (KeyError, AttributeError):
+            if key in output_sample:
+                continue
             default = waveform_defaults[key]
             output_sample[key] = default
             logger.debug('Assuming {} = {}'.format(key, default))
-- 
2.43.0


From f554191869771368daae234890eed7a7663c4240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:38 +0000
Subject: [PATCH 85/99] fix: waveforms are recomputed after the times or
 frequencies have changed

---
 bilby/gw/waveform_generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bilby/gw/waveform_generator.py b/bilby/gw/waveform_generator.py
index f85e42a..e40c769 100644
--- a/bilby/gw/waveform_generator.py
+++ b/bilby/gw/waveform_generator.py
@@ -169,8 +169,11 @@ class WaveformGenerator(object):
                           transformed_model_data_points, parameters):
         if parameters is not None:
             self.parameters = parameters
+        data_points = transformed_model_data_points if model is None else model_data_points
         if self.parameters == self._cache['parameters'] and self._cache['model'] == model and \
-                self._cache['transformed_model'] == transformed_model:
+                self._cache['transformed_model'] == transformed_model and \
+                self._cache['sampling_frequency'] == self.sampling_frequency and \
+                np.array_equal(self._cache['data_points'], data_points):
             return self._cache['waveform']
         if model is not None:
             model_strain = self._strain_from_model(model_data_points, model)
@@ -183,6 +186,8 @@ class WaveformGenerator(object):
         self._cache['parameters'] = self.parameters.copy()
         self._cache['model'] = model
         self._cache['transformed_model'] = transformed_model
+        self._cache['sampling_frequency'] = self.sampling_frequency
+        self._cache['data_points'] = np.copy(data_points)
         return model_strain
 
     def _strain_from_model(self, model_data_points, model):
-- 
2.43.0


From 1487030565fe155d3735de5e497cb61bf6d5478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 86/99] fix: roq source models return None for caught waveform
 errors

---
 bilby/gw/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/source.py b/bilby/gw/source.py
index b8d5c2e..a7b0d9f 100644
--- a/bilby/gw/source.py
+++ b/bilby/gw/source.py
@@ -868,6 +868,8 @@ def _base_roq_waveform(
         luminosity_distance=luminosity_distance, theta_jn=theta_jn, phase=phase,
         a_1=a_1, a_2=a_2, tilt_1=tilt_1, tilt_2=tilt_2, phi_jl=phi_jl,
         phi_12=phi_12, lambda_1=lambda_1, lambda_2=lambda_2, **waveform_arguments)
+    if waveform_polarizations is None:
+        return None
 
     return {
         'linear': {
-- 
2.43.0


From fd310447bf99ce36ffeb09af43dfee9d019f254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:36 +0000
Subject: [PATCH 87/99] fix: missing fiducial waveforms are reported as such

---
 bilby/gw/likelihood/relative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index 2345b25..27269b5 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -239,15 +239,15 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
         self.fiducial_polarizations = self.waveform_generator.frequency_domain_strain(
             parameters)
 
+        if self.fiducial_polarizations is None:
+            raise ValueError(f"Cannot compute fiducial waveforms for {parameters}")
+
         maximum_nonzero_index = np.where(self.fiducial_polarizations["plus"] != 0j)[0][-1]
         logger.debug(f"Maximum Nonzero Index is {maximum_nonzero_index}")
         maximum_nonzero_frequency = self.waveform_generator.frequency_array[maximum_nonzero_index]
         logger.debug(f"Maximum Nonzero Frequency is {maximum_nonzero_frequency}")
         self.maximum_frequency = maximum_nonzero_frequency
 
-        if self.fiducial_polarizations is None:
-            raise ValueError(f"Cannot compute fiducial waveforms for {parameters}")
-
         for interferometer in self.interferometers:
             logger.debug(f"Maximum Frequency is {interferometer.maximum_frequency}")
             wf = interferometer.get_detector_response(self.fiducial_polarizations, parameters)
-- 
2.43.0


From c88844d1f1b232a71fd930c044d9252dde72aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:36 +0000
Subject: [PATCH 88/99] fix: relative binning uses the same bins for summary
 data and waveform ratios

---
 bilby/gw/likelihood/relative.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index 27269b5..dbb75e3 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -313,13 +313,13 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
         for interferometer in self.interferometers:
             mask = interferometer.frequency_mask
             masked_frequency_array = interferometer.frequency_array[mask]
-            masked_bin_inds = []
-            for edge in self.bin_freqs:
-                index = np.where(masked_frequency_array == edge)[0][0]
-                masked_bin_inds.append(index)
+            # not all bin edges need to be within the mask of this interferometer
+            masked_bin_inds = np.searchsorted(masked_frequency_array, self.bin_freqs)
             # For the last bin, make sure to include
             # the last point in the frequency array
-            masked_bin_inds[-1] += 1
+            masked_bin_inds[-1] = np.searchsorted(
+                masked_frequency_array, self.bin_freqs[-1], side="right"
+            )
 
             masked_strain = interferometer.frequency_domain_strain[mask]
             masked_h0 = self.per_detector_fiducial_waveforms[interferometer.name][mask]
@@ -330,8 +330,6 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
             for i in range(self.number_of_bins):
                 start_idx = masked_bin_inds[i]
                 end_idx = masked_bin_inds[i + 1]
-                start = masked_frequency_array[start_idx]
-                stop = masked_frequency_array[end_idx]
                 idxs = slice(start_idx, end_idx)
 
                 strain = masked_strain[idxs]
@@ -339,8 +337,7 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
                 psd = masked_psd[idxs]
 
                 frequencies = masked_frequency_array[idxs]
-                central_frequency = (start + stop) / 2
-                delta_frequency = frequencies - central_frequency
+                delta_frequency = frequencies - self.bin_centers[i]
 
                 a0[i] = noise_weighted_inner_product(h0, strain, psd, duration)
                 b0[i] = noise_weighted_inner_product(h0, h0, psd, duration)
-- 
2.43.0


From d960db2f4adba4f2d5b3d3ff7ef5c3b62f92602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:36 +0000
Subject: [PATCH 89/99] fix: relative binning with detectors of different
 frequency bands or notches

---
 bilby/gw/likelihood/relative.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index dbb75e3..351651d 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -227,9 +227,16 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
         self.bin_widths = self.bin_freqs[1:] - self.bin_freqs[:-1]
         self.bin_centers = (self.bin_freqs[1:] + self.bin_freqs[:-1]) / 2
         for interferometer in self.interferometers:
-            name = interferometer.name
-            self.per_detector_fiducial_waveform_points[name] = (
-                self.per_detector_fiducial_waveforms[name][self.bin_inds]
+            # bin edges can be outside the mask of this interferometer
+            self.per_detector_fiducial_waveform_points[interferometer.name] = (
+                interferometer.get_detector_response(
+                    waveform_polarizations={
+                        mode: self.fiducial_polarizations[mode][self.bin_inds]
+                        for mode in self.fiducial_polarizations
+                    },
+                    parameters=self._fiducial_sky_frame_parameters,
+                    frequencies=self.bin_freqs,
+                )
             )
 
     def set_fiducial_waveforms(self, parameters):
@@ -241,6 +248,7 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
 
         if self.fiducial_polarizations is None:
             raise ValueError(f"Cannot compute fiducial waveforms for {parameters}")
+        self._fiducial_sky_frame_parameters = parameters
 
         maximum_nonzero_index = np.where(self.fiducial_polarizations["plus"] != 0j)[0][-1]
         logger.debug(f"Maximum Nonzero Index is {maximum_nonzero_index}")
-- 
2.43.0


From 85ad4d07c5423890920db52a6d45e5b5630f5433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:36 +0000
Subject: [PATCH 90/99] fix: relative binning uses at least one bin

---
 bilby/gw/likelihood/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index 351651d..ab30235 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -200,7 +200,7 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
             axis=0
         )
         d_phi_from_start = d_phi - d_phi[0]
-        number_of_bins = int(d_phi_from_start[-1] // self.epsilon)
+        number_of_bins = max(int(d_phi_from_start[-1] // self.epsilon), 1)
         bin_inds = list()
         bin_freqs = list()
 
-- 
2.43.0


From ce0dcdbb4441f2b25b4a3f5cae62e7128e4355c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:37 +0000
Subject: [PATCH 91/99] fix: linear ROQ weights of data with notches

---
 bilby/gw/likelihood/roq.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index fddfa92..56c51fb 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -841,8 +841,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
         nonzero_idxs = {}
         data_over_psd = {}
         for ifo in self.interferometers:
-            nonzero_idxs[ifo.name] = ifo_idxs[ifo.name] + int(
-                ifo.frequency_array[ifo.frequency_mask][0] * self.interferometers.duration)
+            nonzero_idxs[ifo.name] = np.where(ifo.frequency_mask)[0][ifo_idxs[ifo.name]]
             data_over_psd[ifo.name] = ifo.frequency_domain_strain[ifo.frequency_mask][ifo_idxs[ifo.name]] / \
                 ifo.power_spectral_density_array[ifo.frequency_mask][ifo_idxs[ifo.name]]
         try:
-- 
2.43.0


From e225d486df9ff84021ed7ccdcd2bc79b3bed26f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:37 +0000
Subject: [PATCH 92/99] fix: linear ROQ weights are not shifted by rounding of
 the time samples

---
 bilby/gw/likelihood/roq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index 56c51fb..e4f199f 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -835,9 +835,9 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
         for ifo in self.interferometers:
             self.weights[ifo.name + '_linear'] = []
         time_space = self.weights['time_samples'][1] - self.weights['time_samples'][0]
-        number_of_time_samples = int(self.interferometers.duration / time_space)
-        start_idx = int(self.weights['time_samples'][0] / time_space)
-        end_idx = int(self.weights['time_samples'][-1] / time_space)
+        number_of_time_samples = int(np.round(self.interferometers.duration / time_space))
+        start_idx = int(np.round(self.weights['time_samples'][0] / time_space))
+        end_idx = int(np.round(self.weights['time_samples'][-1] / time_space))
         nonzero_idxs = {}
         data_over_psd = {}
         for ifo in self.interferometers:
-- 
2.43.0


From aca42811392aae0d823a1a5a3a7b7cb452fd377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:37 +0000
Subject: [PATCH 93/99] fix: prior ranges of ROQ bases can be of parameters
 that are not sampled

---
 bilby/gw/likelihood/roq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index e4f199f..951a779 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -234,6 +234,8 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
             return
         prior_ranges = self.weights[key]
         for param_name, prior_ranges_of_this_param in prior_ranges.items():
+            if param_name not in self.priors:
+                continue
             prior_minimum = self.priors[param_name].minimum
             basis_minimum = np.min(prior_ranges_of_this_param[:, 0])
             if prior_minimum < basis_minimum:
-- 
2.43.0


From 1e8f74048edec2f7b6f30146b33fff541323b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:37 +0000
Subject: [PATCH 94/99] fix: ROQ weights are saved with the extension of their
 format

---
 bilby/gw/likelihood/roq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index 951a779..473499c 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -1015,7 +1015,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
                 "json format for ROQ weights is deprecated, use hdf5 instead.",
                 DeprecationWarning
             )
-        if format not in filename:
+        if not filename.endswith("." + format):
             filename += "." + format
         logger.info(f"Saving ROQ weights to {filename}")
         if format == 'json' or format == 'npz':
-- 
2.43.0


From ec7946c9eb3f035f74e1fa11b035521e9d58b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 95/99] fix: times out of the ROQ time samples have zero
 likelihood with marginalization

---
 bilby/gw/likelihood/roq.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index 473499c..465d21d 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -9,7 +9,6 @@ from ...core.utils import (
     logger, create_frequency_series, speed_of_light, radius_of_earth
 )
 from ..prior import CBCPriorDict
-from ..utils import ln_i0
 
 
 class ROQGravitationalWaveTransient(GravitationalWaveTransient):
@@ -521,6 +520,20 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
             d_inner_h_array=d_inner_h_array,
         )
 
+    def phase_marginalized_likelihood(self, d_inner_h, h_inner_h):
+        # d_inner_h is -inf if the requested time is out of the ROQ time samples
+        out_of_bounds = np.isneginf(np.real(d_inner_h))
+        log_l = super().phase_marginalized_likelihood(
+            np.where(out_of_bounds, 0, d_inner_h), h_inner_h)
+        return np.where(out_of_bounds, -np.inf, log_l)
+
+    def distance_marginalized_likelihood(self, d_inner_h, h_inner_h):
+        # d_inner_h is -inf if the requested time is out of the ROQ time samples
+        out_of_bounds = np.isneginf(np.real(d_inner_h))
+        log_l = super().distance_marginalized_likelihood(
+            np.where(out_of_bounds, 0, d_inner_h), h_inner_h)
+        return np.where(out_of_bounds, -np.inf, log_l)
+
     @staticmethod
     def _closest_time_indices(time, samples):
         """
@@ -594,11 +607,13 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
         roq_time_space = self.weights['time_samples'][1] - self.weights['time_samples'][0]
         times_per_roq_time_space = (times - self.weights['time_samples'][0]) / roq_time_space
         closest_idxs = np.floor(times_per_roq_time_space).astype(int)
+        in_bounds = (closest_idxs >= 2) & (closest_idxs + 2 < len(self.weights['time_samples']))
+        closest_idxs = np.where(in_bounds, closest_idxs, 2)
         # Get the nearest 5 samples of d_inner_h. Calculate only the required d_inner_h values if the time
         # spacing is larger than 5 times the ROQ time spacing.
         weights_linear = self.weights[ifo_name + '_linear'][self.basis_number_linear]
         h_linear_conj = np.conjugate(h_linear)
-        if (times[1] - times[0]) / roq_time_space > 5:
+        if len(times) == 1 or (times[1] - times[0]) / roq_time_space > 5:
             d_inner_h_m2 = np.dot(weights_linear[closest_idxs - 2], h_linear_conj)
             d_inner_h_m1 = np.dot(weights_linear[closest_idxs - 1], h_linear_conj)
             d_inner_h_0 = np.dot(weights_linear[closest_idxs], h_linear_conj)
@@ -618,7 +633,9 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
         d = (b**3. - b) / 6.
         r1 = (-d_inner_h_m2 + 8. * d_inner_h_m1 - 14. * d_inner_h_0 + 8. * d_inner_h_p1 - d_inner_h_p2) / 4.
         r2 = d_inner_h_0 - 2. * d_inner_h_p1 + d_inner_h_p2
-        return a * d_inner_h_0 + b * d_inner_h_p1 + c * r1 + d * r2
+        d_inner_h_array = a * d_inner_h_0 + b * d_inner_h_p1 + c * r1 + d * r2
+        d_inner_h_array[~in_bounds] = -np.inf
+        return d_inner_h_array
 
     def perform_roq_params_check(self, ifo=None):
         """ Perform checking that the prior and data are valid for the ROQ
@@ -1219,7 +1236,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
             time_log_like = self.distance_marginalized_likelihood(
                 d_inner_h, h_inner_h)
         elif self.phase_marginalization:
-            time_log_like = ln_i0(abs(d_inner_h)) - h_inner_h.real / 2
+            time_log_like = self.phase_marginalized_likelihood(d_inner_h, h_inner_h)
         else:
             time_log_like = (d_inner_h.real - h_inner_h.real / 2)
 
-- 
2.43.0


From bcee33592d53f574cc983ce6ecc7c43d19108caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:01 +0000
Subject: [PATCH 96/99] fix: multi-banding with a single band beyond the
 Nyquist frequency

---
 bilby/gw/likelihood/multiband.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/likelihood/multiband.py b/bilby/gw/likelihood/multiband.py
index bec333e..c5b449b 100644
--- a/bilby/gw/likelihood/multiband.py
+++ b/bilby/gw/likelihood/multiband.py
@@ -750,6 +750,8 @@ class MBGravitationalWaveTransient(GravitationalWaveTransient):
                 start_idx, end_idx = self.start_end_idxs[b]
                 Mb = self.Mbs[b]
                 if b == 0:
+                    # the band can extend beyond the frequencies of the data
+                    end_idx = min(end_idx, start_idx + len(interferometer.frequency_mask) - 1 - Ks)
                     optimal_snr_squared += (4. / self.interferometers.duration) * np.vdot(
                         np.real(strain[start_idx:end_idx + 1] * np.conjugate(strain[start_idx:end_idx + 1])),
                         interferometer.frequency_mask[Ks:Ke + 1] * self.windows[start_idx:end_idx + 1]
-- 
2.43.0


From a0615dfe45737604d9311b158409bc99bc024f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:01 +0000
Subject: [PATCH 97/99] fix: multi-banded ROQ weights do not depend on rounding
 of the number of samples

---
 bilby/gw/likelihood/roq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index 465d21d..5b32b12 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -911,7 +911,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
         # prepare time-shifted data, which is multiplied by basis
         tc_shifted_data = dict()
         for ifo in self.interferometers:
-            over_whitened_frequency_data = np.zeros(int(fhigh_basis * ifo.duration) + 1, dtype=complex)
+            over_whitened_frequency_data = np.zeros(int(np.round(fhigh_basis * ifo.duration)) + 1, dtype=complex)
             over_whitened_frequency_data[np.arange(len(ifo.frequency_domain_strain))[ifo.frequency_mask]] = \
                 ifo.frequency_domain_strain[ifo.frequency_mask] / ifo.power_spectral_density_array[ifo.frequency_mask]
             over_whitened_time_data = np.fft.irfft(over_whitened_frequency_data)
@@ -921,7 +921,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
                 start_frequency_bin, end_frequency_bin = start_end_frequency_bins[b]
                 fs = np.arange(start_frequency_bin, end_frequency_bin + 1) / Tb
                 Db = np.fft.rfft(
-                    over_whitened_time_data[-int(2. * fhigh_basis * Tb):]
+                    over_whitened_time_data[-int(np.round(2. * fhigh_basis * Tb)):]
                 )[start_frequency_bin:end_frequency_bin + 1]
                 start_idx_of_next_band = start_idx_of_band + end_frequency_bin - start_frequency_bin + 1
                 tc_shifted_data[ifo.name][start_idx_of_band:start_idx_of_next_band] = 4. / Tb * Db[:, None] * np.exp(
@@ -986,7 +986,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
         # prepare coefficients multiplied by basis
         multibanded_inverse_psd = dict()
         for ifo in self.interferometers:
-            inverse_psd_frequency = np.zeros(int(fhigh_basis * ifo.duration) + 1)
+            inverse_psd_frequency = np.zeros(int(np.round(fhigh_basis * ifo.duration)) + 1)
             inverse_psd_frequency[np.arange(len(ifo.power_spectral_density_array))[ifo.frequency_mask]] = \
                 1. / ifo.power_spectral_density_array[ifo.frequency_mask]
             inverse_psd_time = np.fft.irfft(inverse_psd_frequency)
@@ -994,7 +994,7 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
             start_idx_of_band = 0
             for b, Tb in enumerate(Tbs):
                 start_frequency_bin, end_frequency_bin = start_end_frequency_bins[b]
-                number_of_samples_half = int(fhigh_basis * Tb)
+                number_of_samples_half = int(np.round(fhigh_basis * Tb))
                 start_idx_of_next_band = start_idx_of_band + end_frequency_bin - start_frequency_bin + 1
                 multibanded_inverse_psd[ifo.name][start_idx_of_band:start_idx_of_next_band] = 4. / Tb * np.fft.rfft(
                     np.append(inverse_psd_time[:number_of_samples_half], inverse_psd_time[-number_of_samples_half:])
-- 
2.43.0


From 796a2ec4a1cf699751288e971883af7fb04e39e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:40 +0000
Subject: [PATCH 98/99] fix: frequencies of the ROQ basis and the data are
 matched despite rounding

---
 bilby/gw/likelihood/roq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bilby/gw/likelihood/roq.py b/bilby/gw/likelihood/roq.py
index 5b32b12..c45dac6 100644
--- a/bilby/gw/likelihood/roq.py
+++ b/bilby/gw/likelihood/roq.py
@@ -801,9 +801,12 @@ class ROQGravitationalWaveTransient(GravitationalWaveTransient):
                         duration=roq_scaled_segment_length)
                     roq_mask = roq_frequencies >= roq_scaled_minimum_frequency
                     roq_frequencies = roq_frequencies[roq_mask]
-                    overlap_frequencies, ifo_idxs_this_ifo, roq_idxs_this_ifo = np.intersect1d(
-                        ifo.frequency_array[ifo.frequency_mask], roq_frequencies,
+                    # compare integers to avoid rounding of the frequencies
+                    _, ifo_idxs_this_ifo, roq_idxs_this_ifo = np.intersect1d(
+                        np.round(ifo.frequency_array[ifo.frequency_mask] * roq_scaled_segment_length).astype(int),
+                        np.round(roq_frequencies * roq_scaled_segment_length).astype(int),
                         return_indices=True)
+                    overlap_frequencies = roq_frequencies[roq_idxs_this_ifo]
                 else:
                     overlap_frequencies = ifo.frequency_array[ifo.frequency_mask]
                     roq_idxs_this_ifo = np.arange(
-- 
2.43.0


From 4cf0b4900e797bf86982e22b047372d4cebaad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:40 +0000
Subject: [PATCH 99/99] fix: relative binning with time marginalization does
 not need a fiducial time jitter

---
 bilby/gw/likelihood/relative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bilby/gw/likelihood/relative.py b/bilby/gw/likelihood/relative.py
index ab30235..72a082b 100644
--- a/bilby/gw/likelihood/relative.py
+++ b/bilby/gw/likelihood/relative.py
@@ -129,6 +129,8 @@ class RelativeBinningGravitationalWaveTransient(GravitationalWaveTransient):
         self.fiducial_parameters["fiducial"] = 0
         if self.time_marginalization:
             self.fiducial_parameters["geocent_time"] = interferometers.start_time
+            if self.jitter_time:
+                self.fiducial_parameters["time_jitter"] = 0.0
         if self.distance_marginalization:
             self.fiducial_parameters["luminosity_distance"] = self._ref_dist
         if self.phase_marginalization:
-- 
2.43.0

