From c94c08e7525da20ad7ab2598794b925ed9aa5909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 01/12] fix: draw side and magnitude of twohalfnorm from
 different seeds

The uniform that chooses the half and the normal that gives the magnitude
used the same seed, so the magnitude was a function of the chosen side.
---
 appletree/randgen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/appletree/randgen.py b/appletree/randgen.py
index 6d9a3ea..f851b44 100644
--- a/appletree/randgen.py
+++ b/appletree/randgen.py
@@ -629,7 +629,7 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
         an updated seed, random variables.
 
     """
-    key, seed = random.split(key)
+    key, seed_side, seed_magnitude = random.split(key, 3)
 
     shape = shape or jnp.broadcast_shapes(jnp.shape(mu), jnp.shape(sigma_pos), jnp.shape(sigma_neg))
     mu = jnp.broadcast_to(mu, shape).astype(FLOAT)
@@ -637,10 +637,10 @@ def twohalfnorm(key, mu, sigma_pos, sigma_neg, shape=()):
     sigma_neg = jnp.broadcast_to(sigma_neg, shape).astype(FLOAT)
 
     pos_half_prob = sigma_pos / (sigma_pos + sigma_neg)
-    use_pos_half = random.uniform(seed, shape, minval=0.0, maxval=1.0) < pos_half_prob
+    use_pos_half = random.uniform(seed_side, shape, minval=0.0, maxval=1.0) < pos_half_prob
     use_neg_half = ~use_pos_half
 
-    n_sigma = jnp.abs(random.normal(seed, shape=shape))
+    n_sigma = jnp.abs(random.normal(seed_magnitude, shape=shape))
     offset = use_pos_half * n_sigma * sigma_pos - use_neg_half * n_sigma * sigma_neg
     rvs = offset + mu
 
-- 
2.43.0


From 2e5c7fba8e7a37fa36d9adc7045abd9be42dd56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 02/12] fix: parse the dumped instructions as JSON in
 from_backend

The instructions are written with json.dumps, but were read back with eval,
which fails on true, false, null, NaN and Infinity.
---
 appletree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/context.py b/appletree/context.py
index 2e49d3e..def8b48 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -60,7 +60,7 @@ class Context:
     def from_backend(cls, backend_h5_file_name, moves=None):
         """Initialize context from a backend_h5 file."""
         with h5py.File(get_file_path(backend_h5_file_name)) as file:
-            instruct = eval(file["mcmc"].attrs["instruct"])
+            instruct = json.loads(file["mcmc"].attrs["instruct"])
             nwalkers = file["mcmc"].attrs["nwalkers"]
             batch_size = file["mcmc"].attrs["batch_size"]
         tree = cls(instruct)
-- 
2.43.0


From b15a302944bdfe7978a5253810e20f676282a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 03/12] fix: do not take the logarithm of the values of
 log_point maps

Only positions are converted to log space; map_point also converted the map
values, so that a log_point map returned log10 of the stored values.
---
 appletree/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index 4845980..73918e1 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -265,7 +265,7 @@ class Map(Config):
         val = self.interpolator(
             self.preprocess(pos),
             self.preprocess(self.coordinate_system),
-            self.preprocess(self.map),
+            self.map,
         )
         return val
 
-- 
2.43.0


From 0f9c86c06a52e19681cdf1d97dd23668fb2aab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 04/12] fix: keep inverse distance weights finite at the nodes
 of regular grids

At a node the weight is 1 / FLOAT_POS_MIN, and its product with the map value
overflowed float32, so that the interpolated value was inf or nan.
---
 appletree/interpolation.py | 47 +++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 4f79a70..4a1c524 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -157,8 +157,12 @@ def map_interpolator_regular_binning_2d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr3 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos3 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr4 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos4 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
-    val = val1 / dr1 + val2 / dr2 + val3 / dr3 + val4 / dr4
-    val /= 1.0 / dr1 + 1.0 / dr2 + 1.0 / dr3 + 1.0 / dr4
+    # Normalize by the distance to the closest corner, so that the weights
+    # do not overflow when pos coincides with a node
+    dr = jnp.minimum(jnp.minimum(dr1, dr2), jnp.minimum(dr3, dr4))
+
+    val = val1 * (dr / dr1) + val2 * (dr / dr2) + val3 * (dr / dr3) + val4 * (dr / dr4)
+    val /= dr / dr1 + dr / dr2 + dr / dr3 + dr / dr4
 
     return val
 
@@ -221,25 +225,32 @@ def map_interpolator_regular_binning_3d(pos, ref_pos_lowers, ref_pos_uppers, ref
     dr7 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos7 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
     dr8 = jnp.clip(jnp.sqrt(jnp.sum((ref_pos8 - pos) ** 2, axis=-1)), FLOAT_POS_MIN, FLOAT_POS_MAX)
 
+    # Normalize by the distance to the closest corner, so that the weights
+    # do not overflow when pos coincides with a node
+    dr = jnp.minimum(
+        jnp.minimum(jnp.minimum(dr1, dr2), jnp.minimum(dr3, dr4)),
+        jnp.minimum(jnp.minimum(dr5, dr6), jnp.minimum(dr7, dr8)),
+    )
+
     val = (
-        val1 / dr1
-        + val2 / dr2
-        + val3 / dr3
-        + val4 / dr4
-        + val5 / dr5
-        + val6 / dr6
-        + val7 / dr7
-        + val8 / dr8
+        val1 * (dr / dr1)
+        + val2 * (dr / dr2)
+        + val3 * (dr / dr3)
+        + val4 * (dr / dr4)
+        + val5 * (dr / dr5)
+        + val6 * (dr / dr6)
+        + val7 * (dr / dr7)
+        + val8 * (dr / dr8)
     )
     val /= (
-        1.0 / dr1
-        + 1.0 / dr2
-        + 1.0 / dr3
-        + 1.0 / dr4
-        + 1.0 / dr5
-        + 1.0 / dr6
-        + 1.0 / dr7
-        + 1.0 / dr8
+        dr / dr1
+        + dr / dr2
+        + dr / dr3
+        + dr / dr4
+        + dr / dr5
+        + dr / dr6
+        + dr / dr7
+        + dr / dr8
     )
 
     return val
-- 
2.43.0


From 904a800fb171031ec46a5b3ab2aa50517c074200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 05/12] fix: accept edges of shape (1,) in
 map_interpolator_regular_binning_1d

This is the documented shape and the one Map passes; it failed for every 1D
regular binning map.
---
 appletree/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/appletree/interpolation.py b/appletree/interpolation.py
index 4a1c524..a078f9c 100644
--- a/appletree/interpolation.py
+++ b/appletree/interpolation.py
@@ -109,7 +109,9 @@ def map_interpolator_regular_binning_1d(pos, ref_pos_lowers, ref_pos_uppers, ref
     """
     assert len(pos.shape) == 1, "pos must have 1 columns"
 
-    ref_pos = jnp.linspace(ref_pos_lowers, ref_pos_uppers, len(ref_val))
+    ref_pos = jnp.linspace(
+        jnp.reshape(ref_pos_lowers, ()), jnp.reshape(ref_pos_uppers, ()), len(ref_val)
+    )
     val = curve_interpolator(pos, ref_pos, ref_val)
 
     return val
-- 
2.43.0


From 740a9d0b85b1c836519e6135a020db432d5b6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 06/12] fix: do not ignore the method of 1D regular binning
 maps

Any method, even an unknown one, was silently evaluated with IDW.
---
 appletree/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 73918e1..e492938 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -188,6 +188,7 @@ class Map(Config):
     }
 
     _REGBIN_INTERPOLATORS = {
+        (1, "IDW"): interpolation.map_interpolator_regular_binning_1d,
         (2, "IDW"): interpolation.map_interpolator_regular_binning_2d,
         (2, "LERP"): interpolation.map_interpolator_regular_binning_bilinear_2d,
         (2, "NN"): interpolation.map_interpolator_regular_binning_nearest_neighbor_2d,
@@ -342,8 +343,6 @@ class Map(Config):
 
     def _get_regbin_interpolator(self, ndim):
         """Return the regular-binning interpolator for the given dimensionality."""
-        if ndim == 1:
-            return interpolation.map_interpolator_regular_binning_1d
         key = (ndim, self.method)
         try:
             return self._REGBIN_INTERPOLATORS[key]
-- 
2.43.0


From 17c4290947f86c1d0791ba0ece724cc79f6cbc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:20 +0000
Subject: [PATCH 07/12] fix: keep 1D regular binning out of the table of 2D and
 3D interpolators

The previous commit refused unsupported methods of 1D regular binning maps by
adding an entry to the table, which is documented to hold 2D and 3D only.
---
 appletree/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/appletree/config.py b/appletree/config.py
index e492938..07c4b3a 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -188,7 +188,6 @@ class Map(Config):
     }
 
     _REGBIN_INTERPOLATORS = {
-        (1, "IDW"): interpolation.map_interpolator_regular_binning_1d,
         (2, "IDW"): interpolation.map_interpolator_regular_binning_2d,
         (2, "LERP"): interpolation.map_interpolator_regular_binning_bilinear_2d,
         (2, "NN"): interpolation.map_interpolator_regular_binning_nearest_neighbor_2d,
@@ -343,6 +342,8 @@ class Map(Config):
 
     def _get_regbin_interpolator(self, ndim):
         """Return the regular-binning interpolator for the given dimensionality."""
+        if ndim == 1 and self.method == "IDW":
+            return interpolation.map_interpolator_regular_binning_1d
         key = (ndim, self.method)
         try:
             return self._REGBIN_INTERPOLATORS[key]
-- 
2.43.0


From 53569b400eeb669b8716b0e5b3490e360b84b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 08/12] fix: do not reuse the chain of a previous sampler after
 the fit is continued

---
 appletree/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/appletree/context.py b/appletree/context.py
index def8b48..5fc8796 100644
--- a/appletree/context.py
+++ b/appletree/context.py
@@ -223,6 +223,10 @@ class Context:
     ):
         """Prepare for fitting, initialize backend and sampler."""
         self._set_backend(nwalkers, read_only=read_only, reset=reset)
+        # Drop the chain of the previous sampler, see get_post_parameters
+        for attr in ["_logp", "_chain"]:
+            if hasattr(self, attr):
+                delattr(self, attr)
         self.sampler = emcee.EnsembleSampler(
             nwalkers,
             self._ndim,
-- 
2.43.0


From 4913af162d1acefae06d27963f9f146f6f819570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 09/12] fix: refuse a config specified twice in the same
 takes_config

---
 appletree/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/appletree/config.py b/appletree/config.py
index 07c4b3a..9008398 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -46,6 +46,8 @@ def takes_config(*configs):
         for config in configs:
             if not isinstance(config, Config):
                 raise RuntimeError("Specify config options by Config objects")
+            if config.name in result:
+                raise RuntimeError(f"Attempt to specify config {config.name} twice")
             config.taken_by = plugin_class.__name__
             result[config.name] = config
 
-- 
2.43.0


From c1960dafa9599b8284f68490dee829ffcde4acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 10/12] fix: do not overwrite a module of the same name when
 adding extensions

---
 appletree/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/appletree/utils.py b/appletree/utils.py
index 6b08084..e5782ae 100644
--- a/appletree/utils.py
+++ b/appletree/utils.py
@@ -571,16 +571,17 @@ def add_extensions(module1, module2, base, force=False):
 
     """
     # Assign the module2 as attribute of module1
-    is_exists = module2.__name__ in dir(module1)
+    name = module2.__name__.split(".")[-1]
+    is_exists = name in dir(module1)
     if is_exists and not force:
         raise ValueError(
-            f"{module2.__name__} already existed in {module1.__name__}, "
+            f"{name} already existed in {module1.__name__}, "
             f"do not re-register a module with same name",
         )
     else:
         if is_exists:
-            print(f"You have forcibly registered {module2.__name__} to {module1.__name__}")
-        setattr(module1, module2.__name__.split(".")[-1], module2)
+            print(f"You have forcibly registered {name} to {module1.__name__}")
+        setattr(module1, name, module2)
 
     # Iterate the module2 and assign the single Plugin(s) as attribute(s)
     for x in dir(module2):
-- 
2.43.0


From 8d69e1cba46592440a3d8482e1f4671a552aa00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 11/12] fix: build the maps of a SigmaMap from its configured
 value

---
 appletree/config.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/appletree/config.py b/appletree/config.py
index 9008398..49d4079 100644
--- a/appletree/config.py
+++ b/appletree/config.py
@@ -456,33 +456,27 @@ class SigmaMap(Config):
         """Read maps."""
         self.llh_name = llh_name
         _configs = self.get_configs()
-        _configs_default = self.get_default()
 
         if isinstance(_configs, list) and len(_configs) > 4:
             raise ValueError(f"You give too much information in {self.name}'s configs.")
-        if isinstance(_configs_default, list) and len(_configs_default) > 4:
+        if isinstance(self.default, list) and len(self.default) > 4:
             raise ValueError(f"You give too much information in {self.name}'s default configs.")
 
         sigmas = ["median", "lower", "upper"]
         for i, sigma in enumerate(sigmas):
-            default = self._resolve_sigma_value(
-                _configs_default,
+            value = self._resolve_sigma_value(
+                _configs,
                 i,
-                "default configuration",
+                "configuration",
             )
             m = Map(
                 method=self.method,
                 name=f"{self.name}_{sigma}",
-                default=default,
+                default=value,
             )
             setattr(self, sigma, m)
 
             if self.llh_name is not None:
-                value = self._resolve_sigma_value(
-                    _configs,
-                    i,
-                    "configuration",
-                )
                 self._update_sigma_cache(m.name, value)
 
         self.median.build(llh_name=self.llh_name)
-- 
2.43.0


From f9a58d4bc3366bb6fabb83563f42545a2c0872dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 12/12] fix: let ComponentFixed be normalized on the number of
 events

ComponentFixed with norm_type 'on_sim' raised AttributeError, because
get_normalization asks for the plugins, which only ComponentSim has.
---
 appletree/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/appletree/component.py b/appletree/component.py
index de7c5d6..b906863 100644
--- a/appletree/component.py
+++ b/appletree/component.py
@@ -599,6 +599,9 @@ class ComponentFixed(Component):
     # Do not initialize this class because it is base
     __is_base = True
 
+    # Fixed component has no plugins, so it never uses MC input
+    _use_mcinput = False
+
     def __init__(self, *args, **kwargs):
         """Initialization."""
         if not kwargs.get("file_name", None):
-- 
2.43.0

