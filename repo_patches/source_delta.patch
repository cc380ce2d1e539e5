From 740a7714efcd0c0b3e056b289191f243adfeb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 01/30] fix: CB14 uses the China anelastic attenuation for
 region "china"

The region was compared with a list, so it never matched and the
California adjustment was used instead of dc_20ch.
---
 src/pygmm/campbell_bozorgnia_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a2a5868..8caf34b 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -188,7 +188,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         # Anaelastic attenuation term
         if s.region in ["japan", "italy"]:
             dc_20 = c.dc_20jp
-        elif s.region == ["china"]:
+        elif s.region == "china":
             dc_20 = c.dc_20ch
         else:
             dc_20 = c.dc_20ca
-- 
2.43.0


From b03de903f150aff521abb64875ec298a48722090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 02/30] fix: CB14 Japan site term applies to all sites, with a
 further term below 200 m/s

Equation 19 of Campbell and Bozorgnia (2014) sums the two terms. Using
only one of them made the response jump at 200 m/s.
---
 src/pygmm/campbell_bozorgnia_2014.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 8caf34b..eb5f907 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -246,13 +246,13 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         f_site[~mask] = ((c.c_11 + c.k_2 * cls.COEFF_N) * np.log(vs_ratio))[~mask]
 
         if region == "japan":
-            # Apply regional correction for Japan
+            # Apply regional correction for Japan. The first term applies to
+            # all sites, and the second is added for soft sites.
+            f_site += (c.c_13 + c.k_2 * cls.COEFF_N) * np.log(vs_ratio)
             if v_s30 <= 200:
                 f_site += (c.c_12 + c.k_2 * cls.COEFF_N) * (
                     np.log(vs_ratio) - np.log(200 / c.k_1)
                 )
-            else:
-                f_site += (c.c_13 + c.k_2 * cls.COEFF_N) * np.log(vs_ratio)
 
         # Basin response term
         if np.isnan(pga_ref):
-- 
2.43.0


From bc44c1cdd0fff6523fc29afd477db4f53f11cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 03/30] fix: BSSA14 uses the basin model of the scenario's
 region

---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index b98a311..d3e53ff 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -204,9 +204,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
             site = 0
         else:
             # Compute the site term
-            site = self.calc_site_term(
-                pga_ref, s.v_s30, s.depth_1_0, s.get("depth_1_0", None)
-            )
+            site = self.calc_site_term(pga_ref, s.v_s30, s.depth_1_0, s.region)
 
         ln_resp = event + path + site
         return ln_resp
-- 
2.43.0


From 758cbfd3c96b3c26c33c8a12e674e19f267c88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 04/30] fix: AB06 nonlinear site coefficient between 180 and
 300 m/s includes b_2

Equation 8b of Atkinson and Boore (2006) adds b_2. Without it the
coefficient jumped at both ends of the interval.
---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index d17e5ee..79cfe5d 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -153,7 +153,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         if s.v_s30 <= VS_1:
             b_nl = c.b_1
         elif VS_1 < s.v_s30 <= VS_2:
-            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(VS_1 / VS_2)
+            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(
+                VS_1 / VS_2
+            ) + c.b_2
         elif VS_2 < s.v_s30 <= VS_REF:
             b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
         else:
-- 
2.43.0


From 49f9fa7ae00df4b759dbfcf50f0f080102fbf98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 05/30] fix: AB06 reports PGV in cm/sec and PGD in cm

Both were divided by the acceleration of gravity.
---
 src/pygmm/atkinson_boore_2006.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 79cfe5d..ddeb86f 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -93,8 +93,10 @@ class AtkinsonBoore2006(model.GroundMotionModel):
 
             log10_resp += log10_site
 
-        # Convert from cm/sec/sec to gravity
-        log10_resp -= np.log10(980.665)
+        # Convert the accelerations from cm/sec/sec to gravity. PGV (cm/sec) and
+        # PGD (cm) are not accelerations.
+        log10_resp[self.INDEX_PGA] -= np.log10(980.665)
+        log10_resp[self.INDICES_PSA] -= np.log10(980.665)
 
         ln_resp = np.log(10**log10_resp)
         return ln_resp
-- 
2.43.0


From 61cd85ad21e095558c2873c4149e9b19d624afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 06/30] fix: AB06 standard deviation is converted from log10 to
 natural log units

---
 src/pygmm/atkinson_boore_2006.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index ddeb86f..fc1ec30 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -110,7 +110,8 @@ class AtkinsonBoore2006(model.GroundMotionModel):
             natural log standard deviation
 
         """
-        ln_std = np.ones_like(self.PERIODS) * 0.30
+        # Published standard deviation is in log10 units
+        ln_std = np.ones_like(self.PERIODS) * 0.30 * np.log(10)
         return ln_std
 
     def _calc_stress_factor(self) -> float:
-- 
2.43.0


From 4ee7463d57788afa76c5430cbdb07855d1d002f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:40 +0000
Subject: [PATCH 07/30] fix: Pezeshk et al. (2011) standard deviation is
 converted from log10 to natural log units

---
 src/pygmm/pezeshk_zandieh_tavakoli_2011.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
index cd0be56..2ce3af7 100644
--- a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
+++ b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
@@ -85,10 +85,11 @@ class PezeshkZandiehTavakoli2011(model.GroundMotionModel):
         c = self.COEFF
 
         if s.mag <= 7.0:
-            ln_std_mean = c.c_12 * s.mag + c.c_13
+            log10_std_mean = c.c_12 * s.mag + c.c_13
         else:
-            ln_std_mean = -6.95e-3 * s.mag + c.c_14
+            log10_std_mean = -6.95e-3 * s.mag + c.c_14
 
-        ln_std = np.sqrt(ln_std_mean**2 + c["sigma_reg"] ** 2)
+        # Published standard deviations are in log10 units
+        ln_std = np.log(10) * np.sqrt(log10_std_mean**2 + c["sigma_reg"] ** 2)
 
         return ln_std
-- 
2.43.0


From a3bd2c06f90020e0662714435f0e2732c7d708af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 08/30] fix: GA11 interp_ln_std returns the standard deviation,
 not its exponential

---
 src/pygmm/gulerce_abrahamson_2011.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index eaccece..d07eb97 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -90,9 +90,9 @@ class GulerceAbrahamson2011(model.Model):
         )
 
     def interp_ln_std(self, periods: ArrayLike) -> np.ndarray:
-        """Interpolate the spectral ratio.
+        """Interpolate the logarithmic standard deviation.
 
-        Interpolation of the spectral ratio done in log-period space.
+        Interpolation of the standard deviation done in log-period space.
 
         Parameters
         ----------
@@ -101,17 +101,15 @@ class GulerceAbrahamson2011(model.Model):
 
         Returns
         -------
-        ratio : np.ndarray
-            interpolated ratio
+        ln_std : np.ndarray
+            interpolated logarithmic standard deviation
 
         """
 
-        return np.exp(
-            np.interp(
-                np.log(periods),
-                np.log(self.PERIODS[self.INDICES_PSA]),
-                self._ln_std[self.INDICES_PSA],
-            )
+        return np.interp(
+            np.log(periods),
+            np.log(self.PERIODS[self.INDICES_PSA]),
+            self._ln_std[self.INDICES_PSA],
         )
 
     def _calc_ln_ratio(self):
-- 
2.43.0


From a61f7750282f438ddbada58c7cb33a6d1c5647e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 09/30] fix: AGA16 applies the adjust_c4 argument

The adjustment was stored and then ignored.
---
 src/pygmm/abrahamson_gregor_addo_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 58505f4..20e709c 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -120,7 +120,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
         dist = s.dist_hyp if s.event_type == "intraslab" else s.dist_rup
 
         path_atten = (c.t_2 + c.t_14 * f_event + c.t_3 * (s.mag - 7.8)) * np.log(
-            dist + c.c_4 * np.exp(c.t_9 * (s.mag - 6))
+            dist + (c.c_4 + self.adjust_c4) * np.exp(c.t_9 * (s.mag - 6))
         )
 
         ln_resp = (
-- 
2.43.0


From bb6c4898791a37358d19aef51034c6ae8603030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 10/30] fix: AB20 can be evaluated

The constructor always raised: the optional accelerations defaulted to a
type, attributes that do not exist were read (C.v_s30, C.mag_1, C.mag_2)
and the results were returned from __init__. They are now available as
pgv and ln_std_pgv, as in the other models.
---
 src/pygmm/abrahamson_bhasin_2020.py | 32 ++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/pygmm/abrahamson_bhasin_2020.py b/src/pygmm/abrahamson_bhasin_2020.py
index 1b56c98..5770912 100644
--- a/src/pygmm/abrahamson_bhasin_2020.py
+++ b/src/pygmm/abrahamson_bhasin_2020.py
@@ -85,9 +85,9 @@ class AbrahamsonBhasin2020(model.Model):
     def __init__(
         self,
         scenario: model.Scenario,
-        psa=Optional[float],
-        pga=Optional[float],
-        psa_1s=Optional[float],
+        psa: Optional[float] = None,
+        pga: Optional[float] = None,
+        psa_1s: Optional[float] = None,
     ):
         super().__init__(scenario)
 
@@ -103,7 +103,7 @@ class AbrahamsonBhasin2020(model.Model):
             ln_gm = np.log(psa_1s)
 
         C = self.COEFFS[method]
-        s = scenario
+        s = self._scenario
 
         # Mean
         if s.mag < 5:
@@ -119,7 +119,7 @@ class AbrahamsonBhasin2020(model.Model):
             + C.a_4 * (s.mag - 6)
             + C.a_5 * (8.5 - s.mag) ** 2
             + C.a_6 * np.log(s.dist_rup + 5 * np.exp(0.4 * (s.mag - 6)))
-            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(C.v_s30 / self.V_REF)
+            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(s.v_s30 / self.V_REF)
         )
 
         if method == "psa(T=Tpgv)":
@@ -127,21 +127,29 @@ class AbrahamsonBhasin2020(model.Model):
         else:
 
             def interp(var_1, var_2):
-                if s.mag < C.mag_1:
+                if s.mag < C.M_1:
                     val = var_1
-                elif s.mag > C.mag_2:
+                elif s.mag > C.M_2:
                     val = var_2
                 else:
-                    val = var_1 + (var_2 - var_1) * (s.mag - C.mag_1) / (
-                        C.mag_2 - C.mag_1
-                    )
+                    val = var_1 + (var_2 - var_1) * (s.mag - C.M_1) / (C.M_2 - C.M_1)
                 return val
 
             phi = interp(C.phi_1, C.phi_2)
             tau = interp(C.tau_1, C.tau_2)
 
-        ln_std = np.sqrt(phi**2 + tau**2)
-        return ln_mean, ln_std
+        self._ln_resp = ln_mean
+        self._ln_std = np.sqrt(phi**2 + tau**2)
+
+    @property
+    def pgv(self) -> float:
+        """Peak ground velocity (PGV) computed by the model (cm/sec)."""
+        return np.exp(self._ln_resp)
+
+    @property
+    def ln_std_pgv(self) -> float:
+        """Peak ground velocity log-standard deviation."""
+        return self._ln_std
 
     @classmethod
     def ln_period_pgv(cls, mag: float) -> float:
-- 
2.43.0


From 1e63175884ffa9aaa95463d2ab565cb76abbb050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 11/30] fix: AS96 leaves the caller's intensities unchanged

Values out of range were overwritten with NaN in the caller's array, and
integers could not be masked.
---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 30fcd7c..0d4f2a0 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -53,7 +53,7 @@ class AbrahamsonSilva1996(model.Model):
     @staticmethod
     def calc_ln_dur_incr(nias):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
@@ -66,7 +66,7 @@ class AbrahamsonSilva1996(model.Model):
 
     def interp(self, nias, stds=None):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-- 
2.43.0


From 9ef02dc25d37e593182484b31a1292d2fe7decb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 12/30] fix: AS96 interp adds the intensity increment once

The increment at 0.75 was included in every interpolated duration, so
that interp(0.75) differed from duration.
---
 src/pygmm/abrahamson_silva_1996.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 0d4f2a0..0d5db27 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -35,11 +35,12 @@ class AbrahamsonSilva1996(model.Model):
         stress_drop = np.exp(5.204 + 0.851 * (s.mag - 6))
         moment = 10 ** (1.5 * s.mag + 16.05)
 
-        self._ln_dur = np.log(
+        self._ln_dur_ref = np.log(
             (stress_drop / moment) ** (-1 / 3) / (4.9e6 * 3.2)
             + 0.805 * (1 if s.site_cond == "soil" else 0)
             + 0.063 * max(s.dist_rup - 10, 0)
-        ) + self.calc_ln_dur_incr(0.75)
+        )
+        self._ln_dur = self._ln_dur_ref + self.calc_ln_dur_incr(0.75)
         self._std_err = 0.55
 
     @property
@@ -70,7 +71,7 @@ class AbrahamsonSilva1996(model.Model):
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-        ln_dur = self._ln_dur + self.calc_ln_dur_incr(nias)
+        ln_dur = self._ln_dur_ref + self.calc_ln_dur_incr(nias)
 
         if stds is not None:
             std_errs = np.interp(
-- 
2.43.0


From 61ec0160f665c6891808b3dfffa617b7cdca3e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 13/30] fix: AS16 stress-drop coefficient of D20-80 for reverse
 faults

The strike-slip value was repeated. With 6.579 the source duration is
continuous at M 5.2, as it is for all other mechanisms and durations.
---
 src/pygmm/afshari_stewart_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 6ba6720..5889a82 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -46,7 +46,7 @@ class AfshariStewart2016(model.Model):
             b_1 = np.array([4.992, 3.170, 4.778])
         elif s.mechanism == "RS":
             b_0 = np.array([0.7806, 1.612, 0.7729])
-            b_1 = np.array([7.061, 4.536, 6.188])
+            b_1 = np.array([7.061, 4.536, 6.579])
         elif s.mechanism == "SS":
             b_0 = np.array([1.279, 2.302, 0.8804])
             b_1 = np.array([5.578, 3.467, 6.188])
-- 
2.43.0


From b998df5656c617da78665c0d1e53cf289e064720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 14/30] fix: AS16 basin term uses the differential depth in m

The coefficients and the 200 m limit are in m, depth_1_0 is in km. The
mechanism is no longer passed as the region.
---
 src/pygmm/afshari_stewart_2016.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 5889a82..4523875 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -86,7 +86,8 @@ class AfshariStewart2016(model.Model):
         dz_1ref = 200
         # depth to bedrock duration
         if s.depth_1_0 is not None:
-            dz_1 = s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism)
+            # Convert from km to m
+            dz_1 = 1000 * (s.depth_1_0 - self.calc_depth_1_0(s.v_s30))
             F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)
         else:
             F_dz1 = 0
-- 
2.43.0


From ec46e0a0a7a690a8461bbf96f991abf327fe56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 15/30] fix: missing scenario attributes raise AttributeError

Reading an attribute that is not set raised KeyError, so that hasattr, copy.deepcopy
and pickle failed for every scenario, as did repr without mag and dist_jb.
---
 src/pygmm/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b1ac2c9..7e1faac 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -126,11 +126,16 @@ class Scenario(collections.UserDict):
 
     def __getattr__(self, item):
         """Access the data with attributes."""
-        return self.data[item]
+        try:
+            return self.__dict__["data"][item]
+        except KeyError:
+            raise AttributeError(item) from None
 
     def __repr__(self):
         """Representation."""
-        return "<Scenario(mag={mag}, dist_jb={dist_jb})>".format(**self.data)
+        return "<Scenario(mag={}, dist_jb={})>".format(
+            self.get("mag"), self.get("dist_jb")
+        )
 
     def copy_with(self, **kwds):
         self._check_keys(kwds.keys())
-- 
2.43.0


From 58b796ed87dd7c34af61f63a0b06d397991759a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 16/30] fix: parameter warnings state the recommended limit

The second part of the message was not an f-string: it read "({self.min})".
---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 7e1faac..fc4a9e8 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -462,14 +462,14 @@ class NumericParameter(Parameter):
             if self.min is not None and value < self.min:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is less than the recommended limit ({self.min}).",
+                    f"is less than the recommended limit ({self.min}).",
                     UserWarning,
                     stacklevel=2,
                 )
             elif self.max is not None and self.max < value:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is greater than the recommended limit ({self.max}).",
+                    f"is greater than the recommended limit ({self.max}).",
                     UserWarning,
                     stacklevel=2,
                 )
-- 
2.43.0


From 49ee4d7dd842391eb6329defe7815cbd20c62d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 17/30] fix: CB14 stores estimated inputs as items of the
 scenario

The estimates were set as plain attributes, so that scenario["width"] was None
while scenario.width was the estimate.
---
 src/pygmm/campbell_bozorgnia_2014.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index eb5f907..89798df 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -77,21 +77,21 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
                     mech,
                 )
         if s.depth_2_5 is None:
-            s.depth_2_5 = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
+            s["depth_2_5"] = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
 
         if s.depth_tor is None:
-            s.depth_tor = CY14.calc_depth_tor(s.mag, s.mechanism)
+            s["depth_tor"] = CY14.calc_depth_tor(s.mag, s.mechanism)
 
         if s.width is None:
-            s.width = CampbellBozorgnia2014.calc_width(
+            s["width"] = CampbellBozorgnia2014.calc_width(
                 s.mag, s.dip, s.depth_tor, s.depth_bot
             )
 
         if s.depth_bor is None:
-            s.depth_bor = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
+            s["depth_bor"] = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
 
         if s.depth_hyp is None:
-            s.depth_hyp = CampbellBozorgnia2014.calc_depth_hyp(
+            s["depth_hyp"] = CampbellBozorgnia2014.calc_depth_hyp(
                 s.mag, s.dip, s.depth_tor, s.depth_bor
             )
 
-- 
2.43.0


From 16952cbff0b1836595a5228ff7795452b40fd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 18/30] fix: BA19 standard deviations interpolate between
 magnitudes 4 and 6

np.clip(value, left, right) returns right whenever right < left, so that terms
that decrease with magnitude always took the value of large magnitudes.
---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 595f878..9eed177 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -171,7 +171,7 @@ class BaylessAbrahamson2019(model.Model):
         c = self.COEFF
 
         def interp(left, right):
-            return np.clip(left + (right - left) / 2 * (s.mag - 4), left, right)
+            return left + (right - left) / 2 * np.clip(s.mag - 4, 0, 2)
 
         tau = interp(c.s1, c.s2)
         phi_s2s = interp(c.s3, c.s4)
-- 
2.43.0


From 93d6b06e2e3a438ab0b6bf5b2458efa047a2073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 19/30] fix: Stafford (2017) between-event correlation
 normalizes the frequency once

compute_gamma_E divides its argument by the corner frequency itself.
---
 src/pygmm/stafford_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 4768df4..903d9be 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -158,7 +158,7 @@ class Stafford2017:
         f_max_norm = f_max / fc
 
         # Compute gamma_E
-        gamma_E = cls.compute_gamma_E(f_min_norm, mag)
+        gamma_E = cls.compute_gamma_E(f_min, mag)
 
         # Apply equation 11
         correlation = np.exp(gamma_E * f_min_norm * np.log(f_max_norm / f_min_norm))
-- 
2.43.0


From e33dfd70739b04c3cf5e3e54a1a80635c1fb30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 20/30] fix: Stafford (2017) between-event correlation decays
 at low frequencies

Equation 11 evaluates gamma_E at the normalized frequency; the exponent was also
multiplied by that frequency, which made all low frequencies fully correlated.
---
 src/pygmm/stafford_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 903d9be..44c314f 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -161,7 +161,7 @@ class Stafford2017:
         gamma_E = cls.compute_gamma_E(f_min, mag)
 
         # Apply equation 11
-        correlation = np.exp(gamma_E * f_min_norm * np.log(f_max_norm / f_min_norm))
+        correlation = np.exp(gamma_E * np.log(f_max_norm / f_min_norm))
 
         return correlation
 
-- 
2.43.0


From da8012b251ac2f8da1f9759059ecbc62b0ebd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 21/30] fix: Stafford (2017) within-event correlation decays
 with frequency separation

gamma_A0 and gamma_A1 lacked their sign: correlations grew without bound (239
instead of 0.02 between 0.06 and 41 Hz). With the sign the matrix follows
tests/data/PJS2017_cor_M4pt5_fmin0pt06.csv.
---
 src/pygmm/data/stafford_2017.json | 114 +++++++++++++++---------------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/src/pygmm/data/stafford_2017.json b/src/pygmm/data/stafford_2017.json
index 03a1ecb..071df2d 100644
--- a/src/pygmm/data/stafford_2017.json
+++ b/src/pygmm/data/stafford_2017.json
@@ -1,58 +1,58 @@
-{
-    "CF_C1": 2.181,
-    "CF_C2": 0.496,
-    
-    "gamma_E0": -0.4690,
-    "gamma_E1": 0.1275,
-    "gamma_E2": 0.7793,
-    "gamma_E3": 3.0324,
-    "gamma_E4": 0.0106,
-    
-    "eta_A0": 0.7606,
-    "eta_A1": 0.2993,
-    "eta_A2": 1.5837,
-    "eta_A3": -0.5094,
-    "eta_A4": 24.579,
-    "eta_A5": 2.3518,
-    
-    "gamma_A0": 0.9515,
-    "gamma_A1": 1.2752,
-    "gamma_A2": 1.4802,
-    "gamma_A3": -0.3361,
-    "gamma_A_FREF": 10.0,
-    
-    "eta_S0": 0.1126,
-    "eta_S1": -0.1068,
-    "eta_S_FREF1": 0.25,
-    "eta_S_FREF2": 4.0,
-    
-    "gamma_S0": -0.6968,
-    "gamma_S1": -0.2963,
-    "gamma_S2": 0.3326,
-    "gamma_S3": 5.0078,
-    "gamma_S4": 0.5703,
-    "gamma_S5": 2.3973,
-    "gamma_S6": 3.5779,
-    
-    "nugget_exp": 50.0,
-    
-    "sigma_E0": 0.8757,
-    "sigma_E1": -0.3309,
-    "sigma_E2": 0.5871,
-    "sigma_E3": 5.4264,
-    "sigma_E4": 0.5177,
-    "sigma_E5": 16.357,
-    "sigma_E6": 1.4689,
-    
-    "sigma_S0": 0.6167,
-    "sigma_S1": -0.1495,
-    "sigma_S2": 0.7248,
-    "sigma_S3": 3.6985,
-    "sigma_S4": 0.3640,
-    "sigma_S5": 13.457,
-    "sigma_S6": 2.2497,
-    
-    "sigma_A0": 0.7260,
-    "sigma_A1": 0.0328,
-    "sigma_A_FREF": 5.0
+{
+    "CF_C1": 2.181,
+    "CF_C2": 0.496,
+    
+    "gamma_E0": -0.4690,
+    "gamma_E1": 0.1275,
+    "gamma_E2": 0.7793,
+    "gamma_E3": 3.0324,
+    "gamma_E4": 0.0106,
+    
+    "eta_A0": 0.7606,
+    "eta_A1": 0.2993,
+    "eta_A2": 1.5837,
+    "eta_A3": -0.5094,
+    "eta_A4": 24.579,
+    "eta_A5": 2.3518,
+    
+    "gamma_A0": -0.9515,
+    "gamma_A1": -1.2752,
+    "gamma_A2": 1.4802,
+    "gamma_A3": -0.3361,
+    "gamma_A_FREF": 10.0,
+    
+    "eta_S0": 0.1126,
+    "eta_S1": -0.1068,
+    "eta_S_FREF1": 0.25,
+    "eta_S_FREF2": 4.0,
+    
+    "gamma_S0": -0.6968,
+    "gamma_S1": -0.2963,
+    "gamma_S2": 0.3326,
+    "gamma_S3": 5.0078,
+    "gamma_S4": 0.5703,
+    "gamma_S5": 2.3973,
+    "gamma_S6": 3.5779,
+    
+    "nugget_exp": 50.0,
+    
+    "sigma_E0": 0.8757,
+    "sigma_E1": -0.3309,
+    "sigma_E2": 0.5871,
+    "sigma_E3": 5.4264,
+    "sigma_E4": 0.5177,
+    "sigma_E5": 16.357,
+    "sigma_E6": 1.4689,
+    
+    "sigma_S0": 0.6167,
+    "sigma_S1": -0.1495,
+    "sigma_S2": 0.7248,
+    "sigma_S3": 3.6985,
+    "sigma_S4": 0.3640,
+    "sigma_S5": 13.457,
+    "sigma_S6": 2.2497,
+    
+    "sigma_A0": 0.7260,
+    "sigma_A1": 0.0328,
+    "sigma_A_FREF": 5.0
 }
\ No newline at end of file
-- 
2.43.0


From 6357a7ddcbba92616fc4298dbd9adbf4a1373a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 22/30] fix: Stafford (2017) covariance uses each standard
 deviation that is given

All three were recomputed when any one of them was missing.
---
 src/pygmm/stafford_2017.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 44c314f..7b58507 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -290,9 +290,12 @@ class Stafford2017:
         cov_matrix : ndarray
             The covariance matrix for the Fourier spectral ordinates.
         """
-        if sigma_E is None or sigma_S is None or sigma_A is None:
-            # Compute standard deviations if not provided
-            sigma_E, sigma_S, sigma_A = cls.compute_variances(freqs)
+        # Compute standard deviations if not provided
+        sigmas = cls.compute_variances(freqs)
+        sigma_E, sigma_S, sigma_A = (
+            computed if given is None else given
+            for given, computed in zip((sigma_E, sigma_S, sigma_A), sigmas)
+        )
 
         # Check input dimensions
         n = len(freqs)
-- 
2.43.0


From c3e8ea479aeacc86460ab5bbe32150a75a6203ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 23/30] fix: PR23 conditional model is the base model at the
 0.75 threshold

The row for 0.75 added 1 to the ratio, so that thresholds nearest to but not
equal to 0.75 (such as 0.76) returned twice the D5-75 duration.
---
 src/pygmm/pinilla_ramos_et_al_2023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2023.py b/src/pygmm/pinilla_ramos_et_al_2023.py
index 2c223d6..b42ff42 100644
--- a/src/pygmm/pinilla_ramos_et_al_2023.py
+++ b/src/pygmm/pinilla_ramos_et_al_2023.py
@@ -105,7 +105,7 @@ class PinillaRamosEtAl2023(model.Model):
             0.092914,
             0.067803,
             0.034992,
-            1,
+            0,
             -0.044725,
             -0.112447,
             -0.209689,
-- 
2.43.0


From 37f1a0f9309fe5fa3cc39b8ddf21b61b518d7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 24/30] fix: PR23 lower bound of short durations is zero
 instead of NaN

For low thresholds at short distances on soft sites the standard deviation
exceeds the power-transformed median.
---
 src/pygmm/pinilla_ramos_et_al_2023.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2023.py b/src/pygmm/pinilla_ramos_et_al_2023.py
index b42ff42..93558a3 100644
--- a/src/pygmm/pinilla_ramos_et_al_2023.py
+++ b/src/pygmm/pinilla_ramos_et_al_2023.py
@@ -330,7 +330,11 @@ class PinillaRamosEtAl2023(model.Model):
             )
 
             model_plus_sigma = ((c_model * median) ** n3 + sigma_cond) ** (1 / n3)
-            model_minus_sigma = ((c_model * median) ** n3 - sigma_cond) ** (1 / n3)
+            # One standard deviation can exceed the transformed median of very short
+            # durations
+            model_minus_sigma = np.maximum(
+                (c_model * median) ** n3 - sigma_cond, 0
+            ) ** (1 / n3)
 
             return (
                 float(c_model * median),
-- 
2.43.0


From d6bc1fb72ec48fef2abe1fe6a75be743e10a0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 25/30] fix: PR24 duration_model evaluates every element of its
 arguments

Only the first element of the array arguments was used.
---
 src/pygmm/pinilla_ramos_et_al_2024.py | 35 +++++++++++----------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2024.py b/src/pygmm/pinilla_ramos_et_al_2024.py
index 63f727b..e8cded5 100644
--- a/src/pygmm/pinilla_ramos_et_al_2024.py
+++ b/src/pygmm/pinilla_ramos_et_al_2024.py
@@ -789,31 +789,24 @@ def duration_model(
     from .model import Scenario
 
     # Convert inputs to arrays
-    mag_arr = np.atleast_1d(mag)
-    rrup_arr = np.atleast_1d(rrup)
-    vs30_arr = np.atleast_1d(vs30)
-
-    # Create scenario and model
-    scenario = Scenario(
-        mag=mag_arr[0],
-        dist_rup=rrup_arr[0],
-        v_s30=vs30_arr[0],
-        event_type=eq_type,
-        region=region,
+    mag_arr, rrup_arr, vs30_arr = np.broadcast_arrays(
+        np.atleast_1d(mag), np.atleast_1d(rrup), np.atleast_1d(vs30)
     )
-    model_inst = PinillaRamosEtAl2024(scenario)
 
-    if np.isclose(energy, 0.75):
-        duration, plus_sigma, minus_sigma = (
-            model_inst.duration,
-            model_inst.duration_plus_sigma,
-            model_inst.duration_minus_sigma,
+    results = np.empty((3,) + mag_arr.shape)
+    for index in np.ndindex(mag_arr.shape):
+        # Create scenario and model
+        scenario = Scenario(
+            mag=mag_arr[index],
+            dist_rup=rrup_arr[index],
+            v_s30=vs30_arr[index],
+            event_type=eq_type,
+            region=region,
         )
-    else:
-        duration, plus_sigma, minus_sigma = model_inst.duration_for_energy(energy)
+        model_inst = PinillaRamosEtAl2024(scenario)
+        results[(slice(None),) + index] = model_inst.duration_for_energy(energy)
 
-    # Return as arrays to match expected return type
-    return np.array([duration]), np.array([plus_sigma]), np.array([minus_sigma])
+    return results[0], results[1], results[2]
 
 
 if __name__ == "__main__":
-- 
2.43.0


From e58ce12f698c49123e6e83f3f94ede8d4959bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 26/30] fix: BA19 standard deviation above 24 Hz is not NaN

---
 src/pygmm/bayless_abrahamson_2019.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 9eed177..ae10e8a 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -177,7 +177,10 @@ class BaylessAbrahamson2019(model.Model):
         phi_s2s = interp(c.s3, c.s4)
         phi_ss = interp(c.s5, c.s6)
 
-        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c.c1a**2)
+        # The median coefficients, including c1a, are only tabulated up to FREQS[IDX_MAX]
+        c1a = np.nan_to_num(c.c1a)
+
+        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c1a**2)
         return ln_std
 
     @staticmethod
-- 
2.43.0


From 630825418b81f72ebc475e1fb6b5787e7f280b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 27/30] fix: Stafford (2017) correlation of neighbouring
 frequencies tends to one

The nugget term was subtracted only, so that the correlation dropped to zero next
to the diagonal (0.58 instead of the published 0.98 at 0.0600 and 0.0603 Hz).
---
 src/pygmm/stafford_2017.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 7b58507..451241a 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -181,12 +181,10 @@ class Stafford2017:
         # Base correlation (equation 14)
         rho_A0 = (1 - eta_A) * np.exp(gamma_A * np.log(f_max / f_min))
 
-        # Full correlation including nugget effect (equation 15)
-        if np.isclose(f_i, f_j):
-            return 1.0
-        else:
-            rho_A = rho_A0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
-            return rho_A
+        # Full correlation including nugget effect (equation 15), which tends to 1 as
+        # the frequencies coincide
+        nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+        return rho_A0 * (1 - nugget) + nugget
 
     @classmethod
     def between_site_correlation(cls, f_i, f_j):
@@ -204,12 +202,10 @@ class Stafford2017:
         # Base correlation (equation 14)
         rho_S0 = (1 - eta_S) * np.exp(gamma_S * np.log(f_max / f_min))
 
-        # Full correlation including nugget effect (equation 15)
-        if np.isclose(f_i, f_j):
-            return 1.0
-        else:
-            rho_S = rho_S0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
-            return rho_S
+        # Full correlation including nugget effect (equation 15), which tends to 1 as
+        # the frequencies coincide
+        nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+        return rho_S0 * (1 - nugget) + nugget
 
     @classmethod
     def compute_variances(cls, freqs):
-- 
2.43.0


From 0715f0387ddbb400d3f77ad2e60acb056b33aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 28/30] fix: BA18 correlation accepts any array_like of
 frequencies

---
 src/pygmm/bayless_abrahamson_2018.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygmm/bayless_abrahamson_2018.py b/src/pygmm/bayless_abrahamson_2018.py
index f3db13f..f36796c 100644
--- a/src/pygmm/bayless_abrahamson_2018.py
+++ b/src/pygmm/bayless_abrahamson_2018.py
@@ -40,6 +40,7 @@ class BaylessAbrahamson2018:
         """
 
         # Create two matrices of frequencies
+        freqs = np.asarray(freqs)
         n = freqs.shape[0]
         freqs_row = np.full((n, n), freqs)
         freqs_col = freqs_row.T
-- 
2.43.0


From d30be4d678e089e6a3c16c3e6cc1971f77102b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:44 +0000
Subject: [PATCH 29/30] fix: Kishida (2017) accepts conditioning values without
 any masked value

---
 src/pygmm/kishida_2017.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/kishida_2017.py b/src/pygmm/kishida_2017.py
index 7244613..e881b58 100644
--- a/src/pygmm/kishida_2017.py
+++ b/src/pygmm/kishida_2017.py
@@ -55,7 +55,8 @@ def calc_cond_mean_spectrum_vector(
     if not np.all(np.diff(periods) > 0):
         raise ValueError("`periods` must be increasing")
 
-    mask = ln_psas_cond.mask
+    # Full array, also if nothing is masked
+    mask = np.ma.getmaskarray(ln_psas_cond)
 
     # Group the periods into those not being conditioned upon, and those used
     # for the conditioning. See Equations (14), (15), and (16)
-- 
2.43.0


From 802fe2ba59c6ecf2d49d93de3edd92602aacda98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:10 +0000
Subject: [PATCH 30/30] fix: CB14 hanging-wall taper without width is not a
 division by zero

---
 src/pygmm/campbell_bozorgnia_2014.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 89798df..5b5e861 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -156,6 +156,9 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         elif s.dist_x <= R_1:
             ratio = s.dist_x / R_1
             f_hngRx = c.h_1 + c.h_2 * ratio + c.h_3 * ratio**2
+        elif R_1 == R_2:
+            # Beyond a taper without width
+            f_hngRx = 0
         else:
             ratio = (s.dist_x - R_1) / (R_2 - R_1)
             f_hngRx = np.maximum(0, c.h_4 + c.h_5 * ratio + c.h_6 * ratio**2)
-- 
2.43.0

