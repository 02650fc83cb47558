From a6a755fa8e7506b544081a19b0c563d29798c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 01/22] fix: angle between (nearly) coincident or antipodal
 points is NaN

Rounding can push the cosine past +-1; an observer exactly above a facula
or spot then made the coverage calculation fail or return NaN.
---
 vspec_vsm/helpers.py | 2 +-
 vspec_vsm/spots.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 1c76705..3310aa8 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -100,7 +100,7 @@ def get_angle_between(
     mu = (np.sin(lat1) * np.sin(lat2)
           + np.cos(lat1) * np.cos(lat2)
           * np.cos(lon1-lon2))
-    return np.arccos(mu)
+    return np.arccos(np.clip(mu, -1, 1))
 
 def proj_ortho(
     lat0: u.Quantity,
diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4ae976b..d8b2fe3 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -244,7 +244,7 @@ class StarSpot:
         cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                   + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                   * np.cos(sub_obs_coords['lon']-self.coords['lon']))
-        c0 = np.arccos(cos_c0)
+        c0 = np.arccos(np.clip(cos_c0, -1, 1))
         c = np.linspace(-90, 90, n_points)*u.deg
         a = self.angular_radius(star_rad).to(u.deg)
         rad = a**2 - (c-c0)**2
-- 
2.43.0


From 45eae1f563970940b1ef81e11f5761d16241cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 02/22] fix: orthographic projection is NaN at the disk center

Rounding can push mu past 1, so the point under the observer was dropped
from the disk (and from a transit mask).
---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 3310aa8..d067676 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -188,7 +188,7 @@ def proj_ortho(
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
               * np.cos(lon0-lons))
-        a = np.arccos(mu)
+        a = np.arccos(np.clip(mu, -1, 1))
         num = np.cos(c) - np.cos(a)*np.cos(b)
         den = np.sin(a)*np.sin(b)
         den[den==0]=1e-20 # supress warning. This is overwritten anyway.
@@ -197,7 +197,7 @@ def proj_ortho(
             num / den,
             1
         )
-        cos_C = np.round(cos_C, 4)
+        cos_C = np.clip(np.round(cos_C, 4), -1, 1)
         C = np.where(
             lons == lon0,
             0, np.arccos(cos_C)
-- 
2.43.0


From 1961b8987c93f40eae98b5983ee6dbdada6c4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 03/22] fix: orthographic projection ignores lon0 when centered
 on a pole

---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index d067676..e53c69a 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -180,10 +180,10 @@ def proj_ortho(
     c = np.pi/2 - lats
     if b == 0:  # centered on north pole
         a = c
-        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)
+        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
     elif b == np.pi:  # centered on south pole
         a = c
-        C = np.where(c >= np.pi/2, lons, np.nan)
+        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
-- 
2.43.0


From 772c807fc17230eac68c6a5f6e93a76a773847f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 04/22] fix: circle overlap is NaN when the circles are
 (nearly) tangent

---
 vspec_vsm/helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index e53c69a..a9df454 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -273,6 +273,7 @@ def calc_circ_fraction_inside_unit_circle(x, y, r):
     d2 = (d**2 + r**2 - R**2) / (2*d)
 
     def area(_R, _d):
+        _d = np.clip(_d, -_R, _R) # guard against rounding near tangency
         return _R**2 * np.arccos(_d/_R) - _d * np.sqrt(_R**2 - _d**2)
     A1 = area(R, d1)
     A2 = area(r, d2)
-- 
2.43.0


From 5b9505d5ba60877ca5e4340fd796c15f5613ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 05/22] fix: adding a facula made on a rectangular grid to a
 spiral-grid collection raises TypeError

---
 vspec_vsm/faculae.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 8ea1a62..f8493f3 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -380,8 +380,7 @@ class FaculaCollection:
             facula = (facula,)
         for fac in facula:
             fac: Facula
-            if not fac.gridmaker == self.gridmaker:
-                fac.gridmaker = self.gridmaker
+            fac.gridmaker = self.gridmaker
         self.faculae += tuple(facula)
 
     def clean_faclist(self) -> None:
-- 
2.43.0


From 308acfe2d61ae7efe9e614a854df5c55cc94bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 06/22] fix: a spot added to a collection keeps distances
 computed on its old grid

Mapping the collection then failed with a shape mismatch.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index d8b2fe3..3ba084b 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -390,7 +390,7 @@ class SpotCollection:
         if isinstance(spot, StarSpot):
             spot = [spot]
         for s in spot:
-            s.gridmaker = self.gridmaker
+            s.set_gridmaker(self.gridmaker)
         self.spots += tuple(spot)
 
     def clean_spotlist(self):
-- 
2.43.0


From ebe88c8fc539d8fa9cba25039c714d06fb5bd9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 07/22] fix: a decaying spot can reach a negative area

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 3ba084b..bcae39b 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -311,7 +311,7 @@ class StarSpot:
                     self.area_current = self.area_max - area_decay
         else:
             area_decay = time * self.decay_rate
-            if area_decay > self.area_max:
+            if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
                 self.area_current = self.area_current - area_decay
-- 
2.43.0


From c486ef59ed82d9dbdb2db88e106ecbdf30d11e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 08/22] fix: surface map rounds the photosphere Teff to single
 precision

calc_coverage then looked up a Teff that was not in the map (KeyError).
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index bcae39b..eb26ebe 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -436,7 +436,7 @@ class SpotCollection:
         surface_map : array of astropy.units.Quantity , shape(M,N)
             Map of the stellar surface with Teff assigned to each pixel
         """
-        surface_map = self.gridmaker.zeros()*star_teff.unit + star_teff
+        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff
         for spot in self.spots:
             teff_dict = spot.map_pixels(star_rad)
             # penumbra
-- 
2.43.0


From 561feeb72900bc70c7f8bf3b5b16b391f8abd7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 09/22] fix: coverage fractions are lost or raise KeyError

Two Teffs with the same two-decimal key overwrote each other, and a star
with no quiet photosphere left raised KeyError when granulation is on.
---
 vspec_vsm/star.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 32bb960..2326191 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -555,13 +555,14 @@ class Star:
             pix_has_teff = np.where(surface_map == teff, 1, 0)
             nominal_area = np.sum(pix_has_teff*ld*proj_area)
             covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
-            total_data[f'{teff:.2f}'] = nominal_area/total_area
-            covered_data[f'{teff:.2f}'] = covered_area/total_area
+            key = f'{teff:.2f}'
+            total_data[key] = total_data.get(key, 0) + nominal_area/total_area
+            covered_data[key] = covered_data.get(key, 0) + covered_area/total_area
         granulation_teff = self.teff - self.granulation.dteff
         # initialize. This way it's okay if there's something else with that Teff too.
-        if granulation_teff not in teffs:
-            total_data[f'{granulation_teff:.2f}'] = 0
-            covered_data[f'{granulation_teff:.2f}'] = 0
+        for teff in (self.teff, granulation_teff):
+            total_data.setdefault(f'{teff:.2f}', 0)
+            covered_data.setdefault(f'{teff:.2f}', 0)
 
         phot_frac = total_data[f'{self.teff:.2f}']
         total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
-- 
2.43.0


From 237ae8f173dd7bec245e931992ba2eaf2f8b3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 10/22] fix: average_teff raises TypeError, coverage keys are
 strings

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 2326191..851a135 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -621,7 +621,7 @@ class Star:
         num = 0
         den = 0
         for teff, value in dat.items():
-            num += teff**4 * value
+            num += u.Quantity(teff)**4 * value
             den += value
         return ((num/den)**(0.25)).to(u.K)
 
-- 
2.43.0


From 9cd9883f2581971e843d08697af6b3ef580399e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 11/22] fix: get_granulation_coverage raises KeyError when the
 mean coverage is 0

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 851a135..7e7fb94 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -777,7 +777,7 @@ class Star:
         if self.granulation is None:
             return np.zeros(shape=time.shape)
         else:
-            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['amp'] == 0):
+            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                 shape = time.shape
                 arr = np.zeros(shape=shape)
                 return arr
-- 
2.43.0


From 7ec1d40d578154c34ada108dff468b416a59b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 12/22] fix: FlareGenerator.pdf always raises
 UnitConversionError

A probability density of energy has units of 1/energy.
---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 62eace0..cdb94e6 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -325,7 +325,7 @@ class FlareGenerator:
         pdf : float or np.ndarray
             The probability density of energy
         """
-        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(u.dimensionless_unscaled)
+        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(1/self.energy_unit)
 
     def cdf(self, energy: u.Quantity):
         """
-- 
2.43.0


From b026b1536f2146cf149a94eed3fefb0b87524d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 13/22] fix: flare integral is 0 over time periods shorter than
 20 minutes

Too few samples were taken; also keep the step within time_resolution.
---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index cdb94e6..a92cdcc 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -679,7 +679,7 @@ class FlareCollection:
             tstart, tfinish, sub_obs_coords)
         flare_timeareas = []
         time_resolution = 10*u.min
-        N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
+        N_steps = int(np.ceil(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)) + 1
         time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
             timearea = flare.get_timearea(time)
-- 
2.43.0


From 00a76cbb2b578d020dbb7d02d4f9317265e7c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 14/22] fix: facula area is lost when wall and floor Teff round
 to the same value

The documented ValueError was only raised for exactly equal values.
---
 vspec_vsm/faculae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index f8493f3..9298b2d 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -242,7 +242,7 @@ class Facula:
 
         
         """
-        if self.floor_dteff == self.wall_dteff:
+        if round_teff(self.floor_dteff) == round_teff(self.wall_dteff):
             raise ValueError(
                 'Wall and Floor teff are equal. This is not allowed.')
         if self.radius < self.floor_teff_min_rad:
-- 
2.43.0


From 19197f6fc480d10e0f7ef9703edc2ae2b06f52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 15/22] fix: sign error in the time-averaged spot area

The integral of the growth phase is (A_max - A_init)/rate; with the wrong
sign the average can exceed the peak.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index eb26ebe..b92a773 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -672,7 +672,7 @@ class SpotGenerator:
             return self.dist_area_mean
         else:
             integrated_area = (self.dist_area_mean / self.growth_rate) \
-                + (self.init_area / self.growth_rate) \
+                - (self.init_area / self.growth_rate) \
                 + (self.dist_area_mean**2/2/self.decay_rate)
             return integrated_area / self.mean_lifetime
 
-- 
2.43.0


From 2f229cb3aafd1a684529c51acb5fb2fe25bbe905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 16/22] fix: SpotGenerator.off has a growth rate with units of
 time

Aging a spot made by it raised UnitConversionError.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index b92a773..2e31a35 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -619,7 +619,7 @@ class SpotGenerator:
             dist_area_logsigma=1,
             umbra_teff=0*u.K,
             penumbra_teff=0*u.K,
-            growth_rate=0*u.day,
+            growth_rate=0/u.day,
             decay_rate=0*MSH/u.day,
             init_area=10*MSH,
             distribution='iso',
-- 
2.43.0


From bd43603b82a62361c07c8f871c67041eb15000ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 17/22] fix: granulation coverage is NaN for densely sampled
 times or zero amplitude

The covariance matrix was singular in single precision (about 30 points per
period are enough), and Star reported the NaNs as zero coverage.
---
 vspec_vsm/granules.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index cbd44de..840cc3a 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -5,6 +5,7 @@ Granulation
 
 """
 import jax
+import jax.experimental
 import jax.numpy as jnp
 from tinygp import kernels, GaussianProcess
 from astropy import units as u
@@ -63,7 +64,7 @@ def build_gp(params: dict, X: np.ndarray) -> GaussianProcess:
     return GaussianProcess(
         kernel,
         X,
-        diag=0,
+        diag=1e-12, # keeps the covariance matrix positive definite
         mean=params['mean']
     )
 
@@ -158,7 +159,13 @@ class Granulation:
         np.ndarray
             The coverage corresponding to each point in `time`.
         """
-        key = jax.random.PRNGKey(seed=self.seed)
-        gp = self._build_gp(time.to_value(time_unit))
-        coverage = gp.sample(key)
-        return save_cast_coverage(np.array(coverage))
+        if self.params['scale'] == 0:
+            # no variability, and the covariance matrix would be singular
+            return save_cast_coverage(np.full(time.shape, self.params['mean'], dtype=float))
+        # single precision is not enough to factor the covariance matrix
+        # when the time axis is densely sampled.
+        with jax.experimental.enable_x64():
+            key = jax.random.PRNGKey(seed=self.seed)
+            gp = self._build_gp(time.to_value(time_unit))
+            coverage = np.array(gp.sample(key))
+        return save_cast_coverage(coverage)
-- 
2.43.0


From 59a600bba540e1c153725f04c8cc5be4bdd8f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:09 +0000
Subject: [PATCH 18/22] fix: plot_surface fails with current matplotlib and on
 spiral grids

---
 vspec_vsm/star.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 7e7fb94..6f49d0e 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -685,9 +685,11 @@ class Star:
                     transform=ccrs.PlateCarree(), zorder=zorder)
         mu = self.get_mu(lat0, lon0)
         ld = self.ld_mask_for_plotting(mu)
+        _, _, ld = self.gridmaker.display_grid(nlat, nlon, ld)
+        ld = ld.to_value(u.dimensionless_unscaled)
         alpha = 1-ld.T/np.max(ld.T)
-        ax.imshow(np.ones_like(ld), extent=(0, 360, -90, 90),
-                  transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap=plt.cm.get_cmap('gray'), zorder=100)
+        ax.imshow(np.ones_like(alpha), extent=(0, 360, -90, 90),
+                  transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap='gray', zorder=100)
 
     def get_flares_over_observation(self, time_duration: Quantity):
         """
-- 
2.43.0


From d4a79067447170c58abda71b45d88657363cba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:18 +0000
Subject: [PATCH 19/22] fix: orthographic projection is wrong very close to the
 poles

---
 vspec_vsm/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index a9df454..8e87cd0 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -178,10 +178,11 @@ def proj_ortho(
     lats: np.ndarray = lats.to_value(u.rad)
     b = np.pi/2 - lat0
     c = np.pi/2 - lats
-    if b == 0:  # centered on north pole
+    pole_tol = 1e-9 # cos_C below is dominated by rounding this close to a pole
+    if b < pole_tol:  # centered on north pole
         a = c
         C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
-    elif b == np.pi:  # centered on south pole
+    elif b > np.pi - pole_tol:  # centered on south pole
         a = c
         C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
-- 
2.43.0


From 610bfaf2d0dac93a8c6d6a92e9ff0bab810e6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:04 +0000
Subject: [PATCH 20/22] fix: time-averaged facula area does not follow the
 facula evolution law

The radius of a facula e-folds twice per lifetime, so its area averages
pi r0^2 (1-e^-4)/4 over its life. With the previous value, which is the
average for an area that e-folds twice, only 57% of the requested coverage
was reached in growth-decay equilibrium.
---
 vspec_vsm/faculae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 9298b2d..7369277 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -614,11 +614,11 @@ class FaculaGenerator:
         The time-averaged area of a typical facula.
 
         .. math::
-            \\bar{A} = \\frac{ \\pi r_0 ^2 (1-e^{-2}) }{2}
+            \\bar{A} = \\frac{ \\pi r_0 ^2 (1-e^{-4}) }{4}
 
         :type: astropy.units.Quantity
         """
-        return 0.5 * np.pi * (1-np.e**-2) * self.dist_r_peak**2
+        return 0.25 * np.pi * (1-np.e**-4) * self.dist_r_peak**2
 
     def get_n_faculae_expected(self, time: u.Quantity, rad_star: u.Quantity) -> float:
         """
-- 
2.43.0


From 0a6a355c2e111ca2b0b6ef5c746670dc0de00246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:34 +0000
Subject: [PATCH 21/22] fix: sky projection misplaces points by up to 1% of the
 stellar radius

The cosine of the position angle was rounded to four decimals, which moves
points close to the central meridian. It is clipped to [-1, 1] instead.
---
 vspec_vsm/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 8e87cd0..4f9d030 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -198,7 +198,7 @@ def proj_ortho(
             num / den,
             1
         )
-        cos_C = np.clip(np.round(cos_C, 4), -1, 1)
+        cos_C = np.clip(cos_C, -1, 1)
         C = np.where(
             lons == lon0,
             0, np.arccos(cos_C)
-- 
2.43.0


From a80cf1e9a154e3d04adfdb6ed63dda6eb527abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:00 +0000
Subject: [PATCH 22/22] fix: flare integral over a window misses flares shorter
 than the 10 min sampling

The time-area was sampled every 10 minutes whatever the width of the flare,
so flares of a few minutes were counted wrongly or not at all. Sample the part
of the window in which the flare emits with at least ten points per width.
---
 vspec_vsm/flares.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index a92cdcc..0daa1b0 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -678,10 +678,13 @@ class FlareCollection:
         visible_flares = self.get_visible_flares_in_timeperiod(
             tstart, tfinish, sub_obs_coords)
         flare_timeareas = []
-        time_resolution = 10*u.min
-        N_steps = int(np.ceil(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)) + 1
-        time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
+            # sample the part of the window in which the flare emits, finely enough to resolve it
+            start = max(tstart, flare.tpeak - flare.fwhm)
+            end = max(start, min(tfinish, flare.tpeak + 20*flare.fwhm))
+            time_resolution = min(10*u.min, 0.1*flare.fwhm)
+            N_steps = int(np.ceil(((end-start)/time_resolution).to(u.Unit('')).value)) + 1
+            time = np.linspace(start, end, N_steps)
             timearea = flare.get_timearea(time)
             flare_timeareas.append(dict(Teff=flare.Teff, timearea=timearea))
         return flare_timeareas
-- 
2.43.0

