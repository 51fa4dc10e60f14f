From e39c6cf63ff55bdeb8ad830e2134175656e2f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 01/35] fix: integer aperture areas truncated the Petrosian
 profile to integers

The work arrays of calculate_petrosian took the dtype of the area list.
---
 petrofit/petrosian/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0e8d28c..5597261 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -69,7 +69,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
     # Compute the surface brightness at the edge of each aperture
     zero_mask = np.where(area_diff > 0)
-    I_at_r = np.zeros_like(area_diff)
+    I_at_r = np.zeros_like(area_diff, dtype=float)
     I_at_r[zero_mask] = flux_diff[zero_mask] / area_diff[zero_mask]
 
     # Compute the Petrosian value at each radius
@@ -96,7 +96,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         flux_diff_err = np.sqrt(flux_err[:-1] ** 2 + flux_err[1:] ** 2)
 
         # Compute the error in the surface brightness at the edge of each aperture
-        I_at_r_err = np.zeros_like(area_diff)
+        I_at_r_err = np.zeros_like(area_diff, dtype=float)
         I_at_r_err[zero_mask] = abs(I_at_r[zero_mask]) * np.sqrt(
             (flux_diff_err[zero_mask] / flux_diff[zero_mask]) ** 2
             + (area_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
@@ -108,7 +108,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         )
 
         # Compute the error in the Petrosian value at each radius
-        petrosian_err = np.zeros_like(area_diff)
+        petrosian_err = np.zeros_like(area_diff, dtype=float)
         petrosian_err[zero_mask] = abs(petrosian_list[1:][zero_mask]) * np.sqrt(
             (I_at_r_err[zero_mask] / I_at_r[zero_mask]) ** 2
             + (I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask]) ** 2
-- 
2.43.0


From 231cffa6af104338dc8ffedbf5cc59020e7e7654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 02/35] fix: repeated aperture areas shifted the Petrosian
 profile against its radii

The inverse indices of np.unique refer to the unique values, not to the full
array they were applied to.
---
 petrofit/petrosian/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 5597261..eb8516d 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -78,8 +78,11 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     # Append the first Petrosian value to the beginning of the array
     petrosian_list = np.insert(petrosian_list, 0, np.nan)
 
-    # Match input
-    _, unique_indices = np.unique(area_list, return_inverse=True)
+    # Match input (repeated areas share the value of their first occurrence)
+    _, first_indices, inverse_indices = np.unique(
+        area_list, return_index=True, return_inverse=True
+    )
+    unique_indices = first_indices[inverse_indices]
     petrosian_list = petrosian_list[unique_indices]
 
     if area_err is not None or flux_err is not None:
-- 
2.43.0


From 4b9636f736c1f4b30f31f22a5b3efd6b40b1ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 03/35] fix: fraction_to_r raised when r_epsilon is below the
 first radius

Out of range is documented to return NaN.
---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index eb8516d..95230bb 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -291,7 +291,7 @@ def fraction_to_r(
 
     r_epsilon = r_petrosian * epsilon
 
-    if r_epsilon > max(r_list):
+    if not min(r_list) <= r_epsilon <= max(r_list):
         return np.nan, np.nan
 
     f = interp1d(
-- 
2.43.0


From c102634ef4702f876831dc327b48150d25cbb3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 04/35] fix: fraction_to_r raised when r_epsilon +/- its error
 is out of range

The error estimate is NaN there, and the radius itself is still returned.
---
 petrofit/petrosian/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 95230bb..3c79430 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -326,11 +326,13 @@ def fraction_to_r(
         r_list,
         flux_list - flux_err,
         kind="cubic" if interp_kind is None else interp_kind,
+        bounds_error=False,
     )
     f_upper = interp1d(
         r_list,
         flux_list + flux_err,
         kind="cubic" if interp_kind is None else interp_kind,
+        bounds_error=False,
     )
 
     fractional_flux_err_lower = f_lower(r_epsilon - r_epsilon_err)
-- 
2.43.0


From cc3848563c6390f8abe68960d537fb1bb67a3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 05/35] fix: errors of fraction_to_r ignored interp_kind and
 interp_num

The bounds were always sampled with a cubic, which also raised for short
radius lists.
---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 3c79430..10439b3 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -345,13 +345,13 @@ def fraction_to_r(
     fractional_flux_lower = fractional_flux - fractional_flux_err
 
     r_list_lower, flux_list_lower = get_interpolated_values(
-        r_list, flux_list - flux_err
+        r_list, flux_list - flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_upper, flux_list_lower, growing=True)
     r_frac_upper = np.nan if idx is None else r_list_lower[idx]
 
     r_list_upper, flux_list_upper = get_interpolated_values(
-        r_list, flux_list + flux_err
+        r_list, flux_list + flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_lower, flux_list_upper, growing=True)
     r_frac_lower = np.nan if idx is None else r_list_upper[idx]
-- 
2.43.0


From b1b2592b9979e7dd5b6efa3edc472039cd5b8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 06/35] fix: total_flux and half_flux raised with
 interp_kind=None

Use the same fallback as fraction_to_r.
---
 petrofit/petrosian/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 10439b3..1d43c2a 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -789,7 +789,11 @@ class Petrosian:
         if not min(self.r_list) <= r_total_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_total_flux)
         return float(total_flux)
 
@@ -817,7 +821,11 @@ class Petrosian:
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_half_flux)
         return float(total_flux)
 
-- 
2.43.0


From b374c8c8272777e86b5141aab4167482f7e44954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 07/35] fix: half_flux_err used attributes which do not exist

---
 petrofit/petrosian/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 1d43c2a..04869ae 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -835,14 +835,15 @@ class Petrosian:
         Returns the photometric uncertainty at `r_half_flux` or np.nan if out of range.
         Note that this includes errors in estimating `r_half_flux`.
         """
-        r_half_flux_err = self.r_half_flux_err
+        r_half_light = self.r_half_light
+        r_half_light_err = self.r_half_light_err
 
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
         f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_flux)
-        return np.sqrt(flux_err**2 + r_half_flux_err**2)
+        flux_err = f(r_half_light)
+        return np.sqrt(flux_err**2 + r_half_light_err**2)
 
     @property
     def r_half_light(self):
-- 
2.43.0


From 3565a40c95ee000f772ee5a42204931213b1a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 08/35] fix: estimate_epsilon looked up a grid column which
 does not exist

The half-light radius of generated grids is called c_r_50.
---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index ba37500..0c29e1c 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -482,7 +482,7 @@ class PetrosianCorrection:
         eta = p.eta
 
         if epsilon_fraction == 0.5:
-            r_ep = row["c_r_eff"]
+            r_ep = row["c_r_50"]
         elif epsilon_fraction == 0.8:
             r_ep = row["c_r_80"]
         elif epsilon_fraction == 0.99:
-- 
2.43.0


From f4a7981caefdaa55800b6536f32d0b3a625990db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 09/35] fix: oversampling window ignored the origin of the
 image

The window is defined in the coordinates of the model, so an image which does
not start at (0, 0) got the oversampled values at the wrong pixels.
---
 petrofit/modeling/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 2dba4e7..49aa2c0 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -497,8 +497,8 @@ class PSFConvolvedModel2D(FittableModel):
                 )
 
                 # Compute window indices in main image frame at data resolution first
-                i_sub_min = int(np.round(sub_grid_origin[0]))
-                j_sub_min = int(np.round(sub_grid_origin[1]))
+                i_sub_min = int(np.round(sub_grid_origin[0] - x.min()))
+                j_sub_min = int(np.round(sub_grid_origin[1] - y.min()))
                 i_sub_max = i_sub_min + sub_grid_size
                 j_sub_max = j_sub_min + sub_grid_size
 
-- 
2.43.0


From c56effebfe05fde5a95404c25c62cc522a414ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 10/35] fix: oversampling window crossing the edge of the image
 raised

Only the target indices were clipped, not the oversampled sub-image.
---
 petrofit/modeling/models.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 49aa2c0..0cdbfdc 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -502,15 +502,16 @@ class PSFConvolvedModel2D(FittableModel):
                 i_sub_max = i_sub_min + sub_grid_size
                 j_sub_max = j_sub_min + sub_grid_size
 
-                # Clip window indices
-                if i_sub_min < 0:
-                    i_sub_min = 0
-                if j_sub_min < 0:
-                    j_sub_min = 0
-                if i_sub_max > i.max():
-                    i_sub_max = i.max() + 1
-                if j_sub_max > j.max():
-                    j_sub_max = j.max() + 1
+                # Clip window indices, and the window itself, to the image
+                i_offset, j_offset = i_sub_min, j_sub_min
+                i_sub_min, i_sub_max = np.clip([i_sub_min, i_sub_max], 0, i.max() + 1)
+                j_sub_min, j_sub_max = np.clip([j_sub_min, j_sub_max], 0, j.max() + 1)
+                sub_model_image = sub_model_image[
+                    (j_sub_min - j_offset) * psf_factor : (j_sub_max - j_offset)
+                    * psf_factor,
+                    (i_sub_min - i_offset) * psf_factor : (i_sub_max - i_offset)
+                    * psf_factor,
+                ]
 
                 # Convert to PSF resolution
                 i_sub_min *= psf_factor
-- 
2.43.0


From 2e27014d7fe8304c70c472c682c1724b1ac2852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 11/35] fix: removing oversample was accepted while
 psf_oversample needs it

The model could not be evaluated afterwards.
---
 petrofit/modeling/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 0cdbfdc..40b0d04 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -270,6 +270,10 @@ class PSFConvolvedModel2D(FittableModel):
     @oversample.setter
     def oversample(self, oversample):
         psf_oversample = self._get_psf_factor()
+        if oversample is None and psf_oversample > 1:
+            raise ValueError(
+                "oversample should be equal to or an integer multiple of psf_oversample"
+            )
         if oversample is not None:
             if isinstance(oversample, (tuple, list, np.ndarray)):
                 if len(oversample) != 4:
-- 
2.43.0


From 3eeaaf2af9d9a7246199f133b5777f58490850d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 12/35] fix: Nuker2D used sqrt(2) times the distance to the
 center

---
 petrofit/modeling/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 40b0d04..f175271 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -599,9 +599,7 @@ class GenSersic2D(models.Sersic2D):
 @custom_model
 def Nuker2D(x, y, amplitude=1, r_break=1, x_0=0, y_0=0, alpha=2, betta=4, gamma=0):
     """Two dimensional Nuker2D model"""
-    x_maj = (x - x_0) + (y - y_0)
-    x_min = -(x - x_0) + (y - y_0)
-    r = np.sqrt((x_maj) ** 2 + (x_min) ** 2)
+    r = np.sqrt((x - x_0) ** 2 + (y - y_0) ** 2)
 
     r[np.where(r == 0)] = np.nan
 
-- 
2.43.0


From 1a52faff717771c5c65e187fb5342f9b16c98dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 13/35] fix: segm_mask appended the background label to the
 list of the caller

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 83cd66f..40f4b5f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -224,7 +224,7 @@ def segm_mask(source, segm, mask_background=False):
     ):
         sources = [source]
     elif isinstance(source, list):
-        sources = source
+        sources = list(source)
     else:
         raise TypeError(
             "Input should be a label (int or photutils SourceCatalog) or a list of such items"
-- 
2.43.0


From 776a9e86941249f0de08711c2bc90d3183013e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 14/35] fix: hst_flux_to_abmag raised for numpy scalars and
 integer arrays

NaN cannot be stored in an integer array, and 0-d arrays cannot be indexed by
the result of np.where.
---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index ca7ff16..4d08d97 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -60,8 +60,8 @@ def make_radius_list(max_pix, n, log=False):
 def hst_flux_to_abmag(flux, header):
     """Convert HST flux to AB Mag"""
     if not type(flux) in [int, float]:
-        flux = np.array(flux)
-        flux[np.where(flux <= 0)] = np.nan
+        flux = np.array(flux, dtype=float)
+        flux = np.where(flux > 0, flux, np.nan)
     elif flux <= 0:
         return np.nan
 
-- 
2.43.0


From 98b3520ccf348da7bfa7331b69b98a29d3a1aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 15/35] fix: cutout_subtract changed its input and raised for
 odd or edge cutouts

The documentation promises a copy.
---
 petrofit/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 4d08d97..674e1f3 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -230,10 +230,11 @@ def cutout_subtract(image, target, x, y):
     """
 
     dy, dx = target.shape
-    bounds = np.array([y - dy // 2, y + dy // 2, x - dx // 2, x + dx // 2])
-    bounds[bounds < 0] = 0
-    ymin, ymax, xmin, xmax = bounds
-    image[ymin:ymax, xmin:xmax] -= target
+    y0, x0 = y - dy // 2, x - dx // 2
+    ymin, ymax = np.clip([y0, y0 + dy], 0, image.shape[0])
+    xmin, xmax = np.clip([x0, x0 + dx], 0, image.shape[1])
+    image = image.copy()
+    image[ymin:ymax, xmin:xmax] -= target[ymin - y0 : ymax - y0, xmin - x0 : xmax - x0]
     return image
 
 
-- 
2.43.0


From 5b34173977bb72299314cc3f53f2dd6dbfadf1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 16/35] fix: fit_model used the masked pixels of masked arrays
 with non-linear fitters

fit_background passes the sigma clipped image as a masked array, so the clipped
pixels were part of the fit.
---
 petrofit/modeling/fitting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 385e541..397ce8e 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -92,6 +92,10 @@ def fit_model(
             Fitter used to estimate and set model parameters.
     """
 
+    # Masked pixels (for example sigma clipped ones) are not fit
+    if isinstance(image, np.ma.MaskedArray):
+        image = image.astype(float).filled(np.nan)
+
     # Make x and y grid to fit to
     y_arange, x_arange = np.where(~(np.isnan(image)))
 
-- 
2.43.0


From 404ec022ccf22e881b82d975bad99a84992799c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 17/35] fix: measure_fwhm raised with its default plot=True

It passed the arguments of plot_fit in the wrong order and expected four axes
from it.
---
 petrofit/modeling/fitting.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 397ce8e..3919a60 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -540,10 +540,12 @@ def measure_fwhm(image, plot=True, printout=True):
 
     if plot:
 
-        fig, [ax0, ax1, ax2, ax3] = plot_fit(image, fitted_line)
+        fig, [ax0, ax2, ax3] = plt.subplots(1, 3, figsize=[18, 6])
 
-        # Make x and y grid to plot to
-        y_arange, x_arange = np.mgrid[: image.shape[0], : image.shape[1]]
+        # Make x and y pixel ranges to plot to
+        y_arange, x_arange = np.arange(image.shape[0]), np.arange(image.shape[1])
+        x_idx = int(np.clip(np.round(x_mean), 0, image.shape[1] - 1))
+        y_idx = int(np.clip(np.round(y_mean), 0, image.shape[0] - 1))
 
         # Plot input image with FWHM and center
         # -------------------------------------
@@ -562,6 +564,8 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot X fit
         # ----------
 
+        ax2.plot(x_arange, image[y_idx, :], label="Data")
+        ax2.plot(x_arange, fitted_line(x_arange, y_mean), label="Fit")
         ax2.axvline(x_mean, linestyle="-", label="Center")
         ax2.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
         ax2.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
@@ -572,6 +576,8 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot Y fit
         # ----------
 
+        ax3.plot(y_arange, image[:, x_idx], label="Data")
+        ax3.plot(y_arange, fitted_line(x_mean, y_arange), label="Fit")
         ax3.axvline(y_mean, linestyle="-", label="Center")
         ax3.axvline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
         ax3.axvline(y_mean + y_fwhm / 2, c="g", linestyle="--")
-- 
2.43.0


From 9c7d13ed7b9f690f13cb8037da07c22bd6f18ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 18/35] fix: radial_photometry rounded fluxes and errors to six
 decimals

An image in small flux units (such as erg/s/cm2) measured as zero.
---
 petrofit/photometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/photometry.py b/petrofit/photometry.py
index c3a3907..951364c 100644
--- a/petrofit/photometry.py
+++ b/petrofit/photometry.py
@@ -209,9 +209,9 @@ def radial_photometry(
         )
 
         aperture_area = float(np.round(aperture_area, 6))
-        photometric_value = float(np.round(photometric_value, 6))
+        photometric_value = float(photometric_value[0])
         photometric_err = (
-            float(np.round(photometric_err, 6)) if photometric_err.size > 0 else np.nan
+            float(photometric_err[0]) if photometric_err.size > 0 else np.nan
         )
 
         if np.isnan(photometric_value):
-- 
2.43.0


From e5472939a981b9e690c23b8fd5518c1ddab6ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 19/35] fix: source_photometry sigma_type='bound' used sigma as
 a number of stds

It is documented as a value, and used as one in the clip of the image.
---
 petrofit/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 40f4b5f..88e488f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -660,8 +660,8 @@ def source_photometry(
                     )
 
                     fit_bg_image = masked_stats_image
-                    fit_bg_image[np.where(fit_bg_image > mean + std * sigma)] = np.nan
-                    fit_bg_image[np.where(fit_bg_image < mean - std * sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
                     raise (
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
-- 
2.43.0


From 6319a1983fc87c122e00747f45f460508e64de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 20/35] fix: source_photometry raised a string for an unknown
 sigma_type

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 88e488f..ee56383 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -663,7 +663,7 @@ def source_photometry(
                     fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
                     fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
-                    raise (
+                    raise ValueError(
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
                     )
 
-- 
2.43.0


From d6d590e7cd2f8b4b5abda1e9618c675385b38fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 21/35] fix: radius errors could be negative, which
 Petrosian.plot then raised on

The upper and lower bounds swap order where the interpolated profile is not
monotonic.
---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 04869ae..cfd5c23 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -217,7 +217,7 @@ def calculate_petrosian_r(
     r_petro_lower = np.nan if idx is None else r_list_lower[idx]
 
     # Estimate error
-    r_petro_err = (r_petro_upper - r_petro_lower) / 2.0
+    r_petro_err = abs(r_petro_upper - r_petro_lower) / 2.0
 
     return r_petro, r_petro_err
 
@@ -356,7 +356,7 @@ def fraction_to_r(
     idx = closest_value_index(fractional_flux_lower, flux_list_upper, growing=True)
     r_frac_lower = np.nan if idx is None else r_list_upper[idx]
 
-    r_frac_err = (r_frac_upper - r_frac_lower) / 2.0
+    r_frac_err = abs(r_frac_upper - r_frac_lower) / 2.0
 
     return r_frac, r_frac_err
 
-- 
2.43.0


From da1d8610e123e102197f6d145e969118129df4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 22/35] fix: plot_cog raised for objects with area errors but
 no flux errors

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index cfd5c23..e8a5e49 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1152,7 +1152,7 @@ class Petrosian:
             label="Data",
         )
 
-        if err_alpha is not None and self.has_petrosian_err and err_alpha > 0:
+        if err_alpha is not None and self.flux_err is not None and err_alpha > 0:
             ax.fill_between(
                 self.r_list,
                 self.flux_list - self.flux_err,
-- 
2.43.0


From 8fd1cc169e7b4d2e69619fe0e3e916f1f600f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 23/35] fix: GenSersic2D used an attribute which Sersic2D no
 longer has

---
 petrofit/modeling/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index f175271..3ffdc18 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -578,12 +578,7 @@ class GenSersic2D(models.Sersic2D):
     def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
         """Two dimensional Sersic profile function."""
 
-        if cls._gammaincinv is None:
-            from scipy.special import gammaincinv
-
-            cls._gammaincinv = gammaincinv
-
-        bn = cls._gammaincinv(2.0 * n, 0.5)
+        bn = gammaincinv(2.0 * n, 0.5)
         a, b = r_eff, (1 - ellip) * r_eff
         cos_theta, sin_theta = np.cos(theta), np.sin(theta)
         x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
-- 
2.43.0


From aeddf49f30fcc02606f86a54b46a21d343eb9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 24/35] fix: fit_model returned the fitter class, without its
 fit_info

---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 3919a60..c4e5275 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -127,7 +127,7 @@ def fit_model(
     else:
         fitted_model = fitter_instance(model, x_arange, y_arange, z, weights=w)
 
-    return fitted_model, fitter
+    return fitted_model, fitter_instance
 
 
 def _validate_image_size(size):
-- 
2.43.0


From 4e9a786678c3c8373baffc243dd4ce68826d8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 25/35] fix: measure_fwhm swapped x and y if the fitted
 gaussian was turned by 90 degrees

---
 petrofit/modeling/fitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index c4e5275..8567be7 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -512,8 +512,11 @@ def measure_fwhm(image, plot=True, printout=True):
     x_mean, y_mean = [i.value for i in [fitted_line.x_mean, fitted_line.y_mean]]
 
     # Estimate FWHM using gaussian_sigma_to_fwhm
-    x_fwhm = fitted_line.x_stddev * gaussian_sigma_to_fwhm
-    y_fwhm = fitted_line.y_stddev * gaussian_sigma_to_fwhm
+    # The axes of the fitted gaussian may be rotated with respect to x and y
+    cos, sin = np.cos(fitted_line.theta.value), np.sin(fitted_line.theta.value)
+    x_stddev, y_stddev = fitted_line.x_stddev.value, fitted_line.y_stddev.value
+    x_fwhm = gaussian_sigma_to_fwhm / np.hypot(cos / x_stddev, sin / y_stddev)
+    y_fwhm = gaussian_sigma_to_fwhm / np.hypot(sin / x_stddev, cos / y_stddev)
 
     # Find half max
     hm = fitted_line(x_mean, y_mean) / 2.0
-- 
2.43.0


From 5d1334e11c47f3e7a8b8cc2155f76cc24d8c9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 26/35] fix: Petrosian plots set the ticks of the current axes
 instead of the given ones

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index e8a5e49..3480897 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1068,7 +1068,7 @@ class Petrosian:
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         if show_legend:
@@ -1211,7 +1211,7 @@ class Petrosian:
             fontsize=ax_fontsize,
         )
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         ax.set_ylim(0, None)
-- 
2.43.0


From cbe62ea0e736b085a873ae4a47de2856d06f0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 27/35] fix: CoreSersic2D measured radii in units of r_eff but
 its break radius in pixels

---
 petrofit/modeling/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 3ffdc18..111df55 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -625,11 +625,10 @@ def CoreSersic2D(
     Core Sersic model as defined by Graham et al 2003.
     """
     bn = gammaincinv(2.0 * n, 0.5)
-    a, b = r_eff, (1 - ellip) * r_eff
     cos_theta, sin_theta = np.cos(theta), np.sin(theta)
     x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
     x_min = -(x - x_0) * sin_theta + (y - y_0) * cos_theta
-    r = np.sqrt((x_maj / a) ** 2 + (x_min / b) ** 2)
+    r = np.sqrt(x_maj**2 + (x_min / (1 - ellip)) ** 2)
 
     r[np.where(r == 0)] = np.nan
 
-- 
2.43.0


From 0a34484406446d54763f55540e5c6545aaf6fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 28/35] fix: plots labelled the total flux radius with a
 truncated percentage (0.29 as 28)

---
 petrofit/petrosian/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 3480897..f7d6b68 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -923,13 +923,13 @@ class Petrosian:
 
         r_total_flux = self.r_total_flux
         if not np.isnan(r_total_flux):
-            total_flux_fraction = int(self.total_flux_fraction * 100)
+            total_flux_fraction = self.total_flux_fraction * 100
             ax.axvline(
                 r_total_flux,
                 linestyle="--",
                 c="tab:red",
                 alpha=self._r_plot_alpha,
-                label="$R_{{total}}(L_{{{}}}) = {:0.4f}$ {}".format(
+                label="$R_{{total}}(L_{{{:g}}}) = {:0.4f}$ {}".format(
                     total_flux_fraction, r_total_flux, radius_unit
                 ),
             )
@@ -1184,13 +1184,13 @@ class Petrosian:
             r_total_flux = self.r_total_flux
             total_flux = self.total_flux
             if not np.isnan(r_total_flux) and not np.isnan(total_flux):
-                total_flux_fraction = int(self.total_flux_fraction * 100)
+                total_flux_fraction = self.total_flux_fraction * 100
                 ax.axvline(
                     r_total_flux,
                     linestyle="-",
                     c="black",
                     alpha=self._r_plot_alpha,
-                    label="$R_{{total}}(L_{{{}}}) = {:0.4f}$ {}".format(
+                    label="$R_{{total}}(L_{{{:g}}}) = {:0.4f}$ {}".format(
                         total_flux_fraction, r_total_flux, radius_unit
                     ),
                 )
-- 
2.43.0


From 5466f0e045fc8b2027cfcf40fd5ec38f66713317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 29/35] fix: Petrosian plots had no radius label when no unit
 was given

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index f7d6b68..00f59cd 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1063,7 +1063,7 @@ class Petrosian:
         ax.axhline(0, c="black")
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
@@ -1203,7 +1203,7 @@ class Petrosian:
 
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(
-- 
2.43.0


From 123300428e287ce7ea24b3153ea671c212fda268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 30/35] fix: closest_value_index returned the index of a NaN
 instead of the closest value

---
 petrofit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 674e1f3..72eecf0 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -162,7 +162,7 @@ def closest_value_index(value, array, growing=False):
     idx = None
     if idx_list.size > 0:
         idx = idx_list[0]
-        idx = abs(array[: idx + 1] - value).argmin()
+        idx = np.nanargmin(abs(array[: idx + 1] - value))
     return idx
 
 
-- 
2.43.0


From 8b97ae6b89b9ef1283c7c26d959cf66b38e03d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 31/35] fix: Petrosian errors were NaN where an annulus holds
 no flux

---
 petrofit/petrosian/core.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 00f59cd..c68433c 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -100,21 +100,23 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
         # Compute the error in the surface brightness at the edge of each aperture
         I_at_r_err = np.zeros_like(area_diff, dtype=float)
-        I_at_r_err[zero_mask] = abs(I_at_r[zero_mask]) * np.sqrt(
-            (flux_diff_err[zero_mask] / flux_diff[zero_mask]) ** 2
-            + (area_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
+        I_at_r_err[zero_mask] = np.hypot(
+            flux_diff_err[zero_mask] / area_diff[zero_mask],
+            I_at_r[zero_mask] * area_diff_err[zero_mask] / area_diff[zero_mask],
         )
 
         # Compute the error in the average surface brightness within each aperture
-        I_avg_within_r_err = abs(I_avg_within_r) * np.sqrt(
-            (flux_err[1:] / flux_list[1:]) ** 2 + (area_err[1:] / area_list[1:]) ** 2
+        I_avg_within_r_err = np.hypot(
+            flux_err[1:] / area_list[1:],
+            I_avg_within_r * area_err[1:] / area_list[1:],
         )
 
         # Compute the error in the Petrosian value at each radius
         petrosian_err = np.zeros_like(area_diff, dtype=float)
-        petrosian_err[zero_mask] = abs(petrosian_list[1:][zero_mask]) * np.sqrt(
-            (I_at_r_err[zero_mask] / I_at_r[zero_mask]) ** 2
-            + (I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask]) ** 2
+        petrosian_err[zero_mask] = np.hypot(
+            I_at_r_err[zero_mask] / I_avg_within_r[zero_mask],
+            petrosian_list[1:][zero_mask]
+            * (I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask]),
         )
 
         # Append the first Petrosian error to the beginning of the array
-- 
2.43.0


From 47d3772e5bfe86b114029d614ccbd84ac6347d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:33 +0000
Subject: [PATCH 32/35] fix: PSF-convolved models gave neighbouring pixels for
 image origins which are not whole numbers

x - x.min() may fall just short of a whole number, and was truncated.
---
 petrofit/modeling/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 111df55..09ced09 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -385,8 +385,8 @@ class PSFConvolvedModel2D(FittableModel):
         *sub_model_params, psf_p = params
 
         # Prepare image indices
-        i = (x - x.min()).astype(int)
-        j = (y - y.min()).astype(int)
+        i = np.round(x - x.min()).astype(int)
+        j = np.round(y - y.min()).astype(int)
 
         # Is oversampling sub-grid based
         is_subgrid_oversample = isinstance(self.oversample, tuple)
-- 
2.43.0


From 36b3d44cb43e7c514c0fc400db82341f1131c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 33/35] fix: fit_gaussian2d and measure_fwhm failed on images
 with NaN pixels

---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 8567be7..bd8e3a2 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -316,7 +316,7 @@ def fit_gaussian2d(image):
 
     # Create model to fit
     model = models.Gaussian2D(
-        amplitude=image.max(), x_mean=x_mean, y_mean=y_mean, fixed={}
+        amplitude=np.nanmax(image), x_mean=x_mean, y_mean=y_mean, fixed={}
     )
 
     # Fit model to grid
-- 
2.43.0


From 1c0fc7e69490f6ca0fd93fa3c41868581842251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 34/35] fix: integer PSFs were rotated with rounded (or
 wrapped) values

---
 petrofit/modeling/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 09ced09..c984265 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -533,7 +533,7 @@ class PSFConvolvedModel2D(FittableModel):
             
             psf_p = psf_p[0] if isinstance(psf_p, (list, np.ndarray)) else psf_p 
             if psf_p != 0:
-                psf = rotate(psf, psf_p, reshape=False)
+                psf = rotate(psf, psf_p, reshape=False, output=float)
             model_image = convolve(model_image, psf, mode="same")
 
         if psf_factor > 1:
-- 
2.43.0


From 547e53d7b4cf87d55588cf4f0e6bbd635a474bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:47 +0000
Subject: [PATCH 35/35] fix: WCSs with very small non-square pixels were
 accepted

np.allclose compares with an absolute tolerance of 1e-8, which is larger than
pixel scales in degrees of radio interferometry images.
---
 petrofit/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 72eecf0..0aa4fe1 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -85,7 +85,8 @@ def match_catalogs(ra_1, dec_1, ra_2, dec_2, unit="deg"):
 def angular_to_pixel(angular_diameter, wcs):
     """Convert angular angular diameter to pixel width using wcs"""
     pixel_scales = proj_plane_pixel_scales(wcs)
-    assert np.allclose(*pixel_scales)
+    # Pixel scales are often tiny numbers (in deg), so compare their ratio only
+    assert np.allclose(*pixel_scales, rtol=1e-3, atol=0)
     pixel_scale = pixel_scales[0] * wcs.wcs.cunit[0] / u.pix
 
     pixel_size = angular_diameter / pixel_scale.to(angular_diameter.unit / u.pix)
@@ -97,7 +98,8 @@ def angular_to_pixel(angular_diameter, wcs):
 def pixel_to_angular(pixel_size, wcs):
     """Convert angular pixel width to angular diameter using wcs"""
     pixel_scales = proj_plane_pixel_scales(wcs)
-    assert np.allclose(*pixel_scales)
+    # Pixel scales are often tiny numbers (in deg), so compare their ratio only
+    assert np.allclose(*pixel_scales, rtol=1e-3, atol=0)
     pixel_scale = pixel_scales[0] * wcs.wcs.cunit[0] / u.pix
 
     if not hasattr(pixel_size, "unit"):
-- 
2.43.0

