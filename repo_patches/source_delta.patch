From 1e4f7255532cd33536f0c01fd9ccd2fa7665c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:34 +0000
Subject: [PATCH 01/35] fix: reshape_times_and_coordinates failing on location
 with fewer dimensions than time

The strides tuple indexed the ndim integer and every call with a time array
of more dimensions than the location (e.g., time[n], location[3]) ended by
a TypeError.
---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 2c93a9b..27467e0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -80,7 +80,7 @@ def reshape_times_and_coordinates(time, coords):
             strides=(
                 *coords.strides[:-1],
                 *((0,) * (ndim_result - ndim_common)),
-                coords.ndim[-1]
+                coords.strides[-1]
             )
         )
 
-- 
2.43.0


From b5f29573cbf3fababd97e433f81e4d8447e2f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:34 +0000
Subject: [PATCH 02/35] fix: spline order of the SHC files ignored by the SHC
 loader

The spline order was stored under a misspelled key of the wrong dictionary
and files with the piecewise constant coefficients (spline order 1) were
evaluated by the linear interpolation.
---
 eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
index 53a7f1c..48056c8 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
@@ -113,13 +113,16 @@ def load_coeff_shc(path, interpolate_in_decimal_years=False, **kwargs):
 
     times = data["t"]
 
-    kwargs["spline_oder"] = kwargs.get("spline_oder", min(data["spline_order"], 2))
-
     if len(times) == 1:
+        options.pop("spline_order", None)
         return SparseSHCoefficientsConstant(
             data["nm"], data["gh"][:, 0], **options
         )
 
+    options["spline_order"] = options.get(
+        "spline_order", min(data["spline_order"], 2)
+    )
+
     if interpolate_in_decimal_years:
         coeff_class = SparseSHCoefficientsTimeDependentDecimalYear
     else:
-- 
2.43.0


From 9a1cf1b0df59361cbd95aee82075bc42f4af3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:34 +0000
Subject: [PATCH 03/35] fix: incompatible EMM files silently accepted

The ValueError was created but never raised.
---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index a8c26d3..fed22d6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -55,7 +55,7 @@ def combine_emm_variable(data_static, data_secvar):
     size = nm_secvar.shape[0]
 
     if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
-        ValueError("Incompatible sets of the static and variation coefficients!")
+        raise ValueError("Incompatible sets of the static and variation coefficients!")
 
     return {
         "epoch": epoch_secvar,
-- 
2.43.0


From aad784ca450bd954d8bc1b7ae0724f54d1f85448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 04/35] fix: infinite recursion of a single composed or
 combined coefficients object

Composing (combining) of one already composed (combined) set of coefficients
re-initialized the passed object with itself as its only item.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index be96cda..10beef9 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -140,6 +140,9 @@ class ComposedSHCoefficients(SHCoefficients):
                 "The composed model requires at least one set of coefficients!"
             )
 
+        if len(items) == 1:
+            return # already initialized single item passed through by __new__
+
         validity_start, validity_end = inf, -inf
         last_item_validity_end = inf
         degree = -inf
@@ -268,6 +271,9 @@ class CombinedSHCoefficients(SHCoefficients):
                 "The combined model requires at least one set of coefficients!"
             )
 
+        if len(items) == 1:
+            return # already initialized single item passed through by __new__
+
         item = items[0]
         is_internal = item.is_internal
         validity_start, validity_end = item.validity
-- 
2.43.0


From e1f4352e12372bc49c1bc78161765452fd9a37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 05/35] fix: wrong time scales of the decimal year and constant
 coefficients

Combined coefficients mixing the MJD2000 and decimal year interpolation were
not recognized and all of them were interpolated in the same time domain.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 10beef9..8ffcebe 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -487,7 +487,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
 
 class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
     """ Time invariant sparse spherical harmonic coefficients. """
-    time_scale = ()
+    time_scales = ()
 
     def __init__(self, indices, coefficients, **kwargs):
         indices = asarray(indices)
@@ -521,7 +521,7 @@ class SparseSHCoefficientsTimeDependentDecimalYear(SparseSHCoefficientsTimeDepen
     by spine interpolation of a time series of coefficients snapshots.
     with time in decimal year interpolated in the decimal years time domain.
     """
-    time_scales = ("MJD2000",)
+    time_scales = ("decimal year",)
 
     def __init__(self, indices, coefficients, times,
                  to_mjd2000=decimal_year_to_mjd2000,
-- 
2.43.0


From f20e694cb922c2e8565fac76f60f2e06d624c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 06/35] fix: check of the coefficients indices array shape

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 8ffcebe..af7d13a 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -427,7 +427,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
         if coefficients.ndim != 2:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
@@ -497,7 +497,7 @@ class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
         if coefficients.ndim != 1:
             raise ValueError(f"Invalid coefficients array dimension {coefficients.shape}!")
 
-        if indices.ndim != 2 and indices.shape[1] != 2:
+        if indices.ndim != 2 or indices.shape[1] != 2:
             raise ValueError(f"Invalid indices array dimension {indices.shape}!")
 
         if indices.shape[0] != coefficients.shape[0]:
-- 
2.43.0


From 0febcecee4eab1e19756a0173877f595bf8aaad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:52 +0000
Subject: [PATCH 07/35] fix: unformatted error messages

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 2 +-
 eoxmagmod/eoxmagmod/magnetic_model/parser_mma.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index af7d13a..c6ad39b 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -462,7 +462,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
                 2: {"kind": INTERP_C1},
             }[spline_order]
         except KeyError:
-            raise ValueError("Unsupported spline order {spline_order}!") from None
+            raise ValueError(f"Unsupported spline order {spline_order}!") from None
 
     def get_coefficient_sets(self, **parameters):
         """ Extract coefficients sets which can be passed to C evaluation. """
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_mma.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_mma.py
index 9eec631..e1e5fd4 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_mma.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_mma.py
@@ -138,4 +138,4 @@ def _cdf_rawtime_to_mjd2000(raw_time, cdf_type):
     """
     if cdf_type == CDF_EPOCH_TYPE:
         return (raw_time - CDF_EPOCH_2000) * CDF_EPOCH_TO_DAYS
-    raise TypeError("Unsupported CDF time type {cdf_type!r}!")
+    raise TypeError(f"Unsupported CDF time type {cdf_type!r}!")
-- 
2.43.0


From e5def7394d4287e92f76bf4c1c89e28f5637c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 08/35] fix: false time-gaps detected in the composed
 coefficients

Coefficients with validity ending before the end of one of the preceding sets
were causing a false time-gap and the composition was rejected.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index c6ad39b..bbf569b 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -159,10 +159,9 @@ class ComposedSHCoefficients(SHCoefficients):
                     "the sets of coefficients!"
                 )
 
-            last_item_validity_end = item_validity_end
-
             validity_start = min(validity_start, item_validity_start)
             validity_end = max(validity_end, item_validity_end)
+            last_item_validity_end = validity_end
 
             degree = max(degree, item.degree)
             min_degree = min(min_degree, item.min_degree)
-- 
2.43.0


From 7204bfd940832c0e40d1106bd76b96b9ceb5bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 09/35] fix: minimum degree of the primary MIO model

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index d7d22ee..7c1ab50 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -58,7 +58,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
     @property
     def min_degree(self):
         """ Get minimum degree of the model. """
-        return max(
+        return min(
             self.model_below_ionosphere.min_degree,
             self.model_above_ionosphere.min_degree
         )
-- 
2.43.0


From c38a82229761a5138ce32e5a95611d4a13cde9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 10/35] fix: MIO models mixing-up points for parameters with
 less dimensions than location

F10.7 values of less dimensions than the location were matched to the trailing
instead of the leading dimensions producing misplaced NaNs, or failing.
---
 .../eoxmagmod/magnetic_model/model_mio.py     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 7c1ab50..5728797 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -74,7 +74,11 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
-        time = asarray(time)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
+
         location = convert(
             location, input_coordinate_system, GEOCENTRIC_SPHERICAL
         )
@@ -90,7 +94,10 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
             def _mask_option(key):
                 data = options.get(key)
                 if data is not None:
-                    options[key] = mask_array(asarray(data), mask)
+                    data = asarray(data)
+                    if data.ndim > 0:
+                        data = reshape_array(mask.shape, data)
+                    options[key] = mask_array(data, mask)
 
             _mask_option('f107')
             _mask_option('lat_sol')
@@ -159,9 +166,9 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
             if data is None:
                 return None
             data = asarray(data)
-            if data.ndim > 0:
-                return data[mask]
-            return data
+            if 0 < data.ndim < mask.ndim:
+                data = reshape_array(mask.shape, data)
+            return mask_array(data, mask)
 
         # reshape time and location to a compatible shape
         time, location = reshape_times_and_coordinates(
@@ -173,6 +180,8 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
         mio_scale = options.pop('f107', None)
         if mio_scale is not None:
             mio_scale = 1.0 + self.wolf_ratio * asarray(mio_scale)
+            if mio_scale.ndim > 0:
+                mio_scale = reshape_array(location.shape[:-1], mio_scale)
             mask = ~isnan(mio_scale)
 
         start, end = self.validity
@@ -180,7 +189,7 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
         result = full(location.shape, nan)
         result[mask, :] = self._eval(
             self._eval_fourier2d, self.coefficients,
-            time[mask], location[mask, :],
+            mask_array(time, mask), location[mask, :],
             input_coordinate_system, output_coordinate_system,
             lat_sol=_subset(options.pop('lat_sol', None), mask),
             lon_sol=_subset(options.pop('lon_sol', None), mask),
-- 
2.43.0


From aa83dda7f0f299c1d9f35087739ea9f2dd3cf2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 11/35] fix: overlapping combined coefficients evaluated
 incorrectly

The optimized time-series evaluation does not sum the coefficients of the same
degree and order combined from multiple sets and the contribution of all but
the last set were lost.
---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index ac40063..21ce618 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -28,7 +28,7 @@
 # pylint: disable=too-many-locals, too-many-arguments, no-self-use
 
 
-from numpy import asarray, empty, full, nan, nditer
+from numpy import asarray, concatenate, empty, full, nan, nditer, unique
 from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, sheval, shevaltemp
 from ..dipole import rotate_vectors_from_dipole
 from ..dipole_coords import convert_to_dipole
@@ -94,11 +94,16 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
                 return self._eval_default
 
             try:
-                coefficients.get_coefficient_sets()
+                coefficient_sets = coefficients.get_coefficient_sets()
             except AttributeError:
                 # coefficient cannot be extracted - falling back to the default
                 return self._eval_default
 
+            indices = concatenate([nm_ for _, _, nm_, _ in coefficient_sets])
+            if unique(indices, axis=0).shape[0] < indices.shape[0]:
+                # overlapping sets - falling back to the default
+                return self._eval_default
+
             return self._eval_interpolated
 
         # default evaluation method
-- 
2.43.0


From 23f64df359f962081e546d3300b61cd50152613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 12/35] fix: sheval reading wrong coordinates from
 non-contiguous arrays

The sheval, shevaltemp and sheval2dfs functions ignored the stride of the last
dimension of the location array.
---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 545a245..9a8bcef 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -413,12 +413,14 @@ static void _sheval_pot(
     {
         double *pot = ((double*)arrd_pot.data);
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
-        const double *x = ((double*)arrd_x.data);
+        #define X(i) (*((double*)(arrd_x.data + (i)*arrd_x.stride[0])))
 
         _model_eval(
-            pot, NULL, NULL, NULL, x[0], x[1], x[2],
+            pot, NULL, NULL, NULL, X(0), X(1), X(2),
             coeff, model, SM_POTENTIAL
         );
+
+        #undef X
     }
 }
 
@@ -447,13 +449,15 @@ static void _sheval_grd(
     else
     {
         double *grd = ((double*)arrd_grd.data);
-        const double *x = ((double*)arrd_x.data);
+        #define X(i) (*((double*)(arrd_x.data + (i)*arrd_x.stride[0])))
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
 
         _model_eval(
-            NULL, grd+0, grd+1, grd+2, x[0], x[1], x[2],
+            NULL, grd+0, grd+1, grd+2, X(0), X(1), X(2),
             coeff, model, SM_GRADIENT
         );
+
+        #undef X
     }
 }
 
@@ -485,13 +489,15 @@ static void _sheval_pot_and_grd(
     {
         double *pot = ((double*)arrd_pot.data);
         double *grd = ((double*)arrd_grd.data);
-        const double *x = ((double*)arrd_x.data);
+        #define X(i) (*((double*)(arrd_x.data + (i)*arrd_x.stride[0])))
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
 
         _model_eval(
-            pot, grd+0, grd+1, grd+2, x[0], x[1], x[2],
+            pot, grd+0, grd+1, grd+2, X(0), X(1), X(2),
             coeff, model, SM_POTENTIAL_AND_GRADIENT
         );
+
+        #undef X
     }
 
 }
-- 
2.43.0


From 08d160f90447786512af11caffdf841d2f49027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 13/35] fix: sheval reading location out of the array bounds

The length of the last dimension of the location array was not checked.
---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 9a8bcef..9eb24ee 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -192,6 +192,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
 
+    // check the last dimension of the position array
+    if (_check_array_dim_eq(arr_x, -1, 3, keywords[0]))
+        goto exit;
+
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
@@ -295,10 +299,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     // handle the gradient scale factors
     if (NULL != obj_scale)
     {
-        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[9])))
+        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[8])))
             goto exit;
 
-        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[9]))
+        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[8]))
             goto exit;
     }
 
-- 
2.43.0


From 2773afa393aad0283ddfe7a905d9fcba51b80dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 14/35] fix: 2D Fourier series heap buffer overflow for
 negative second degrees

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index a8b7a6d..b0b1e9b 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -347,7 +347,7 @@ static int _fourier2d_init(
     max_abs_degree = 1;
     max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
+    max_abs_degree = MAX(max_abs_degree, abs(min_degree2));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree2));
     f2d->max_abs_degree = max_abs_degree;
 
-- 
2.43.0


From a6bf542ef3f6cc14dcaca889c76bb1656173c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 15/35] fix: sheval2dfs ignoring invalid coefficients

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fb330da..5e7f90d 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -244,7 +244,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // parse coefficient set
-    _f2d_coefset_parse(&coefset, keywords[3], obj_coef_set);
+    if (_f2d_coefset_parse(&coefset, keywords[3], obj_coef_set))
+        goto exit;
 
     degree = coefset.degree;
 
-- 
2.43.0


From 4cfc4ea05a6a0b72e1372bec4c9d1796663c58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 16/35] fix: sheval2dfs leaking the coefficient offsets

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 5e7f90d..58d23b4 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -591,6 +591,9 @@ static void _f2d_coefset_reset(FOURIER_2D_COEF_SET *coefset)
 
 static void _f2d_coefset_destroy(FOURIER_2D_COEF_SET *coefset)
 {
+    if (NULL != coefset->offset)
+        free(coefset->offset);
+
     if (coefset->arr_ab) Py_DECREF(coefset->arr_ab);
     if (coefset->arr_cm) Py_DECREF(coefset->arr_cm);
 
-- 
2.43.0


From 1a39678a3e7a202305618c48218beb73bdeb40b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 17/35] fix: heap buffer overflow caused by invalid
 coefficients' degrees and orders

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 6 ++++++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 58d23b4..7f2a2ce 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -640,6 +640,12 @@ static int _f2d_coefset_init(
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
+            if ((degree < 0)||(order < -degree)||(order > degree))
+            {
+                PyErr_Format(PyExc_ValueError, "Invalid coefficient degree and order (%d, %d)!", degree, order);
+                goto error;
+            }
+
             coefset->offset[i] = sign * offset;
             coefset->degree = MAX(coefset->degree, degree);
         }
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3c16fdd..1b7707a 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -699,6 +699,12 @@ static int _coefset_init(
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
+            if ((degree < 0)||(order < -degree)||(order > degree))
+            {
+                PyErr_Format(PyExc_ValueError, "Invalid coefficient degree and order (%d, %d)!", degree, order);
+                goto error;
+            }
+
             coefset->offset[i] = sign * offset;
             coefset->degree = MAX(coefset->degree, degree);
         }
-- 
2.43.0


From 33467b3cc010c460203740ad95751fe887cf722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 18/35] fix: out of bounds reads for time series with not
 enough nodes

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 1b7707a..680fa7d 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -443,6 +443,13 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
     if (_check_array_dim_eq(arr_cv, 1, PyArray_DIMS(arr_ct)[0], buffer))
         goto error;
 
+    // check the minimum number of the interpolation nodes
+
+    snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[0]);
+
+    if (_check_array_dim_le(arr_ct, 0, spline_order, buffer))
+        goto error;
+
     snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[2]);
 
     if (_check_array_dim_eq(arr_cm, 1, 2, buffer))
-- 
2.43.0


From fe92f790fd2c57151a4fccf5742cd78a4b9915b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 19/35] fix: associated Legendre functions' buffer overflow for
 zero degree

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2a79476..73162a4 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -104,12 +104,16 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     // with respect to the elevation (latitude) instead of the
     // inclination (co-latitude).
     lp[0] = 1.0;
-    lp[1] = sin_elv ;
-    lp[2] = cos_elv;
-
     ldp[0] = 0.0 ;
-    ldp[1] = cos_elv;
-    ldp[2] = -sin_elv;
+
+    if (degree > 0)
+    {
+        lp[1] = sin_elv ;
+        lp[2] = cos_elv;
+
+        ldp[1] = cos_elv;
+        ldp[2] = -sin_elv;
+    }
 
     for (i = 2; i <= degree; ++i)
     {
-- 
2.43.0


From 693630ace13879d3214b73cc9672fc385218fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 20/35] fix: output arrays released twice when the output tuple
 cannot be created

---
 eoxmagmod/eoxmagmod/pymm_legendre.h      | 4 ++++
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 4 ++++
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 4 ++++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 4 ++++
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 8 +++++++-
 eoxmagmod/eoxmagmod/pyqd_eval_subsol.h   | 4 ++++
 6 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_legendre.h b/eoxmagmod/eoxmagmod/pymm_legendre.h
index 131e65f..cf76804 100644
--- a/eoxmagmod/eoxmagmod/pymm_legendre.h
+++ b/eoxmagmod/eoxmagmod/pymm_legendre.h
@@ -127,7 +127,11 @@ static PyObject* legendre(PyObject *self, PyObject *args, PyObject *kwdict)
 
 
     if (NULL == (retval = Py_BuildValue("NN", arr_p, arr_dp)))
+    {
+        // references already released by Py_BuildValue()
+        arr_p = arr_dp = NULL;
         goto exit;
+    }
 
 
     // evaluate associated Legendre functions and their derivatives
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 9eb24ee..a98cc94 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -345,7 +345,11 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
                 &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                // references already released by Py_BuildValue()
+                arr_pot = arr_grd = NULL;
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 7f2a2ce..0349ad8 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -342,7 +342,11 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
                  &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                // references already released by Py_BuildValue()
+                arr_pot = arr_grd = NULL;
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 680fa7d..915460c 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -343,7 +343,11 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
                  &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                // references already released by Py_BuildValue()
+                arr_pot = arr_grd = NULL;
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index d7470a3..85c8b97 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -217,7 +217,13 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         );
     }
 
-    if (NULL == retval) goto exit;
+    if (NULL == retval)
+    {
+        // references already released by Py_BuildValue()
+        arr_qdlat = arr_qdlon = NULL;
+        arr_f11 = arr_f12 = arr_f21 = arr_f22 = arr_f = NULL;
+        goto exit;
+    }
 
   exit:
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
index ff9a56d..3c5f04c 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
@@ -95,7 +95,11 @@ static PyObject* eval_subsol(PyObject *self, PyObject *args, PyObject *kwdict)
     }
 
     if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_gdlat, (PyObject*) arr_gdlon)))
+    {
+        // references already released by Py_BuildValue()
+        arr_gdlat = arr_gdlon = NULL;
         goto exit;
+    }
 
   exit:
 
-- 
2.43.0


From 6d97f9b359717a192e1c6d1a8a17db5fb14a301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 21/35] fix: failed evaluation of the boolean flags ignored by
 the native functions

---
 eoxmagmod/eoxmagmod/pymm_interp.h        | 2 ++
 eoxmagmod/eoxmagmod/pymm_relradpow.h     | 4 +++-
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 4 +++-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 4 +++-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 4 +++-
 eoxmagmod/eoxmagmod/pymm_sphargrd.h      | 4 +++-
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 4 +++-
 7 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_interp.h b/eoxmagmod/eoxmagmod/pymm_interp.h
index 624cf86..60775f6 100644
--- a/eoxmagmod/eoxmagmod/pymm_interp.h
+++ b/eoxmagmod/eoxmagmod/pymm_interp.h
@@ -100,6 +100,8 @@ static PyObject* interp(PyObject *self, PyObject *args, PyObject *kwdict)
 
     if (obj_extrapolate != NULL) {
         extrapolate = PyObject_IsTrue(obj_extrapolate);
+        if (extrapolate < 0)
+            goto exit;
     }
 
     switch (kind) {
diff --git a/eoxmagmod/eoxmagmod/pymm_relradpow.h b/eoxmagmod/eoxmagmod/pymm_relradpow.h
index 2e12bdb..4a34097 100644
--- a/eoxmagmod/eoxmagmod/pymm_relradpow.h
+++ b/eoxmagmod/eoxmagmod/pymm_relradpow.h
@@ -88,7 +88,9 @@ static PyObject* relradpow(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     if (degree < 0)
     {
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index a98cc94..f72e762 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -175,7 +175,9 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[2]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 0349ad8..a26ee6e 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -184,7 +184,9 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[4]))
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 915460c..871043d 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -199,7 +199,9 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[3]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sphargrd.h b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
index 7cdba3d..b2f6609 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphargrd.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
@@ -100,7 +100,9 @@ static PyObject* sphargrd(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0)
+        goto exit;
 
     // cast the objects to arrays
     if (NULL == (arr_lat = _get_as_double_array(obj_lat, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index 85c8b97..695855e 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -101,7 +101,9 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
-    eval_base = obj_flag ? (1 == PyObject_IsTrue(obj_flag)) : 0;
+    eval_base = obj_flag ? PyObject_IsTrue(obj_flag) : 0;
+    if (eval_base < 0)
+        goto exit;
 
     #define NPY_REQ (NPY_ARRAY_ALIGNED|NPY_ARRAY_C_CONTIGUOUS)
 
-- 
2.43.0


From d72b35872d71b673da705aa91c596319505f0560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 22/35] fix: wrong day of year for non-integer negative MJD2000
 times

---
 qdipole/eval_mlt.f90    | 2 +-
 qdipole/eval_subsol.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e3924c7..e684cf9 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -64,7 +64,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index e8a8e2b..16b88f7 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -56,7 +56,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From 1d3342ef26a9ffc221a4ed9645fa9d27901c2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 23/35] fix: sub-solar point and magnetic local time evaluation
 terminating the process for unsupported times

---
 qdipole/eval_mlt.f90    | 16 +++++++++++++++-
 qdipole/eval_subsol.f90 | 17 ++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e684cf9..d15ed34 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -34,10 +34,12 @@
 
       subroutine eval_mlt(t_mlt, qdlon, t_mjd2k, n_data)
 
+      use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
+
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
-      real*8  t_0, sec
+      real*8  t_0, sec, t_min, t_max
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
@@ -45,10 +47,17 @@
       integer  n_data, i
       integer  iyr, imon, iday, idoy, ihour, imin
       parameter(epoch_limit = 1./365.25)
+!     range of the valid MJD2000 times (1900-01-01 to 2100-12-31)
+      parameter(t_min = -36524.d0, t_max = 36890.d0)
 
       epoch_old = -9999.9
 
       do i = 1, n_data
+!        Times which cannot be evaluated (including NaN)
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            t_mlt(i) = ieee_value(t_mlt(i), ieee_quiet_nan)
+            cycle
+         endif
 !        The epoch is approximated by neglecting the leap years
          epoch = t_mjd2k(i) / 365.25 + 2000
 !        Reload coefficients and evaluate the dipole pole location.
@@ -61,6 +70,11 @@
 
 !        1. Ccalculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+!        The year can be affected by the rounding of the time
+         if (iyr .lt. 1601 .or. iyr .gt. 2100) then
+            t_mlt(i) = ieee_value(t_mlt(i), ieee_quiet_nan)
+            cycle
+         endif
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index 16b88f7..afffae3 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -42,17 +42,32 @@
 !***********************************************************************
 
       subroutine eval_subsol(sbsllat, sbsllon, t_mjd2k, n_data)
+      use, intrinsic :: ieee_arithmetic, only: ieee_value, ieee_quiet_nan
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
-      real*8        t_0, sec
+      real*8        t_0, sec, t_min, t_max
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
+!     range of the valid MJD2000 times (1601-01-01 to 2100-12-31)
+      parameter(t_min = -145731.d0, t_max = 36890.d0)
 
       do i = 1, n_data
+!        Times which cannot be evaluated (including NaN)
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            sbsllat(i) = ieee_value(sbsllat(i), ieee_quiet_nan)
+            sbsllon(i) = ieee_value(sbsllon(i), ieee_quiet_nan)
+            cycle
+         endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+!        The year can be affected by the rounding of the time
+         if (iyr .lt. 1601 .or. iyr .gt. 2100) then
+            sbsllat(i) = ieee_value(sbsllat(i), ieee_quiet_nan)
+            sbsllon(i) = ieee_value(sbsllon(i), ieee_quiet_nan)
+            cycle
+         endif
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-- 
2.43.0


From bf34e24414a55d3087896e02accaaa6b0b5d0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:55 +0000
Subject: [PATCH 24/35] fix: quasi-dipole coordinates of NaN times evaluated
 with arbitrary coefficients

---
 qdipole/eval_qdlatlon.f90 | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 0a6dbef..90c48d6 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -65,6 +65,9 @@
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
                                n_data, coeff_file)
+      use, intrinsic :: ieee_arithmetic, only: ieee_is_nan, ieee_value, &
+                                               ieee_quiet_nan
+
       implicit none
 
       real*8  qdlon(*), qdlat(*)
@@ -75,11 +78,17 @@
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 0)
 
-      epoch_old = -9999.9
+      epoch_old = -huge(epoch_old)
 
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
+!        There are no coefficients for an invalid time
+         if (ieee_is_nan(epoch)) then
+            qdlat(i) = ieee_value(qdlat(i), ieee_quiet_nan)
+            qdlon(i) = ieee_value(qdlon(i), ieee_quiet_nan)
+            cycle
+         endif
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
@@ -101,6 +110,9 @@
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
         t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+      use, intrinsic :: ieee_arithmetic, only: ieee_is_nan, ieee_value, &
+                                               ieee_quiet_nan
+
       implicit none
 
       real*8  qdlon(*), qdlat(*), f11(*), f12(*), f21(*), f22(*), f(*)
@@ -111,11 +123,22 @@
       character*256 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
-      epoch_old = -9999.9
+      epoch_old = -huge(epoch_old)
 
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
+!        There are no coefficients for an invalid time
+         if (ieee_is_nan(epoch)) then
+            qdlat(i) = ieee_value(qdlat(i), ieee_quiet_nan)
+            qdlon(i) = ieee_value(qdlon(i), ieee_quiet_nan)
+            f11(i) = ieee_value(f11(i), ieee_quiet_nan)
+            f12(i) = ieee_value(f12(i), ieee_quiet_nan)
+            f21(i) = ieee_value(f21(i), ieee_quiet_nan)
+            f22(i) = ieee_value(f22(i), ieee_quiet_nan)
+            f(i) = ieee_value(f(i), ieee_quiet_nan)
+            cycle
+         endif
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch)
             epoch_old = epoch
-- 
2.43.0


From eb1e95d4831b5d94a21ad21cf82a27eb86a131d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:55 +0000
Subject: [PATCH 25/35] fix: wrong length of the coefficients filename in
 eval_qdlatlonvb

---
 qdipole/eval_qdlatlon.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 90c48d6..6b95dca 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -120,7 +120,7 @@
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
       integer*4  vecflag, n_data, i
-      character*256 coeff_file
+      character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
       epoch_old = -huge(epoch_old)
-- 
2.43.0


From 9ed6f0e2b2fadc7b395c9fd82b1b8786b7a20d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 26/35] fix: unreadable quasi-dipole coefficients file
 terminating the process

---
 qdipole/apexsh.f90        | 28 ++++++++++++++++++++++------
 qdipole/cqdipole.c        | 15 +++++++++------
 qdipole/eval_qdlatlon.f90 | 16 ++++++++++------
 3 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 09099df..153ee09 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -18,7 +18,7 @@
 !  Loads spherical harmonic coefficients (created by MAKEAPXSH) for coordinate conversions. Must be
 !  run before calling the conversion routines.
 !
-!  CALL LOADAPXSH (DATAFILE, EPOCH)
+!  CALL LOADAPXSH (DATAFILE, EPOCH, IERR)
 !
 !  INPUT ARGUMENTS
 !    DATAFILE  Name of data file, generated by MAKEAPXSH, containing the conversion coefficients
@@ -158,7 +158,7 @@
 
 !***************************************************************************************************
 
-     subroutine loadapxsh(datafilenew,epochnew)
+     subroutine loadapxsh(datafilenew,epochnew,ierr)
 
     use apxshmodule
 
@@ -168,15 +168,31 @@
     real(4)                     :: epochnew, epochlast=-999.0
     real(8)                     :: we0, we1
     integer(4)                  :: iepoch0, iepoch1, iterm, icoord
+    integer(4), intent(out)     :: ierr
+
+    ierr = 0
 
     !CHECK FILE, GET DIMENSIONS, AND ALLOCATE ARRAYS
     if ((datafilenew .ne. datafilelast) .or. (loadflag)) then
       datafile = datafilenew
-      open(unit=23,file=trim(datafile),status='old',form='formatted')
-      read(23,*) nepoch, nmax, mmax, lmax, nterm
-      call allocatearrays
-      read(23,*) epochgrid, coeff0
+      loadflag = .true.
+      open(unit=23,file=trim(datafile),status='old',form='formatted',action='read',iostat=ierr)
+      if (ierr .ne. 0) return
+      read(23,*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
+      if (ierr .eq. 0) then
+        !CHECK THE DIMENSIONS
+        if ((nepoch .lt. 1) .or. (mmax .lt. 1) .or. (nmax .lt. mmax) .or. (lmax .lt. 0)) then
+          ierr = 1
+        else if (nterm .ne. (mmax*(2*nmax - mmax + 1) + nmax + 1)*(lmax + 1)) then
+          ierr = 1
+        endif
+      endif
+      if (ierr .eq. 0) then
+        call allocatearrays
+        read(23,*,iostat=ierr) epochgrid, coeff0
+      endif
       close(23)
+      if (ierr .ne. 0) return
     endif
     
     !LOAD COEFFICIENTS AND INTEPOLATE TO SELECTED EPOCH
diff --git a/qdipole/cqdipole.c b/qdipole/cqdipole.c
index b723669..ab3e108 100644
--- a/qdipole/cqdipole.c
+++ b/qdipole/cqdipole.c
@@ -91,28 +91,30 @@ int c_eval_subsol(double *sbsllat, double *sbsllon, const double *time_mjd2k,
 
 
 void eval_qdlatlon_(double*, double*, const double*, const double*,
-                    const double*, const double*, const int*, const char*);
+                    const double*, const double*, const int*, const char*,
+                    int*);
 
 int c_eval_qdlatlon(
      double *qdlat, double *qdlon, const double *time_dy, const double *gcrad,
      const double *gclat, const double *gclon, const int n_data,
      const char *coeff_file)
 {
+    int status = 0;
     /* NOTE: Fortran code expects the file name as a sized size string. */
     char filename[MAX_PATH_LENGTH + 1];
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
-    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename);
+    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename, &status);
 
-    return 0;
+    return status;
 }
 
 
 void eval_qdlatlonvb_(double*, double*, double*, double*, double*, double*,
                       double*, const double*, const double*, const double*,
-                      const double*, const int*, const char*);
+                      const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlonvb(
      double *qdlat, double *qdlon, double *f11, double *f12, double *f21,
@@ -120,6 +122,7 @@ int c_eval_qdlatlonvb(
      const double *gclat, const double *gclon,
      const int n_data, const char *coeff_file)
 {
+    int status = 0;
     /* NOTE: Fortran code expects the file name as a sized size string. */
     char filename[MAX_PATH_LENGTH + 1];
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
@@ -127,7 +130,7 @@ int c_eval_qdlatlonvb(
 
     /* call the Fortran subroutine */
     eval_qdlatlonvb_(qdlat, qdlon, f11, f12, f21, f22, f,
-                     time_dy, gcrad, gclat, gclon, &n_data, filename);
+                     time_dy, gcrad, gclat, gclon, &n_data, filename, &status);
 
-    return 0;
+    return status;
 }
diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 6b95dca..20d250f 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -64,7 +64,7 @@
 !***********************************************************************
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
-                               n_data, coeff_file)
+                               n_data, coeff_file, ierr)
       use, intrinsic :: ieee_arithmetic, only: ieee_is_nan, ieee_value, &
                                                ieee_quiet_nan
 
@@ -74,10 +74,11 @@
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, i, ierr
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 0)
 
+      ierr = 0
       epoch_old = -huge(epoch_old)
 
       do i = 1, n_data
@@ -90,7 +91,8 @@
             cycle
          endif
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
-            call loadapxsh(coeff_file, epoch)
+            call loadapxsh(coeff_file, epoch, ierr)
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
@@ -109,7 +111,7 @@
 !***********************************************************************
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
-        t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+        t_dy, gcrad, gclat, gclon, n_data, coeff_file, ierr)
       use, intrinsic :: ieee_arithmetic, only: ieee_is_nan, ieee_value, &
                                                ieee_quiet_nan
 
@@ -119,10 +121,11 @@
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, i, ierr
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
+      ierr = 0
       epoch_old = -huge(epoch_old)
 
       do i = 1, n_data
@@ -140,7 +143,8 @@
             cycle
          endif
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
-            call loadapxsh(coeff_file, epoch)
+            call loadapxsh(coeff_file, epoch, ierr)
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
-- 
2.43.0


From eb8e0edce84779b050aafc4064b3081cc4f52076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 27/35] fix: stale quasi-dipole coefficients used for the
 altitude of -999 km

---
 qdipole/apexsh.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 153ee09..0491ca3 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -220,8 +220,8 @@
         gcoeff0(iterm,icoord)= we0*coeff0(iterm,iepoch0,icoord+3)+we1*coeff0(iterm,iepoch1,icoord+3)
       enddo
       enddo
-      altlastq = -999.0
-      altlastg = -999.0
+      altlastq = -huge(altlastq)
+      altlastg = -huge(altlastg)
     endif
 
     !UPDATE LOAD VARIABLES
-- 
2.43.0


From e65332ca0984c88d69cbca3e2d0d9ff2d640e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 28/35] fix: sunpos_original naming sunpos in the messages of
 its argument errors

---
 eoxmagmod/eoxmagmod/pysunpos_original.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pysunpos_original.h b/eoxmagmod/eoxmagmod/pysunpos_original.h
index bd7e6f8..83e7987 100644
--- a/eoxmagmod/eoxmagmod/pysunpos_original.h
+++ b/eoxmagmod/eoxmagmod/pysunpos_original.h
@@ -160,7 +160,7 @@ static PyObject* pysunpos_sunpos_original(PyObject *self, PyObject *args, PyObje
 
     // parse input arguments
     if (!PyArg_ParseTupleAndKeywords(
-        args, kwdict, "OOOOOOO:sunpos", keywords,
+        args, kwdict, "OOOOOOO:sunpos_original", keywords,
         &obj_mjd, &obj_lat, &obj_lon, &obj_rad, &obj_dtt, &obj_pres, &obj_temp
     ))
         goto exit;
-- 
2.43.0


From ad29820056b45b81648a3972b088709dd2f0459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 29/35] fix: decimal_year_to_mjd2000 argument not named as
 documented

---
 eoxmagmod/eoxmagmod/pytimeconv_decimal_year_to_mjd2000.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pytimeconv_decimal_year_to_mjd2000.h b/eoxmagmod/eoxmagmod/pytimeconv_decimal_year_to_mjd2000.h
index 62f680a..17f8ccc 100644
--- a/eoxmagmod/eoxmagmod/pytimeconv_decimal_year_to_mjd2000.h
+++ b/eoxmagmod/eoxmagmod/pytimeconv_decimal_year_to_mjd2000.h
@@ -75,7 +75,7 @@ static PyObject* pytimeconv_decimal_year_to_mjd2000(
     PyObject *self, PyObject *args, PyObject *kwdict
 )
 {
-    static char *keywords[] = {"time_mjd2k", NULL};
+    static char *keywords[] = {"decimal_year", NULL};
     PyObject *obj_in = NULL; // input object
     PyArrayObject *arr_in = NULL; // input array
     PyArrayObject *arr_out = NULL; // return array
-- 
2.43.0


From fa43f68534b73e46091e351f8d1dd7981982e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:14 +0000
Subject: [PATCH 30/35] fix: read past the strides of scalar arguments of the
 Sun position functions

---
 eoxmagmod/eoxmagmod/pysunpos.h          | 12 +++++++-----
 eoxmagmod/eoxmagmod/pysunpos_original.h | 16 +++++++++-------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pysunpos.h b/eoxmagmod/eoxmagmod/pysunpos.h
index 5fce7d8..fb2513f 100644
--- a/eoxmagmod/eoxmagmod/pysunpos.h
+++ b/eoxmagmod/eoxmagmod/pysunpos.h
@@ -71,17 +71,18 @@ static void _sunpos(
     }
     else
     {
+        #define SV(a) (*((double*)((a).data)))
         #define P(a,i) ((double*)((a).data+(i)*(a).stride[0]))
         #define V(a,i) (*P(a,i))
 
         double rasc, decl, hang, zenith, azimuth;
         double mjd2k, dtt, lat, lon, rad, pres, temp;
 
-        mjd2k = V(arrd_mjd,0); // decimal days since 2000-01-01T00:00:00
-        dtt = V(arrd_dtt,0); // seconds (TT to UT offset)
-        lat = V(arrd_lat,0) * DEG2RAD; // deg --> rad
-        lon = V(arrd_lon,0) * DEG2RAD; // deg --> rad
-        rad = V(arrd_rad,0); // km
+        mjd2k = SV(arrd_mjd); // decimal days since 2000-01-01T00:00:00
+        dtt = SV(arrd_dtt); // seconds (TT to UT offset)
+        lat = SV(arrd_lat) * DEG2RAD; // deg --> rad
+        lon = SV(arrd_lon) * DEG2RAD; // deg --> rad
+        rad = SV(arrd_rad); // km
         pres = 0; // atm
         temp = 0; // dgC
 
@@ -96,6 +97,7 @@ static void _sunpos(
 
         #undef V
         #undef P
+        #undef SV
     }
 }
 
diff --git a/eoxmagmod/eoxmagmod/pysunpos_original.h b/eoxmagmod/eoxmagmod/pysunpos_original.h
index 83e7987..3a03c65 100644
--- a/eoxmagmod/eoxmagmod/pysunpos_original.h
+++ b/eoxmagmod/eoxmagmod/pysunpos_original.h
@@ -76,6 +76,7 @@ static void _sunpos_original(
     }
     else
     {
+        #define SV(a) (*((double*)((a).data)))
         #define P(a,i) ((double*)((a).data+(i)*(a).stride[0]))
         #define V(a,i) (*P(a,i))
 
@@ -84,13 +85,13 @@ static void _sunpos_original(
         double hours;
         int year, month, day;
 
-        mjd2k = V(arrd_mjd,0); // decimal days since 2000-01-01T00:00:00
-        dtt = V(arrd_dtt,0); // seconds (TT to UT offset)
-        lat = V(arrd_lat,0) * DEG2RAD; // deg --> rad
-        lon = V(arrd_lon,0) * DEG2RAD; // deg --> rad
-        rad = V(arrd_rad,0); // km
-        pres = V(arrd_pres,0); // atm
-        temp = V(arrd_temp,0); // dgC
+        mjd2k = SV(arrd_mjd); // decimal days since 2000-01-01T00:00:00
+        dtt = SV(arrd_dtt); // seconds (TT to UT offset)
+        lat = SV(arrd_lat) * DEG2RAD; // deg --> rad
+        lon = SV(arrd_lon) * DEG2RAD; // deg --> rad
+        rad = SV(arrd_rad); // km
+        pres = SV(arrd_pres); // atm
+        temp = SV(arrd_temp); // dgC
 
         mjd2k_to_date(&year, &month, &day, &hours, mjd2k);
 
@@ -107,6 +108,7 @@ static void _sunpos_original(
 
         #undef V
         #undef P
+        #undef SV
     }
 }
 
-- 
2.43.0


From 1e6c8a830994ccc378e48bdd76f04ef9cece7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 31/35] fix: piecewise constant coefficients lost when
 overwritten by an overlapping coefficient set

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 871043d..9cc7863 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -97,6 +97,7 @@ typedef struct ModelTS {
     const COEF_SET *coefsets;
     double time_last;
     size_t ncoefset;
+    int overlap; // set when coefficients are defined by more than one set
 } MODEL_TS;
 
 static void _model_ts_reset(MODEL_TS *model);
@@ -646,6 +647,26 @@ static int _model_ts_init(
     model->ncoefset = ncoefset;
     model->time_last = NAN;
 
+    // detect coefficients defined by more than one set
+    {
+        size_t i, j;
+        const size_t nterm = model->sh_model.nterm;
+
+        for (i = 0; i < ncoefset; ++i)
+        {
+            for (j = 0; j < coefsets[i].ncoef; ++j)
+            {
+                size_t offset = abs(coefsets[i].offset[j]);
+                size_t kind = coefsets[i].offset[j] < 0;
+                if (model->coef[offset][kind] > 0 && model->coef[offset][kind] != i + 1)
+                    model->overlap = 1;
+                model->coef[offset][kind] = i + 1;
+            }
+        }
+
+        memset(model->coef, 0, nterm*sizeof(double[2]));
+    }
+
     return 0;
 
   error:
@@ -748,7 +769,8 @@ static int _coefset_init(
 static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coefset) {
     INTERP_BASIS basis = get_interp0_basis(time, coefset->ct, coefset->ntime);
 
-    if (coefset->idx_last == basis.i) {
+    // the last values may have been overwritten by an overlapping set
+    if (!model->overlap && coefset->idx_last == basis.i) {
         return;
     }
 
-- 
2.43.0


From 9787fb68108b3044b53c0502d63e6dc6cf542659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 32/35] fix: array times of overlapping composed coefficients
 evaluated with the last rather than the first matching set

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index 21ce618..c0de57c 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -28,7 +28,7 @@
 # pylint: disable=too-many-locals, too-many-arguments, no-self-use
 
 
-from numpy import asarray, concatenate, empty, full, nan, nditer, unique
+from numpy import asarray, concatenate, empty, full, nan, nditer, ones, unique
 from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, sheval, shevaltemp
 from ..dipole import rotate_vectors_from_dipole
 from ..dipole_coords import convert_to_dipole
@@ -154,8 +154,10 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
 
         # time is an array
         result = _get_nans()
+        pending = ones(time.shape, 'bool') # times which have not matched yet
         for (start, end), method, coefficients in self._components:
-            mask = _is_valid(start, end)
+            mask = pending & _is_valid(start, end)
+            pending &= ~mask
             result[mask, :] = _call_eval(
                 method, coefficients, time[mask], location[mask, :]
             )
-- 
2.43.0


From 92f61bfca948c2aa5a271fc252002b1201168426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 33/35] fix: composed coefficients decomposed to overlapping or
 unsorted intervals

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index bbf569b..42d8dbc 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -112,10 +112,10 @@ class ComposedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
-        result = []
+        intervals = []
         for item in self:
-            result.extend(get_nonoverlapping_intervals(item.decompose()))
-        return result
+            intervals.extend(item.decompose())
+        return get_nonoverlapping_intervals(intervals)
 
     @property
     def time_scales(self):
-- 
2.43.0


From 9dade63f6448408fc865c4b4e85dab113d2b6de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 34/35] fix: rotation of composed model vectors failing for
 times with more dimensions than the locations

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 479e6a8..8630c37 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -33,6 +33,7 @@ from .._pymm import (
     convert, vrot_sph2geod, vrot_sph2cart,
 )
 from .model import GeomagneticModel
+from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
@@ -81,8 +82,10 @@ class ComposedGeomagneticModel(GeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
-        time = asarray(time)
-        location = asarray(location)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
 
         # convert input coordinates to spherical coordinates
         coord_sph = convert(
@@ -102,10 +105,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
                 args.update(params)
                 result += model.eval(time, coord_sph, scale=scale, **args)
         else:
-            result = zeros(
-                (*time.shape, 3) if time.ndim > (location.ndim - 1) else
-                location.shape
-            )
+            result = zeros(location.shape)
             result[isnan(time), :] = nan
 
         # rotate result to the desired coordinate frame
-- 
2.43.0


From 825aff07f5761540fa9cce52c74c494218ef6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:20 +0000
Subject: [PATCH 35/35] fix: primary MIO model evaluated out of its validity

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 5728797..834108a 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 # pylint: disable=too-many-arguments
 
-from numpy import nan, asarray, empty, isnan, full
+from numpy import nan, asarray, isnan, full
 from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, convert, sheval2dfs
 from ..magnetic_time import mjd2000_to_magnetic_universal_time
 from .coefficients_mio import SparseSHCoefficientsMIO
@@ -87,7 +87,10 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
         radius = location[..., 2]
         mask_below_ionosphere = radius <= radius_ionosphere
 
-        result = empty(location.shape)
+        start, end = self.validity
+        mask_valid = (time >= start) & (time <= end)
+
+        result = full(location.shape, nan)
 
         def _eval_model(model, mask, **options):
 
@@ -109,10 +112,12 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
             )
 
         _eval_model(
-            self.model_below_ionosphere, mask_below_ionosphere, **options
+            self.model_below_ionosphere,
+            mask_below_ionosphere & mask_valid, **options
         )
         _eval_model(
-            self.model_above_ionosphere, ~mask_below_ionosphere, **options
+            self.model_above_ionosphere,
+            ~mask_below_ionosphere & mask_valid, **options
         )
 
         return result
-- 
2.43.0

