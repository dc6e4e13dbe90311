From 560aa9af0abbdb5560c675d5bdcb8450a9892735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 01/32] fix: store scalar Legendre values in the polar cap
 Slepian matrix

---
 src/sleplet/slepian/slepian_polar_cap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 9bd1e00..3bbd063 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -255,11 +255,11 @@ class SlepianPolarCap(SlepianFunctions):
             p = int(lvec[j])
             c = 0
             for n in range(abs(el - p), el + p + 1):
-                A = Pl[ell == n - 1] if n != 0 else 1
+                A = Pl[ell == n - 1].item() if n != 0 else 1
                 c += (
                     self._wigner3j(el, n, p, 0, 0, 0)
                     * self._wigner3j(el, n, p, m, 0, -m)
-                    * (A - Pl[ell == n + 1])
+                    * (A - Pl[ell == n + 1].item())
                 )
             Dm[i, j] = (
                 self._polar_gap_modification(el, p)
-- 
2.43.0


From 4585c99ee61b6b716c98cc18fe2319089c4255e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 02/32] fix: raise errors of the parallel eigenproblem workers
 instead of discarding them

---
 src/sleplet/meshes/mesh_slepian.py       | 3 ++-
 src/sleplet/slepian/slepian_arbitrary.py | 3 ++-
 src/sleplet/slepian/slepian_polar_cap.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 10765fb..591cb32 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -130,7 +130,8 @@ class MeshSlepian:
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            # consume the iterator so that errors within the workers are raised
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         D = D_ext.copy()
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 2682bf3..210fc74 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -147,7 +147,8 @@ class SlepianArbitrary(SlepianFunctions):
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            # consume the iterator so that errors within the workers are raised
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         D = D_r_ext + 1j * D_i_ext
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3bbd063..7feadef 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -219,7 +219,8 @@ class SlepianPolarCap(SlepianFunctions):
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            # consume the iterator so that errors within the workers are raised
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         Dm = Dm_ext * (-1) ** m / 2
-- 
2.43.0


From c97081c76590b03f7cb669e4dec2d99a16447fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 03/32] fix: build the mesh noise field from the mesh field
 class

---
 src/sleplet/meshes/mesh_noise_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/meshes/mesh_noise_field.py b/src/sleplet/meshes/mesh_noise_field.py
index 9e3f853..b392494 100644
--- a/src/sleplet/meshes/mesh_noise_field.py
+++ b/src/sleplet/meshes/mesh_noise_field.py
@@ -7,7 +7,7 @@ import typing_extensions
 
 import sleplet._string_methods
 import sleplet._validation
-import sleplet.meshes.mesh_slepian
+import sleplet.meshes.mesh_field
 import sleplet.noise
 from sleplet.meshes.mesh_harmonic_coefficients import MeshHarmonicCoefficients
 
@@ -26,7 +26,7 @@ class MeshNoiseField(MeshHarmonicCoefficients):
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
-        mf = sleplet.meshes.mesh_slepian.MeshField(self.mesh)
+        mf = sleplet.meshes.mesh_field.MeshField(self.mesh)
         noise = sleplet.noise._create_mesh_noise(mf.coefficients, self.SNR)
         sleplet.noise.compute_snr(mf.coefficients, noise, "Harmonic")
         return noise
-- 
2.43.0


From ced53d90a380af96e66cc2f9af76046f5518d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 04/32] fix: normalise plots of small amplitude fields to the
 interval [0, 1]

---
 src/sleplet/plot_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d85343a..35de6c8 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -157,7 +157,11 @@ def _normalise_function(
         # if all 0, set to 0
         return (f + 0.5).astype(np.float64)
     # if all non-zero, set to 1 otherwise scale from [0, 1]
-    return f / f.max() if np.allclose(f, f.max()) else (f - f.min()) / np.ptp(f)
+    return (
+        f / f.max()
+        if np.allclose(f, f.max(), atol=0)
+        else (f - f.min()) / np.ptp(f)
+    )
 
 
 def _boost_field(  # noqa: PLR0913
-- 
2.43.0


From f5f8aa319baa2089b9eb62e75ba26bc57dbc4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 05/32] fix: keep Slepian wavelet coefficients aligned with
 their wavelets

---
 src/sleplet/wavelet_methods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 7a35862..2a6565b 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -160,4 +160,7 @@ def find_non_zero_wavelet_coefficients(
     Returns:
         The non-zero wavelet coefficients.
     """
-    return wav_coeffs[wav_coeffs.any(axis=axis)]
+    # only discard the scales beyond the last non-zero one, so that the j-th
+    # coefficients always correspond to the j-th wavelet
+    n_scales = np.flatnonzero(wav_coeffs.any(axis=axis)).max(initial=-1) + 1
+    return wav_coeffs[:n_scales]
-- 
2.43.0


From c0643f76478e129e4f1715cfea3e5158ed517353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 06/32] fix: reject a mesh rank beyond the number of basis
 functions

---
 src/sleplet/meshes/mesh_basis_functions.py   | 4 ++--
 src/sleplet/meshes/mesh_slepian_functions.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sleplet/meshes/mesh_basis_functions.py b/src/sleplet/meshes/mesh_basis_functions.py
index 444cb0b..849fd20 100644
--- a/src/sleplet/meshes/mesh_basis_functions.py
+++ b/src/sleplet/meshes/mesh_basis_functions.py
@@ -59,8 +59,8 @@ class MeshBasisFunctions(MeshHarmonicCoefficients):
         """Check the requested rank is valid."""
         if isinstance(self.extra_args, list):
             limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] > limit:
-                msg = f"rank should be less than or equal to {limit}"
+            if self.extra_args[0] >= limit:
+                msg = f"rank should be less than {limit}"
                 raise ValueError(msg)
 
     @pydantic.field_validator("rank")
diff --git a/src/sleplet/meshes/mesh_slepian_functions.py b/src/sleplet/meshes/mesh_slepian_functions.py
index db69bad..ac51036 100644
--- a/src/sleplet/meshes/mesh_slepian_functions.py
+++ b/src/sleplet/meshes/mesh_slepian_functions.py
@@ -23,6 +23,7 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
     selects a given Slepian function from the spectrum (p in the papers)."""
 
     def __post_init__(self: typing_extensions.Self) -> None:
+        self._validate_rank()
         super().__post_init__()
 
     def _create_coefficients(
@@ -62,8 +63,8 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
         """Check the requested rank is valid."""
         if isinstance(self.extra_args, list):
             limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] > limit:
-                msg = f"rank should be less than or equal to {limit}"
+            if self.extra_args[0] >= limit:
+                msg = f"rank should be less than {limit}"
                 raise ValueError(msg)
 
     @pydantic.field_validator("rank")
-- 
2.43.0


From 35331c72763059234b966724f627198dfa726794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 07/32] fix: count both caps in the Shannon number of a polar
 gap

---
 src/sleplet/slepian/slepian_polar_cap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 7feadef..4eb641c 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -58,7 +58,9 @@ class SlepianPolarCap(SlepianFunctions):
         return sleplet._mask_methods.create_mask_region(self.L, self.region)
 
     def _calculate_area(self: typing_extensions.Self) -> float:
-        return 2 * np.pi * (1 - np.cos(self.theta_max))
+        area = 2 * np.pi * (1 - np.cos(self.theta_max))
+        # a polar gap consists of two caps, which at most cover the whole sphere
+        return min(2 * area, 4 * np.pi) if self.gap else area
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
         return (
-- 
2.43.0


From 5bfe912a287aba4ebfad3580a92bb9ad3e81be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 08/32] fix: recompute a polar cap order whose eigenvectors
 were not all saved

---
 src/sleplet/slepian/slepian_polar_cap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 4eb641c..1c46ca0 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -103,7 +103,10 @@ class SlepianPolarCap(SlepianFunctions):
         orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
 
         if self.order is not None:
-            idx = np.where(orders == self.order)
+            idx = np.flatnonzero(orders == self.order)
+            if (idx >= len(eigenvectors)).any():
+                # only the leading eigenvectors are saved for large bandlimits
+                return self._solve_eigenproblem_order(self.order)
             return eigenvalues[idx], eigenvectors[idx]
         self.order = orders
         return eigenvalues, eigenvectors
-- 
2.43.0


From b9a209ba970033769e76ec22c50cc50516be1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 09/32] fix: do not share saved eigensolutions between regions
 whose angles round to the same degree

---
 src/sleplet/_string_methods.py               | 8 ++++++++
 src/sleplet/slepian/slepian_limit_lat_lon.py | 8 ++++++++
 src/sleplet/slepian/slepian_polar_cap.py     | 2 ++
 3 files changed, 18 insertions(+)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 31cdced..91b4536 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -78,6 +78,14 @@ def angle_as_degree(radian: float) -> int:
     return round(np.rad2deg(radian))
 
 
+def exact_angles_ending(*radians: float) -> str:
+    """Distinguish angles which are not all an integer number of degrees."""
+    whole_degrees = [np.deg2rad(angle_as_degree(r)) for r in radians]
+    if np.allclose(radians, whole_degrees, rtol=0, atol=1e-12):
+        return ""
+    return "".join(f"_{float(r)!r}" for r in radians)
+
+
 def wavelet_ending(j_min: int, j: int | None) -> str:
     """Create the ending name of the given wavelet."""
     return "_scaling" if j is None else f"{filename_args(j + j_min, 'j')}"
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 78c99a9..8a82fb0 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -15,6 +15,7 @@ import pyssht as ssht
 import sleplet._array_methods
 import sleplet._data.setup_pooch
 import sleplet._mask_methods
+import sleplet._string_methods
 import sleplet._validation
 import sleplet._vars
 import sleplet.slepian.region
@@ -57,8 +58,15 @@ class SlepianLimitLatLon(SlepianFunctions):
         )
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
+        angles_ending = sleplet._string_methods.exact_angles_ending(
+            self.theta_min,
+            self.theta_max,
+            self.phi_min,
+            self.phi_max,
+        )
         return (
             f"slepian_eigensolutions_D_{self.region._name_ending}_L{self.L}_N{self.N}"
+            f"{angles_ending}"
         )
 
     def _solve_eigenproblem(
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 1c46ca0..02fcd7c 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -19,6 +19,7 @@ import pyssht as ssht
 import sleplet._data.setup_pooch
 import sleplet._mask_methods
 import sleplet._parallel_methods
+import sleplet._string_methods
 import sleplet._validation
 import sleplet.harmonic_methods
 import sleplet.slepian.region
@@ -65,6 +66,7 @@ class SlepianPolarCap(SlepianFunctions):
     def _create_matrix_location(self: typing_extensions.Self) -> str:
         return (
             f"slepian_eigensolutions_D_{self.region._name_ending}_L{self.L}_N{self.N}"
+            f"{sleplet._string_methods.exact_angles_ending(self.theta_max)}"
         )
 
     def _solve_eigenproblem(
-- 
2.43.0


From 6379142f96d108e26aeedbc440b1f5b50e4d753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 10/32] fix: fall back to the local data when Zenodo cannot be
 reached

---
 src/sleplet/_data/setup_pooch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 4b2bd7c..b1eb358 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -48,7 +48,12 @@ def _lazy_load_registry(
                 registry=None,
                 retry_if_failed=_POOCH_RETRY,
             )
-            _POOCH.load_registry_from_doi()
+            try:
+                _POOCH.load_registry_from_doi()
+            except OSError:
+                # without a connection only the local files are available
+                msg = f"Unable to reach https://doi.org/{_ZENODO_DATA_DOI}"
+                _logger.warning(msg)
         return func(*args, **kwargs)
 
     return wrapper
-- 
2.43.0


From f8a8aabfa23043c196c56efdebfaeee12e2072d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 11/32] fix: take the spin into account in the maximum
 amplitude of a function

---
 src/sleplet/plot_methods.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index 35de6c8..c150cff 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -79,18 +79,7 @@ def find_max_amplitude(
         The maximum amplitude value.
     """
     # compute inverse transform
-    if hasattr(function, "slepian"):
-        field = sleplet.slepian_methods.slepian_inverse(
-            function.coefficients,
-            function.L,
-            function.slepian,
-        )
-    else:
-        field = ssht.inverse(
-            function.coefficients,
-            function.L,
-            Method=sleplet._vars.SAMPLING_SCHEME,
-        )
+    field = _coefficients_to_field_sphere(function, function.coefficients)
 
     # find resolution of final plot for boosting if necessary
     resolution = calc_plot_resolution(function.L) if upsample else function.L
-- 
2.43.0


From c703b06bbdeaa8cfde9f98643c7ca8af6573effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 12/32] fix: do not rotate the Slepian coefficients of a
 convolution with the Earth

---
 src/sleplet/_scripts/plotting_on_sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 1b0d983..cf905a9 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -231,8 +231,8 @@ def plot(  # noqa: PLR0913
             filename,
         )
 
-    # rotate plot of Earth
-    if "earth" in filename:
+    # rotate plot of Earth, rotation isn't defined for Slepian coefficients
+    if "earth" in filename and shannon is None:
         match earth_view:
             case "africa":
                 coefficients = sleplet.harmonic_methods.rotate_earth_to_africa(
-- 
2.43.0


From 8db9a41f1efd2bfa0ca565496e368ebd6bbf57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 13/32] fix: declare the harmonic fields of an arbitrary
 Slepian region

Assigning an undeclared attribute is refused by the validation of pydantic, so
no arbitrary region could be solved.
---
 src/sleplet/slepian/slepian_arbitrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 210fc74..e24cc13 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -41,6 +41,11 @@ class SlepianArbitrary(SlepianFunctions):
         init_var=False,
         repr=False,
     )
+    _fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = pydantic.Field(
+        default_factory=dict,
+        init_var=False,
+        repr=False,
+    )
 
     def __post_init__(self: typing_extensions.Self) -> None:
         self._resolution = _SAMPLES * self.L
@@ -107,7 +112,7 @@ class SlepianArbitrary(SlepianFunctions):
     ) -> npt.NDArray[np.complex128]:
         """Compute the D matrix in parallel."""
         # create dictionary for the integrals
-        self._fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = {}
+        self._fields = {}
 
         # initialise real and imaginary matrices
         D_r = np.zeros((self.L**2, self.L**2))
-- 
2.43.0


From 84a4ab84d5ceed04fe05bb7e6cfb6b045288e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 14/32] fix: evaluate Slepian translations at the requested
 grid sample

---
 src/sleplet/slepian_methods.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index 7c2cf46..a9e1020 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -160,8 +160,11 @@ def _compute_s_p_omega_prime(
 ) -> npt.NDArray[np.complex128]:
     """Pick out the desired angle from Sp(omega)."""
     sp_omega = compute_s_p_omega(L, slepian)
-    p = ssht.theta_to_index(beta, L, Method=sleplet._vars.SAMPLING_SCHEME)
-    q = ssht.phi_to_index(alpha, L, Method=sleplet._vars.SAMPLING_SCHEME)
+    # ssht.theta_to_index/phi_to_index round down, so rounding errors in the angle
+    # of a grid point would select its neighbour
+    thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
+    p = np.abs(thetas - beta).argmin()
+    q = np.abs(phis - alpha).argmin()
     sp_omega_prime = sp_omega[:, p, q]
     # pad with zeros so it has the expected shape
     boost = L**2 - slepian.N
-- 
2.43.0


From c92189c4cc6a750f37e6a008cc1bb361e603f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 15/32] fix: return zeros for Slepian wavelet scales without
 coefficients

---
 .../functions/slepian_wavelet_coefficients_africa.py   |  5 ++++-
 .../slepian_wavelet_coefficients_south_america.py      |  5 ++++-
 .../meshes/mesh_slepian_wavelet_coefficients.py        |  5 ++++-
 src/sleplet/wavelet_methods.py                         | 10 ++++++++++
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/functions/slepian_wavelet_coefficients_africa.py b/src/sleplet/functions/slepian_wavelet_coefficients_africa.py
index a1ece44..703e99a 100644
--- a/src/sleplet/functions/slepian_wavelet_coefficients_africa.py
+++ b/src/sleplet/functions/slepian_wavelet_coefficients_africa.py
@@ -48,7 +48,10 @@ class SlepianWaveletCoefficientsAfrica(Fp):
         self.wavelets, self.wavelet_coefficients = self._create_wavelet_coefficients()
         _logger.info("finish computing wavelet coefficients")
         jth = 0 if self.j is None else self.j + 1
-        return self.wavelet_coefficients[jth]
+        return sleplet.wavelet_methods._select_wavelet_coefficients(
+            self.wavelet_coefficients,
+            jth,
+        )
 
     def _create_name(self: typing_extensions.Self) -> str:
         return (
diff --git a/src/sleplet/functions/slepian_wavelet_coefficients_south_america.py b/src/sleplet/functions/slepian_wavelet_coefficients_south_america.py
index b58051c..2f5fb36 100644
--- a/src/sleplet/functions/slepian_wavelet_coefficients_south_america.py
+++ b/src/sleplet/functions/slepian_wavelet_coefficients_south_america.py
@@ -48,7 +48,10 @@ class SlepianWaveletCoefficientsSouthAmerica(Fp):
         self.wavelets, self.wavelet_coefficients = self._create_wavelet_coefficients()
         _logger.info("finish computing wavelet coefficients")
         jth = 0 if self.j is None else self.j + 1
-        return self.wavelet_coefficients[jth]
+        return sleplet.wavelet_methods._select_wavelet_coefficients(
+            self.wavelet_coefficients,
+            jth,
+        )
 
     def _create_name(self: typing_extensions.Self) -> str:
         return (
diff --git a/src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py b/src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py
index 6a3db55..2b7321d 100644
--- a/src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py
+++ b/src/sleplet/meshes/mesh_slepian_wavelet_coefficients.py
@@ -41,7 +41,10 @@ class MeshSlepianWaveletCoefficients(MeshSlepianCoefficients):
         self.wavelets, self.wavelet_coefficients = self._create_wavelet_coefficients()
         _logger.info("finish computing wavelet coefficients")
         jth = 0 if self.j is None else self.j + 1
-        return self.wavelet_coefficients[jth]
+        return sleplet.wavelet_methods._select_wavelet_coefficients(
+            self.wavelet_coefficients,
+            jth,
+        )
 
     def _create_name(self: typing_extensions.Self) -> str:
         return (
diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 2a6565b..ff87152 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -164,3 +164,13 @@ def find_non_zero_wavelet_coefficients(
     # coefficients always correspond to the j-th wavelet
     n_scales = np.flatnonzero(wav_coeffs.any(axis=axis)).max(initial=-1) + 1
     return wav_coeffs[:n_scales]
+
+
+def _select_wavelet_coefficients(
+    wav_coeffs: npt.NDArray[np.complex128 | np.float64],
+    jth: int,
+) -> npt.NDArray[np.complex128 | np.float64]:
+    """Select a scale, those beyond the last non-zero one have been discarded."""
+    if jth < len(wav_coeffs):
+        return wav_coeffs[jth]
+    return np.zeros(wav_coeffs.shape[1:], dtype=wav_coeffs.dtype)
-- 
2.43.0


From 6c2e1c2388abc1880825338df31f24c760222214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 16/32] fix: do not invert the singular mesh Laplacian about
 zero

---
 src/sleplet/_mesh_methods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index d461d3f..eaa8f61 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -12,6 +12,7 @@ import tomli
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
 
+_LAPLACIAN_SHIFT = -1e-6
 _data_path = pathlib.Path(__file__).resolve().parent / "_data"
 _logger = logging.getLogger(__name__)
 
@@ -96,11 +97,13 @@ def mesh_eigendecomposition(
         )
     except TypeError:
         laplacian = _mesh_laplacian(vertices, faces)
+        # the Laplacian is singular so cannot be inverted about zero, as it is also
+        # positive semi-definite the order is the same about a small negative value
         eigenvalues, eigenvectors = LA_sparse.eigsh(
             laplacian,
             k=number_basis_functions,
             which="LM",
-            sigma=0,
+            sigma=_LAPLACIAN_SHIFT,
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-- 
2.43.0


From 17838bb64bcc0085a94ba49a474b27cf73c65b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 17/32] fix: find every copy of a repeated eigenvalue of the
 mesh Laplacian

---
 src/sleplet/_mesh_methods.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index eaa8f61..aa20537 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -12,6 +12,7 @@ import tomli
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
 
+_LAPLACIAN_EXTRA = 10
 _LAPLACIAN_SHIFT = -1e-6
 _data_path = pathlib.Path(__file__).resolve().parent / "_data"
 _logger = logging.getLogger(__name__)
@@ -99,12 +100,18 @@ def mesh_eigendecomposition(
         laplacian = _mesh_laplacian(vertices, faces)
         # the Laplacian is singular so cannot be inverted about zero, as it is also
         # positive semi-definite the order is the same about a small negative value
+        # ask for more as repeated eigenvalues may be missed near the number requested
         eigenvalues, eigenvectors = LA_sparse.eigsh(
             laplacian,
-            k=number_basis_functions,
+            k=max(
+                number_basis_functions,
+                min(number_basis_functions + _LAPLACIAN_EXTRA, vertices.shape[0] - 1),
+            ),
             which="LM",
             sigma=_LAPLACIAN_SHIFT,
         )
+        idx = eigenvalues.argsort()[:number_basis_functions]
+        eigenvalues, eigenvectors = eigenvalues[idx], eigenvectors[:, idx]
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
         save_path = platformdirs.user_data_path()
-- 
2.43.0


From caa880a0bd588b252670b11d37849ce0c5847935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:40 +0000
Subject: [PATCH 18/32] fix: add noise to Slepian signals with coefficients
 beyond the Shannon number

---
 src/sleplet/noise.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 3384b8d..d48e694 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -109,7 +109,10 @@ def _create_slepian_noise(
         Method=sleplet._vars.SAMPLING_SCHEME,
     )
     nlm = _create_noise(L, flm, snr_in)
-    return sleplet.slepian_methods.slepian_forward(L, slepian, flm=nlm)
+    # the noise vanishes for the coefficients beyond the Shannon number
+    n_p = np.zeros(slepian_signal.shape[0], dtype=np.complex128)
+    n_p[: slepian.N] = sleplet.slepian_methods.slepian_forward(L, slepian, flm=nlm)
+    return n_p
 
 
 def _perform_hard_thresholding(
@@ -274,10 +277,13 @@ def _create_slepian_mesh_noise(
         ),
     )
     n_i = _create_mesh_noise(u_i, snr_in)
-    return sleplet.slepian_methods.slepian_mesh_forward(
+    # the noise vanishes for the coefficients beyond the Shannon number
+    n_p = np.zeros(slepian_signal.shape[0])
+    n_p[: mesh_slepian.N] = sleplet.slepian_methods.slepian_mesh_forward(
         mesh_slepian,
         u_i=n_i,
     )
+    return n_p
 
 
 def compute_slepian_mesh_sigma_j(
-- 
2.43.0


From 8fec4e1105fe36358ebed81557abc9f074cefa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:40 +0000
Subject: [PATCH 19/32] fix: document the exponent of the Gaussian

---
 src/sleplet/functions/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/gaussian.py b/src/sleplet/functions/gaussian.py
index 71a48df..920f62c 100644
--- a/src/sleplet/functions/gaussian.py
+++ b/src/sleplet/functions/gaussian.py
@@ -14,7 +14,7 @@ from sleplet.functions.flm import Flm
 
 @pydantic.dataclasses.dataclass(config=sleplet._validation.validation, kw_only=True)
 class Gaussian(Flm):
-    r"""Create a Gaussian \(\exp(-\frac{{\ell}^{2}}{2\sigma^{2}})\)."""
+    r"""Create a Gaussian \(\exp(-\frac{\ell(\ell+1)}{2\sigma^{2}})\)."""
 
     sigma: float = 10
     r"""Sets the \(\sigma\) value."""
-- 
2.43.0


From 4ac5dfb321dea1557137b75c0f186c1554cb2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:35 +0000
Subject: [PATCH 20/32] fix: recompute the same basis functions of a mesh every
 time

---
 src/sleplet/_mesh_methods.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index aa20537..cc33bb6 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -11,6 +11,7 @@ import tomli
 
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
+import sleplet._vars
 
 _LAPLACIAN_EXTRA = 10
 _LAPLACIAN_SHIFT = -1e-6
@@ -101,6 +102,7 @@ def mesh_eigendecomposition(
         # the Laplacian is singular so cannot be inverted about zero, as it is also
         # positive semi-definite the order is the same about a small negative value
         # ask for more as repeated eigenvalues may be missed near the number requested
+        # start from the same vector so that recomputed functions match saved solutions
         eigenvalues, eigenvectors = LA_sparse.eigsh(
             laplacian,
             k=max(
@@ -109,6 +111,9 @@ def mesh_eigendecomposition(
             ),
             which="LM",
             sigma=_LAPLACIAN_SHIFT,
+            v0=np.random.default_rng(sleplet._vars.RANDOM_SEED).standard_normal(
+                vertices.shape[0],
+            ),
         )
         idx = eigenvalues.argsort()[:number_basis_functions]
         eigenvalues, eigenvectors = eigenvalues[idx], eigenvectors[:, idx]
-- 
2.43.0


From 6367923dddaa6d0ae162715cfc0ee422b646a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 21/32] fix: use the local data when the answer about the
 Zenodo record is unusable

---
 src/sleplet/_data/setup_pooch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index b1eb358..bec01a6 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -50,8 +50,9 @@ def _lazy_load_registry(
             )
             try:
                 _POOCH.load_registry_from_doi()
-            except OSError:
-                # without a connection only the local files are available
+            except (OSError, KeyError, ValueError):
+                # without a connection, or when the answer is not that of Zenodo
+                # e.g. an error message, only the local files are available
                 msg = f"Unable to reach https://doi.org/{_ZENODO_DATA_DOI}"
                 _logger.warning(msg)
         return func(*args, **kwargs)
-- 
2.43.0


From f9ef4f881ae7a60c05b6ea2149f0ba9940223355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 22/32] fix: do not mark the identity function as real

---
 src/sleplet/functions/identity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/identity.py b/src/sleplet/functions/identity.py
index d930104..55366cc 100644
--- a/src/sleplet/functions/identity.py
+++ b/src/sleplet/functions/identity.py
@@ -28,7 +28,7 @@ class Identity(Flm):
         )
 
     def _set_reality(self: typing_extensions.Self) -> bool:
-        return True
+        return False
 
     def _set_spin(self: typing_extensions.Self) -> int:
         return 0
-- 
2.43.0


From c8bef0c368e72781d00451604eb0700b0be06eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:40 +0000
Subject: [PATCH 23/32] fix: accept the annotation of translated plots

---
 src/sleplet/_plotly_methods.py              | 2 +-
 src/sleplet/_scripts/plotting_on_sphere.py  | 2 +-
 src/sleplet/plotting/_create_plot_sphere.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_plotly_methods.py b/src/sleplet/_plotly_methods.py
index a1f3381..1a83873 100644
--- a/src/sleplet/_plotly_methods.py
+++ b/src/sleplet/_plotly_methods.py
@@ -32,7 +32,7 @@ def create_camera(  # noqa: PLR0913
 def create_layout(
     camera: go.layout.scene.Camera,
     *,
-    annotations: list[dict[str, float | int]] | None = None,
+    annotations: list[dict[str, float | int | str]] | None = None,
 ) -> go.Layout:
     """Create the default plotly layout."""
     return go.Layout(
diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index cf905a9..0512343 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -302,7 +302,7 @@ def _translation_helper(
     alpha_pi_frac: float,
     beta_pi_frac: float,
     shannon: int | None,
-) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int]]:
+) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int | str]]:
     """Perform the translation specific steps."""
     msg = f"angles: (alpha, beta) = ({alpha_pi_frac}, {beta_pi_frac})"
     _logger.info(msg)
diff --git a/src/sleplet/plotting/_create_plot_sphere.py b/src/sleplet/plotting/_create_plot_sphere.py
index 933b60b..3c48fb8 100644
--- a/src/sleplet/plotting/_create_plot_sphere.py
+++ b/src/sleplet/plotting/_create_plot_sphere.py
@@ -32,7 +32,7 @@ class PlotSphere:
     _: dataclasses.KW_ONLY
     amplitude: float | None = None
     """Whether to customise the amplitude range of the colour bar."""
-    annotations: list[dict[str, float | int]] = pydantic.Field(default_factory=list)
+    annotations: list[dict[str, float | int | str]] = pydantic.Field(default_factory=list)
     """Whether to display any annotations on the surface plot or not."""
     normalise: bool = True
     """Whether to normalise the plot or not."""
-- 
2.43.0


From 33304be6cc02155d47fd2c90d6944dabeb9aecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 24/32] fix: keep the imaginary part when thresholding real
 Slepian wavelet coefficients

---
 src/sleplet/noise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index d48e694..932e976 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -178,17 +178,19 @@ def slepian_wavelet_hard_thresholding(
         The hard thresholded Slepian wavelet coefficients.
     """
     _logger.info("begin Slepian hard thresholding")
+    # the coefficients on the sphere are complex even when the given ones are real
+    wav_coeffs_thresholded = np.zeros(wav_coeffs.shape, dtype=np.complex128)
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
         f = sleplet.slepian_methods.slepian_inverse(coefficient, L, slepian)
         f_thresholded = _perform_hard_thresholding(f, sigma_j[j], n_sigma)
-        wav_coeffs[j] = sleplet.slepian_methods.slepian_forward(
+        wav_coeffs_thresholded[j] = sleplet.slepian_methods.slepian_forward(
             L,
             slepian,
             f=f_thresholded,
         )
-    return wav_coeffs
+    return wav_coeffs_thresholded
 
 
 def slepian_function_hard_thresholding(
-- 
2.43.0


From 8c07cb3ec540b07eb0a8b317d75fa2ca2301bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 25/32] fix: leave the given wavelet coefficients unchanged
 when thresholding

---
 src/sleplet/noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 932e976..ba39224 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -144,6 +144,7 @@ def harmonic_hard_thresholding(
         The thresholded wavelet coefficients.
     """
     _logger.info("begin harmonic hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs[1:]):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs) - 1}"
         _logger.info(msg)
@@ -336,6 +337,7 @@ def slepian_mesh_hard_thresholding(
         The thresholded wavelet coefficients of the mesh.
     """
     _logger.info("begin Slepian mesh hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
-- 
2.43.0


From e3cea0d8190a757ad1101287d06ea771d156edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 26/32] fix: reject negative minimum wavelet scales

---
 src/sleplet/wavelet_methods.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index ff87152..166c10e 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -141,6 +141,9 @@ def create_kappas(xlim: int, B: int, j_min: int) -> npt.NDArray[np.float64]:
     Returns:
         The Slepian wavelet generating functions.
     """
+    if j_min < 0:
+        msg = "j_min should be positive"
+        raise ValueError(msg)
     kappa0, kappa = pys2let.axisym_wav_l(B, xlim, j_min)
     return np.concatenate((kappa0[np.newaxis], kappa.T))
 
-- 
2.43.0


From 1d695bdfaa6ad4dac6d82a4795910a29fd8df41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 27/32] fix: keep the imaginary part of complex signals in the
 mesh transforms

---
 src/sleplet/_mask_methods.py                      | 2 +-
 src/sleplet/harmonic_methods.py                   | 7 +++++--
 src/sleplet/meshes/_mesh_slepian_decomposition.py | 8 ++++++--
 src/sleplet/slepian_methods.py                    | 2 +-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/sleplet/_mask_methods.py b/src/sleplet/_mask_methods.py
index efb1536..6b0ac90 100644
--- a/src/sleplet/_mask_methods.py
+++ b/src/sleplet/_mask_methods.py
@@ -133,7 +133,7 @@ def create_mesh_region(
 def ensure_masked_bandlimit_mesh_signal(
     mesh: "sleplet.meshes.mesh.Mesh",
     u_i: npt.NDArray[np.complex128 | np.float64],
-) -> npt.NDArray[np.float64]:
+) -> npt.NDArray[np.complex128 | np.float64]:
     """Ensure that signal in pixel space is bandlimited."""
     field = sleplet.harmonic_methods.mesh_inverse(mesh, u_i)
     masked_field = np.where(mesh.mesh_region, field, 0)
diff --git a/src/sleplet/harmonic_methods.py b/src/sleplet/harmonic_methods.py
index df1d8df..8184290 100644
--- a/src/sleplet/harmonic_methods.py
+++ b/src/sleplet/harmonic_methods.py
@@ -134,7 +134,7 @@ def compute_random_signal(
 def mesh_forward(
     mesh: "sleplet.meshes.mesh.Mesh",
     u: npt.NDArray[np.complex128 | np.float64],
-) -> npt.NDArray[np.float64]:
+) -> npt.NDArray[np.complex128 | np.float64]:
     """
     Compute the mesh forward transform from pixel space to Fourier space.
 
@@ -145,7 +145,10 @@ def mesh_forward(
     Returns:
         The basis functions of the mesh in Fourier space.
     """
-    u_i = np.zeros(mesh.mesh_eigenvalues.shape[0])
+    u_i = np.zeros(
+        mesh.mesh_eigenvalues.shape[0],
+        dtype=np.complex128 if np.iscomplexobj(u) else np.float64,
+    )
     for i, phi_i in enumerate(mesh.basis_functions):
         u_i[i] = sleplet._integration_methods.integrate_whole_mesh(
             mesh.vertices,
diff --git a/src/sleplet/meshes/_mesh_slepian_decomposition.py b/src/sleplet/meshes/_mesh_slepian_decomposition.py
index 9416019..e569fd5 100644
--- a/src/sleplet/meshes/_mesh_slepian_decomposition.py
+++ b/src/sleplet/meshes/_mesh_slepian_decomposition.py
@@ -44,9 +44,13 @@ class MeshSlepianDecomposition:
     def decompose_all(
         self: typing_extensions.Self,
         n_coefficients: int,
-    ) -> npt.NDArray[np.float64]:
+    ) -> npt.NDArray[np.complex128 | np.float64]:
         """Decompose all ranks of the Slepian coefficients."""
-        coefficients = np.zeros(n_coefficients)
+        signal = self.u if self.u_i is None else self.u_i
+        coefficients = np.zeros(
+            n_coefficients,
+            dtype=np.complex128 if np.iscomplexobj(signal) else np.float64,
+        )
         for rank in range(n_coefficients):
             coefficients[rank] = self.decompose(rank)
         return coefficients
diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index a9e1020..7208ff1 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -178,7 +178,7 @@ def slepian_mesh_forward(
     u_i: npt.NDArray[np.complex128 | np.float64] | None = None,
     mask: bool = False,
     n_coeffs: int | None = None,
-) -> npt.NDArray[np.float64]:
+) -> npt.NDArray[np.complex128 | np.float64]:
     """
     Compute the Slepian forward transform for all coefficients on the mesh.
 
-- 
2.43.0


From 5bcb59716322ba7ee9bf1aee997c18e9b276d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 28/32] fix: treat the longitude of Slepian translations as
 periodic

---
 src/sleplet/slepian_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index 7208ff1..f175843 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -164,7 +164,9 @@ def _compute_s_p_omega_prime(
     # of a grid point would select its neighbour
     thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
     p = np.abs(thetas - beta).argmin()
-    q = np.abs(phis - alpha).argmin()
+    # the longitude is periodic
+    delta_phi = np.abs(phis - alpha % (2 * np.pi))
+    q = np.minimum(delta_phi, 2 * np.pi - delta_phi).argmin()
     sp_omega_prime = sp_omega[:, p, q]
     # pad with zeros so it has the expected shape
     boost = L**2 - slepian.N
-- 
2.43.0


From 6b009b5d670fdff90af27147ba9a1163723605d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 29/32] fix: treat the longitude as periodic when looking for
 the nearest grid point

---
 src/sleplet/plot_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index c150cff..cbf459e 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -52,7 +52,9 @@ def _calc_nearest_grid_point(
     as the rotation such that the difference error is small.
     """
     thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
-    pix_j = np.abs(phis - alpha_pi_fraction * np.pi).argmin()
+    # the longitude is periodic
+    delta_phi = np.abs(phis - alpha_pi_fraction * np.pi % (2 * np.pi))
+    pix_j = np.minimum(delta_phi, 2 * np.pi - delta_phi).argmin()
     pix_i = np.abs(thetas - beta_pi_fraction * np.pi).argmin()
     alpha, beta = phis[pix_j], thetas[pix_i]
     msg = f"grid point: (alpha, beta)=({alpha:e}, {beta:e})"
-- 
2.43.0


From ee1325ed71110ffa20700f64158bcc677683628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 30/32] fix: keep the denominator of arguments above one in
 names

---
 src/sleplet/_string_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 91b4536..6d5ea45 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -29,7 +29,8 @@ def filename_args(value: float, arg_name: str) -> str:
     filename = "_"
     num, dem = _get_angle_num_dem(value)
     filename += f"{num}{arg_name}"
-    if abs(value) < 1 and value != 0:
+    # if whole number
+    if dem != 1:
         filename += f"{dem}"
     return filename
 
-- 
2.43.0


From 15c5ff9a464988644b05ab4db5a1d90392cbbb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 31/32] fix: tell a Dirac delta by its class

The name of a function ends with that of its region, so any function given a
region whose mask has "dirac_delta" in its name was translated as a delta.
---
 src/sleplet/functions/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/coefficients.py b/src/sleplet/functions/coefficients.py
index 2093b2d..7ada164 100644
--- a/src/sleplet/functions/coefficients.py
+++ b/src/sleplet/functions/coefficients.py
@@ -93,7 +93,7 @@ class Coefficients:
         g_coefficients = self._translation_helper(alpha, beta)
         return (
             g_coefficients
-            if "dirac_delta" in self.name
+            if self.__class__.__name__.endswith("DiracDelta")
             else self.convolve(self.coefficients, g_coefficients, shannon=shannon)
         )
 
-- 
2.43.0


From 57d5dd7bf981a973e433d007841f6467909df4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:38 +0000
Subject: [PATCH 32/32] fix: apply the view of the Earth to the Earth alone

The name of a plot also holds that of the region, so any function given a
region whose mask has "earth" in its name was rotated to the view.
---
 src/sleplet/_scripts/plotting_on_sphere.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 0512343..3d7fd77 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -232,7 +232,8 @@ def plot(  # noqa: PLR0913
         )
 
     # rotate plot of Earth, rotation isn't defined for Slepian coefficients
-    if "earth" in filename and shannon is None:
+    is_earth = any("Earth" in h.__class__.__name__ for h in (f, g))
+    if is_earth and shannon is None:
         match earth_view:
             case "africa":
                 coefficients = sleplet.harmonic_methods.rotate_earth_to_africa(
-- 
2.43.0

