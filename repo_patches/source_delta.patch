From 071bbaff4ca2031606f166b6b9b07e1c30064582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 01/15] fix: build polar cap matrix entries from scalars

Indexing the Legendre table with a boolean mask gives one-element arrays,
which numpy no longer converts when they are stored in a matrix entry. The
error was lost in the thread pool, so every polar cap and polar gap came out
with all eigenvalues zero.
---
 src/sleplet/slepian/slepian_polar_cap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 9bd1e00..3bbd063 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -255,11 +255,11 @@ class SlepianPolarCap(SlepianFunctions):
             p = int(lvec[j])
             c = 0
             for n in range(abs(el - p), el + p + 1):
-                A = Pl[ell == n - 1] if n != 0 else 1
+                A = Pl[ell == n - 1].item() if n != 0 else 1
                 c += (
                     self._wigner3j(el, n, p, 0, 0, 0)
                     * self._wigner3j(el, n, p, m, 0, -m)
-                    * (A - Pl[ell == n + 1])
+                    * (A - Pl[ell == n + 1].item())
                 )
             Dm[i, j] = (
                 self._polar_gap_modification(el, p)
-- 
2.43.0


From 6317448daaa0a9c6c2e723a49e665431c0f08d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 02/15] fix: declare the field cache of an arbitrary Slepian
 region

With validated assignment pydantic refuses attributes that are not fields, so
building the basis of a masked region from scratch always failed.
---
 src/sleplet/slepian/slepian_arbitrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 2682bf3..0967fe8 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -41,6 +41,11 @@ class SlepianArbitrary(SlepianFunctions):
         init_var=False,
         repr=False,
     )
+    _fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = pydantic.Field(
+        default_factory=dict,
+        init_var=False,
+        repr=False,
+    )
 
     def __post_init__(self: typing_extensions.Self) -> None:
         self._resolution = _SAMPLES * self.L
@@ -107,7 +112,7 @@ class SlepianArbitrary(SlepianFunctions):
     ) -> npt.NDArray[np.complex128]:
         """Compute the D matrix in parallel."""
         # create dictionary for the integrals
-        self._fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = {}
+        self._fields = {}
 
         # initialise real and imaginary matrices
         D_r = np.zeros((self.L**2, self.L**2))
-- 
2.43.0


From 0e3d8923cbe5979e53f84526fd71c8000b358592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 03/15] fix: take the mesh field of the noise from the module
 that defines it

MeshNoiseField looked up MeshField in mesh_slepian, which does not have it, so
it could never be constructed.
---
 src/sleplet/meshes/mesh_noise_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/meshes/mesh_noise_field.py b/src/sleplet/meshes/mesh_noise_field.py
index 9e3f853..b392494 100644
--- a/src/sleplet/meshes/mesh_noise_field.py
+++ b/src/sleplet/meshes/mesh_noise_field.py
@@ -7,7 +7,7 @@ import typing_extensions
 
 import sleplet._string_methods
 import sleplet._validation
-import sleplet.meshes.mesh_slepian
+import sleplet.meshes.mesh_field
 import sleplet.noise
 from sleplet.meshes.mesh_harmonic_coefficients import MeshHarmonicCoefficients
 
@@ -26,7 +26,7 @@ class MeshNoiseField(MeshHarmonicCoefficients):
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
-        mf = sleplet.meshes.mesh_slepian.MeshField(self.mesh)
+        mf = sleplet.meshes.mesh_field.MeshField(self.mesh)
         noise = sleplet.noise._create_mesh_noise(mf.coefficients, self.SNR)
         sleplet.noise.compute_snr(mf.coefficients, noise, "Harmonic")
         return noise
-- 
2.43.0


From c8fca0ff973ebece2e34ef0206a548420586875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 04/15] fix: raise errors of the worker threads

The results of the thread pool were never looked at, so an error in a worker
was lost and the basis was computed, returned and saved from a matrix that was
only partly filled.
---
 src/sleplet/meshes/mesh_slepian.py       | 3 ++-
 src/sleplet/slepian/slepian_arbitrary.py | 3 ++-
 src/sleplet/slepian/slepian_polar_cap.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 10765fb..0168cfc 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -130,7 +130,8 @@ class MeshSlepian:
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            # consume the results so that an error in a worker is raised here
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         D = D_ext.copy()
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 0967fe8..500f496 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -152,7 +152,8 @@ class SlepianArbitrary(SlepianFunctions):
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            # consume the results so that an error in a worker is raised here
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         D = D_r_ext + 1j * D_i_ext
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3bbd063..7afa536 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -219,7 +219,8 @@ class SlepianPolarCap(SlepianFunctions):
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            # consume the results so that an error in a worker is raised here
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         Dm = Dm_ext * (-1) ** m / 2
-- 
2.43.0


From 5b7e5a54f0992261803de81bfc47cade8c27ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 05/15] fix: release shared memory when building a matrix fails

An invalid number of workers, a failing worker or a failing allocation left
the shared-memory segments of the matrix behind for the life of the machine
and the workers' mappings open.
---
 src/sleplet/meshes/mesh_slepian.py       | 43 ++++++-------
 src/sleplet/slepian/slepian_arbitrary.py | 79 ++++++++++++++----------
 src/sleplet/slepian/slepian_polar_cap.py | 43 ++++++-------
 3 files changed, 91 insertions(+), 74 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 0168cfc..b663b6e 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -101,8 +101,6 @@ class MeshSlepian:
             (self.mesh.mesh_eigenvalues.shape[0], self.mesh.mesh_eigenvalues.shape[0]),
         )
 
-        D_ext, shm_ext = sleplet._parallel_methods.create_shared_memory_array(D)
-
         def func(chunk: list[int]) -> None:
             """Calculate D matrix components for each chunk."""
             D_int, shm_int = sleplet._parallel_methods.attach_to_shared_memory_block(
@@ -110,14 +108,15 @@ class MeshSlepian:
                 shm_ext,
             )
 
-            for i in chunk:
-                msg = f"start basis function: {i}"
-                _logger.info(msg)
-                self._fill_D_elements(D_int, i)
-                msg = f"finish basis function: {i}"
-                _logger.info(msg)
-
-            sleplet._parallel_methods.free_shared_memory(shm_int)
+            try:
+                for i in chunk:
+                    msg = f"start basis function: {i}"
+                    _logger.info(msg)
+                    self._fill_D_elements(D_int, i)
+                    msg = f"finish basis function: {i}"
+                    _logger.info(msg)
+            finally:
+                sleplet._parallel_methods.free_shared_memory(shm_int)
 
         # split up L range to maximise efficiency
         ncpu = int(os.getenv("NCPU", "4"))
@@ -128,18 +127,20 @@ class MeshSlepian:
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            # consume the results so that an error in a worker is raised here
-            list(e.map(func, chunks))
-
-        # retrieve from parallel function
-        D = D_ext.copy()
+        D_ext, shm_ext = sleplet._parallel_methods.create_shared_memory_array(D)
 
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_ext)
-        return D
+        try:
+            # initialise pool and apply function
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                # consume the results so that an error in a worker is raised here
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            return D_ext.copy()
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_ext)
 
     def _fill_D_elements(  # noqa: N802
         self: typing_extensions.Self,
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 500f496..ce25f0c 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -1,6 +1,7 @@
 """Contains the `SlepianArbitrary` class."""
 
 import concurrent.futures
+import contextlib
 import logging
 import os
 import pathlib
@@ -118,28 +119,32 @@ class SlepianArbitrary(SlepianFunctions):
         D_r = np.zeros((self.L**2, self.L**2))
         D_i = np.zeros((self.L**2, self.L**2))
 
-        D_r_ext, shm_r_ext = sleplet._parallel_methods.create_shared_memory_array(D_r)
-        D_i_ext, shm_i_ext = sleplet._parallel_methods.create_shared_memory_array(D_i)
-
         def func(chunk: list[int]) -> None:
             """Calculate D matrix components for each chunk."""
-            (
-                D_r_int,
-                shm_r_int,
-            ) = sleplet._parallel_methods.attach_to_shared_memory_block(D_r, shm_r_ext)
-            (
-                D_i_int,
-                shm_i_int,
-            ) = sleplet._parallel_methods.attach_to_shared_memory_block(D_i, shm_i_ext)
-
-            for i in chunk:
-                msg = f"start ell: {i}"
-                _logger.info(msg)
-                self._matrix_helper(D_r_int, D_i_int, i)
-                msg = f"finish ell: {i}"
-                _logger.info(msg)
-
-            sleplet._parallel_methods.free_shared_memory(shm_r_int, shm_i_int)
+            with contextlib.ExitStack() as stack:
+                (
+                    D_r_int,
+                    shm_r_int,
+                ) = sleplet._parallel_methods.attach_to_shared_memory_block(
+                    D_r,
+                    shm_r_ext,
+                )
+                stack.callback(sleplet._parallel_methods.free_shared_memory, shm_r_int)
+                (
+                    D_i_int,
+                    shm_i_int,
+                ) = sleplet._parallel_methods.attach_to_shared_memory_block(
+                    D_i,
+                    shm_i_ext,
+                )
+                stack.callback(sleplet._parallel_methods.free_shared_memory, shm_i_int)
+
+                for i in chunk:
+                    msg = f"start ell: {i}"
+                    _logger.info(msg)
+                    self._matrix_helper(D_r_int, D_i_int, i)
+                    msg = f"finish ell: {i}"
+                    _logger.info(msg)
 
         # split up L range to maximise efficiency
         ncpu = int(os.getenv("NCPU", "4"))
@@ -150,18 +155,28 @@ class SlepianArbitrary(SlepianFunctions):
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            # consume the results so that an error in a worker is raised here
-            list(e.map(func, chunks))
-
-        # retrieve from parallel function
-        D = D_r_ext + 1j * D_i_ext
-
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_r_ext, shm_i_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_r_ext, shm_i_ext)
-        return D
+        # Free and release the shared memory blocks at the very end
+        with contextlib.ExitStack() as stack:
+            (
+                D_r_ext,
+                shm_r_ext,
+            ) = sleplet._parallel_methods.create_shared_memory_array(D_r)
+            stack.callback(sleplet._parallel_methods.release_shared_memory, shm_r_ext)
+            stack.callback(sleplet._parallel_methods.free_shared_memory, shm_r_ext)
+            (
+                D_i_ext,
+                shm_i_ext,
+            ) = sleplet._parallel_methods.create_shared_memory_array(D_i)
+            stack.callback(sleplet._parallel_methods.release_shared_memory, shm_i_ext)
+            stack.callback(sleplet._parallel_methods.free_shared_memory, shm_i_ext)
+
+            # initialise pool and apply function
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                # consume the results so that an error in a worker is raised here
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            return D_r_ext + 1j * D_i_ext
 
     def _matrix_helper(
         self: typing_extensions.Self,
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 7afa536..a4ffc2e 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -189,8 +189,6 @@ class SlepianPolarCap(SlepianFunctions):
         Dm = np.zeros((self.L - m, self.L - m))
         lvec = np.arange(m, self.L)
 
-        Dm_ext, shm_ext = sleplet._parallel_methods.create_shared_memory_array(Dm)
-
         def func(chunk: list[int]) -> None:
             """Calculate D matrix components for each chunk."""
             Dm_int, shm_int = sleplet._parallel_methods.attach_to_shared_memory_block(
@@ -199,14 +197,15 @@ class SlepianPolarCap(SlepianFunctions):
             )
 
             # deal with chunk
-            for i in chunk:
-                msg = f"start ell: {i}"
-                _logger.info(msg)
-                self._dm_matrix_helper(Dm_int, i, m, lvec, Pl, ell)
-                msg = f"finish ell: {i}"
-                _logger.info(msg)
-
-            sleplet._parallel_methods.free_shared_memory(shm_int)
+            try:
+                for i in chunk:
+                    msg = f"start ell: {i}"
+                    _logger.info(msg)
+                    self._dm_matrix_helper(Dm_int, i, m, lvec, Pl, ell)
+                    msg = f"finish ell: {i}"
+                    _logger.info(msg)
+            finally:
+                sleplet._parallel_methods.free_shared_memory(shm_int)
 
         # split up L range to maximise efficiency
         ncpu = int(os.getenv("NCPU", "4"))
@@ -217,18 +216,20 @@ class SlepianPolarCap(SlepianFunctions):
             ncpu,
         )
 
-        # initialise pool and apply function
-        with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            # consume the results so that an error in a worker is raised here
-            list(e.map(func, chunks))
-
-        # retrieve from parallel function
-        Dm = Dm_ext * (-1) ** m / 2
+        Dm_ext, shm_ext = sleplet._parallel_methods.create_shared_memory_array(Dm)
 
-        # Free and release the shared memory block at the very end
-        sleplet._parallel_methods.free_shared_memory(shm_ext)
-        sleplet._parallel_methods.release_shared_memory(shm_ext)
-        return Dm
+        try:
+            # initialise pool and apply function
+            with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
+                # consume the results so that an error in a worker is raised here
+                list(e.map(func, chunks))
+
+            # retrieve from parallel function
+            return Dm_ext * (-1) ** m / 2
+        finally:
+            # Free and release the shared memory block at the very end
+            sleplet._parallel_methods.free_shared_memory(shm_ext)
+            sleplet._parallel_methods.release_shared_memory(shm_ext)
 
     def _create_legendre_polynomials_table(
         self: typing_extensions.Self,
-- 
2.43.0


From 567239a704367d58dcd581a504b1671453a95522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 06/15] fix: write stored results under a temporary name first

Results were written straight to their final names, so a crash, a full disk
or another process reading at that moment left or saw a partly written file
that every later run then tried to load.
---
 src/sleplet/_data/setup_pooch.py             | 32 ++++++++++++++++++++
 src/sleplet/_mask_methods.py                 |  6 +---
 src/sleplet/_mesh_methods.py                 |  7 ++---
 src/sleplet/meshes/mesh_slepian.py           | 10 +++---
 src/sleplet/slepian/slepian_arbitrary.py     |  8 ++---
 src/sleplet/slepian/slepian_limit_lat_lon.py |  9 ++----
 src/sleplet/slepian/slepian_polar_cap.py     | 10 ++----
 7 files changed, 46 insertions(+), 36 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 4b2bd7c..411a215 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -1,7 +1,12 @@
+import contextlib
 import logging
 import os
+import pathlib
 import typing
+import uuid
 
+import numpy as np
+import numpy.typing as npt
 import platformdirs
 import pooch
 
@@ -78,3 +83,30 @@ def find_on_pooch_then_local(filename: str) -> os.PathLike[str] | None:
     msg = f"No {filename} found, calculating..."
     _logger.info(msg)
     return None
+
+
+def save_locally(
+    filename: str,
+    array: npt.NDArray[np.bool_ | np.complex128 | np.float64 | np.int_],
+) -> None:
+    """
+    Save an array in the data folder. The file only gets its name once it is
+    complete, so it is never seen partly written.
+
+    Args:
+        filename: Filename to save
+        array: The array to save
+    """
+    save_path = pathlib.Path(platformdirs.user_data_path())
+    save_path.mkdir(parents=True, exist_ok=True)
+    temporary = save_path / f"{filename}.{uuid.uuid4().hex}.tmp"
+    try:
+        with temporary.open("wb") as f:
+            np.save(f, array)
+            f.flush()
+            os.fsync(f.fileno())
+        temporary.replace(save_path / filename)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            temporary.unlink()
+        raise
diff --git a/src/sleplet/_mask_methods.py b/src/sleplet/_mask_methods.py
index efb1536..bd2b57b 100644
--- a/src/sleplet/_mask_methods.py
+++ b/src/sleplet/_mask_methods.py
@@ -1,11 +1,9 @@
 import logging
 import os
-import pathlib
 import typing
 
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 
 import pyssht as ssht
 
@@ -201,7 +199,5 @@ def create_mask(L: int, mask_name: str) -> npt.NDArray[np.float64]:
     else:
         msg = f"Mask name {mask_name} not recognised"
         raise ValueError(msg)
-    save_path = platformdirs.user_data_path()
-    pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-    np.save(save_path / f"slepian_masks_{mask_name}", mask)
+    sleplet._data.setup_pooch.save_locally(f"slepian_masks_{mask_name}", mask)
     return mask
diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index d461d3f..36600d3 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -5,7 +5,6 @@ import typing
 import igl
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 import scipy.sparse.linalg as LA_sparse  # noqa: N812
 import tomli
 
@@ -104,10 +103,8 @@ def mesh_eigendecomposition(
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors)
+        sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_locally(evec_loc, eigenvectors)
     return eigenvalues, eigenvectors, number_basis_functions
 
 
diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index b663b6e..caf4d3b 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -3,12 +3,10 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -88,10 +86,10 @@ class MeshSlepian:
             self.slepian_eigenvalues,
             self.slepian_functions,
         ) = self._clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, self.slepian_eigenvalues)
-        np.save(save_path / evec_loc, self.slepian_functions[: self.N])
+        sleplet._data.setup_pooch.save_locally(eval_loc, self.slepian_eigenvalues)
+        sleplet._data.setup_pooch.save_locally(
+            evec_loc, self.slepian_functions[: self.N]
+        )
 
     def _create_D_matrix(  # noqa: N802
         self: typing_extensions.Self,
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index ce25f0c..f9bb5be 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -4,12 +4,10 @@ import concurrent.futures
 import contextlib
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -102,10 +100,8 @@ class SlepianArbitrary(SlepianFunctions):
             eigenvalues,
             eigenvectors,
         ) = sleplet._slepian_arbitrary_methods.clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[: self.N])
+        sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_locally(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_D_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 78c99a9..21fa52b 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -1,12 +1,9 @@
 """Contains the `SlepianLimitLatLon` class."""
 
-import pathlib
-
 import numba
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -76,10 +73,8 @@ class SlepianLimitLatLon(SlepianFunctions):
         except TypeError:
             K = self._create_K_matrix()
             eigenvalues, eigenvectors = self._clean_evals_and_evecs(LA.eigh(K))
-            save_path = platformdirs.user_data_path()
-            pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-            np.save(save_path / eval_loc, eigenvalues)
-            np.save(save_path / evec_loc, eigenvectors[: self.N])
+            sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
+            sleplet._data.setup_pooch.save_locally(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_K_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index a4ffc2e..4a1f2fe 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -4,13 +4,11 @@ import concurrent.futures
 import dataclasses
 import logging
 import os
-import pathlib
 
 import gmpy2 as gp
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -130,11 +128,9 @@ class SlepianPolarCap(SlepianFunctions):
             self.order,
         ) = self._sort_all_evals_and_evecs(evals_all, evecs_all, emm)
         limit = self.N if self.L > _L_SAVE_ALL else None
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[:limit])
-        np.save(save_path / order_loc, self.order)
+        sleplet._data.setup_pooch.save_locally(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_locally(evec_loc, eigenvectors[:limit])
+        sleplet._data.setup_pooch.save_locally(order_loc, self.order)
         return eigenvalues, eigenvectors
 
     def _solve_eigenproblem_order(
-- 
2.43.0


From 8c9b0ddcab028813a7fe194387eaed2a2b4910a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 07/15] fix: recompute stored arrays that are damaged

A stored file that is empty, truncated or overwritten with something else made
every later construction fail until it was removed by hand; now it is treated
like a missing file and replaced.
---
 src/sleplet/_data/setup_pooch.py             | 26 ++++++++++++++++++++
 src/sleplet/_mask_methods.py                 |  8 +++---
 src/sleplet/_mesh_methods.py                 |  8 ++----
 src/sleplet/functions/africa.py              | 10 +-------
 src/sleplet/functions/south_america.py       | 10 +-------
 src/sleplet/meshes/mesh_slepian.py           |  8 ++----
 src/sleplet/slepian/slepian_arbitrary.py     |  8 ++----
 src/sleplet/slepian/slepian_limit_lat_lon.py |  8 ++----
 src/sleplet/slepian/slepian_polar_cap.py     | 10 +++-----
 9 files changed, 43 insertions(+), 53 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 411a215..3beb7e8 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -2,8 +2,10 @@ import contextlib
 import logging
 import os
 import pathlib
+import tokenize
 import typing
 import uuid
+import zipfile
 
 import numpy as np
 import numpy.typing as npt
@@ -85,6 +87,30 @@ def find_on_pooch_then_local(filename: str) -> os.PathLike[str] | None:
     return None
 
 
+def load_array(
+    filename: str,
+) -> npt.NDArray[np.bool_ | np.complex128 | np.float64 | np.int_]:
+    """
+    Load an array from POOCH or else the data folder.
+
+    Args:
+        filename: Filename to load
+
+    Returns:
+        The array
+
+    Raises:
+        TypeError: If there is no such file, or it is damaged
+    """
+    location = find_on_pooch_then_local(filename)
+    try:
+        return np.load(location)
+    except (EOFError, ValueError, tokenize.TokenError, zipfile.BadZipFile) as e:
+        msg = f"{location} is damaged, calculating..."
+        _logger.warning(msg)
+        raise TypeError(msg) from e
+
+
 def save_locally(
     filename: str,
     array: npt.NDArray[np.bool_ | np.complex128 | np.float64 | np.int_],
diff --git a/src/sleplet/_mask_methods.py b/src/sleplet/_mask_methods.py
index bd2b57b..512f981 100644
--- a/src/sleplet/_mask_methods.py
+++ b/src/sleplet/_mask_methods.py
@@ -68,10 +68,10 @@ def create_mask_region(
 
 def _load_mask(L: int, mask_name: str) -> npt.NDArray[np.float64]:
     """Attempt to read the mask from the config file."""
-    mask = sleplet._data.setup_pooch.find_on_pooch_then_local(
-        f"slepian_masks_{mask_name}",
-    )
-    return create_mask(L, mask_name) if mask is None else np.load(mask)
+    try:
+        return sleplet._data.setup_pooch.load_array(f"slepian_masks_{mask_name}")
+    except TypeError:
+        return create_mask(L, mask_name)
 
 
 def ensure_masked_flm_bandlimited(
diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index 36600d3..ae199a3 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -87,12 +87,8 @@ def mesh_eigendecomposition(
     evec_loc = f"{eigd_loc}_eigenvectors.npy"
 
     try:
-        eigenvalues = np.load(
-            sleplet._data.setup_pooch.find_on_pooch_then_local(eval_loc),
-        )
-        eigenvectors = np.load(
-            sleplet._data.setup_pooch.find_on_pooch_then_local(evec_loc),
-        )
+        eigenvalues = sleplet._data.setup_pooch.load_array(eval_loc)
+        eigenvectors = sleplet._data.setup_pooch.load_array(evec_loc)
     except TypeError:
         laplacian = _mesh_laplacian(vertices, faces)
         eigenvalues, eigenvectors = LA_sparse.eigsh(
diff --git a/src/sleplet/functions/africa.py b/src/sleplet/functions/africa.py
index 3b45c6d..4da91bb 100644
--- a/src/sleplet/functions/africa.py
+++ b/src/sleplet/functions/africa.py
@@ -8,7 +8,6 @@ import typing_extensions
 import pyssht as ssht
 
 import sleplet._data.create_earth_flm
-import sleplet._data.setup_pooch
 import sleplet._mask_methods
 import sleplet._string_methods
 import sleplet._validation
@@ -71,12 +70,5 @@ class Africa(Flm):
             Reality=self.reality,
         )
         mask_name = f"{self.name}_L{self.L}.npy"
-        mask_location = sleplet._data.setup_pooch.find_on_pooch_then_local(
-            f"slepian_masks_{mask_name}",
-        )
-        mask = (
-            sleplet._mask_methods.create_mask(self.L, mask_name)
-            if mask_location is None
-            else np.load(mask_location)
-        )
+        mask = sleplet._mask_methods._load_mask(self.L, mask_name)
         return np.where(mask, earth_f, 0)
diff --git a/src/sleplet/functions/south_america.py b/src/sleplet/functions/south_america.py
index 303150b..c80d6f1 100644
--- a/src/sleplet/functions/south_america.py
+++ b/src/sleplet/functions/south_america.py
@@ -8,7 +8,6 @@ import typing_extensions
 import pyssht as ssht
 
 import sleplet._data.create_earth_flm
-import sleplet._data.setup_pooch
 import sleplet._mask_methods
 import sleplet._string_methods
 import sleplet._validation
@@ -71,12 +70,5 @@ class SouthAmerica(Flm):
             Reality=self.reality,
         )
         mask_name = f"{self.name}_L{self.L}.npy"
-        mask_location = sleplet._data.setup_pooch.find_on_pooch_then_local(
-            f"slepian_masks_{mask_name}",
-        )
-        mask = (
-            sleplet._mask_methods.create_mask(self.L, mask_name)
-            if mask_location is None
-            else np.load(mask_location)
-        )
+        mask = sleplet._mask_methods._load_mask(self.L, mask_name)
         return np.where(mask, earth_f, 0)
diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index caf4d3b..847a8bb 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -56,12 +56,8 @@ class MeshSlepian:
         evec_loc = f"{eigd_loc}_eigenvectors.npy"
 
         try:
-            self.slepian_eigenvalues = np.load(
-                sleplet._data.setup_pooch.find_on_pooch_then_local(eval_loc),
-            )
-            self.slepian_functions = np.load(
-                sleplet._data.setup_pooch.find_on_pooch_then_local(evec_loc),
-            )
+            self.slepian_eigenvalues = sleplet._data.setup_pooch.load_array(eval_loc)
+            self.slepian_functions = sleplet._data.setup_pooch.load_array(evec_loc)
         except TypeError:
             self._compute_slepian_functions_from_scratch(eval_loc, evec_loc)
 
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index f9bb5be..cdbd7e9 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -75,12 +75,8 @@ class SlepianArbitrary(SlepianFunctions):
         evec_loc = f"{self.matrix_location}_eigenvectors.npy"
 
         try:
-            eigenvalues = np.load(
-                sleplet._data.setup_pooch.find_on_pooch_then_local(eval_loc),
-            )
-            eigenvectors = np.load(
-                sleplet._data.setup_pooch.find_on_pooch_then_local(evec_loc),
-            )
+            eigenvalues = sleplet._data.setup_pooch.load_array(eval_loc)
+            eigenvectors = sleplet._data.setup_pooch.load_array(evec_loc)
         except TypeError:
             eigenvalues, eigenvectors = self._solve_D_matrix(eval_loc, evec_loc)
         return eigenvalues, eigenvectors
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 21fa52b..3fc5f27 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -64,12 +64,8 @@ class SlepianLimitLatLon(SlepianFunctions):
         eval_loc = f"{self.matrix_location}_eigenvalues.npy"
         evec_loc = f"{self.matrix_location}_eigenvectors.npy"
         try:
-            eigenvalues = np.load(
-                sleplet._data.setup_pooch.find_on_pooch_then_local(eval_loc),
-            )
-            eigenvectors = np.load(
-                sleplet._data.setup_pooch.find_on_pooch_then_local(evec_loc),
-            )
+            eigenvalues = sleplet._data.setup_pooch.load_array(eval_loc)
+            eigenvectors = sleplet._data.setup_pooch.load_array(evec_loc)
         except TypeError:
             K = self._create_K_matrix()
             eigenvalues, eigenvectors = self._clean_evals_and_evecs(LA.eigh(K))
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 4a1f2fe..1e92e7e 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -90,13 +90,9 @@ class SlepianPolarCap(SlepianFunctions):
         order_loc: str,
     ) -> tuple[npt.NDArray[np.float64], npt.NDArray[np.complex128]]:
         """Solve eigenproblem with files already saved."""
-        eigenvalues = np.load(
-            sleplet._data.setup_pooch.find_on_pooch_then_local(eval_loc),
-        )
-        eigenvectors = np.load(
-            sleplet._data.setup_pooch.find_on_pooch_then_local(evec_loc),
-        )
-        orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
+        eigenvalues = sleplet._data.setup_pooch.load_array(eval_loc)
+        eigenvectors = sleplet._data.setup_pooch.load_array(evec_loc)
+        orders = sleplet._data.setup_pooch.load_array(order_loc)
 
         if self.order is not None:
             idx = np.where(orders == self.order)
-- 
2.43.0


From bef1caa69ffedd5485005fd31cae72dcd5e701a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 08/15] fix: forget an archive registry that could not be
 loaded

The registry was published before it was loaded, so the first request without
the archive failed even for local files, every later one saw an empty registry
for the rest of the process, and other threads could see it half filled.
---
 src/sleplet/_data/setup_pooch.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 3beb7e8..4408cd2 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -2,6 +2,7 @@ import contextlib
 import logging
 import os
 import pathlib
+import threading
 import tokenize
 import typing
 import uuid
@@ -16,6 +17,7 @@ _logger = logging.getLogger(__name__)
 
 
 _POOCH = None
+_POOCH_LOCK = threading.Lock()
 _POOCH_RETRY = 3
 _ZENODO_DATA_DOI = "10.5281/zenodo.7767698"
 
@@ -48,14 +50,21 @@ def _lazy_load_registry(
             Result of the decorated function
         """
         global _POOCH  # noqa: PLW0603
-        if _POOCH is None:
-            _POOCH = pooch.create(
-                path=pooch.os_cache("sleplet"),
-                base_url=f"doi:{_ZENODO_DATA_DOI}/",
-                registry=None,
-                retry_if_failed=_POOCH_RETRY,
-            )
-            _POOCH.load_registry_from_doi()
+        with _POOCH_LOCK:
+            if _POOCH is None:
+                archive = pooch.create(
+                    path=pooch.os_cache("sleplet"),
+                    base_url=f"doi:{_ZENODO_DATA_DOI}/",
+                    registry=None,
+                    retry_if_failed=_POOCH_RETRY,
+                )
+                try:
+                    archive.load_registry_from_doi()
+                except (AttributeError, LookupError, OSError, TypeError, ValueError):
+                    # try again the next time a file is needed
+                    _logger.warning("could not load registry", exc_info=True)
+                else:
+                    _POOCH = archive
         return func(*args, **kwargs)
 
     return wrapper
@@ -72,10 +81,10 @@ def find_on_pooch_then_local(filename: str) -> os.PathLike[str] | None:
     Returns:
         The sought after file or nothing if not found
     """
-    if filename in _POOCH.registry:  # type: ignore[union-attr]
+    if _POOCH is not None and filename in _POOCH.registry:
         msg = f"Found {filename} at https://doi.org/{_ZENODO_DATA_DOI}"
         _logger.info(msg)
-        return _POOCH.fetch(filename, progressbar=True)  # type: ignore[union-attr]
+        return _POOCH.fetch(filename, progressbar=True)
 
     if (platformdirs.user_data_path() / filename).exists():
         msg = f"Found {filename} at {platformdirs.user_data_path() / filename}"
-- 
2.43.0


From ae40134251c51fe0983a4bf54565382ba2209dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 09/15] fix: keep stored results of different regions apart

The names of stored results hold the angles rounded to whole degrees, and a
latitude-longitude region without limits on phi took the name of a polar cap
whose files hold different eigenvectors, so one region could load the results
of another. Names of regions with whole degrees are unchanged.
---
 src/sleplet/_string_methods.py               | 10 ++++++++++
 src/sleplet/slepian/slepian_limit_lat_lon.py | 12 +++++++++++-
 src/sleplet/slepian/slepian_polar_cap.py     |  5 ++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 31cdced..30ceb5d 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -78,6 +78,16 @@ def angle_as_degree(radian: float) -> int:
     return round(np.rad2deg(radian))
 
 
+def exact_angles(*radians: float) -> str:
+    """Ending to tell angles apart, empty if all of them are whole degrees."""
+    if all(
+        np.isclose(np.rad2deg(r), angle_as_degree(r), rtol=0, atol=1e-9)
+        for r in radians
+    ):
+        return ""
+    return "".join(f"_{float(r)!r}" for r in radians)
+
+
 def wavelet_ending(j_min: int, j: int | None) -> str:
     """Create the ending name of the given wavelet."""
     return "_scaling" if j is None else f"{filename_args(j + j_min, 'j')}"
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 3fc5f27..8c33aec 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -12,6 +12,7 @@ import pyssht as ssht
 import sleplet._array_methods
 import sleplet._data.setup_pooch
 import sleplet._mask_methods
+import sleplet._string_methods
 import sleplet._validation
 import sleplet._vars
 import sleplet.slepian.region
@@ -54,8 +55,17 @@ class SlepianLimitLatLon(SlepianFunctions):
         )
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
+        # without limits on phi the region has the name of a polar cap
+        prefix = "lim_lat_lon_" if self.region._region_type == "polar" else ""
+        exact_angles = sleplet._string_methods.exact_angles(
+            self.theta_min,
+            self.theta_max,
+            self.phi_min,
+            self.phi_max,
+        )
         return (
-            f"slepian_eigensolutions_D_{self.region._name_ending}_L{self.L}_N{self.N}"
+            f"slepian_eigensolutions_D_{prefix}{self.region._name_ending}"
+            f"{exact_angles}_L{self.L}_N{self.N}"
         )
 
     def _solve_eigenproblem(
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 1e92e7e..669469d 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -17,6 +17,7 @@ import pyssht as ssht
 import sleplet._data.setup_pooch
 import sleplet._mask_methods
 import sleplet._parallel_methods
+import sleplet._string_methods
 import sleplet._validation
 import sleplet.harmonic_methods
 import sleplet.slepian.region
@@ -60,7 +61,9 @@ class SlepianPolarCap(SlepianFunctions):
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
         return (
-            f"slepian_eigensolutions_D_{self.region._name_ending}_L{self.L}_N{self.N}"
+            f"slepian_eigensolutions_D_{self.region._name_ending}"
+            f"{sleplet._string_methods.exact_angles(self.theta_max)}"
+            f"_L{self.L}_N{self.N}"
         )
 
     def _solve_eigenproblem(
-- 
2.43.0


From 0516fdbb38accfceed4611537a8b38de40175b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 10/15] fix: load a single order of a large polar cap

Above L=16 only the eigenvectors up to the Shannon number are saved, so once a
polar cap was stored, asking for a single order failed with an index error.
---
 src/sleplet/slepian/slepian_polar_cap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 669469d..c5894a0 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -98,6 +98,9 @@ class SlepianPolarCap(SlepianFunctions):
         orders = sleplet._data.setup_pooch.load_array(order_loc)
 
         if self.order is not None:
+            if len(eigenvectors) < len(orders):
+                # only the eigenvectors up to the Shannon number are saved
+                return self._solve_eigenproblem_order(self.order)
             idx = np.where(orders == self.order)
             return eigenvalues[idx], eigenvectors[idx]
         self.order = orders
-- 
2.43.0


From d03dc9eb81952dd32d858f1561d0292e2d521219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 11/15] fix: make the basis functions of a mesh reproducible

The eigensolver started from a random vector, so recomputing the basis (in
another process, or after its files were lost) gave functions with other signs
that no longer fitted the stored Slepian functions and earlier coefficients.
---
 src/sleplet/_mesh_methods.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index ae199a3..5e7ae0a 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -10,6 +10,7 @@ import tomli
 
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
+import sleplet._vars
 
 _data_path = pathlib.Path(__file__).resolve().parent / "_data"
 _logger = logging.getLogger(__name__)
@@ -96,6 +97,10 @@ def mesh_eigendecomposition(
             k=number_basis_functions,
             which="LM",
             sigma=0,
+            # same starting vector so that the basis functions are reproducible
+            v0=np.random.default_rng(sleplet._vars.RANDOM_SEED).standard_normal(
+                vertices.shape[0],
+            ),
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-- 
2.43.0


From 90f0bdae5d5574be5ae4a791124a38e12d28569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 12/15] fix: do not threshold wavelet coefficients in place

The thresholding functions overwrote the caller's wavelet coefficients.
---
 src/sleplet/noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 3384b8d..60e4fe6 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -141,6 +141,7 @@ def harmonic_hard_thresholding(
         The thresholded wavelet coefficients.
     """
     _logger.info("begin harmonic hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs[1:]):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs) - 1}"
         _logger.info(msg)
@@ -175,6 +176,7 @@ def slepian_wavelet_hard_thresholding(
         The hard thresholded Slepian wavelet coefficients.
     """
     _logger.info("begin Slepian hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
@@ -328,6 +330,7 @@ def slepian_mesh_hard_thresholding(
         The thresholded wavelet coefficients of the mesh.
     """
     _logger.info("begin Slepian mesh hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
-- 
2.43.0


From ec062f5f47fae0bffb1a387bb06d2cbc099e7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:59 +0000
Subject: [PATCH 13/15] fix: pad Slepian noise to the length of the
 coefficients

---
 src/sleplet/functions/fp.py                     | 6 ++++++
 src/sleplet/meshes/mesh_slepian_coefficients.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/sleplet/functions/fp.py b/src/sleplet/functions/fp.py
index 093c1eb..12d1451 100644
--- a/src/sleplet/functions/fp.py
+++ b/src/sleplet/functions/fp.py
@@ -9,6 +9,7 @@ import typing_extensions
 
 import sleplet._mask_methods
 import sleplet._validation
+import sleplet.harmonic_methods
 import sleplet.noise
 import sleplet.slepian.region
 import sleplet.slepian.slepian_functions
@@ -74,6 +75,11 @@ class Fp(Coefficients):
                 self.slepian,
                 self.noise,
             )
+            # pad with zeros so it has the expected shape
+            n_p = sleplet.harmonic_methods._boost_coefficient_resolution(
+                n_p,
+                self.coefficients.shape[0] - n_p.shape[0],
+            )
             snr = sleplet.noise.compute_snr(self.coefficients, n_p, "Slepian")
             self.coefficients = self.coefficients + n_p
             return unnoised_coefficients, snr
diff --git a/src/sleplet/meshes/mesh_slepian_coefficients.py b/src/sleplet/meshes/mesh_slepian_coefficients.py
index 8a14276..2d35344 100644
--- a/src/sleplet/meshes/mesh_slepian_coefficients.py
+++ b/src/sleplet/meshes/mesh_slepian_coefficients.py
@@ -8,6 +8,7 @@ import pydantic
 import typing_extensions
 
 import sleplet._validation
+import sleplet.harmonic_methods
 import sleplet.noise
 from sleplet.meshes.mesh_coefficients import MeshCoefficients
 from sleplet.meshes.mesh_slepian import MeshSlepian
@@ -39,6 +40,11 @@ class MeshSlepianCoefficients(MeshCoefficients):
                 self.coefficients,
                 self.noise,
             )
+            # pad with zeros so it has the expected shape
+            n_p = sleplet.harmonic_methods._boost_coefficient_resolution(
+                n_p,
+                self.coefficients.shape[0] - n_p.shape[0],
+            )
             snr = sleplet.noise.compute_snr(self.coefficients, n_p, "Slepian")
             self.coefficients = self.coefficients + n_p
             return unnoised_coefficients, snr
-- 
2.43.0


From c358af6ff11962f95cb0507d88eae263d9c7657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 14/15] fix: keep Slepian wavelet coefficients in line with
 their wavelets

---
 src/sleplet/wavelet_methods.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 7a35862..240d15d 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -26,14 +26,14 @@ def slepian_wavelet_forward(
     Returns:
         The Slepian wavelets coefficients of the signal.
     """
-    return find_non_zero_wavelet_coefficients(
-        sleplet._convolution_methods.sifting_convolution(
-            wavelets,
-            f_p,
-            shannon=shannon,
-        ),
-        axis=1,
+    wav_coeffs = sleplet._convolution_methods.sifting_convolution(
+        wavelets,
+        f_p,
+        shannon=shannon,
     )
+    # only drop the last wavelets, so that the others line up in the inverse
+    non_zero = np.flatnonzero(wav_coeffs.any(axis=1))
+    return wav_coeffs[: non_zero.max(initial=-1) + 1]
 
 
 def slepian_wavelet_inverse(
-- 
2.43.0


From c5509256fa06c6e4d2523909a3912a774e0a1c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 15/15] fix: allow the annotation of a translated plot

The text settings of the annotation that the sphere command adds were rejected
by PlotSphere, so every translate plot without --outline failed.
---
 src/sleplet/_plotly_methods.py              | 2 +-
 src/sleplet/_scripts/plotting_on_sphere.py  | 2 +-
 src/sleplet/plotting/_create_plot_sphere.py | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_plotly_methods.py b/src/sleplet/_plotly_methods.py
index a1f3381..1a83873 100644
--- a/src/sleplet/_plotly_methods.py
+++ b/src/sleplet/_plotly_methods.py
@@ -32,7 +32,7 @@ def create_camera(  # noqa: PLR0913
 def create_layout(
     camera: go.layout.scene.Camera,
     *,
-    annotations: list[dict[str, float | int]] | None = None,
+    annotations: list[dict[str, float | int | str]] | None = None,
 ) -> go.Layout:
     """Create the default plotly layout."""
     return go.Layout(
diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 1b0d983..cf2d8e5 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -302,7 +302,7 @@ def _translation_helper(
     alpha_pi_frac: float,
     beta_pi_frac: float,
     shannon: int | None,
-) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int]]:
+) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int | str]]:
     """Perform the translation specific steps."""
     msg = f"angles: (alpha, beta) = ({alpha_pi_frac}, {beta_pi_frac})"
     _logger.info(msg)
diff --git a/src/sleplet/plotting/_create_plot_sphere.py b/src/sleplet/plotting/_create_plot_sphere.py
index 933b60b..87b384e 100644
--- a/src/sleplet/plotting/_create_plot_sphere.py
+++ b/src/sleplet/plotting/_create_plot_sphere.py
@@ -32,7 +32,9 @@ class PlotSphere:
     _: dataclasses.KW_ONLY
     amplitude: float | None = None
     """Whether to customise the amplitude range of the colour bar."""
-    annotations: list[dict[str, float | int]] = pydantic.Field(default_factory=list)
+    annotations: list[dict[str, float | int | str]] = pydantic.Field(
+        default_factory=list,
+    )
     """Whether to display any annotations on the surface plot or not."""
     normalise: bool = True
     """Whether to normalise the plot or not."""
-- 
2.43.0

