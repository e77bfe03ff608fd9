From b1a5b2346d9f40e212b2bf8bbb417818c2bb89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 001/109] fix: convert a real vector between equal bases
 without reinterpreting its memory

---
 surface_potential_analysis/basis/basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/basis_like.py b/surface_potential_analysis/basis/basis_like.py
index 0204947..34a7050 100644
--- a/surface_potential_analysis/basis/basis_like.py
+++ b/surface_potential_analysis/basis/basis_like.py
@@ -308,7 +308,7 @@ class BasisLike(
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
         assert basis.fundamental_n == self.fundamental_n
         if self == basis:
-            return vector.view(np.complex128)
+            return vector.astype(np.complex128, copy=False)
         # Small speedup here, and prevents imprecision of fft followed by ifft
         # And two pad_ft_points
         if isinstance(self, AsTransformedBasis) and isinstance(
-- 
2.43.0


From a38d7e165a7dc14ee70dc1b6b3d1306e13363f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 002/109] fix: interpolate_state_vector_momentum uses the
 requested length of each axis

---
 surface_potential_analysis/state_vector/conversion.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index d2965e6..8dc45d1 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -214,13 +214,11 @@ def interpolate_state_vector_momentum(
     final_basis = TupleBasis[*tuple[BasisWithLengthLike[Any, Any, Any], ...]](
         *tuple(
             TransformedPositionBasis(ax.delta_x, ax.n, shape[idx])
-            if (
-                idx := next((i for i, jax in enumerate(axes) if jax == iax), None)
-                is not None
-            )
+            if (idx := next((i for i, jax in enumerate(axes) if jax == iax), None))
+            is not None
             else ax
             for iax, ax in enumerate(converted["basis"])
         )
     )
-    scaled = converted["data"] * np.sqrt(np.prod(shape) / converted_basis.n)
+    scaled = converted["data"] * np.sqrt(final_basis.fundamental_n / converted_basis.n)
     return {"basis": final_basis, "data": scaled}
-- 
2.43.0


From 140c6d876bb38a544653be743762e31b5923108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 003/109] fix: fundamental_times of a time basis are spaced by
 fundamental_dt

---
 surface_potential_analysis/basis/time_basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/time_basis_like.py b/surface_potential_analysis/basis/time_basis_like.py
index 8d59d55..54b5371 100644
--- a/surface_potential_analysis/basis/time_basis_like.py
+++ b/surface_potential_analysis/basis/time_basis_like.py
@@ -51,7 +51,7 @@ class EvenlySpacedTimeBasis(
 
     @property
     def fundamental_times(self) -> np.ndarray[tuple[Any], np.dtype[np.float64]]:
-        return np.linspace(0, self._delta_t, self.fundamental_n)  # type: ignore[no-any-return]
+        return np.linspace(0, self._delta_t, self.fundamental_n, endpoint=False)  # type: ignore[no-any-return]
 
     @property
     def delta_t(self) -> float:
-- 
2.43.0


From b903d94d0ffa6806bef0936ec4b043def82dbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 004/109] fix: project points along axes of a lattice with
 integer vectors

---
 surface_potential_analysis/stacked_basis/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 510a047..c83d5f8 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -76,7 +76,9 @@ def project_k_points_along_axes(
     for i, ax in enumerate(axes):
         projected = util.delta_k_stacked[ax]
         for j in range(i):
-            projected -= projected_axes[j] * np.dot(projected_axes[j], projected)
+            projected = projected - projected_axes[j] * np.dot(
+                projected_axes[j], projected
+            )
 
         projected_axes[i] = projected / np.linalg.norm(projected)
 
@@ -154,7 +156,9 @@ def project_x_points_along_axes(
     for i, ax in enumerate(axes):
         projected = util.delta_x_stacked[ax]
         for j in range(i):
-            projected -= projected_axes[j] * np.dot(projected_axes[j], projected)
+            projected = projected - projected_axes[j] * np.dot(
+                projected_axes[j], projected
+            )
 
         projected_axes[i] = projected / np.linalg.norm(projected)
 
-- 
2.43.0


From 7044eea569b861b358329c0637df469fd0a4d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 005/109] fix: coordinates of a truncated basis are those of
 its fundamental grid

---
 surface_potential_analysis/stacked_basis/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index c83d5f8..8cf4595 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -127,7 +127,7 @@ def get_k_coordinates_in_axes(
     points = get_fundamental_stacked_k_points_projected_along_axes(basis, axes)
     slice_ = slice_ignoring_axes(idx, axes)
     return np.transpose(
-        points.reshape(-1, *basis.shape)[:, *slice_],
+        points.reshape(-1, *basis.fundamental_shape)[:, *slice_],
         (0, *(1 + np.array(get_position_in_sorted(axes)))),
     )  # type: ignore[no-any-return]
 
@@ -207,7 +207,7 @@ def get_x_coordinates_in_axes(
     points = get_fundamental_stacked_x_points_projected_along_axes(basis, axes)
     slice_ = slice_ignoring_axes(idx, axes)
     return np.transpose(
-        points.reshape(-1, *basis.shape)[:, *slice_],
+        points.reshape(-1, *basis.fundamental_shape)[:, *slice_],
         (0, *(1 + np.array(get_position_in_sorted(axes)))),
     )  # type: ignore[no-any-return]
 
-- 
2.43.0


From 71c9793a8fda0d1d8645f02b3857d846080b84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 006/109] fix: decrement_brillouin_zone for a basis which is
 not three dimensional

---
 surface_potential_analysis/stacked_basis/brillouin_zone.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/brillouin_zone.py b/surface_potential_analysis/stacked_basis/brillouin_zone.py
index 5257d0c..2004ab4 100644
--- a/surface_potential_analysis/stacked_basis/brillouin_zone.py
+++ b/surface_potential_analysis/stacked_basis/brillouin_zone.py
@@ -79,10 +79,8 @@ def fold_point_in_bragg_plane(
     # If we denote the plane by the normal n and point p, where p.n n = p
     # we find p is given by bragg_point / 2.
     # The two reflections are then equivalent to a translation a - 2p.
-    return (
-        (coordinate[0] - bragg_point[0]),  # type: ignore cant infer
-        (coordinate[1] - bragg_point[1]),
-        (coordinate[2] - bragg_point[2]),
+    return tuple(  # type: ignore cant infer
+        c - b for c, b in zip(coordinate, bragg_point, strict=True)
     )
 
 
-- 
2.43.0


From 508121567e663d8656cebe1788530f0df0dc6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 007/109] fix: cumulative k distances are taken per point on
 the path, not per axis

---
 surface_potential_analysis/stacked_basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 8cf4595..ea80175 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -450,7 +450,7 @@ def calculate_cumulative_k_distances_along_path(
     )
     util = BasisUtil(basis)
     x_distances = np.linalg.norm(  # TODO: test
-        np.tensordot(distances, util.dk_stacked, axes=(0, 0)),
+        np.tensordot(util.dk_stacked, distances, axes=(0, 0)),
         axis=0,
     )
     cum_distances = np.cumsum(x_distances)
-- 
2.43.0


From 9c32b68769a95103f2c661d6e7984182cfb0480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 008/109] fix: basis_as_n_point_basis does not evaluate a name
 which only exists for type checking

---
 surface_potential_analysis/basis/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/conversion.py b/surface_potential_analysis/basis/conversion.py
index ee4b11f..4510045 100644
--- a/surface_potential_analysis/basis/conversion.py
+++ b/surface_potential_analysis/basis/conversion.py
@@ -108,7 +108,7 @@ def basis_as_n_point_basis(
     -------
     FundamentalPositionBasis[_N1Inv, _NDInv]
     """
-    return FundamentalPositionBasis[_N1Inv, int](delta_x, n)
+    return FundamentalPositionBasis(delta_x, n)
 
 
 def basis_as_single_point_basis(
-- 
2.43.0


From 01b447bc01ea7a408f869521aaa74a0cf2dc7157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 009/109] fix: get_twice_average_nx when an axis has no
 antipodal points

---
 surface_potential_analysis/basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/util.py b/surface_potential_analysis/basis/util.py
index f8c16df..fa1dc4c 100644
--- a/surface_potential_analysis/basis/util.py
+++ b/surface_potential_analysis/basis/util.py
@@ -517,7 +517,7 @@ def get_twice_average_nx(
     is_nan = np.isnan(average_angles)
     if np.any(is_nan):
         for i, angle in enumerate(angles):
-            average_angles[i][is_nan[i]] = np.average(angle[:, is_nan[i]], axis=0)
+            average_angles[i][is_nan[i]] = np.mean(angle[:, is_nan[i]], axis=0)
 
     # Interpret this back as a coordinate. Note we multiply average by 2 here
     return tuple(
-- 
2.43.0


From edc94773ea39f1c391a5bca4c6f1938735d04fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 010/109] fix: undo_truncate_potential reverses
 truncate_potential for n other than 1

---
 surface_potential_analysis/potential/potential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index ac1d199..d066f27 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -228,7 +228,10 @@ def undo_truncate_potential(
     data: Potential[_SB0], *, cutoff: float = 2e-17, n: int = 1, offset: float = 2e-18
 ) -> Potential[_SB0]:
     """Reverses truncate_potential."""
-    points = cutoff * (np.exp((data["data"] + offset) / cutoff) - 1) ** (1 / n) - offset
+    points = (
+        cutoff * (np.exp(((data["data"] + offset) / cutoff) ** n) - 1) ** (1 / n)
+        - offset
+    )
     return {"data": points, "basis": data["basis"]}  # type: ignore[return-value]
 
 
-- 
2.43.0


From 105649b016939e6dc0b3990d49aff9e8a5380dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 011/109] fix: potentials loaded from json store flat data

---
 surface_potential_analysis/potential/potential.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index d066f27..ed46e59 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -111,7 +111,7 @@ def load_potential_grid_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 FundamentalPositionBasis(np.array(out["delta_x2"]), points.shape[2]),
             ),
-            "data": np.array(out["points"]),
+            "data": points.reshape(-1),
         }
 
 
@@ -182,7 +182,7 @@ def load_uneven_potential_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 UnevenPotential3dZBasis(np.array(out["z_points"])),
             ),
-            "data": points,
+            "data": points.reshape(-1),
         }
 
 
-- 
2.43.0


From 5992be7b69a22a073b702373c1057d2f75bc9924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 012/109] fix: interpolate_points_fftn and rfftn apply s to the
 last axes in order

---
 surface_potential_analysis/util/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 05ca1bc..97f6916 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -102,7 +102,7 @@ def interpolate_points_fftn(
     NDArray
         The points interpolated along the given axes
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     # We use the forward norm here, as otherwise we would also need to
     # scale the ft_potential by a factor of n / shape[axis]
     # when we pad or truncate it
@@ -176,7 +176,7 @@ def interpolate_points_rfftn(
     -------
     np.ndarray[tuple, np.dtype[np.float_]]
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     ft_points = np.fft.rfftn(points, axes=axes_arr, norm="forward")  # type: ignore Argument of type "NDArray[signedinteger[Any]] | NDArray[Any]" cannot be assigned to parameter "axes" of type "Sequence[int] | None"
     # pad (or truncate) for the new lengths s
     # we don't need to pad the last axis here, as it is handled correctly by irfftn
-- 
2.43.0


From 0987d38bae9b5a8103e73c64fa16ea0a5ad2b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 013/109] fix: interpolate_points_along_axis_spline for an axis
 which is not the last

---
 surface_potential_analysis/util/interpolation.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 97f6916..8c33237 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -239,13 +239,10 @@ def interpolate_points_along_axis_spline(
     """Use a spline interpolation to increase the Z resolution, spacing z linearly."""
     new_coords = list(np.linspace(old_coords[0], old_coords[-1], n))  # type: ignore bad type inference
 
-    new_shape = list(data.shape)
-    new_shape[axis] = n
-    points = np.empty(new_shape)
+    swapped_data = data.swapaxes(axis, -1)
+    flat_data = swapped_data.reshape(-1, data.shape[axis])
 
-    swapped_points = points.swapaxes(axis, -1).reshape(-1, n)
-
-    flat_data = data.swapaxes(axis, -1).reshape(-1, data.shape[axis])
+    swapped_points = np.empty((flat_data.shape[0], n))
 
     for i in range(flat_data.shape[0]):
         old_energies = flat_data[i]
@@ -253,4 +250,4 @@ def interpolate_points_along_axis_spline(
         new_energy = scipy.interpolate.splev(new_coords, tck, der=0)  # type: ignore bad type inference
         swapped_points[i] = new_energy  # type: ignore bad type inference
 
-    return points  # type: ignore[no-any-return]
+    return swapped_points.reshape(*swapped_data.shape[:-1], n).swapaxes(axis, -1)  # type: ignore[no-any-return]
-- 
2.43.0


From 5b2fb32b0f6d7a0bc0d99eb8ef828ec58b4cbffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 014/109] fix: an interrupted or concurrent call never leaves a
 partial cache file

---
 surface_potential_analysis/util/decorators.py | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 23342c8..cba5031 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -2,15 +2,15 @@ from __future__ import annotations
 
 import datetime
 import pickle  # noqa: S403
-from collections.abc import Callable, Mapping
+from collections.abc import Callable, Iterator, Mapping
+from contextlib import contextmanager
 from functools import update_wrapper, wraps
-from typing import TYPE_CHECKING, Any, Generic, Literal, ParamSpec, TypeVar, overload
+from pathlib import Path
+from typing import Any, BinaryIO, Generic, Literal, ParamSpec, TypeVar, overload
+from uuid import uuid4
 
 import numpy as np
 
-if TYPE_CHECKING:
-    from pathlib import Path
-
 _P = ParamSpec("_P")
 _R = TypeVar("_R")
 _RD = TypeVar("_RD", bound=Mapping[Any, Any])
@@ -44,6 +44,20 @@ def timed(f: Callable[_P, _R]) -> Callable[_P, _R]:
     return wrap  # type: ignore[return-value]
 
 
+@contextmanager
+def _open_atomic(path: Path) -> Iterator[BinaryIO]:
+    """Open a file which only replaces path once it has been written in full."""
+    path = Path(path)
+    temporary = path.with_name(f"{path.name}.{uuid4().hex}.tmp")
+    try:
+        with temporary.open("wb") as f:
+            yield f
+        temporary.replace(path)
+    except BaseException:
+        temporary.unlink(missing_ok=True)
+        raise
+
+
 @overload
 def npy_cached(
     path: Path | None,
@@ -100,7 +114,8 @@ def npy_cached(
             except FileNotFoundError:
                 arr = f(*args, **kw)
                 # Saving pickeld
-                np.save(cache_path, np.asanyarray(arr), allow_pickle=save_pickle)
+                with _open_atomic(cache_path) as file:
+                    np.save(file, np.asanyarray(arr), allow_pickle=save_pickle)
 
             return arr
 
@@ -147,7 +162,7 @@ class CachedFunction(Generic[_P, _RD]):
         obj = self.call_uncached(*args, **kw)
         cache_path = self._get_cache_path(*args, **kw)
         if cache_path is not None:
-            with cache_path.open("wb") as f:
+            with _open_atomic(cache_path) as f:
                 pickle.dump(obj, f, pickle.HIGHEST_PROTOCOL)
         return obj
 
-- 
2.43.0


From ca665a442ce68665abc66cb5ab593eb42ef55bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 015/109] fix: operators are returned with flat data

---
 surface_potential_analysis/operator/build.py      | 5 ++++-
 surface_potential_analysis/operator/operations.py | 2 +-
 surface_potential_analysis/operator/operator.py   | 6 +++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index e959de3..b454fd2 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -187,7 +187,10 @@ def _get_displacements_matrix_x_along_axis(
     delta_x = np.linalg.norm(basis_x.delta_x_stacked[axis])
     max_distance = delta_x / 2
     data = _wrap_displacements(distances, max_distance)
-    return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
+    return {
+        "basis": TupleBasis(basis_x, basis_x),
+        "data": data.astype(np.complex128).ravel(),
+    }
 
 
 def get_displacements_matrix_x_stacked(
diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index ed57d85..2361881 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -334,7 +334,7 @@ def apply_operator_to_states(
     norm = np.sqrt(np.sum(np.abs(np.square(data)), axis=1))
     return {
         "basis": TupleBasis(converted["basis"][0], lhs["basis"][0]),
-        "data": data / norm.reshape(norm.size, 1),
+        "data": (data / norm.reshape(norm.size, 1)).ravel(),
         "eigenvalue": norm,
     }
 
diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 7938035..238877a 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -78,7 +78,7 @@ def as_operator(operator: DiagonalOperator[_B0, _B1]) -> Operator[_B0, _B1]:
     -------
     Operator[_B0_co, _B1_co]
     """
-    return {"basis": operator["basis"], "data": np.diag(operator["data"])}
+    return {"basis": operator["basis"], "data": np.diag(operator["data"]).ravel()}
 
 
 def as_diagonal_operator(operator: Operator[_B0, _B1]) -> DiagonalOperator[_B0, _B1]:
@@ -232,7 +232,7 @@ def apply_function_to_operator(
         "k,ak,kb->ab", eigenvalues, res.eigenvectors, np.linalg.inv(res.eigenvectors)
     )
 
-    return {"basis": operator["basis"], "data": data}
+    return {"basis": operator["basis"], "data": data.ravel()}
 
 
 def matmul_operator(
@@ -243,7 +243,7 @@ def matmul_operator(
         rhs["data"].reshape(rhs["basis"].shape),
         axes=(1, 0),
     )
-    return {"basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]), "data": data}
+    return {"basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]), "data": data.ravel()}
 
 
 def add_operator(a: Operator[_B0, _B1], b: Operator[_B0, _B1]) -> Operator[_B0, _B1]:
-- 
2.43.0


From 995c6b8a7810580ffc633baf3c0f9a510d2da6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 016/109] fix: sums and averages over every axis, and the basis
 of a summed probability

---
 surface_potential_analysis/operator/operator.py             | 4 ++--
 .../probability_vector/probability_vector.py                | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 238877a..a36d020 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -167,7 +167,7 @@ def average_eigenvalues(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][0].ndim)) if axis is None else axis
     basis = tuple(b for (i, b) in enumerate(eigenvalues["basis"][0]) if i not in axis)
     return {
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
@@ -200,7 +200,7 @@ def average_eigenvalues_list(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][1][0].ndim)) if axis is None else axis
     basis = tuple(
         b for (i, b) in enumerate(eigenvalues["basis"][1][0]) if i not in axis
     )
diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 5e5902d..c866910 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -146,7 +146,9 @@ def sum_probability(
     ProbabilityVector[Any]
     """
     axis = tuple(range(probability["basis"].ndim)) if axis is None else axis
-    basis = tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    basis = TupleBasis(
+        *tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    )
     return {
         "basis": basis,
         "data": (
@@ -173,7 +175,7 @@ def sum_probabilities(
     -------
     ProbabilityVectorList[Any, _L0Inv]
     """
-    axis = tuple(range(probabilities["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(probabilities["basis"][1].ndim)) if axis is None else axis
     basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][1]) if i not in axis)
     )
-- 
2.43.0


From 7dff2e1b8d1e0f3ac124c3ad6f2abc3361beb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 017/109] fix: products of operators and operator lists given
 in bases of different size

---
 surface_potential_analysis/operator/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index 2361881..9b4dbcd 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -75,7 +75,7 @@ def matmul_list_operator(
 
     data = np.tensordot(
         lhs["data"].reshape(-1, *lhs["basis"][1].shape),
-        converted["data"].reshape(rhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         axes=(2, 0),
     ).reshape(-1)
     return {
@@ -175,7 +175,7 @@ def matmul_operator_diagonal_list(
     )
     data = np.einsum(  # type: ignore lib
         "ik,mk->mik",
-        converted["data"].reshape(lhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         rhs["data"].reshape(-1, rhs["basis"][1][0].n),
     ).reshape(-1)
     return {
-- 
2.43.0


From ae71914a9a6d70016e133b2817dab1d1182f75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 018/109] fix: states and probabilities along axes follow the
 order of the axes

---
 .../probability_vector/probability_vector.py           | 10 ++++------
 .../state_vector/state_vector_list.py                  |  4 +---
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index c866910..c9aa2e9 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -114,16 +114,14 @@ def get_probability_along_axis(
     ProbabilityVector[_B0Inv]
     """
     ndim = probabilities["basis"][0].ndim
-    idx = tuple(0 for _ in range(ndim - 2)) if idx is None else idx
-    final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
-    )
+    idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
+    final_basis = TupleBasis(*tuple(probabilities["basis"][0][i] for i in axes))
 
     vector = get_data_in_axes(
-        probabilities["data"].reshape(probabilities["basis"].shape),
+        probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
         (*axes, ndim),
         idx,
-    ).reshape(*final_basis.shape, -1)
+    ).reshape(-1)
     return {
         "basis": TupleBasis(final_basis, probabilities["basis"][1]),
         "data": vector,
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index a943e20..410d82f 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -333,9 +333,7 @@ def get_state_along_axis(
     """
     ndim = states["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
-    final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(states["basis"][0]) if i in axes)
-    )
+    final_basis = TupleBasis(*tuple(states["basis"][0][i] for i in axes))
 
     vector = get_data_in_axes(
         states["data"].reshape(*states["basis"][0].shape, -1),
-- 
2.43.0


From c988f5e9cfd1f9046bddf8464e06e6b8d207dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 019/109] fix: get_single_point_state_vectors spreads n_bands
 points over the cell

---
 surface_potential_analysis/state_vector/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/util.py b/surface_potential_analysis/state_vector/util.py
index c4ec939..e10ef0e 100644
--- a/surface_potential_analysis/state_vector/util.py
+++ b/surface_potential_analysis/state_vector/util.py
@@ -80,8 +80,8 @@ def get_single_point_state_vectors(
         get_fundamental_unfurled_basis(basis)
     )
     data = np.zeros((n_bands, converted.n), dtype=np.complex128)
-    for i, n in enumerate(range(0, basis[1].n, n_bands)):
-        data[i, n] = 1
+    for i in range(n_bands):
+        data[i, (i * basis[1].n) // n_bands] = 1
     return {
         "basis": TupleBasis(FundamentalBasis(n_bands), converted),
         "data": data.reshape(-1),
-- 
2.43.0


From 3fbe4e6de06a9ade1676320fbeca8f669b7907e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 020/109] fix: a stacked basis without axes has an integer size

---
 surface_potential_analysis/basis/stacked_basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/basis/stacked_basis.py b/surface_potential_analysis/basis/stacked_basis.py
index f69a114..f729e79 100644
--- a/surface_potential_analysis/basis/stacked_basis.py
+++ b/surface_potential_analysis/basis/stacked_basis.py
@@ -52,11 +52,11 @@ class StackedBasisLike(BasisLike[_FN0_co, _N0_co], Protocol[_N0_co, _FN0_co, _ND
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=np.int_).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=np.int_).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
@@ -81,11 +81,11 @@ class StackedBasisWithVolumeLike(
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=np.int_).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=np.int_).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
-- 
2.43.0


From a34c90da380f6c1fda33ebb1575ef08175777929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 021/109] fix: weighted averages over some of the axes

---
 .../operator/operator.py                      |  9 ++++---
 .../probability_vector/probability_vector.py  |  6 ++---
 .../state_vector/state_vector_list.py         |  6 ++---
 surface_potential_analysis/util/util.py       | 26 +++++++++++++++++++
 4 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index a36d020..b584f93 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -17,6 +17,7 @@ from surface_potential_analysis.basis.util import (
 from surface_potential_analysis.state_vector.conversion import (
     convert_state_vector_to_basis,
 )
+from surface_potential_analysis.util.util import average_over_axes
 
 if TYPE_CHECKING:
     from surface_potential_analysis.operator.operator_list import (
@@ -171,9 +172,9 @@ def average_eigenvalues(
     basis = tuple(b for (i, b) in enumerate(eigenvalues["basis"][0]) if i not in axis)
     return {
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
-        "data": np.average(
+        "data": average_over_axes(
             eigenvalues["data"].reshape(*eigenvalues["basis"][0].shape),
-            axis=tuple(ax for ax in axis),
+            axes=tuple(ax for ax in axis),
             weights=weights,
         ).reshape(-1),
     }
@@ -209,11 +210,11 @@ def average_eigenvalues_list(
             eigenvalues["basis"][0],
             TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
         ),
-        "data": np.average(
+        "data": average_over_axes(
             eigenvalues["data"].reshape(
                 eigenvalues["basis"][0].n, *eigenvalues["basis"][1][0].shape
             ),
-            axis=tuple(1 + ax for ax in axis),
+            axes=tuple(1 + ax for ax in axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index c9aa2e9..a8244f5 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -10,7 +10,7 @@ from surface_potential_analysis.basis.stacked_basis import (
     TupleBasisLike,
 )
 from surface_potential_analysis.basis.util import BasisUtil
-from surface_potential_analysis.util.util import get_data_in_axes
+from surface_potential_analysis.util.util import average_over_axes, get_data_in_axes
 
 if TYPE_CHECKING:
     from surface_potential_analysis.state_vector.state_vector import StateVector
@@ -238,9 +238,9 @@ def average_probabilities(
     basis = TupleBasis(*tuple(b for (i, b) in enumerate(old_basis) if i not in axis))
     return {
         "basis": TupleBasis(basis, probabilities["basis"][1]),
-        "data": np.average(
+        "data": average_over_axes(
             probabilities["data"].reshape(*old_basis.shape, -1),
-            axis=tuple(ax for ax in axis),
+            axes=tuple(ax for ax in axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index 410d82f..9e90e98 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -13,7 +13,7 @@ from surface_potential_analysis.basis.util import BasisUtil
 from surface_potential_analysis.state_vector.conversion import (
     convert_state_vector_list_to_basis,
 )
-from surface_potential_analysis.util.util import get_data_in_axes
+from surface_potential_analysis.util.util import average_over_axes, get_data_in_axes
 
 if TYPE_CHECKING:
     from collections.abc import Iterable
@@ -284,9 +284,9 @@ def average_state_vector(
     )
     return {
         "basis": TupleBasis(basis, probabilities["basis"][1]),
-        "data": np.average(
+        "data": average_over_axes(
             probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
-            axis=tuple(ax for ax in axis),
+            axes=tuple(ax for ax in axis),
             weights=weights,
         ).reshape(-1),
     }
diff --git a/surface_potential_analysis/util/util.py b/surface_potential_analysis/util/util.py
index 3bfa781..f43259c 100644
--- a/surface_potential_analysis/util/util.py
+++ b/surface_potential_analysis/util/util.py
@@ -164,6 +164,32 @@ def calculate_cumulative_distances_along_path(
     return np.insert(cum_distances, 0, 0)  # type: ignore[no-any-return]
 
 
+def average_over_axes(
+    data: np.ndarray[Any, Any],
+    axes: tuple[int, ...],
+    weights: np.ndarray[Any, np.dtype[np.float64]] | None = None,
+) -> np.ndarray[Any, Any]:
+    """
+    Average data over the given axes.
+
+    Parameters
+    ----------
+    data : np.ndarray
+    axes : tuple[int, ...]
+    weights : np.ndarray | None, optional
+        the weight of each point along axes (or of every point of data), by default None
+
+    Returns
+    -------
+    np.ndarray
+    """
+    if weights is None or weights.shape == data.shape:
+        return np.average(data, axis=axes, weights=weights)
+    stacked_weights = weights.reshape([data.shape[ax] for ax in axes])
+    summed = np.tensordot(stacked_weights, data, axes=(range(len(axes)), axes))
+    return summed / np.sum(stacked_weights)
+
+
 Measure = Literal["real", "imag", "abs", "angle"]
 
 
-- 
2.43.0


From 294bf753ae961130630b7b1cbada9fb55a90b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 022/109] fix: localized states from probability at fractions
 off the grid

---
 surface_potential_analysis/state_vector/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/util.py b/surface_potential_analysis/state_vector/util.py
index e10ef0e..9b2a098 100644
--- a/surface_potential_analysis/state_vector/util.py
+++ b/surface_potential_analysis/state_vector/util.py
@@ -167,7 +167,7 @@ def get_most_localized_state_vectors_from_probability(
     averaged = average_probabilities(probabilities)
 
     sample_basis = unfurled["basis"][1]
-    sample_fractions = BasisUtil(unfurled["basis"][1]).stacked_nx_points
+    sample_fractions = BasisUtil(unfurled["basis"][1]).fundamental_stacked_nk_points
     sample_fractions = tuple(
         f / n
         for (f, n) in zip(
-- 
2.43.0


From cc72858f3d7599178c5856573bada88e8d380d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 023/109] fix: displacements along a basis with length

---
 surface_potential_analysis/operator/build.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index b454fd2..dd679ed 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -47,6 +47,13 @@ def _wrap_displacements(
     ).astype(np.float64)
 
 
+def _get_x_points_along_basis(
+    basis_x: FundamentalPositionBasis[Any, Any],
+) -> np.ndarray[tuple[int], np.dtype[np.float64]]:
+    nx_points = BasisUtil(basis_x).nx_points
+    return np.linalg.norm(basis_x.delta_x) * nx_points / basis_x.n
+
+
 def get_displacements_x(
     basis: BasisWithLengthLike[Any, Any, Any], origin: float
 ) -> ValueList[FundamentalPositionBasis[Any, Any]]:
@@ -62,7 +69,7 @@ def get_displacements_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points - origin
+    distances = _get_x_points_along_basis(basis_x) - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance)
     return {"basis": basis_x, "data": data.astype(np.complex128)}
@@ -166,11 +173,14 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points
+    x_points = _get_x_points_along_basis(basis_x)
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
-    data = np.remainder((distances + basis_x.delta_x), max_distance) - max_distance
-    return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
+    data = _wrap_displacements(distances, max_distance)
+    return {
+        "basis": TupleBasis(basis_x, basis_x),
+        "data": data.astype(np.complex128).ravel(),
+    }
 
 
 def _get_displacements_matrix_x_along_axis(
-- 
2.43.0


From ccf7fdfba3e4244c4709488e1566f727f677210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 024/109] fix: off diagonal energies of complex z states

---
 lib/hamiltonian_generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hamiltonian_generator/src/lib.rs b/lib/hamiltonian_generator/src/lib.rs
index d044da5..9b64683 100644
--- a/lib/hamiltonian_generator/src/lib.rs
+++ b/lib/hamiltonian_generator/src/lib.rs
@@ -271,7 +271,7 @@ impl SurfaceHamiltonian2 {
                             .iter()
                             .zip(sho1)
                             .zip(sho2)
-                            .map(|((i, j), k)| i * j * k.conj())
+                            .map(|((i, j), k)| i * j.conj() * k)
                             .sum::<Complex64>();
                         g_points.insert((n_dkx0, n_dkx1, *nz1, *nz2), out);
                         out
-- 
2.43.0


From a8fe6ed37a4b28f681d88d3bbf0af8923c81661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 025/109] fix: sho subtracted hamiltonian can be built

---
 .../hamiltonian_builder/sho_subtracted_basis.py                 | 2 +-
 surface_potential_analysis/stacked_basis/sho_basis.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py b/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
index 38bb7e9..01af66e 100644
--- a/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
+++ b/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
@@ -141,7 +141,7 @@ class _SurfaceHamiltonianUtil(
                     self._potential["basis"][2].n,
                 ),
                 self._config,
-                self._resolution[2],
+                n=self._resolution[2],
             ),
         )
 
diff --git a/surface_potential_analysis/stacked_basis/sho_basis.py b/surface_potential_analysis/stacked_basis/sho_basis.py
index 4c6d36a..3a63501 100644
--- a/surface_potential_analysis/stacked_basis/sho_basis.py
+++ b/surface_potential_analysis/stacked_basis/sho_basis.py
@@ -179,5 +179,5 @@ def infinate_sho_basis_3d_from_config(
     util = BasisUtil(parent)
     vectors *= np.sqrt(np.linalg.norm(util.fundamental_dx))
     return ExplicitBasisWithLength(
-        {"basis": TupleBasis(FundamentalBasis(n), parent), "data": vectors}
+        {"basis": TupleBasis(FundamentalBasis(n), parent), "data": vectors.reshape(-1)}
     )
-- 
2.43.0


From 41bb1f2297e526c3e45db7d47e57aed9b91f5acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 026/109] fix: sho potential config of an integer lattice
 vector

---
 surface_potential_analysis/stacked_basis/sho_basis.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/sho_basis.py b/surface_potential_analysis/stacked_basis/sho_basis.py
index 3a63501..f8e458d 100644
--- a/surface_potential_analysis/stacked_basis/sho_basis.py
+++ b/surface_potential_analysis/stacked_basis/sho_basis.py
@@ -104,14 +104,6 @@ def get_sho_potential_basis_config(
     -------
     PotentialTupleBasisLike[tuple[_L0Inv, _L1Inv]
     """
-    delta_x1 = (
-        np.array([0, 1, 0])
-        if np.allclose([1, 0, 0], parent.delta_x)
-        else np.array([1, 0, 0])
-    )
-    delta_x2 = np.cross(parent.delta_x, delta_x1)
-    delta_x2 /= np.linalg.norm(delta_x2)
-
     basis = TupleBasis(
         FundamentalPositionBasis(np.array([np.linalg.norm(parent.delta_x)]), parent.n),
     )
-- 
2.43.0


From 110c1f5f488f0d47c7cafcfbbe628811d5feab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 027/109] fix: noise operators of kernels with large or
 vanishing elements

---
 .../kernel/solve/_eigenvalue.py                       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_eigenvalue.py b/surface_potential_analysis/kernel/solve/_eigenvalue.py
index 8eb2509..8443293 100644
--- a/surface_potential_analysis/kernel/solve/_eigenvalue.py
+++ b/surface_potential_analysis/kernel/solve/_eigenvalue.py
@@ -60,10 +60,11 @@ def get_periodic_noise_operators_eigenvalue(
     )
     # Find the n^2 operators which are independent
     # I think this is always true
-    np.testing.assert_array_almost_equal(data, np.conj(np.transpose(data)))
+    atol = 1e-6 * np.max(np.abs(data), initial=0)
+    np.testing.assert_allclose(data, np.conj(np.transpose(data)), atol=atol)
 
     res = np.linalg.eigh(data)
-    np.testing.assert_array_almost_equal(
+    np.testing.assert_allclose(
         data,
         np.einsum(  # type: ignore unknown
             "ak,k,kb->ab",
@@ -71,6 +72,7 @@ def get_periodic_noise_operators_eigenvalue(
             res.eigenvalues,
             np.conj(np.transpose(res.eigenvectors)),
         ),
+        atol=atol,
     )
     # The original kernel has the noise operators as \ket{i}\bra{j}
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
@@ -113,8 +115,10 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
     # for our finite temperature correction.
     # For isotropic noise, it is always possible to force this to be true
     # As long as we have evenly spaced k (we have to take symmetric and antisymmetric combinations)
+    # The accuracy of each element is limited by the largest one
+    atol = 1e-6 * np.max(np.abs(data), initial=0)
     np.testing.assert_allclose(
-        data, np.conj(np.transpose(data)), err_msg="kernel non hermitian"
+        data, np.conj(np.transpose(data)), atol=atol, err_msg="kernel non hermitian"
     )
     res = np.linalg.eigh(data)
 
@@ -127,6 +131,7 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
             np.conj(np.transpose(res.eigenvectors)),
         ),
         rtol=1e-4,
+        atol=atol,
     )
     # The original kernel has the noise operators as \ket{i}\bra{j}
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
-- 
2.43.0


From 28e9d6525078f4b57ca93c9e872ac0a4d2682450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 028/109] fix: truncation of noise operators and diagonal
 kernels

---
 surface_potential_analysis/kernel/build.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index df4b6d5..904ce84 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -18,7 +18,7 @@ from surface_potential_analysis.kernel.kernel import (
     DiagonalNoiseKernel,
     IsotropicNoiseKernel,
     SingleBasisNoiseOperatorList,
-    get_diagonal_kernel_from_operators,
+    get_diagonal_kernel_from_diagonal_operators,
     get_full_kernel_from_operators,
 )
 from surface_potential_analysis.kernel.solve._eigenvalue import (
@@ -293,7 +293,7 @@ def truncate_diagonal_noise_operator_list(
     data = operators["data"].reshape(operators["basis"][0].n, -1)[args, :]
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), operators["basis"][1]),
-        "data": data,
+        "data": data.reshape(-1),
         "eigenvalue": operators["eigenvalue"][args],
     }
 
@@ -318,7 +318,7 @@ def truncate_noise_operator_list(
     data = operators["data"].reshape(operators["basis"][0].n, -1)[args, :]
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), operators["basis"][1]),
-        "data": data,
+        "data": data.reshape(-1),
         "eigenvalue": operators["eigenvalue"][args],
     }
 
@@ -364,4 +364,4 @@ def truncate_diagonal_noise_kernel(
     operators = get_periodic_noise_operators_diagonal_eigenvalue(kernel)
 
     truncated = truncate_diagonal_noise_operator_list(operators, truncation)
-    return get_diagonal_kernel_from_operators(truncated)
+    return get_diagonal_kernel_from_diagonal_operators(truncated)
-- 
2.43.0


From 69a49745016e12579c3dacf73ca78c85095a52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 029/109] fix: isotropic kernel from a complex diagonal kernel

---
 surface_potential_analysis/kernel/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index 8928a73..b788186 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -243,7 +243,7 @@ def as_isotropic_kernel_from_diagonal(
     -------
     IsotropicNoiseKernel[_B0]
     """
-    data = kernel["data"].reshape(kernel["basis"][0].shape)[0]
+    data = kernel["data"].reshape(kernel["basis"][0].shape)[:, 0]
     out: IsotropicNoiseKernel[_B0] = {"basis": kernel["basis"][0][0], "data": data}
 
     if assert_isotropic:
-- 
2.43.0


From df5c339ff12bc7c4970755b693b4ae4f7dd0a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 030/109] fix: isotropic kernels whose elements nearly vanish

---
 surface_potential_analysis/kernel/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index b788186..c86f126 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -248,7 +248,9 @@ def as_isotropic_kernel_from_diagonal(
 
     if assert_isotropic:
         np.testing.assert_allclose(
-            as_diagonal_kernel_from_isotropic(out)["data"], kernel["data"]
+            as_diagonal_kernel_from_isotropic(out)["data"],
+            kernel["data"].ravel(),
+            atol=1e-7 * np.max(np.abs(kernel["data"]), initial=0),
         )
 
     return out
@@ -329,6 +331,7 @@ def as_isotropic_kernel_from_diagonal_stacked(
                 kernel["basis"][0].shape
             ),
             kernel["data"].reshape(kernel["basis"][0].shape),
+            atol=1e-7 * np.max(np.abs(kernel["data"]), initial=0),
         )
 
     return out
-- 
2.43.0


From f00828b9a3663b2f7909a48c507897d93fba8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:41 +0000
Subject: [PATCH 031/109] fix: operators for real isotropic noise reproduce the
 kernel

---
 .../kernel/solve/_fft.py                      | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index ca40946..982257e 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -227,12 +227,18 @@ def get_periodic_noise_operators_real_isotropic_fft(
     -------
     SingleBasisDiagonalNoiseOperatorList[FundamentalBasis[int], FundamentalBasis[int]]
     """
-    np.testing.assert_allclose(np.imag(kernel["data"]), 0)
+    np.testing.assert_allclose(
+        np.imag(kernel["data"]), 0, atol=1e-8 * np.max(np.abs(kernel["data"]))
+    )
 
     fundamental_n = kernel["basis"].n if n is None else 2 * n + 1
+    n_terms = fundamental_n // 2 + 1
 
     operators = get_periodic_operators_for_real_isotropic_noise(
-        kernel["basis"], fundamental_n=fundamental_n, assert_periodic=assert_periodic
+        kernel["basis"],
+        n=n_terms,
+        fundamental_n=fundamental_n,
+        assert_periodic=assert_periodic,
     )
 
     eigenvalues = _get_noise_eigenvalues_isotropic_fft(
@@ -243,12 +249,20 @@ def get_periodic_noise_operators_real_isotropic_fft(
         eigenvalues["data"][1::],
         eigenvalues["data"][1::][::-1],
         rtol=1e-8,
+        atol=1e-8 * np.max(np.abs(eigenvalues["data"])),
     )
 
+    # The terms e^(+-ikx) both contribute to each of the cos(kx), sin(kx) operators
+    # other than the constant, and (for an even number of points) the fastest one
+    coefficients = 2 * eigenvalues["data"][:n_terms]
+    coefficients[0] /= 2
+    if fundamental_n % 2 == 0:
+        coefficients[-1] /= 2
+
     return {
         "basis": operators["basis"],
         "data": operators["data"],
-        "eigenvalue": eigenvalues["data"],
+        "eigenvalue": np.concatenate([coefficients, coefficients[:0:-1]]),
     }
 
 
-- 
2.43.0


From 2ff200d4da7e1dd3b8c4cebe29b1a83ef9fa9cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 032/109] fix: data of the operators for isotropic and linear
 noise is flat

---
 surface_potential_analysis/kernel/solve/_fft.py    | 2 +-
 surface_potential_analysis/kernel/solve/_taylor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index 982257e..732c71a 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -192,7 +192,7 @@ def get_periodic_operators_for_real_isotropic_noise(
     # ! data[end:] = np.sqrt(2) * np.imag(np.conj(data[end:]))
     return {
         "basis": TupleBasis(FundamentalBasis(data.shape[0]), TupleBasis(basis, basis)),
-        "data": data,
+        "data": data.ravel(),
     }
 
 
diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 16c2e30..49cb6c6 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -128,7 +128,7 @@ def _get_linear_operators_for_noise(
     data = np.array([displacements**n for n in range(n_terms)], dtype=np.complex128)
     return {
         "basis": TupleBasis(FundamentalBasis(n_terms), TupleBasis(basis, basis)),
-        "data": data,
+        "data": data.ravel(),
     }
 
 
-- 
2.43.0


From 82be118792e4113548f74332f758571974fe2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:37 +0000
Subject: [PATCH 033/109] fix: taylor coefficients of a kernel which is missing
 some order

---
 surface_potential_analysis/kernel/solve/_taylor.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 49cb6c6..6a0dc96 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -58,12 +58,10 @@ def _get_cos_coefficients_for_taylor_series(
 ) -> np.ndarray[tuple[int, int], np.dtype[np.float64]]:
     n_terms = polynomial_coefficients.size if n_terms is None else n_terms
 
-    atol = 1e-8 * np.max(polynomial_coefficients).item()
-    is_nonzero = np.isclose(polynomial_coefficients, 0, atol=atol)
-    first_nonzero = np.argmax(is_nonzero)
-    if first_nonzero == 0 and is_nonzero.item(0) is False:
-        first_nonzero = is_nonzero.size
-    n_nonzero_terms = min(first_nonzero, n_terms)
+    # Only the negligible terms of the highest order can be left out
+    atol = 1e-8 * np.max(np.abs(polynomial_coefficients)).item()
+    nonzero_idx = np.flatnonzero(~np.isclose(polynomial_coefficients, 0, atol=atol))
+    n_nonzero_terms = min(nonzero_idx[-1] + 1 if nonzero_idx.size else 0, n_terms)
     polynomial_coefficients = polynomial_coefficients[:n_nonzero_terms]
 
     i = np.arange(0, n_nonzero_terms).reshape(1, -1)
-- 
2.43.0


From b5ee18673c6e162f8d658bfcb4fdc8b4f2ea5ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 034/109] fix: integer overflow in the taylor coefficients of
 more than ten terms

---
 surface_potential_analysis/kernel/solve/_taylor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 6a0dc96..bb4cda6 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -64,7 +64,7 @@ def _get_cos_coefficients_for_taylor_series(
     n_nonzero_terms = min(nonzero_idx[-1] + 1 if nonzero_idx.size else 0, n_terms)
     polynomial_coefficients = polynomial_coefficients[:n_nonzero_terms]
 
-    i = np.arange(0, n_nonzero_terms).reshape(1, -1)
+    i = np.arange(0, n_nonzero_terms, dtype=np.float64).reshape(1, -1)
     m = np.arange(0, n_nonzero_terms).reshape(-1, 1)
     coefficients_prefactor = ((-1) ** m) / (factorial(2 * m))
     coefficients_matrix = coefficients_prefactor * (i ** (2 * m))
-- 
2.43.0


From 9040c0e8dd9ea16e68af95f0d5c3089ce0fbbdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 035/109] fix: explicit taylor expansion has one coefficient
 per operator

---
 surface_potential_analysis/kernel/solve/_taylor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index bb4cda6..7704eb2 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -104,7 +104,7 @@ def get_periodic_noise_operators_explicit_taylor_expansion(
 
     # coefficients for the Taylor expansion of the trig terms
     coefficients = _get_periodic_coefficients_for_taylor_series(
-        polynomial_coefficients=polynomial_coefficients,
+        polynomial_coefficients=polynomial_coefficients, n_terms=n_terms
     )
     coefficients *= basis.n
 
-- 
2.43.0


From 2d4521924d4ba20bf6f74acc3758e5cb88923086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 036/109] fix: isotropic kernel from a correlation which is not
 even

---
 surface_potential_analysis/kernel/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index 904ce84..bf2866e 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -99,7 +99,7 @@ def build_isotropic_kernel_from_function(
     ]
     """
     displacements = get_displacements_matrix_x(basis)
-    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[0])
+    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[:, 0])
 
     return {"basis": displacements["basis"][0], "data": correlation.ravel()}
 
-- 
2.43.0


From 6ef38ec0018bd02b0fb08631d0bd1e8f85336529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 037/109] fix: gaussian noise kernel of a surface with several
 axes

---
 surface_potential_analysis/kernel/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/gaussian.py b/surface_potential_analysis/kernel/gaussian.py
index b6aa791..82cfdc4 100644
--- a/surface_potential_analysis/kernel/gaussian.py
+++ b/surface_potential_analysis/kernel/gaussian.py
@@ -26,7 +26,7 @@ from surface_potential_analysis.kernel.kernel import (
     AxisKernel,
     DiagonalNoiseOperatorList,
     SingleBasisDiagonalNoiseOperatorList,
-    as_diagonal_kernel_from_isotropic,
+    as_diagonal_kernel_from_isotropic_stacked,
     get_diagonal_noise_operators_from_axis,
 )
 from surface_potential_analysis.kernel.solve._fft import (
@@ -159,7 +159,7 @@ def get_gaussian_noise_kernel(
     SingleBasisDiagonalNoiseKernel[ TupleBasisLike[FundamentalPositionBasis[Any, Literal[1]]] ]
         _description_
     """
-    return as_diagonal_kernel_from_isotropic(
+    return as_diagonal_kernel_from_isotropic_stacked(
         get_gaussian_isotropic_noise_kernel(basis, a, lambda_)
     )
 
-- 
2.43.0


From 1fb0197db04041a4594819aa693c4d39d308cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 038/109] fix: amplitude of a gaussian kernel which is a
 product over axes

---
 surface_potential_analysis/kernel/gaussian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/gaussian.py b/surface_potential_analysis/kernel/gaussian.py
index 82cfdc4..dec0464 100644
--- a/surface_potential_analysis/kernel/gaussian.py
+++ b/surface_potential_analysis/kernel/gaussian.py
@@ -123,10 +123,13 @@ def get_gaussian_axis_noise_kernel(
         _description_
     """
 
+    # the kernel is the product of the kernels of each axis
+    a_axis = a ** (1 / basis.ndim)
+
     def fn(
         displacements: np.ndarray[Any, np.dtype[np.float64]],
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
-        return a**2 * np.exp(-(displacements**2) / (2 * lambda_**2)).astype(
+        return a_axis**2 * np.exp(-(displacements**2) / (2 * lambda_**2)).astype(
             np.complex128,
         )
 
@@ -517,7 +520,7 @@ def get_periodic_gaussian_operators_explicit_taylor_stacked(
     axis_operators = tuple(
         get_periodic_gaussian_operators_explicit_taylor(
             basis_x[i],
-            a,
+            a ** (1 / basis.ndim),
             lambda_,
             n_terms=None if shape is None else shape[i],
         )
@@ -550,7 +553,7 @@ def get_linear_gaussian_operators_explicit_taylor_stacked(
     axis_operators = tuple(
         get_linear_gaussian_noise_operators_explicit_taylor(
             basis_x[i],
-            a,
+            a ** (1 / basis.ndim),
             lambda_,
             n_terms=None if shape is None else shape[i],
         )
-- 
2.43.0


From f86c41917ea38e97e9eaaad6f75952e9af4f5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:47 +0000
Subject: [PATCH 039/109] fix: bloch fractions of an evenly spaced list are
 real and have an axis

---
 surface_potential_analysis/basis/block_fraction_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/block_fraction_basis.py b/surface_potential_analysis/basis/block_fraction_basis.py
index 7bf6e41..9bb2b9a 100644
--- a/surface_potential_analysis/basis/block_fraction_basis.py
+++ b/surface_potential_analysis/basis/block_fraction_basis.py
@@ -59,9 +59,10 @@ class EvenlySpacedBlockFractionBasis(
 
     @property
     def bloch_fractions(self) -> np.ndarray[tuple[Any, _N0_co], np.dtype[np.float64]]:
-        return self.__from_fundamental__(  # type: ignore can't infer shape
+        fractions = self.__from_fundamental__(
             np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)
         )
+        return np.real(fractions).reshape(1, -1)  # type: ignore can't infer shape
 
 
 class FundamentalBlockFractionBasis(
-- 
2.43.0


From 650d01998541c70726bcac923751727ddce0e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 040/109] fix: data of a converted wavepacket is flat, over a
 list of bloch samples

---
 surface_potential_analysis/wavepacket/conversion.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/conversion.py b/surface_potential_analysis/wavepacket/conversion.py
index 55bfa59..d6cc6e4 100644
--- a/surface_potential_analysis/wavepacket/conversion.py
+++ b/surface_potential_analysis/wavepacket/conversion.py
@@ -16,7 +16,7 @@ from surface_potential_analysis.basis.stacked_basis import (
     TupleBasisWithLengthLike,
 )
 from surface_potential_analysis.stacked_basis.build import (
-    fundamental_stacked_basis_from_shape,
+    fundamental_transformed_stacked_basis_from_shape,
 )
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_momentum_basis,
@@ -195,7 +195,7 @@ def convert_wavepacket_with_eigenvalues_to_basis(
     return {
         "basis": TupleBasis(TupleBasis(wavepacket["basis"][0][0], list_basis), basis),
         "data": vectors.reshape(-1),
-        "eigenvalue": eigenvalues,
+        "eigenvalue": eigenvalues.reshape(-1),
     }
 
 
@@ -299,9 +299,10 @@ def convert_wavepacket_to_shape(
     )
     return {
         "basis": TupleBasis(
-            fundamental_stacked_basis_from_shape(shape), wavepacket["basis"][1]
+            fundamental_transformed_stacked_basis_from_shape(shape),
+            wavepacket["basis"][1],
         ),
         "data": wavepacket["data"]
         .reshape(*old_shape, -1)[*slices, :]
-        .reshape(np.prod(shape), -1),
+        .reshape(-1),
     }
-- 
2.43.0


From 2513717088e9aa41a5cef24891226830f417dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 041/109] fix: eigenstates of a wavepacket are those of each
 sample

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 1f745a7..868f6ac 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -225,6 +225,9 @@ def get_all_eigenstates(
             wavepacket["basis"][0]
         ),
     )
+    eigenvalues = convert_vector(
+        wavepacket["eigenvalue"], wavepacket["basis"][0], converted["basis"][0]
+    )
     util = BasisUtil(get_fundamental_sample_basis(converted["basis"]))
     return [
         {
@@ -235,8 +238,8 @@ def get_all_eigenstates(
             "eigenvalue": e,
         }
         for (v, e, *offset) in zip(
-            converted["data"],
-            wavepacket["eigenvalue"],
+            converted["data"].reshape(converted["basis"].shape),
+            eigenvalues,
             *util.stacked_nk_points,
             strict=True,
         )
-- 
2.43.0


From 132174d1df85f4fd9acc8d2d66a047af7557a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 042/109] fix: tight binding state is restricted to a unit cell

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 868f6ac..a5fe0e7 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -310,20 +310,23 @@ def get_tight_binding_state(
         get_wavepacket_state_vector(wavepacket, idx)
     )
     util = BasisUtil(state_0["basis"])
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
     if origin is None:
         idx_0: SingleStackedIndexLike = util.get_stacked_index(
             int(np.argmax(np.abs(state_0["data"]), axis=-1))
         )
         origin = wrap_index_around_origin(
-            wavepacket["basis"][1],
+            unit_cell_basis,
             idx_0,
         )
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"])
+    unit_cell_util = BasisUtil(unit_cell_basis)
     relevant_idx = wrap_index_around_origin(
-        wavepacket["basis"][1],
+        unit_cell_basis,
         unit_cell_util.fundamental_stacked_nx_points,
         origin=origin,
     )
-- 
2.43.0


From 7930dc825071fc788b377378a3b030c019648366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 043/109] fix: bloch basis of states in a truncated basis

---
 .../wavepacket/get_eigenstate.py                    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index a5fe0e7..15e9cf7 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -702,8 +702,8 @@ class BlochBasis(
             axis=axis,
         )
 
-        k_shape = self.wavefunctions["basis"][1].shape
-        list_shape = self.wavefunctions["basis"][0][1].shape
+        k_shape = self.wavefunctions["basis"][1].fundamental_shape
+        list_shape = self.wavefunctions["basis"][0][1].fundamental_shape
         ndim = len(k_shape)
 
         inner_shape = tuple(zip(list_shape, k_shape))
@@ -742,7 +742,7 @@ class BlochBasis(
         if self.vectors_basis.n < 100 * 90:
             np.testing.assert_allclose(
                 self.vectors_basis[1].__into_fundamental__(
-                    unshifted.reshape(vectors_in_basis.shape), axis
+                    unshifted.reshape(converted.shape), axis
                 ),
                 ExplicitStackedBasisWithLength(self.vectors).__into_fundamental__(
                     vectors, axis
@@ -751,7 +751,7 @@ class BlochBasis(
             )
 
         return self.vectors_basis[1].__into_fundamental__(
-            unshifted.reshape(vectors_in_basis.shape), axis
+            unshifted.reshape(converted.shape), axis
         )
 
     @property
@@ -915,7 +915,10 @@ def get_wannier_states(
     # for each translation of the wannier functions
     for idx in range(operator["basis"][0].n):
         offset = util.get_stacked_index(idx)
-        shift = tuple(-n * o for (n, o) in zip(wavefunctions["basis"][1].shape, offset))
+        shift = tuple(
+            -n * o
+            for (n, o) in zip(wavefunctions["basis"][1].fundamental_shape, offset)
+        )
 
         tanslated = np.roll(
             converted_stacked, shift, axis=tuple(1 + x for x in range(util.ndim))
-- 
2.43.0


From 0fc19c3f18146d2d193aaca58cd53cead44143c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:24 +0000
Subject: [PATCH 044/109] fix: matrix elements of the hamiltonian between
 wannier states

---
 .../wavepacket/get_eigenstate.py                       | 10 +++++-----
 .../wavepacket/localization_operator.py                |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 15e9cf7..e842116 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -1009,10 +1009,10 @@ def get_full_wannier_hamiltonian(
         *hamiltonian["basis"][0].shape,
         -1,
     )
-    # is this correct...
-    # I think because H is real symmetric, this ultimately doesn't matter
-    data_stacked = np.fft.fftn(
-        np.fft.ifftn(
+    # A translation by one cell multiplies the state at k by exp(ik),
+    # which is conjugated in the bra
+    data_stacked = np.fft.ifftn(
+        np.fft.fftn(
             hamiltonian_stacked,
             axes=tuple(range(hamiltonian["basis"][0].ndim)),
             norm="ortho",
@@ -1024,7 +1024,7 @@ def get_full_wannier_hamiltonian(
     )
     # Re order to match the correct basis
     data = np.einsum(  # type: ignore lib
-        "ijkl->ikjl",
+        "ijkl->kilj",
         data_stacked.reshape(
             hamiltonian["basis"][0].n,
             hamiltonian["basis"][0].n,
diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index 7da10f1..c2babe1 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -138,11 +138,11 @@ def get_localized_hamiltonian_from_eigenvalues(
     """
     converted = np.einsum(  # type: ignore lib
         "dic,cd,djc->dij",
-        operator["data"].reshape(-1, *operator["basis"][1].shape),
+        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
         hamiltonian["data"].reshape(
             hamiltonian["basis"][0].n, hamiltonian["basis"][1].shape[0]
         ),
-        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
+        operator["data"].reshape(-1, *operator["basis"][1].shape),
     )
     return {
         "basis": TupleBasis(
-- 
2.43.0


From b1034468fae73762564ed728fd6cad54ae45c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 045/109] fix: number of bands of the identity localization
 operator

---
 surface_potential_analysis/wavepacket/localization_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index c2babe1..41adb26 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -204,7 +204,7 @@ def get_identity_operator(
     return diagonal_operator_list_as_full(
         {
             "basis": TupleBasis(
-                basis[1], TupleBasis(FundamentalBasis(basis[1].n), basis[0])
+                basis[1], TupleBasis(FundamentalBasis(basis[0].n), basis[0])
             ),
             "data": np.ones(basis.n, dtype=np.complex128),
         }
-- 
2.43.0


From 592ad21911dbebadb571583aa63bce18f0927375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 046/109] fix: gaussian and exponential projections are
 relative to the unit cell

---
 .../wavepacket/localization/_projection.py    | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_projection.py b/surface_potential_analysis/wavepacket/localization/_projection.py
index 1e65bd1..bf9f75d 100644
--- a/surface_potential_analysis/wavepacket/localization/_projection.py
+++ b/surface_potential_analysis/wavepacket/localization/_projection.py
@@ -298,15 +298,20 @@ def get_exponential_state(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
+    origin_stacked = wrap_index_around_origin(unit_cell_basis, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         state_0["basis"], util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_util = BasisUtil(wavepacket["basis"])
-    dx0 = coordinates[0] - origin_stacked[0] / unit_cell_util.fundamental_shape[0]
-    dx1 = coordinates[1] - origin_stacked[1] / unit_cell_util.fundamental_shape[1]
-    dx2 = coordinates[2] - origin_stacked[2] / unit_cell_util.fundamental_shape[2]
+    dx = tuple(
+        (c - o) / w
+        for (c, o, w) in zip(
+            coordinates, origin_stacked, unit_cell_basis.shape, strict=True
+        )
+    )
 
     out: StateVector[
         TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]]
@@ -314,7 +319,7 @@ def get_exponential_state(
         "basis": state_0["basis"],
         "data": np.zeros_like(state_0["data"]),
     }
-    out["data"] = np.exp(-(dx0**2 + dx1**2 + dx2**2))
+    out["data"] = np.exp(-np.sum(np.square(dx), axis=0))
     out["data"] /= np.linalg.norm(out["data"])  # type: ignore can be float
     return out
 
@@ -389,15 +394,19 @@ def get_gaussian_states(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
+    origin_stacked = wrap_index_around_origin(unit_cell_basis, origin_stacked)
 
     coordinates = wrap_index_around_origin(
         basis, util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_shape = (wavepacket["basis"]).shape
     dx = tuple(
         (c - o) / w
-        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell_shape, strict=True)
+        for (c, o, w) in zip(
+            coordinates, origin_stacked, unit_cell_basis.shape, strict=True
+        )
     )
 
     out: StateVectorList[
-- 
2.43.0


From 80982794d410ab3df6ae02c9637a5ad9a67fd789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:07 +0000
Subject: [PATCH 047/109] fix: two and max point localization of a wavepacket

---
 .../wavepacket/localization/_tight_binding.py | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index c8ea059..ca26c6d 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -186,7 +186,10 @@ def get_wavepacket_two_points(
     -------
     tuple[SingleStackedIndexLike, SingleStackedIndexLike]
     """
-    util = BasisUtil(wavepacket["basis"][1])
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
+    util = BasisUtil(unit_cell_basis)
     origin = (util.shape[0] * offset[0], util.shape[1] * offset[1], 0)
 
     converted = convert_state_vector_to_position_basis(
@@ -197,9 +200,9 @@ def get_wavepacket_two_points(
         SingleStackedIndexLike,
         converted_util.get_stacked_index(np.argmax(np.abs(converted["data"]), axis=-1)),
     )
-    idx_0 = wrap_index_around_origin(wavepacket["basis"][1], idx_0, origin=origin)
+    idx_0 = wrap_index_around_origin(unit_cell_basis, idx_0, origin=origin)
     idx_1 = get_x01_mirrored_index(idx_0)
-    idx_1 = wrap_index_around_origin(wavepacket["basis"][1], idx_1, origin=origin)
+    idx_1 = wrap_index_around_origin(unit_cell_basis, idx_1, origin=origin)
     return (idx_0, idx_1)
 
 
@@ -291,9 +294,10 @@ def localize_tightly_bound_wavepacket_two_point_max(
     # !         )
     # !     )
     # ! )
-    fixed_eigenvectors = wavepacket["data"] * phases[:, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
 
 
 @timed
@@ -324,12 +328,17 @@ def localize_tightly_bound_wavepacket_max_point(
     )
     max_idx = cast(SingleFlatIndexLike, np.argmax(np.abs(converted["data"]), axis=-1))
     max_idx = BasisUtil(converted["basis"]).get_stacked_index(max_idx)
-    max_idx = wrap_index_around_origin(wavepacket["basis"][1], max_idx, axes=(0, 1))
+    max_idx = wrap_index_around_origin(
+        stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1]),
+        max_idx,
+        axes=(0, 1),
+    )
 
     bloch_phases = _get_bloch_wavefunction_phases(wavepacket, max_idx)
     global_phases = _get_global_phases(wavepacket, max_idx)
 
     phases = np.exp(-1j * (bloch_phases + global_phases - angle))
-    fixed_eigenvectors = wavepacket["data"] * phases[:, :, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
-- 
2.43.0


From 0d6c9878ec9b37948d3f446d38e27453a905d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:24 +0000
Subject: [PATCH 048/109] fix: localization of a wavepacket with the position
 operator

---
 .../wavepacket/localization/_operator.py         | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_operator.py b/surface_potential_analysis/wavepacket/localization/_operator.py
index b5bac7a..7f07e66 100644
--- a/surface_potential_analysis/wavepacket/localization/_operator.py
+++ b/surface_potential_analysis/wavepacket/localization/_operator.py
@@ -72,7 +72,7 @@ def _get_position_operator(basis: _SBV0) -> SingleBasisOperator[_SBV0]:
     basis_position = stacked_basis_as_fundamental_position_basis(basis)
     operator: SingleBasisOperator[Any] = {
         "basis": TupleBasis(basis_position, basis_position),
-        "data": np.diag(locations),
+        "data": np.diag(locations).ravel(),
     }
     return convert_operator_to_basis(operator, TupleBasis(basis, basis))
 
@@ -92,7 +92,7 @@ def _get_operator_between_states(
             )
 
     basis = FundamentalBasis(n_states)
-    return {"data": array, "basis": TupleBasis(basis, basis)}
+    return {"data": array.ravel(), "basis": TupleBasis(basis, basis)}
 
 
 def _localize_operator(
@@ -105,13 +105,15 @@ def _localize_operator(
     ]
     operator_between_states = _get_operator_between_states(states, operator)
     eigenstates = calculate_eigenvectors_hermitian(operator_between_states)
+    n_states = len(states)
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
     return [
         {
             "basis": wavepacket["basis"],
             "eigenvalue": wavepacket["eigenvalue"],
-            "data": wavepacket["data"] * vector[:, np.newaxis],
+            "data": (old_data * vector[:, np.newaxis]).ravel(),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(n_states, n_states)
     ]
 
 
@@ -166,13 +168,14 @@ def localize_position_operator_many_band(
     operator_position = _get_position_operator(basis)
     operator = _get_operator_between_states(states, operator_position)
     eigenstates = calculate_eigenvectors_hermitian(operator)
+    n_states = len(states)
     state_vectors = np.array([s["data"] for s in states], dtype=np.complex128)
     return [
         {
             "basis": basis,
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(n_states, n_states)
     ]
 
 
@@ -200,11 +203,12 @@ def localize_position_operator_many_band_individual(
     operator_position = _get_position_operator(states[0]["basis"])
     operator = _get_operator_between_states(states, operator_position)  # type: ignore[arg-type]
     eigenstates = calculate_eigenvectors_hermitian(operator)
+    n_states = len(states)
     state_vectors = np.array([s["data"] for s in states])
     return [
         {
             "basis": states[0]["basis"],
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(n_states, n_states)
     ]
-- 
2.43.0


From 4f09c170cb4d2f6e049b9555edd4bfa044da613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:24 +0000
Subject: [PATCH 049/109] fix: points of states localized from a probability
 with truncated samples

---
 surface_potential_analysis/state_vector/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/util.py b/surface_potential_analysis/state_vector/util.py
index 9b2a098..2b9547c 100644
--- a/surface_potential_analysis/state_vector/util.py
+++ b/surface_potential_analysis/state_vector/util.py
@@ -171,7 +171,9 @@ def get_most_localized_state_vectors_from_probability(
     sample_fractions = tuple(
         f / n
         for (f, n) in zip(
-            sample_fractions, wavepackets["basis"][0][1].shape, strict=True
+            sample_fractions,
+            wavepackets["basis"][0][1].fundamental_shape,
+            strict=True,
         )
     )
 
-- 
2.43.0


From c031bbf40a88fdb40e77138376097c76a38b31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 050/109] fix: convert an overlap to momentum basis

---
 surface_potential_analysis/overlap/conversion.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/surface_potential_analysis/overlap/conversion.py b/surface_potential_analysis/overlap/conversion.py
index f55523e..86cd660 100644
--- a/surface_potential_analysis/overlap/conversion.py
+++ b/surface_potential_analysis/overlap/conversion.py
@@ -2,8 +2,6 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, Literal, TypeVar
 
-import numpy as np
-
 from surface_potential_analysis.basis.basis_like import (
     BasisLike,
     BasisWithLengthLike,
@@ -81,14 +79,6 @@ def convert_overlap_to_momentum_basis(
     -------
     OverlapMomentum[_L0Inv, _L1Inv, _L2Inv]
     """
-    transformed = np.fft.ifftn(
-        overlap["data"].reshape(overlap["basis"].shape),
-        axes=(0, 1, 2),
-        s=overlap["basis"].fundamental_shape,
-        norm="forward",
-    )
-    transformed.reshape(-1)
-
     return convert_overlap_to_basis(
         overlap, stacked_basis_as_fundamental_momentum_basis(overlap["basis"][0])
     )
-- 
2.43.0


From 8a8059ac86bd11bf6180152155151334fa96727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 051/109] fix: shift each axis of the states in an overlap

---
 surface_potential_analysis/overlap/calculation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/overlap/calculation.py b/surface_potential_analysis/overlap/calculation.py
index 260f90e..83323ab 100644
--- a/surface_potential_analysis/overlap/calculation.py
+++ b/surface_potential_analysis/overlap/calculation.py
@@ -101,12 +101,13 @@ def calculate_state_vector_list_overlap(
     Overlap[TupleBasisLike[*tuple[FundamentalPositionBasis[Any, Any], ...]], _B1, _B1].
     """
     stacked = states["data"].reshape(states["basis"].shape)
-    shift = (
-        BasisUtil(states["basis"][1]).get_flat_index(shift, mode="wrap")
-        if isinstance(shift, tuple)
-        else shift
-    )
-    stacked_shifted = np.roll(stacked, shift, axis=(1))
+    util = BasisUtil(states["basis"][1])
+    shift = shift if isinstance(shift, tuple) else util.get_stacked_index(shift)
+    stacked_shifted = np.roll(
+        stacked.reshape(-1, *util.shape),
+        shift,
+        axis=tuple(1 + axis for axis in range(util.ndim)),
+    ).reshape(stacked.shape)
     # stacked = i, j where i indexes the state and j indexes the position
     data = np.conj(stacked)[np.newaxis, :, :] * (stacked_shifted[:, np.newaxis, :])
     return {
-- 
2.43.0


From f7e3debdeb9c1a57bf3502332faa82c2155da9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:02 +0000
Subject: [PATCH 052/109] fix: momentum fractions of an overlap with an unequal
 number of points

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index de9fc73..eb3f93c 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -69,7 +69,7 @@ def get_overlap_momentum_interpolator_k_fractions(
         overlap["basis"][0], util.stacked_nx_points, axes=(0, 1)
     )
     x_fractions = np.asarray(nx_points_wrapped, dtype=float)[:, :, np.newaxis]
-    x_fractions /= util.shape[0]
+    x_fractions /= np.array(util.shape)[:, np.newaxis, np.newaxis]
 
     def _interpolator(
         k_fractions: ArrayStackedIndexFractionLike[_S0Inv],
-- 
2.43.0


From d96b16ed72a82c264fc90cf33248eca16f60943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 053/109] fix: average an overlap over each angle once

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index eb3f93c..b10dd90 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -191,7 +191,7 @@ def get_angle_averaged_diagonal_overlap_function(
     -------
     np.ndarray[tuple[int], np.dtype[np.float_]]
     """
-    theta = np.linspace(0, 2 * np.pi, theta_samples)
+    theta = np.linspace(0, 2 * np.pi, theta_samples, endpoint=False)
     averages = list[np.float64]()
     for q in abs_q.ravel():
         k_points = q * np.array([np.cos(theta), np.sin(theta)])
-- 
2.43.0


From a84249ad7ce551f838458155f69d4bd4cd145c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:31 +0000
Subject: [PATCH 054/109] fix: data of the states which solve the schrodinger
 equation is flat, in the basis of the hamiltonian

---
 .../dynamics/schrodinger/solve.py                   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 77e5f58..03e47e4 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -98,6 +98,9 @@ def solve_schrodinger_equation_decomposition(
     -------
     StateVectorList[_B0Inv, _L0Inv]
     """
+    initial_state = convert_state_vector_to_basis(
+        initial_state, hamiltonian["basis"][0]
+    )
     eigenstates = calculate_eigenvectors_hermitian(hamiltonian)
     np.testing.assert_array_almost_equal(
         hamiltonian["data"].reshape(hamiltonian["basis"].shape),
@@ -121,7 +124,10 @@ def solve_schrodinger_equation_decomposition(
     vectors = np.tensordot(
         constants, eigenstates["data"].reshape(eigenstates["basis"].shape), axes=(1, 0)
     )
-    return {"basis": TupleBasis(times, eigenstates["basis"][1]), "data": vectors}
+    return {
+        "basis": TupleBasis(times, eigenstates["basis"][1]),
+        "data": vectors.reshape(-1),
+    }
 
 
 def solve_schrodinger_equation_diagonal(
@@ -149,7 +155,10 @@ def solve_schrodinger_equation_diagonal(
     data = converted_state["data"][np.newaxis, :] * np.exp(
         -1j * (hamiltonian["data"][np.newaxis, :]) * times.times[:, np.newaxis] / hbar
     )
-    return {"basis": TupleBasis(times, hamiltonian["basis"][0]), "data": data}
+    return {
+        "basis": TupleBasis(times, hamiltonian["basis"][0]),
+        "data": data.reshape(-1),
+    }
 
 
 def solve_schrodinger_equation(
-- 
2.43.0


From a69b3452a25dd96863abc7196fb296e032309032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 055/109] fix: solve the schrodinger equation at times which
 are not subdivided

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 03e47e4..8928052 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -177,6 +177,9 @@ def solve_schrodinger_equation(
     -------
         StateVectorList[_BT1, _B0Inv]: _description_
     """
+    initial_state = convert_state_vector_to_basis(
+        initial_state, hamiltonian["basis"][0]
+    )
     hamiltonian_qobj = qutip.Qobj(
         hamiltonian["data"].reshape(hamiltonian["basis"].shape) / hbar,
     )
@@ -189,7 +192,6 @@ def solve_schrodinger_equation(
         options={
             "progress_bar": "enhanced",
             "store_states": True,
-            "nsteps": times.step,
         },
     )
     return {
-- 
2.43.0


From d082021a2c4e9e1dcc26697fe8dbb5b85a66434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:24 +0000
Subject: [PATCH 056/109] fix: collapse operators of a matrix are flat and
 complex, and leave the matrix as it was

---
 .../dynamics/stochastic_schrodinger/solve.py                | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 764070e..b34a4f9 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -118,7 +118,7 @@ def get_collapse_operators_from_a_matrix(
     -------
     list[SingleBasisOperator[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[_L2Inv]]]]
     """
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     return [
         {
@@ -128,8 +128,8 @@ def get_collapse_operators_from_a_matrix(
                     ([data[idx]], ([np.int32(idx[0])], [np.int32(idx[1])])),  # type: ignore always idx[1]
                     shape=data.shape,
                 ).toarray(),
-                dtype=np.float64,
-            ),
+                dtype=np.complex128,
+            ).reshape(-1),
         }
         for idx in zip(*np.nonzero(data), strict=True)
     ]
-- 
2.43.0


From eabad2fdd33c183f1c3abc517477e0b59afe78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:30 +0000
Subject: [PATCH 057/109] fix: get the collapse operators of a function

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index b34a4f9..b96e0e4 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -229,7 +229,7 @@ def get_collapse_operators_from_function(
                 (i1, j1) = (i0 + d1_stacked[0], j0 + d1_stacked[1])
                 j = np.ravel_multi_index((i1, j1, n1), (*shape, n_bands), mode="wrap")
 
-                data = np.zeros(shape, dtype=np.complex128)
+                data = np.zeros(array.shape, dtype=np.complex128)
                 data[i, j] = a_function(
                     int(n0), n1, (0, 0), (d1_stacked[0], d1_stacked[1])
                 )
-- 
2.43.0


From 3d6c5ded159f3ef1375902330aeb2839d9192818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:37 +0000
Subject: [PATCH 058/109] fix: scale collapse operators by the root of hbar in
 qutip, as in the other solvers

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index b96e0e4..e7800a3 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -297,7 +297,7 @@ def solve_stochastic_schrodinger_equation(  # type: ignore bad overload
     initial_state_qobj = qutip.Qobj(initial_state["data"])
 
     sc_ops = [
-        qutip.Qobj(op["data"].reshape(op["basis"].shape) / hbar).to("CSR")
+        qutip.Qobj(op["data"].reshape(op["basis"].shape) / np.sqrt(hbar)).to("CSR")
         for op in collapse_operators
     ]
     result = qutip.ssesolve(
-- 
2.43.0


From 447a338a7ac0b8c437d1676a8e721b6411527411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:43 +0000
Subject: [PATCH 059/109] fix: use the fundamental timestep in the rust
 stochastic solver

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index e7800a3..1f23a6a 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -397,7 +397,7 @@ def solve_stochastic_schrodinger_equation_rust(  # type: ignore bad overload
         SimulationConfig(
             n=times.n,
             step=times.step,
-            dt=times.dt,
+            dt=times.fundamental_dt,
             n_trajectories=n_trajectories,
             n_realizations=n_realizations,
             method="Euler",
-- 
2.43.0


From 0db1a07127fd39185017962eee35b32f408db475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:49 +0000
Subject: [PATCH 060/109] fix: solve the banded stochastic schrodinger equation
 without collapse operators

---
 .../dynamics/stochastic_schrodinger/solve.py                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 1f23a6a..4ec77f5 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -518,7 +518,9 @@ def solve_stochastic_schrodinger_equation_rust_banded(  # type: ignore bad overl
 
     # We get the best numerical performace if we set the norm of the largest collapse operators
     # to be one. This prevents us from accumulating large errors when multiplying state * dt * operator * conj_operator
-    max_norm = np.max(operators_norm)
+    max_norm = np.max(operators_norm, initial=0)
+    # If there is no noise the scale is arbitrary
+    max_norm = max_norm if max_norm > 0 else np.sqrt(hbar)
     dt = (times.fundamental_dt * max_norm**2 / hbar).item()
 
     banded_collapse = _get_banded_operators(
-- 
2.43.0


From 3709b59540af7072e6d2e3dd6472ff551b3d001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 061/109] fix: jump and reduced matrices of a tunnelling matrix

---
 .../incoherent_propagation/tunnelling_matrix.py       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 5ae5e51..e8e1dc8 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -93,8 +93,8 @@ def get_jump_matrix_from_a_matrix(
     -------
     TunnellingJumpMatrix[_L2Inv]
     """
-    n_bands = matrix["basis"][2].fundamental_n
-    util = BasisUtil(matrix["basis"])
+    n_bands = matrix["basis"][0][2].fundamental_n
+    util = BasisUtil(matrix["basis"][0])
     stacked = matrix["data"].reshape(*util.shape, *util.shape)
     data = np.zeros((n_bands, n_bands, 9), dtype=np.complex128)
     for n_0 in range(n_bands):
@@ -169,12 +169,13 @@ def get_a_matrix_from_jump_matrix(
     -------
     TunnellingAMatrix[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[int], ] ]
     """
-    n_bands = matrix["basis"].fundamental_n if n_bands is None else n_bands
+    n_bands_0 = matrix["basis"][0].fundamental_n
+    n_bands = n_bands_0 if n_bands is None else n_bands
     final_basis = get_basis_from_shape(shape, n_bands, matrix["basis"][0])
     final_util = BasisUtil(final_basis)
 
     (n_x0, n_x1) = shape
-    jump_stacked = matrix["data"].reshape(n_bands, n_bands, 9)
+    jump_stacked = matrix["data"].reshape(n_bands_0, n_bands_0, 9)
     array = np.zeros((*final_util.shape, *final_util.shape), dtype=np.complex128)
     for n_0 in range(n_bands):
         for n_1 in range(n_bands):
@@ -272,7 +273,7 @@ def get_a_matrix_reduced_bands(
     -------
     TunnellingMMatrix[tuple[_AX0Inv, _AX1Inv, TunnellingSimulationBandsBasis[_L1Inv]]]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     a_basis = TupleBasis(
         matrix["basis"][0][0],
         matrix["basis"][0][1],
-- 
2.43.0


From 1fb4bbbbde85c591ed981529df2626dccf14f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 062/109] fix: tunnelling m matrix is flat, and leaves the a
 matrix as it was

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index e8e1dc8..b6ddfb3 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -330,10 +330,10 @@ def get_tunnelling_m_matrix(
     TunnellingMMatrix
     """
     matrix = matrix if n_bands is None else get_a_matrix_reduced_bands(matrix, n_bands)
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
-    return {"basis": matrix["basis"], "data": array}
+    return {"basis": matrix["basis"], "data": array.reshape(-1)}
 
 
 def get_initial_pure_density_matrix_for_basis(
-- 
2.43.0


From 84fcbeb0f61f0d9ed278b83b5764c3de20f998d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 063/109] fix: the probability of a density matrix is in the
 basis of its states

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index b6ddfb3..7af640e 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -374,7 +374,7 @@ def density_matrix_as_probability(
     -------
     ProbabilityVector[_B0Inv]
     """
-    return {"basis": matrix["basis"], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
+    return {"basis": matrix["basis"][0], "data": np.real(matrix["data"])}
 
 
 def density_matrix_list_as_probabilities(
-- 
2.43.0


From 0b261066749cb18beac13e2604e02fd8248ee1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:54 +0000
Subject: [PATCH 064/109] fix: data of tunnelling eigenstates, and simulation
 states, is flat

---
 .../dynamics/incoherent_propagation/eigenstates.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py b/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
index bf8af0d..f2abc4d 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/eigenstates.py
@@ -54,7 +54,7 @@ def calculate_tunnelling_eigenstates(
     return {
         "basis": TupleBasis(FundamentalBasis(eigenvalues.size), matrix["basis"][0]),  # type: ignore lib
         "eigenvalue": eigenvalues - np.max(eigenvalues),  # type: ignore lib
-        "data": vectors.T,  # type: ignore lib
+        "data": vectors.T.reshape(-1),  # type: ignore lib
     }
 
 
@@ -82,7 +82,8 @@ def get_operator_state_vector_decomposition(
     # linalg.solve(a, b) = x where np.dot(a, x) == b, which is the sum
     # of the product over the last axis of x, so a[i] x[:, i] = b[:]
     # ie solved is the decomposition of b into the eigenvectors
-    return scipy.linalg.solve(eigenstates["data"].T, density_matrix["data"])  # type: ignore[no-any-return]
+    vectors = eigenstates["data"].reshape(eigenstates["basis"].shape)
+    return scipy.linalg.solve(vectors.T, density_matrix["data"])  # type: ignore[no-any-return]
 
 
 def get_equilibrium_state(
@@ -110,7 +111,8 @@ def get_equilibrium_state(
     state_idx = np.argmax(eigenstates["eigenvalue"])
     # eigenstates["data"][state_idx] is not necessarily normalized,
     # and could contain negative or imaginary 'probabilities'
-    vector = coefficients[state_idx] * eigenstates["data"][state_idx]
+    vectors = eigenstates["data"].reshape(eigenstates["basis"].shape)
+    vector = coefficients[state_idx] * vectors[state_idx]
     return {
         "basis": TupleBasis(eigenstates["basis"][1], eigenstates["basis"][1]),
         "data": vector,
@@ -163,13 +165,15 @@ def get_tunnelling_simulation_state(
     constants = coefficients[np.newaxis, :] * np.exp(
         eigenstates["eigenvalue"][np.newaxis, :] * times[:, np.newaxis]
     )
-    vectors = np.tensordot(constants, eigenstates["data"], axes=(1, 0))
+    vectors = np.tensordot(
+        constants, eigenstates["data"].reshape(eigenstates["basis"].shape), axes=(1, 0)
+    )
     return {
         "basis": TupleBasis(
             ExplicitTimeBasis(times),
             TupleBasis(eigenstates["basis"][1], eigenstates["basis"][1]),
         ),
-        "data": vectors,
+        "data": vectors.reshape(-1),
     }
 
 
-- 
2.43.0


From 706906f5e77da1a8a425751cdb5444098021d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 065/109] fix: isf of the equilibrium state, and decomposition
 into rates

---
 .../dynamics/incoherent_propagation/isf.py    | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index d35fc80..e772f81 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -96,7 +96,7 @@ def calculate_equilibrium_state_averaged_isf(
     -------
     EigenvalueList[_L0Inv]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     equilibrium = get_equilibrium_state(eigenstates)
 
@@ -114,7 +114,7 @@ def calculate_equilibrium_state_averaged_isf(
         isf = calculate_isf_approximate_locations(
             initial_probability, final_probabilities, dk
         )
-        eigenvalues[band] = isf
+        eigenvalues[band] = isf["data"]
     isf_per_band: SingleBasisDiagonalOperator[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]]
     ] = {
@@ -127,7 +127,8 @@ def calculate_equilibrium_state_averaged_isf(
     averaged = average_eigenvalues(
         isf_per_band, (0,), weights=np.abs(occupation_probabilities["data"])
     )
-    return {"basis": averaged["basis"][0][0], "data": averaged["data"]}
+    time_basis = averaged["basis"][0][0]
+    return {"basis": TupleBasis(time_basis, time_basis), "data": averaged["data"]}
 
 
 def calculate_equilibrium_initial_state_isf(
@@ -149,25 +150,22 @@ def calculate_equilibrium_initial_state_isf(
     EigenvalueList[_L0Inv]
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
+    basis = matrix["basis"][0]
 
-    vectors = np.zeros(
-        (matrix["basis"].shape[2], times.size, matrix["basis"].n), dtype=np.complex128
-    )
-    for band in range(matrix["basis"].shape[2]):
+    vectors = np.zeros((basis.shape[2], times.size, basis.n), dtype=np.complex128)
+    for band in range(basis.shape[2]):
         initial_state = get_initial_pure_density_matrix_for_basis(
             matrix["basis"][0], (0, 0, band)
         )
         final_state = get_tunnelling_simulation_state(eigenstates, initial_state, times)
         final_probabilities = density_matrix_list_as_probabilities(final_state)
-        vectors[band] = final_probabilities["data"]
+        vectors[band] = final_probabilities["data"].reshape(times.size, basis.n)
     probability_per_band: ProbabilityVectorList[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]], _B0Inv
     ] = {
         "basis": TupleBasis(
-            TupleBasis(
-                FundamentalBasis(matrix["basis"].shape[2]), ExplicitTimeBasis(times)
-            ),
-            matrix["basis"][0],
+            TupleBasis(FundamentalBasis(basis.shape[2]), ExplicitTimeBasis(times)),
+            basis,
         ),
         "data": vectors.reshape(-1),
     }
@@ -176,10 +174,10 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"].shape, dtype=np.complex128)
+    vector = np.zeros(basis.shape, dtype=np.float64)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
-        "basis": matrix["basis"][0],
+        "basis": basis,
         "data": vector.reshape(-1),
     }
     average_probability = average_probabilities(
@@ -187,7 +185,14 @@ def calculate_equilibrium_initial_state_isf(
         weights=np.abs(occupation_probabilities["data"]),
         axis=(0,),
     )
-    return calculate_isf_approximate_locations(initial, average_probability, dk)
+    return calculate_isf_approximate_locations(
+        initial,
+        {
+            "basis": TupleBasis(average_probability["basis"][0][0], basis),
+            "data": average_probability["data"],
+        },
+        dk,
+    )
 
 
 @dataclass
@@ -215,4 +220,4 @@ def get_rate_decomposition(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     coefficients = get_operator_state_vector_decomposition(initial, eigenstates)
-    return RateDecomposition(eigenstates["data"], coefficients)
+    return RateDecomposition(eigenstates["eigenvalue"], coefficients)
-- 
2.43.0


From 29a858924330f468ff12d24250cf641812ece7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:05 +0000
Subject: [PATCH 066/109] fix: locations of tunnelling bands are fractions of
 the unit cell

---
 surface_potential_analysis/dynamics/tunnelling_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/tunnelling_basis.py b/surface_potential_analysis/dynamics/tunnelling_basis.py
index 99f6977..78036f2 100644
--- a/surface_potential_analysis/dynamics/tunnelling_basis.py
+++ b/surface_potential_analysis/dynamics/tunnelling_basis.py
@@ -64,7 +64,7 @@ class TunnellingSimulationBandsBasis(FundamentalBasis[_L0_co]):
         for i, w in enumerate(wavepacket_list_into_iter(wavepackets)):
             idx0, idx1 = get_wavepacket_two_points(w)
             location = np.average([idx0, idx1], axis=0)  # type: ignore lib
-            locations[:, i] = location[0:2]
+            locations[:, i] = location[0:2] / np.array(util.fundamental_shape[0:2])
         return cls(locations, tuple(util.delta_x_stacked[0:2, 0:2]))  # type: ignore[arg-type]
 
 
-- 
2.43.0


From ee9fe76246c9360f65e35c711946a7569648e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 067/109] fix: fit rates of an isf in units of the initial
 guess

---
 surface_potential_analysis/dynamics/isf.py | 35 ++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/dynamics/isf.py b/surface_potential_analysis/dynamics/isf.py
index 4e8e6f6..90e8e6e 100644
--- a/surface_potential_analysis/dynamics/isf.py
+++ b/surface_potential_analysis/dynamics/isf.py
@@ -19,6 +19,8 @@ from surface_potential_analysis.stacked_basis.util import (
 from surface_potential_analysis.util.util import Measure, get_measured_data
 
 if TYPE_CHECKING:
+    from collections.abc import Callable
+
     from surface_potential_analysis.basis.basis_like import BasisLike
     from surface_potential_analysis.dynamics.tunnelling_basis import (
         TunnellingSimulationBandsBasis,
@@ -150,6 +152,29 @@ def get_isf_from_4_variable_fit(
     }
 
 
+def _curve_fit_scaled(
+    f: Callable[..., np.ndarray[Any, Any]],
+    times: np.ndarray[Any, np.dtype[np.float64]],
+    data: np.ndarray[Any, np.dtype[np.float64]],
+    *,
+    p0: tuple[float, ...],
+    bounds: tuple[list[float], list[float]],
+    **kwargs: Any,  # noqa: ANN401
+) -> np.ndarray[Any, np.dtype[np.float64]]:
+    # Rates are of order 1e9, and amplitudes of order 1. To be able to fit to both
+    # we must vary parameters in units of the initial guess
+    scale = np.array(p0)
+    params, _ = scipy.optimize.curve_fit(  # type: ignore lib
+        lambda t, *x: f(t, *(scale * np.array(x))),
+        times,
+        data,
+        p0=np.ones_like(scale),
+        bounds=(np.array(bounds[0]) / scale, np.array(bounds[1]) / scale),
+        **kwargs,
+    )
+    return scale * params  # type: ignore lib
+
+
 def fit_isf_to_double_exponential(
     isf: SingleBasisDiagonalOperator[_BT0],
     *,
@@ -178,7 +203,7 @@ def fit_isf_to_double_exponential(
     ) -> np.ndarray[Any, Any]:
         return a * np.exp(-(b) * t) + c * np.exp(-(d) * t) + (1 - a - c)
 
-    params, _ = scipy.optimize.curve_fit(  # type: ignore lib
+    params = _curve_fit_scaled(
         f,
         isf["basis"][0].times,
         data,
@@ -365,7 +390,7 @@ def fit_isf_to_fey_4_variable_model_110_fixed_ratio(  # noqa: PLR0913
     ) -> np.ndarray[Any, Any]:
         return f(t, fr, fa, sa, offset)  # - penalization
 
-    params, _ = scipy.optimize.curve_fit(  # type: ignore lib
+    params = _curve_fit_scaled(
         penalized_f,
         times[valid_times],
         data[valid_times],
@@ -432,7 +457,7 @@ def fit_isf_to_fey_4_variable_model_110(
     ) -> np.ndarray[Any, Any]:
         return f(t, fr, fa, sr, sa, offset)  # - penalization
 
-    params, _ = scipy.optimize.curve_fit(  # type: ignore lib
+    params = _curve_fit_scaled(
         penalized_f,
         times[valid_times],
         data[valid_times],
@@ -597,7 +622,7 @@ def fit_isf_to_fey_model_110(
     ) -> np.ndarray[Any, Any]:
         return calculate_isf_fey_model_110(t, f, s, a_dk=a_dk)
 
-    params, _ = scipy.optimize.curve_fit(  # type: ignore lib
+    params = _curve_fit_scaled(
         f,
         isf["basis"][0].times,
         data,
@@ -634,7 +659,7 @@ def fit_isf_to_fey_model_112bar(
     ) -> np.ndarray[Any, Any]:
         return calculate_isf_fey_model_112bar(t, f, s, a_dk=a_dk)
 
-    params, _ = scipy.optimize.curve_fit(  # type: ignore lib
+    params = _curve_fit_scaled(
         f,
         isf["basis"][0].times,
         data,
-- 
2.43.0


From 383595ae13db280b5f17e0657be54961385fc50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 068/109] fix: wrap the comparison sites of a potential into
 the cell

---
 .../potential/_comparison_points.py             | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/potential/_comparison_points.py b/surface_potential_analysis/potential/_comparison_points.py
index e031789..e7cd443 100644
--- a/surface_potential_analysis/potential/_comparison_points.py
+++ b/surface_potential_analysis/potential/_comparison_points.py
@@ -6,10 +6,13 @@ def get_111_comparison_points_x2(
 ) -> dict[str, tuple[int, int]]:
     (nx0, nx1) = shape
     return {
-        "Top Site": (((2 * nx0) // 3 + offset[0], (2 * nx1) // 3 + offset[1])),
-        "Bridge Site": ((nx0 // 6 + offset[0], nx1 // 6 + offset[1])),
-        "FCC Site": ((offset[0], offset[1])),
-        "HCP Site": ((nx0 // 3 + offset[0], nx1 // 3 + offset[1])),
+        "Top Site": (
+            ((2 * nx0) // 3 + offset[0]) % nx0,
+            ((2 * nx1) // 3 + offset[1]) % nx1,
+        ),
+        "Bridge Site": ((nx0 // 6 + offset[0]) % nx0, (nx1 // 6 + offset[1]) % nx1),
+        "FCC Site": (offset[0] % nx0, offset[1] % nx1),
+        "HCP Site": ((nx0 // 3 + offset[0]) % nx0, (nx1 // 3 + offset[1]) % nx1),
     }
 
 
@@ -18,7 +21,7 @@ def get_100_comparison_points_x2(
 ) -> dict[str, tuple[int, int]]:
     (nx0, nx1) = shape
     return {
-        "Hollow Site": (offset[0], offset[1]),
-        "Bridge Site": (nx0 // 2 + offset[0], 0 + offset[1]),
-        "Top Site": (nx0 // 2 + offset[0], nx1 // 2 + offset[1]),
+        "Hollow Site": (offset[0] % nx0, offset[1] % nx1),
+        "Bridge Site": ((nx0 // 2 + offset[0]) % nx0, offset[1] % nx1),
+        "Top Site": ((nx0 // 2 + offset[0]) % nx0, (nx1 // 2 + offset[1]) % nx1),
     }
-- 
2.43.0


From 29d342b9671c6fb9bbf467f1fa00bb2e989f75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 069/109] fix: colour range of a surface on a logarithmic scale

---
 surface_potential_analysis/util/plot.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 46bdf18..76225b7 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -68,8 +68,13 @@ def get_figure(ax: Axes | None) -> tuple[Figure, Axes]:
 
 
 def _get_default_lim(
-    measure: Measure, data: np.ndarray[Any, np.dtype[np.float64]]
+    measure: Measure,
+    data: np.ndarray[Any, np.dtype[np.float64]],
+    scale: Scale = "linear",
 ) -> tuple[float, float]:
+    if scale == "log" and np.any(data > 0):
+        # A logarithmic scale can only show positive values
+        return (float(np.min(data[data > 0])), float(np.max(data)))
     if measure == "abs":
         return (0, float(np.max(data)))
     return (float(np.min(data)), float(np.max(data)))
@@ -79,8 +84,9 @@ def _get_lim(
     lim: tuple[float | None, float | None],
     measure: Measure,
     data: np.ndarray[Any, np.dtype[np.float64]],
+    scale: Scale = "linear",
 ) -> tuple[float, float]:
-    (default_min, default_max) = _get_default_lim(measure, data)
+    (default_min, default_max) = _get_default_lim(measure, data, scale)
     l_max = default_max if lim[1] is None else lim[1]
     l_min = default_min if lim[0] is None else lim[0]
     return (l_min, l_max)
@@ -401,7 +407,7 @@ def plot_data_2d(
         if coordinates is None
         else ax.pcolormesh(*coordinates, measured_data, shading="nearest")  # type: ignore lib
     )
-    clim = _get_lim((None, None), measure, measured_data)
+    clim = _get_lim((None, None), measure, measured_data, scale)
     norm = _get_norm_with_lim(scale, clim)
     mesh.set_norm(norm)
     mesh.set_clim(*clim)
-- 
2.43.0


From d34ff76556c85390ae7130f1d4e1c32bac533943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 070/109] fix: plot the largest momentum slice of the converted
 data

---
 surface_potential_analysis/util/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 76225b7..4440fa8 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -275,7 +275,7 @@ def plot_data_1d_k(
     basis_k = stacked_basis_as_fundamental_momentum_basis(basis)
     converted_data = convert_vector(data, basis, basis_k)
 
-    idx = get_max_idx(basis_k, data, axes) if idx is None else idx
+    idx = get_max_idx(basis_k, converted_data, axes) if idx is None else idx
 
     coordinates = get_k_coordinates_in_axes(basis_k, axes, idx)
     data_in_axis = get_data_in_axes(converted_data.reshape(basis_k.shape), axes, idx)
-- 
2.43.0


From 533ab98ad8e58eaba25e8da6fedc993d3447f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 071/109] fix: frames and colour range of an animation through
 a surface

---
 surface_potential_analysis/util/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 4440fa8..d7b1b12 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -645,9 +645,10 @@ def animate_data_through_surface_x(
             measured_data[:, :, i],
             shading="nearest",
         ),
-        data.shape[2],
+        measured_data.shape[2],
         ax=ax,
         scale=scale,
+        measure=measure,
         clim=clim,
     )
     ax.set_aspect("equal", adjustable="box")
-- 
2.43.0


From 01bf9ec5602590dbbe5625471e9e1ff2642abe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 072/109] fix: animate and minimise potentials in the position
 basis

---
 surface_potential_analysis/potential/plot.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 66a0f37..1572403 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -316,9 +316,9 @@ def animate_potential_3d_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     converted = convert_potential_to_position_basis(potential)
-    points = potential["data"].reshape(converted["basis"].shape)
+    points = converted["data"].reshape(converted["basis"].shape)
     fig, ax, ani = animate_data_through_surface_x(  # type: ignore[misc]
-        potential["basis"],
+        converted["basis"],
         points,
         axes,
         idx,
@@ -362,10 +362,13 @@ def animate_potential_difference_3d_x(
     -------
     tuple[Figure, Axes, QuadMesh]
     """
-    converted_1 = convert_potential_to_basis(potential1, potential0["basis"])
+    converted_0 = convert_potential_to_position_basis(potential0)
+    converted_1 = convert_potential_to_basis(potential1, converted_0["basis"])
     potential: Potential[StackedBasisWithVolumeLike[Any, Any, Any]] = {
-        "basis": potential0["basis"],
-        "data": np.abs((potential0["data"] - converted_1["data"]) / potential0["data"]),
+        "basis": converted_0["basis"],
+        "data": np.abs(
+            (converted_0["data"] - converted_1["data"]) / converted_0["data"]
+        ),
     }
     return animate_potential_3d_x(potential, axes, idx, ax=ax, scale=scale, clim=clim)
 
@@ -441,7 +444,10 @@ def get_minimum_path(
         The complete path after finding the minimum at each coordinate
     """
     axis = axis % potential["basis"].ndim
-    min_idx = np.argmin(potential["data"].reshape(potential["basis"].shape), axis=axis)
+    converted = convert_potential_to_position_basis(potential)
+    min_idx = np.argmin(
+        np.real(converted["data"]).reshape(converted["basis"].shape), axis=axis
+    )
     wrapped = np.ravel_multi_index(path, min_idx.shape, mode="wrap")
     return np.insert(path, axis, min_idx.flat[wrapped], axis=0)
 
-- 
2.43.0


From 1e515835c1572b614f584ae2d90a81eed0175922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 073/109] fix: draw the diagonal of an operator on the given
 axes

---
 surface_potential_analysis/operator/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 2d087fe..7b6d25a 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -249,7 +249,11 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]), operator["data"], measure=measure, scale=scale
+        TupleBasis(operator["basis"][0]),
+        operator["data"],
+        ax=ax,
+        measure=measure,
+        scale=scale,
     )
 
     line.set_label(f"{measure} operator")
-- 
2.43.0


From 2a4506ec6a2b1bced75884c587186aaa7aaf66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 074/109] fix: relative difference of states which both vanish
 somewhere

---
 .../state_vector/plot.py                      | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e0aba67..67dc0b4 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -416,6 +416,16 @@ def plot_state_2d_k(
     )
 
 
+def _get_relative_difference(
+    data_0: np.ndarray[tuple[int], np.dtype[np.complex128]],
+    data_1: np.ndarray[tuple[int], np.dtype[np.complex128]],
+) -> np.ndarray[tuple[int], np.dtype[np.complex128]]:
+    """Get the difference relative to the larger value, zero where both vanish."""
+    difference = np.asarray(data_0 - data_1)
+    scale = np.max([np.abs(data_0), np.abs(data_1)], axis=0)
+    return np.divide(difference, scale, out=np.zeros_like(difference), where=scale > 0)
+
+
 def plot_state_difference_2d_k(
     state_0: StateVector[_SBV0],
     state_1: StateVector[_SBV1],
@@ -454,8 +464,9 @@ def plot_state_difference_2d_k(
     converted_1 = convert_state_vector_to_basis(state_1, basis)
     state: StateVector[Any] = {
         "basis": basis,
-        "data": (converted_0["data"] - converted_1["data"])
-        / np.max([np.abs(converted_0["data"]), np.abs(converted_1["data"])], axis=0),
+        "data": _get_relative_difference(
+            converted_0["data"], converted_1["data"]
+        ),
     }
     return plot_state_2d_k(state, axes, idx, ax=ax, measure=measure, scale=scale)
 
@@ -539,8 +550,9 @@ def plot_state_difference_1d_k(
     converted_1 = convert_state_vector_to_basis(state_1, basis)
     state: StateVector[Any] = {
         "basis": basis,
-        "data": (converted_0["data"] - converted_1["data"])
-        / np.max([np.abs(converted_0["data"]), np.abs(converted_1["data"])], axis=0),
+        "data": _get_relative_difference(
+            converted_0["data"], converted_1["data"]
+        ),
     }
     return plot_state_1d_k(state, axes, idx, ax=ax, measure=measure, scale=scale)
 
@@ -583,8 +595,9 @@ def plot_state_difference_2d_x(
     converted_1 = convert_state_vector_to_basis(state_1, basis)
     state: StateVector[Any] = {
         "basis": basis,
-        "data": (converted_0["data"] - converted_1["data"])
-        / np.max([np.abs(converted_0["data"]), np.abs(converted_1["data"])], axis=0),
+        "data": _get_relative_difference(
+            converted_0["data"], converted_1["data"]
+        ),
     }
     return plot_state_2d_x(state, axes, idx, ax=ax, measure=measure, scale=scale)
 
-- 
2.43.0


From 2d8ec9427f193cb7ea72ee4b633d5ff255b24213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 075/109] fix: plot the points of a plane, and at an index, of
 the basis

---
 surface_potential_analysis/stacked_basis/plot.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 0443cc5..33a5d86 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -150,9 +150,13 @@ def plot_fundamental_k_in_plane_projected_2d(
     tuple[Figure, Axes, Line2D]
     """
     util = BasisUtil(basis)
-    points = util.fundamental_stacked_k_points.reshape(3, *util.fundamental_shape)[
-        slice_ignoring_axes(idx, axes)
-    ].reshape(3, -1)
+    points = (
+        np.array(util.fundamental_stacked_k_points)
+        .reshape(basis.ndim, *util.fundamental_shape)[
+            slice_ignoring_axes(idx, (0, *[1 + ax for ax in axes]))
+        ]
+        .reshape(basis.ndim, -1)
+    )
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
 
 
@@ -256,7 +260,7 @@ def plot_fundamental_x_at_index_projected_2d(
     util = BasisUtil(basis)
     idx = idx if isinstance(idx, tuple) else util.get_stacked_index(idx)
     points = (
-        np.array(util.fundamental_stacked_nx_points, dtype=np.float64)
+        np.array(util.fundamental_x_points_stacked)
         .reshape(util.ndim, *util.fundamental_shape)[:, *idx]
         .reshape(util.ndim, -1)
     )
-- 
2.43.0


From b5f6ad5e6966aef58f24c64de37885426def5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 076/109] fix: leave the states unchanged when calculating
 their spread

---
 surface_potential_analysis/state_vector/plot.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 67dc0b4..36df4be 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1135,6 +1135,14 @@ def plot_averaged_occupation_1d_x(
     return fig, ax
 
 
+def _get_normalized_states(
+    states: StateVectorList[_B0Inv, _SBV0],
+) -> StateVectorList[_B0Inv, _SBV0]:
+    data = states["data"].reshape(states["basis"].shape)
+    norms = np.linalg.norm(data, axis=1)[:, np.newaxis]
+    return {"basis": states["basis"], "data": (data / norms).ravel()}
+
+
 def _get_x_spread(
     states: StateVectorList[
         _B0Inv,
@@ -1164,11 +1172,7 @@ def _get_x_spread(
     """
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
-    data = states["data"].reshape(states["basis"].shape)
-    data /= np.linalg.norm(data, axis=1)[:, np.newaxis]
-
-    states["data"] = data.ravel()
-    periodic_x = _get_periodic_x(states, direction)
+    periodic_x = _get_periodic_x(_get_normalized_states(states), direction)
     norm = np.abs(periodic_x["data"])
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
@@ -1194,6 +1198,7 @@ def get_coherent_coordinates(
     -------
     ValueList[TupleBasisLike[FundamentalBasis[Literal[3]], _B0Inv]]
     """
+    states = _get_normalized_states(states)
     sigma_0 = _get_x_spread(states, axis)
     x0 = _get_average_x_periodic(states, axis)
     k0 = _get_average_k(states, axis)
@@ -1380,7 +1385,7 @@ def plot_spread_against_k(
     fig, ax = get_figure(ax)
 
     spread_x = _get_x_spread(states, axes[0])
-    k = _get_average_k(states, axes[0])
+    k = _get_average_k(_get_normalized_states(states), axes[0])
 
     ax.plot(k["data"], spread_x["data"])  # type: ignore unknown
 
-- 
2.43.0


From 6e6f71bb616926596e5a1849e2fee5f957907452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 077/109] fix: positions and momenta of trajectories in more
 than one dimension

---
 .../state_vector/plot.py                       | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 36df4be..c2e3bb5 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1005,7 +1005,11 @@ def _get_average_x_periodic(
 
     return {
         "basis": periodic_x["basis"],
-        "data": (angle * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)),
+        "data": (
+            angle
+            * np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
+            / (2 * np.pi)
+        ),
     }
 
 
@@ -1025,7 +1029,9 @@ def _get_restored_x(
     return {
         "basis": periodic_x["basis"],
         "data": (
-            unravelled * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)
+            unravelled
+            * np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
+            / (2 * np.pi)
         ).ravel(),
     }
 
@@ -1080,7 +1086,8 @@ def _get_x_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_x, basis_x),
-            "data": util.dx_stacked[axis] * util.stacked_nx_points[axis],
+            "data": np.linalg.norm(util.dx_stacked[axis])
+            * util.stacked_nx_points[axis],
         },
         TupleBasis(basis, basis),
     )
@@ -1300,7 +1307,8 @@ def _get_k_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_k, basis_k),
-            "data": util.dk_stacked[axis] * util.stacked_nk_points[axis],
+            "data": np.linalg.norm(util.dk_stacked[axis])
+            * util.stacked_nk_points[axis],
         },
         TupleBasis(basis, basis),
     )
@@ -1733,7 +1741,7 @@ def plot_average_drift_1d_x(
     tuple[Figure, Axes, Line2D]
     """
     restored_x = _get_restored_x(states, axes[0])
-    k_points = _get_average_k(states, axis=0)
+    k_points = _get_average_k(states, axes[0])
     drift = get_normalized_average_drift(restored_x, k_points)
 
     return plot_average_value_list_against_time(
-- 
2.43.0


From c889c58a09f84e6e5d39eee3714f846f786ea32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 078/109] fix: the average isf correlates the initial with the
 later position

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index c2e3bb5..1789799 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1563,7 +1563,7 @@ def _calculate_total_offsset_multiplications_real(
     -------
     np.ndarray[Any, np.dtype[np.float64]]
     """
-    return scipy.signal.correlate(lhs, rhs, mode="full")[lhs.size - 1 :]  # type: ignore unknown
+    return scipy.signal.correlate(rhs, lhs, mode="full")[lhs.size - 1 :]  # type: ignore unknown
 
 
 def _calculate_total_offsset_multiplications_complex(
-- 
2.43.0


From ab5a6e05ff960b6573332bc5263774a8160e0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 079/109] fix: phase of the transform of values at times with a
 step

---
 .../state_vector/plot_value_list.py           | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot_value_list.py b/surface_potential_analysis/state_vector/plot_value_list.py
index a116052..10fcbe4 100644
--- a/surface_potential_analysis/state_vector/plot_value_list.py
+++ b/surface_potential_analysis/state_vector/plot_value_list.py
@@ -127,11 +127,10 @@ def plot_value_list_against_frequency(
     -------
     tuple[Figure, Axes, Line2D]
     """
-    rolled = np.roll(values["data"], values["basis"].offset)
-    shifted_data = np.fft.fftshift(np.fft.fft(rolled))
-    shifted_coordinates = np.fft.fftshift(
-        np.fft.fftfreq(values["basis"].n, values["basis"].dt)
-    )
+    frequencies = np.fft.fftfreq(values["basis"].n, values["basis"].dt)
+    phases = np.exp(-2j * np.pi * frequencies * values["basis"].times[0])
+    shifted_data = np.fft.fftshift(phases * np.fft.fft(values["data"]))
+    shifted_coordinates = np.fft.fftshift(frequencies)
 
     fig, ax, line = plot_data_1d(
         shifted_data,
@@ -212,16 +211,11 @@ def plot_split_value_list_against_frequency(
     """
     fig, ax = get_figure(ax)
 
-    rolled = np.roll(
-        values["data"].reshape(values["basis"].shape),
-        values["basis"][1].offset,
-        axis=(1,),
-    )
-    transformed = np.fft.fftshift(np.fft.fft(rolled, axis=1), axes=(1,))
-
-    shifted_coordinates = np.fft.fftshift(
-        np.fft.fftfreq(values["basis"][1].n, values["basis"][1].dt)
-    )
+    frequencies = np.fft.fftfreq(values["basis"][1].n, values["basis"][1].dt)
+    phases = np.exp(-2j * np.pi * frequencies * values["basis"][1].times[0])
+    stacked = values["data"].reshape(values["basis"].shape)
+    transformed = np.fft.fftshift(phases * np.fft.fft(stacked, axis=1), axes=(1,))
+    shifted_coordinates = np.fft.fftshift(frequencies)
 
     cumulative = np.cumsum(transformed, axis=0)
     for band_data in cumulative:
-- 
2.43.0


From 0d2f474d5385f0d4ef78458ed68e97cb3f6bb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 080/109] fix: plot the average of the imaginary part and of
 the angle

---
 .../state_vector/plot_value_list.py                   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot_value_list.py b/surface_potential_analysis/state_vector/plot_value_list.py
index 10fcbe4..01affa1 100644
--- a/surface_potential_analysis/state_vector/plot_value_list.py
+++ b/surface_potential_analysis/state_vector/plot_value_list.py
@@ -293,12 +293,17 @@ def plot_average_value_list_against_time(
     """
     fig, ax = get_figure(ax)
 
-    measured_data = get_measured_data(values["data"], measure).reshape(
-        values["basis"].shape
+    measured_data = get_measured_data(
+        values["data"].reshape(values["basis"].shape), measure
     )
     average_data = np.average(measured_data, axis=0)
     fig, ax, line = plot_data_1d(
-        average_data, values["basis"][1].times, scale=scale, measure=measure, ax=ax
+        average_data,
+        values["basis"][1].times,
+        scale=scale,
+        # The data is real once it has been measured
+        measure="abs" if measure == "abs" else "real",
+        ax=ax,
     )
     std_data = np.std(measured_data, axis=0) / np.sqrt(values["basis"].shape[0])
     fill = ax.fill_between(  # type: ignore unkown
-- 
2.43.0


From 317423a0ef17a73b74beb9b4473e86049e08cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 081/109] fix: the spread of a localized state is zero, not nan

---
 surface_potential_analysis/state_vector/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 1789799..b528684 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1180,7 +1180,8 @@ def _get_x_spread(
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
     periodic_x = _get_periodic_x(_get_normalized_states(states), direction)
-    norm = np.abs(periodic_x["data"])
+    # A localized state has a norm of one, up to the rounding error
+    norm = np.minimum(np.abs(periodic_x["data"]), 1)
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
 
-- 
2.43.0


From f9b5b278108cb76f39176d3f8562357c6ebfe626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 082/109] fix: plot overlaps along a path

---
 surface_potential_analysis/overlap/plot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/overlap/plot.py b/surface_potential_analysis/overlap/plot.py
index eabbf60..db4c029 100644
--- a/surface_potential_analysis/overlap/plot.py
+++ b/surface_potential_analysis/overlap/plot.py
@@ -172,7 +172,7 @@ def plot_overlap_along_path_k(
     fig, ax = get_figure(ax)
     converted = convert_overlap_to_momentum_basis(overlap)
 
-    points = converted["data"].reshape(converted["basis"].shape)[*path]
+    points = converted["data"].reshape(converted["basis"][0].shape)[*path]
     data = get_measured_data(points, measure)
     distances = calculate_cumulative_k_distances_along_path(
         converted["basis"][0], path, wrap_distances=wrap_distances
@@ -209,7 +209,7 @@ def plot_overlap_along_k_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, i, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [[i, i, k2_ind] for i in range(overlap["basis"][0].fundamental_shape[0])]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
@@ -244,7 +244,10 @@ def plot_overlap_along_k0(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, k1_ind, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [
+            [i, k1_ind, k2_ind]
+            for i in range(overlap["basis"][0].fundamental_shape[0])
+        ]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
-- 
2.43.0


From 3072a488fc0adb16c762e8ce94e642af2f707ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 083/109] fix: leave the eigenvalues unchanged when plotting
 occupations

---
 surface_potential_analysis/state_vector/eigenvalue_list_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
index 86204d0..ab72ae7 100644
--- a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
+++ b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
@@ -100,7 +100,7 @@ def plot_eigenstate_occupations(
     fig, ax = get_figure(ax)
 
     energies = eigenstates["eigenvalue"]
-    energies -= np.min(energies)
+    energies = energies - np.min(energies)  # noqa: PLR6104
     occupation = np.exp(-np.abs(energies) / (temperature * Boltzmann))
     occupation /= np.sum(occupation)
 
-- 
2.43.0


From 07cf6b03a7f73a5dfb798b9651f33f5fd8a15b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 084/109] fix: plot a sample of the truncated noise operators

---
 surface_potential_analysis/kernel/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5118cd8..f5abb73 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -306,17 +306,18 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
     measured_potential = np.zeros(truncated["basis"][1][0].n, dtype=np.complex128)
     for i, factor in enumerate(factors):
         operator = select_diagonal_operator(
-            operators,
+            truncated,
             idx=i,
         )
         measured_potential += (
             factor
-            * np.lib.scimath.sqrt(operators["eigenvalue"][i] * hbar)
+            * np.lib.scimath.sqrt(truncated["eigenvalue"][i] * hbar)
             * operator["data"]
         )
 
     measured_potential -= measured_potential[0]
 
+    fig, ax = get_figure(ax)
     ax.set_ylabel("Energy /J")  # type: ignore library type
 
     return plot_data_1d_x(
-- 
2.43.0


From 87adf4c7af1c9c6abc8941d964f1665fe435ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 085/109] fix: plot the largest eigenvalues of noise operators

---
 surface_potential_analysis/kernel/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index f5abb73..26b8fe7 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -464,7 +464,7 @@ def plot_diagonal_noise_operators_eigenvalues(
     fig, ax = get_figure(ax)
 
     eigenvalues = get_measured_data(operators["eigenvalue"], measure)
-    args = np.argsort(eigenvalues)[:truncation:-1]
+    args = np.argsort(eigenvalues)[::-1][:truncation]
 
     (line,) = ax.plot(eigenvalues[args])  # type: ignore library type
     ax.set_ylabel("Eigenvalue")  # type: ignore library type
-- 
2.43.0


From e00b05ebfe1db248b7038b62f45c80e637b58c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 086/109] fix: plot the rate decomposition of fewer than 50
 rates

---
 .../dynamics/incoherent_propagation/plot.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
index 5310aec..3105a5b 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
@@ -46,6 +46,6 @@ def plot_rate_decomposition_against_temperature(
     sorted_rates = np.take_along_axis(rate_constants, relevant_rates, axis=-1)[:, ::-1]
 
     coefficients = np.abs([rate.coefficients for rate in rates])
-    for i in range(50):
+    for i in range(min(50, sorted_rates.shape[1])):
         ax.plot(temperatures, sorted_rates[:, i])  # type: ignore lib
     return fig, ax
-- 
2.43.0


From 368ab9d9946e8d2f79001ca505201e0d0b0c4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 087/109] fix: plot the average isf

---
 surface_potential_analysis/dynamics/isf_plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/isf_plot.py b/surface_potential_analysis/dynamics/isf_plot.py
index 61ac6a4..b1637c6 100644
--- a/surface_potential_analysis/dynamics/isf_plot.py
+++ b/surface_potential_analysis/dynamics/isf_plot.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, TypeVar
 
+from surface_potential_analysis.basis.stacked_basis import TupleBasis
 from surface_potential_analysis.dynamics.isf import (
     ISF4VariableFit,
     ISFFey4VariableFit,
@@ -102,7 +103,10 @@ def plot_average_isf_against_time(
     """
     averaged = average_eigenvalues(eigenvalues, (0,))
     return plot_isf_against_time(
-        {"basis": averaged["basis"][0][0], "data": averaged["data"]},
+        {
+            "basis": TupleBasis(averaged["basis"][0][0], averaged["basis"][1][0]),
+            "data": averaged["data"],
+        },
         ax=ax,
         measure=measure,
         scale=scale,
-- 
2.43.0


From 4c008ba8fcd61a7827c05c5bd442d42c6493adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 088/109] fix: number of repeats in the title of a plot

---
 surface_potential_analysis/dynamics/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/plot.py b/surface_potential_analysis/dynamics/plot.py
index f23a24b..ca9ef8b 100644
--- a/surface_potential_analysis/dynamics/plot.py
+++ b/surface_potential_analysis/dynamics/plot.py
@@ -104,7 +104,7 @@ def plot_average_probability_per_band(
 
     ax.set_title(  # type: ignore lib
         "Plot of occupation of each band against time,\n"
-        f"averaged over {len(probability)} repeats"
+        f"averaged over {probability["basis"][0][0].n} repeats"
     )
     return fig, ax, lines
 
-- 
2.43.0


From 704662f30f2d3332ae0f23f260769e9690a382ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 089/109] fix: count the smallest and largest elements in
 sparsity plots

---
 surface_potential_analysis/kernel/plot.py   | 5 ++---
 surface_potential_analysis/operator/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 26b8fe7..aa91711 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -160,9 +160,8 @@ def plot_kernel_sparsity(
     operators = get_periodic_noise_operators_eigenvalue(kernel)
 
     data = get_measured_data(operators["eigenvalue"], measure)
-    bins = np.logspace(
-        np.log10(np.min(data)), np.log10(np.max(data)), 10000, dtype=np.float64
-    )
+    # unlike logspace this includes the smallest and largest value exactly
+    bins = np.geomspace(np.min(data), np.max(data), 10000, dtype=np.float64)
     values, bins = np.histogram(data, bins=bins)
 
     cumulative = np.cumsum(values)
diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 7b6d25a..b04b468 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -97,7 +97,7 @@ def plot_operator_sparsity(
 
     values, bins = np.histogram(
         measured,
-        bins=np.logspace(-22, np.log10(np.max(measured)), 10000),  # type:ignore lib
+        bins=np.geomspace(1e-22, np.max(measured), 10000),  # type:ignore lib
     )
 
     cumulative = np.cumsum(values)
@@ -150,7 +150,7 @@ def plot_operator_diagonal_sparsity(
 
     values, bins = np.histogram(
         size,
-        bins=np.logspace(-22, np.log10(np.max(size)), 10000),  # type:ignore lib
+        bins=np.geomspace(1e-22, np.max(size), 10000),  # type:ignore lib
     )
 
     cumulative = np.cumsum(values)
-- 
2.43.0


From a0a40ed4b4187ed9efacd76f6fcc4d05b6d8f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 090/109] fix: default index of the sample points of a
 wavepacket in 3d

---
 surface_potential_analysis/wavepacket/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 103be79..079a00b 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -127,7 +127,7 @@ def plot_wavepacket_sample_frequencies(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax = get_figure(ax)
-    util = BasisUtil(wavepacket["basis"])
+    util = BasisUtil(wavepacket["basis"][0])
     idx = tuple(0 for _ in range(util.ndim - len(axes))) if idx is None else idx
 
     frequencies = get_wavepacket_fundamental_sample_frequencies(
-- 
2.43.0


From 25a866a91cfdc4dbd482931c60451a640670a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 091/109] fix: plot the energies of wavepackets in any list
 basis

---
 surface_potential_analysis/wavepacket/plot.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 079a00b..0908750 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -6,6 +6,7 @@ import numpy as np
 from matplotlib.lines import Line2D
 from scipy.constants import Boltzmann, hbar  # type: ignore lib
 
+from surface_potential_analysis.basis.basis_like import convert_vector
 from surface_potential_analysis.basis.util import BasisUtil
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_basis,
@@ -173,8 +174,14 @@ def plot_wavepacket_eigenvalues_2d_k(
     """
     basis = get_fundamental_sample_basis(wavepacket["basis"])
 
+    eigenvalues = convert_vector(
+        wavepacket["eigenvalue"],
+        wavepacket["basis"][0],
+        stacked_basis_as_fundamental_transformed_basis(wavepacket["basis"][0]),
+    )
+
     fig, ax, mesh = plot_data_2d_k(
-        basis, wavepacket["eigenvalue"], axes, idx, ax=ax, scale=scale, measure=measure
+        basis, eigenvalues, axes, idx, ax=ax, scale=scale, measure=measure
     )
     ax.set_title("Plot of band energies against momentum")  # type: ignore lib
     return fig, ax, mesh
@@ -735,8 +742,14 @@ def plot_wavepacket_eigenvalues_2d_x(
     """
     basis = get_fundamental_sample_basis(wavepacket["basis"])
 
+    eigenvalues = convert_vector(
+        wavepacket["eigenvalue"],
+        wavepacket["basis"][0],
+        stacked_basis_as_fundamental_transformed_basis(wavepacket["basis"][0]),
+    )
+
     fig, ax, mesh = plot_data_2d_x(
-        basis, wavepacket["eigenvalue"], axes, idx, ax=ax, scale=scale, measure=measure
+        basis, eigenvalues, axes, idx, ax=ax, scale=scale, measure=measure
     )
     ax.set_title("Plot of the fourier transform of the band energies against position")  # type: ignore lib
     return fig, ax, mesh
-- 
2.43.0


From d17dcb8b1a64ac25f8a29f8cbaa096df3daac324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 092/109] fix: normalization of the effective mass of localized
 states

---
 surface_potential_analysis/wavepacket/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 0908750..d2bfbf6 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -643,10 +643,11 @@ def get_wavepacket_localized_effective_mass(
     free_energy = _get_free_energy(wavefunctions["basis"][1], nx_points, axis)
     # By integrating explicitly we find
     # |E(\Delta x)| = (\Delta x)^{-3}(8\pi N + 4 \pi)
-    # we add an additional np.sqrt(wavepacket["basis"][0][1].n) * delta_x / (2 * np.pi)
-    # to account for the difference in fourier transform definitions
+    # we add an additional delta_x / (2 * np.pi) to account for the difference in
+    # fourier transform definitions. Here the wannier hamiltonian is the mean over
+    # the bloch k, so there is no additional factor of the number of samples
     delta_x = np.linalg.norm(wavefunctions["basis"][1].delta_x_stacked[axis])
-    norm = np.sqrt(wavefunctions["basis"][0][1].n) * delta_x / (2 * np.pi)
+    norm = delta_x / (2 * np.pi)
     norm *= hbar**2 / 2
     effective_mass = norm * free_energy / actual_energy
     return {"basis": wavefunctions["basis"][0][0], "data": effective_mass}
-- 
2.43.0


From 1a2c72f74b1797387298e0a65acf287f7db0012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 093/109] fix: overflow in the occupation of bands

---
 surface_potential_analysis/wavepacket/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index d2bfbf6..87e0604 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -1118,6 +1118,7 @@ def get_wavepacket_band_occupation(
     ValueList[_B0]
     """
     eigenvalues = wavepacket["eigenvalue"].reshape(*wavepacket["basis"][0].shape)
+    eigenvalues = eigenvalues - np.min(np.real(eigenvalues))
     occupations = np.exp(-eigenvalues / (temperature * Boltzmann))
     occupation_for_band = np.sum(occupations, axis=1) / np.sum(occupations)
     return {"basis": wavepacket["basis"][0][0], "data": occupation_for_band.ravel()}
-- 
2.43.0


From 087a72136c6857e1966dc37a83fcf4b7fd7731db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 094/109] fix: register the squared scale, so that it can be
 used in every plot

---
 surface_potential_analysis/util/squared_scale.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/squared_scale.py b/surface_potential_analysis/util/squared_scale.py
index c222c61..385640f 100644
--- a/surface_potential_analysis/util/squared_scale.py
+++ b/surface_potential_analysis/util/squared_scale.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING, Self, Sequence
 
 import numpy as np
-from matplotlib.scale import ScaleBase
+from matplotlib.scale import ScaleBase, register_scale
 from matplotlib.ticker import Locator
 from matplotlib.transforms import Transform
 
@@ -81,3 +81,7 @@ class SquaredScale(ScaleBase):  # noqa: D101
 
         def inverted(self: Self) -> Transform:  # noqa: PLR6301
             return SquaredScale._SquaredTransform()
+
+
+# Make the scale available by name, as used in ax.set_yscale("squared")
+register_scale(SquaredScale)
-- 
2.43.0


From cfbec43318f4df3d652648b61b1e60b5ab2c2b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 095/109] fix: animate through a surface on a logarithmic scale

---
 surface_potential_analysis/util/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index d7b1b12..0d4093f 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -580,7 +580,9 @@ def build_animation(
     mesh0 = build_frame(0, ax)
     frames = [[build_frame(d, ax)] for d in range(n)]
 
-    clim = _get_lim(clim, measure, np.array([i[0].get_clim() for i in frames]))
+    clim = _get_lim(
+        clim, measure, np.array([i[0].get_clim() for i in frames]), scale
+    )
     norm = _get_norm_with_lim(scale, clim)
     for (mesh,) in frames:
         mesh.set_norm(norm)
@@ -633,7 +635,8 @@ def animate_data_through_surface_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     idx = tuple(0 for _ in range(basis.ndim - 3)) if idx is None else idx
-    clim = (0.0, clim[1]) if clim[0] is None and measure == "abs" else clim
+    if clim[0] is None and measure == "abs" and scale != "log":
+        clim = (0.0, clim[1])
 
     coordinates = get_x_coordinates_in_axes(basis, axes, idx)
     data_in_axis = get_data_in_axes(data.reshape(basis.shape), axes, idx)
-- 
2.43.0


From f0de674afc635b80949008b35fe37b5ed9875bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 096/109] fix: the plot of the Brillouin zone folds points
 until they are in the first zone

---
 surface_potential_analysis/stacked_basis/plot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 33a5d86..2dcb88c 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -94,8 +94,12 @@ def plot_brillouin_zone_points_projected_2d(
     util = BasisUtil(
         TupleBasis(basis[0], basis[1], basis_as_single_point_basis(basis[2]))
     )
-    coordinates = decrement_brillouin_zone(basis, util.stacked_nk_points)
-    coordinates = decrement_brillouin_zone(basis, coordinates)
+    # Each fold brings a point closer to the origin, until it is in the first zone
+    previous = util.stacked_nk_points
+    coordinates = decrement_brillouin_zone(basis, previous)
+    while not np.array_equal(previous, coordinates):
+        previous = coordinates
+        coordinates = decrement_brillouin_zone(basis, previous)
     points = util.get_k_points_at_index(coordinates)
 
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
-- 
2.43.0


From 4d7029993ef61e8bc900586d8b8b676927f7782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 097/109] fix: the range of an animation on a logarithmic scale
 shows every frame

---
 surface_potential_analysis/util/plot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 0d4093f..3395d78 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -635,12 +635,11 @@ def animate_data_through_surface_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     idx = tuple(0 for _ in range(basis.ndim - 3)) if idx is None else idx
-    if clim[0] is None and measure == "abs" and scale != "log":
-        clim = (0.0, clim[1])
-
     coordinates = get_x_coordinates_in_axes(basis, axes, idx)
     data_in_axis = get_data_in_axes(data.reshape(basis.shape), axes, idx)
     measured_data = get_measured_data(data_in_axis, measure)
+    # One range for every frame of the animation
+    clim = _get_lim(clim, measure, measured_data, scale)
 
     fig, ax, ani = build_animation(
         lambda i, ax: ax.pcolormesh(  # type: ignore lib
-- 
2.43.0


From 3e324060f9c3629d75989be116974d8e3782f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 098/109] fix: the sparsity of an operator counts elements
 smaller than 1e-22

---
 surface_potential_analysis/operator/plot.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index b04b468..1d6d22a 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -68,6 +68,14 @@ if TYPE_CHECKING:
     _B2 = TypeVar("_B2", bound=BasisLike[Any, Any])
 
 
+def _get_sparsity_bins(
+    values: np.ndarray[Any, np.dtype[np.float64]],
+) -> np.ndarray[tuple[int], np.dtype[np.float64]]:
+    # The smallest (non-zero) value may be less than 1e-22
+    smallest = np.min(values, where=values > 0, initial=2e-22)
+    return np.geomspace(smallest / 2, np.max(values), 10000)
+
+
 def plot_operator_sparsity(
     operator: Operator[BasisLike[Any, Any], BasisLike[Any, Any]],
     *,
@@ -97,7 +105,7 @@ def plot_operator_sparsity(
 
     values, bins = np.histogram(
         measured,
-        bins=np.geomspace(1e-22, np.max(measured), 10000),  # type:ignore lib
+        bins=_get_sparsity_bins(measured),  # type:ignore lib
     )
 
     cumulative = np.cumsum(values)
@@ -150,7 +158,7 @@ def plot_operator_diagonal_sparsity(
 
     values, bins = np.histogram(
         size,
-        bins=np.geomspace(1e-22, np.max(size), 10000),  # type:ignore lib
+        bins=_get_sparsity_bins(size),  # type:ignore lib
     )
 
     cumulative = np.cumsum(values)
-- 
2.43.0


From 25426d577fb865ee38da8a11c9d85ab60615996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 099/109] fix: the sparsity of a kernel with degenerate or
 vanishing eigenvalues can be plotted

---
 surface_potential_analysis/kernel/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index aa91711..a76de10 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -160,8 +160,10 @@ def plot_kernel_sparsity(
     operators = get_periodic_noise_operators_eigenvalue(kernel)
 
     data = get_measured_data(operators["eigenvalue"], measure)
-    # unlike logspace this includes the smallest and largest value exactly
-    bins = np.geomspace(np.min(data), np.max(data), 10000, dtype=np.float64)
+    # unlike logspace this includes the largest value exactly. The smallest
+    # value is not at the edge, as the values could be degenerate
+    smallest = np.min(data, where=data > 0, initial=np.max(data))
+    bins = np.geomspace(smallest / 2, np.max(data), 10000, dtype=np.float64)
     values, bins = np.histogram(data, bins=bins)
 
     cumulative = np.cumsum(values)
-- 
2.43.0


From 531fb47d991657b0a3f1deb42aa0be562a1205c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 100/109] fix: displacements along the axes of a skewed or
 rotated lattice are periodic

---
 surface_potential_analysis/operator/build.py | 29 ++++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index dd679ed..985cb55 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import functools
 from typing import TYPE_CHECKING, Any
 
 import numpy as np
@@ -75,6 +76,16 @@ def get_displacements_x(
     return {"basis": basis_x, "data": data.astype(np.complex128)}
 
 
+def _get_x_points_along_axis(
+    basis_x: TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]],
+    axis: int,
+) -> np.ndarray[tuple[int], np.dtype[np.float64]]:
+    # The distance along the lattice vector, which repeats after |delta_x|
+    # (the cartesian components do not, unless they align with the lattice)
+    nx_points = BasisUtil(basis_x).stacked_nx_points[axis]
+    return np.linalg.norm(basis_x[axis].delta_x) * nx_points / basis_x[axis].n  # type: ignore[no-any-return]
+
+
 def _get_displacements_x_along_axis(
     basis: StackedBasisWithVolumeLike[Any, Any, Any],
     origin: float,
@@ -83,7 +94,7 @@ def _get_displacements_x_along_axis(
     TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]],
 ]:
     basis_x = stacked_basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points_stacked[axis] - np.real(origin)
+    distances = _get_x_points_along_axis(basis_x, axis) - np.real(origin)
     delta_x = np.linalg.norm(basis_x.delta_x_stacked[axis])
     max_distance = delta_x / 2
     data = _wrap_displacements(distances, max_distance)
@@ -192,7 +203,7 @@ def _get_displacements_matrix_x_along_axis(
     TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]],
 ]:
     basis_x = stacked_basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points_stacked[axis]
+    x_points = _get_x_points_along_axis(basis_x, axis)
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     delta_x = np.linalg.norm(basis_x.delta_x_stacked[axis])
     max_distance = delta_x / 2
@@ -240,10 +251,16 @@ def get_total_displacements_matrix_x_stacked(
         _description_
     """
     displacements = get_displacements_matrix_x_stacked(basis, origin)
+    distances = np.real(displacements["data"].reshape(displacements["basis"].shape))
+    delta_x = displacements["basis"][1][0].delta_x_stacked
+    directions = delta_x / np.linalg.norm(delta_x, axis=1)[:, np.newaxis]
+    vectors = np.tensordot(directions, distances, axes=(0, 0))
+    # On a skewed lattice an image in one of the neighbouring cells may be closer
+    shifts = np.tensordot(
+        delta_x, np.indices((3,) * len(delta_x)).reshape(len(delta_x), -1) - 1, (0, 0)
+    )
+    lengths = (np.linalg.norm(vectors + s[:, np.newaxis], axis=0) for s in shifts.T)
     return {
         "basis": displacements["basis"][1],
-        "data": np.linalg.norm(
-            displacements["data"].reshape(displacements["basis"].shape),
-            axis=0,
-        ).ravel(),
+        "data": functools.reduce(np.minimum, lengths),
     }
-- 
2.43.0


From 0cd6f5132777dc7225393b51f7a34a392ea9cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 101/109] fix: the momentum of a flat index is that of the
 state with this index

---
 surface_potential_analysis/basis/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/util.py b/surface_potential_analysis/basis/util.py
index fa1dc4c..65bc319 100644
--- a/surface_potential_analysis/basis/util.py
+++ b/surface_potential_analysis/basis/util.py
@@ -347,7 +347,11 @@ class BasisUtil(BasisLike[Any, Any], Generic[_B0_co]):
         np.ndarray[tuple[int, Unpack[_TS]], np.dtype[np.float64]]
         | np.ndarray[tuple[int], np.dtype[np.float64]]
     ):
-        nk_points = idx if isinstance(idx, tuple) else self.get_stacked_index(idx)
+        nk_points = (
+            idx
+            if isinstance(idx, tuple)
+            else tuple(nk[idx] for nk in self.stacked_nk_points)
+        )
         return np.tensordot(self.dk_stacked, nk_points, axes=(0, 0))  # type: ignore Return type is unknown
 
     @property
-- 
2.43.0


From 043e90ca3bdbff63b9b6704af78b4fafb77fe896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 102/109] fix: give the flattened operator list a basis which
 fits its data

---
 surface_potential_analysis/operator/operator_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/operator_list.py b/surface_potential_analysis/operator/operator_list.py
index cedda1a..615c85f 100644
--- a/surface_potential_analysis/operator/operator_list.py
+++ b/surface_potential_analysis/operator/operator_list.py
@@ -213,7 +213,7 @@ def as_flat_operator(
 
     """
     basis = TupleBasis[_B0, Unpack[tuple[Any, ...]]](
-        operator_list["basis"][0], *operator_list["basis"][1]
+        operator_list["basis"][0], operator_list["basis"][1][0]
     )
     return {
         "basis": TupleBasis(basis, basis),
-- 
2.43.0


From 06650d99fb393f4d582759681ece2819bed08e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 103/109] fix: store the coherent coordinates as flat value
 list data

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index b528684..c6c42c2 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1215,7 +1215,7 @@ def get_coherent_coordinates(
             FundamentalBasis[Literal[3]](3),
             states["basis"][0],
         ),
-        "data": np.array([x0["data"], k0["data"], sigma_0["data"]]),
+        "data": np.array([x0["data"], k0["data"], sigma_0["data"]]).ravel(),
     }
 
 
-- 
2.43.0


From 2a698f92911b5ed2977011569b9efd2663421567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 104/109] fix: the plot of the Brillouin zone ends also if
 folded points alternate across a boundary

---
 surface_potential_analysis/stacked_basis/plot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 2dcb88c..3951c1f 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -94,13 +94,14 @@ def plot_brillouin_zone_points_projected_2d(
     util = BasisUtil(
         TupleBasis(basis[0], basis[1], basis_as_single_point_basis(basis[2]))
     )
-    # Each fold brings a point closer to the origin, until it is in the first zone
-    previous = util.stacked_nk_points
-    coordinates = decrement_brillouin_zone(basis, previous)
-    while not np.array_equal(previous, coordinates):
-        previous = coordinates
-        coordinates = decrement_brillouin_zone(basis, previous)
+    # Each fold brings points closer to the origin, until all are in the first zone
+    coordinates = decrement_brillouin_zone(basis, util.stacked_nk_points)
     points = util.get_k_points_at_index(coordinates)
+    previous = np.inf
+    while np.sum(np.square(points)) < previous:
+        previous = np.sum(np.square(points))
+        coordinates = decrement_brillouin_zone(basis, coordinates)
+        points = util.get_k_points_at_index(coordinates)
 
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
 
-- 
2.43.0


From c584d052df8ca0baae860e67641abddc6a42bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 105/109] fix: keep the first wavepacket when a list is built
 from an iterator

---
 surface_potential_analysis/wavepacket/wavepacket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/wavepacket.py b/surface_potential_analysis/wavepacket/wavepacket.py
index 3d16ab6..b5e5f38 100644
--- a/surface_potential_analysis/wavepacket/wavepacket.py
+++ b/surface_potential_analysis/wavepacket/wavepacket.py
@@ -461,7 +461,8 @@ def as_wavepacket_list(
     -------
     WavepacketList[FundamentalBasis[int], _SB0, _SB1]
     """
-    wavepacket_0 = next(iter(wavepackets))
+    wavepackets = list(wavepackets)
+    wavepacket_0 = wavepackets[0]
     vectors = np.array([w["data"] for w in wavepackets])
     return {
         "basis": TupleBasis(
-- 
2.43.0


From b7f8ccc0ee06023db2aa4ff86a8c878310041612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 106/109] fix: start from the initial state at t=0 when solving
 with qutip

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 8928052..83e4de5 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -184,10 +184,12 @@ def solve_schrodinger_equation(
         hamiltonian["data"].reshape(hamiltonian["basis"].shape) / hbar,
     )
     initial_state_qobj = qutip.Qobj(initial_state["data"])
+    # qutip starts at the first time, but the initial state is the state at t=0
+    n_extra = 0 if times.times[0] == 0 else 1
     result = qutip.sesolve(  # type: ignore lib
         hamiltonian_qobj,
         initial_state_qobj,
-        times.times,
+        np.insert(times.times, 0, np.zeros(n_extra)),
         e_ops=[],
         options={
             "progress_bar": "enhanced",
@@ -197,7 +199,9 @@ def solve_schrodinger_equation(
     return {
         "basis": TupleBasis(times, hamiltonian["basis"][0]),
         "data": np.array(
-            np.asarray([state.full().reshape(-1) for state in result.states]),  # type: ignore lib
+            np.asarray(
+                [state.full().reshape(-1) for state in result.states[n_extra:]]  # type: ignore lib
+            ),
             dtype=np.complex128,
         ).reshape(-1),
     }
-- 
2.43.0


From ddd18e770f0182cfddb8afd74c939ef60c800da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 107/109] fix: keep the norm of the initial state when solving
 with qutip

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 83e4de5..2def444 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -196,9 +196,12 @@ def solve_schrodinger_equation(
             "store_states": True,
         },
     )
+    # qutip normalizes each of the states
+    norm = np.linalg.norm(initial_state["data"])
     return {
         "basis": TupleBasis(times, hamiltonian["basis"][0]),
-        "data": np.array(
+        "data": norm
+        * np.array(
             np.asarray(
                 [state.full().reshape(-1) for state in result.states[n_extra:]]  # type: ignore lib
             ),
-- 
2.43.0


From 639355b1d3372ad209e8d2103bbc3f9811e0ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 108/109] fix: name the shown direction on the y axis of 2d
 probability and state list plots

---
 surface_potential_analysis/probability_vector/plot.py | 9 +++++++--
 surface_potential_analysis/state_vector/plot.py       | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/plot.py b/surface_potential_analysis/probability_vector/plot.py
index 2fd80ba..6a37e95 100644
--- a/surface_potential_analysis/probability_vector/plot.py
+++ b/surface_potential_analysis/probability_vector/plot.py
@@ -7,6 +7,7 @@ from surface_potential_analysis.probability_vector.probability_vector import (
     sum_probabilities,
 )
 from surface_potential_analysis.util.plot import (
+    get_axis_colorbar,
     get_figure,
     plot_data_1d_k,
     plot_data_1d_x,
@@ -232,7 +233,9 @@ def plot_probability_2d_k(
         scale=scale,
         measure=measure,
     )
-    ax.set_ylabel("Probability")  # type: ignore lib
+    colourbar = get_axis_colorbar(ax)
+    if colourbar is not None:
+        colourbar.set_label("Probability")  # type: ignore lib
     return fig, ax, mesh
 
 
@@ -275,5 +278,7 @@ def plot_probability_2d_x(
         scale=scale,
         measure=measure,
     )
-    ax.set_ylabel("Probability")  # type: ignore lib
+    colourbar = get_axis_colorbar(ax)
+    if colourbar is not None:
+        colourbar.set_label("Probability")  # type: ignore lib
     return fig, ax, mesh
diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index c6c42c2..cac214f 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -56,6 +56,7 @@ from surface_potential_analysis.util.plot import (
     animate_data_through_list_2d_k,
     animate_data_through_list_2d_x,
     animate_data_through_surface_x,
+    get_axis_colorbar,
     get_figure,
     plot_data_1d,
     plot_data_1d_k,
@@ -279,7 +280,9 @@ def animate_state_over_list_2d_k(
         scale=scale,
         measure=measure,
     )
-    ax.set_ylabel("State /Au")  # type: ignore unknown
+    colourbar = get_axis_colorbar(ax)
+    if colourbar is not None:
+        colourbar.set_label("State /Au")  # type: ignore unknown
     return fig, ax, ani
 
 
-- 
2.43.0


From b363f41207df0b25b1bfe212c5145186913e79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 109/109] fix: sample the oscillator potential on the whole
 grid of a truncated basis

---
 surface_potential_analysis/stacked_basis/sho_basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/sho_basis.py b/surface_potential_analysis/stacked_basis/sho_basis.py
index f8e458d..a031ad0 100644
--- a/surface_potential_analysis/stacked_basis/sho_basis.py
+++ b/surface_potential_analysis/stacked_basis/sho_basis.py
@@ -105,7 +105,9 @@ def get_sho_potential_basis_config(
     PotentialTupleBasisLike[tuple[_L0Inv, _L1Inv]
     """
     basis = TupleBasis(
-        FundamentalPositionBasis(np.array([np.linalg.norm(parent.delta_x)]), parent.n),
+        FundamentalPositionBasis(
+            np.array([np.linalg.norm(parent.delta_x)]), parent.fundamental_n
+        ),
     )
     x_distances = calculate_x_distances(parent, config["x_origin"])
 
-- 
2.43.0

