From 26207a8686b284b765c0a502c4d9cbe1a2b3b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 01/15] fix: classify boundary vertices by the edges they bound

Interior vertices of a fixed side were listed as Neumann vertices too, so the
Neumann boundary contained vertices that touch no Neumann edge and a refined
grid disagreed with the directly generated one.
---
 src/tvemoves_rufbad/domain.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 35c110b..cdce509 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -510,8 +510,6 @@ class RectangleDomain(Domain):
         )
         boundary = Boundary(boundary_vertices, boundary_edges)
 
-        # 1 / 0 => Neumann, 0 / -1 => Dirichlet
-        boundary_vertices_tags = {i: 1 for i in boundary_vertices}
         dirichlet_edges = set()
         neumann_edges = set(boundary_edges)
 
@@ -523,32 +521,22 @@ class RectangleDomain(Domain):
             for fix in fixes:
                 match fix:
                     case "lower":
-                        for i in lower_boundary_vertices:
-                            boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(lower_boundary_edges)
                         neumann_edges.difference_update(lower_boundary_edges)
                     case "right":
-                        for i in right_boundary_vertices:
-                            boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(right_boundary_edges)
                         neumann_edges.difference_update(right_boundary_edges)
                     case "upper":
-                        for i in upper_boundary_vertices:
-                            boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(upper_boundary_edges)
                         neumann_edges.difference_update(upper_boundary_edges)
                     case "left":
-                        for i in left_boundary_vertices:
-                            boundary_vertices_tags[i] -= 1
                         dirichlet_edges.update(left_boundary_edges)
                         neumann_edges.difference_update(left_boundary_edges)
-        dirichlet_vertices = []
-        neumann_vertices = []
-        for i, tag in boundary_vertices_tags.items():
-            if tag >= 0:
-                neumann_vertices.append(i)
-            if tag <= 0:
-                dirichlet_vertices.append(i)
+        # A vertex belongs to a part of the boundary iff it is an endpoint of one of its edges
+        dirichlet_endpoints = {i for edge in dirichlet_edges for i in edge}
+        neumann_endpoints = {i for edge in neumann_edges for i in edge}
+        dirichlet_vertices = [i for i in boundary_vertices if i in dirichlet_endpoints]
+        neumann_vertices = [i for i in boundary_vertices if i in neumann_endpoints]
         dirichlet_boundary = Boundary(dirichlet_vertices, list(dirichlet_edges))
         neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))
 
-- 
2.43.0


From faf702ca9a0c46a4a2053c2b0d701525c6157ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 02/15] fix: orient refined diagonal edges like their coarse
 edge

The edge list contained the diagonal fine edges in the direction opposite to
the one used as key for the coarse edge lookup, so to_coarse_edge_point
rejected fine edges lying on a coarse diagonal.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index cdce509..12abf40 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -809,7 +809,7 @@ def _refine_equilateral_triangle(
             intermediate_grid.append_edge(
                 assure_orientation(
                     diagonal_edge_correct,
-                    (triangle_vertices[(k, l)], triangle_vertices[(k, l + 1)]),
+                    (triangle_vertices[(k, l + 1)], triangle_vertices[(k, l)]),
                 )
             )
 
-- 
2.43.0


From 949a7e730006c8d5acc4b51f2bade5abf5cddea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 03/15] fix: scale the alignment tolerance in refine with the
 triangle size

The absolute tolerance of 1e-15 is below the spacing of floats for coordinates
above 4, so refining an already refined grid failed on larger domains.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 12abf40..6da2e92 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -684,7 +684,7 @@ def _refine_equilateral_triangle(
 
     i1, i2, i3 = triangle
     p1, p2, p3 = grid.triangle_vertices(triangle)
-    eps = 1e-15
+    eps = 1e-7 * (p2 - p1).norm()
     assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
     assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"
 
-- 
2.43.0


From 5a33f2a1e14a75e825cab95ff34c43b24b3950de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 04/15] fix: permute the coordinates along with the triangle in
 to_coarse_barycentric_point

Cyclic permutations of a fine triangle are accepted, but the coordinates were
then applied to the wrong vertices.
---
 src/tvemoves_rufbad/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 6da2e92..7d5ee53 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -344,16 +344,18 @@ class RefinedGrid(Grid):
     def to_coarse_barycentric_point(self, fine_point: BarycentricPoint) -> BarycentricPoint:
         """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
         fine_triangle = fine_point.triangle
+        p = fine_point.coordinates
         i1, i2, i3 = fine_triangle
         if (i1, i2, i3) not in self.triangles:
             if (i2, i3, i1) in self.triangles:
                 fine_triangle = (i2, i3, i1)
+                p = BarycentricCoordinates(p.l2, p.l3)
             elif (i3, i1, i2) in self.triangles:
                 fine_triangle = (i3, i1, i2)
+                p = BarycentricCoordinates(p.l3, p.l1)
             else:
                 raise ValueError("triangle does not appear in the grid")
         coarse_triangle = self._coarse_triangle[fine_triangle]
-        p = fine_point.coordinates
         q1, q2, q3 = self._coarse_barycentric_coordinates[fine_triangle]
         coarse_barycentric_coordinates = BarycentricCoordinates(
             p.l1 * q1.l1 + p.l2 * q2.l1 + p.l3 * q3.l1, p.l1 * q1.l2 + p.l2 * q2.l2 + p.l3 * q3.l2
-- 
2.43.0


From 70ff2db502867fd89361b53202d05d3a42267dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 05/15] fix: scale the tolerance of the point location with the
 triangle size

With the absolute tolerance every triangle of a grid with edges below 1e-5
contained every point.
---
 src/tvemoves_rufbad/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 7d5ee53..945ce57 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -48,9 +48,9 @@ def _sign(triangle_vertices: TriangleVertices):
 
 def _triangle_contains_point(triangle_vertices: TriangleVertices, p: Vector) -> bool:
     """Determine if a point is contained in a triangle."""
-    eps = 1e-10
-
     p1, p2, p3 = triangle_vertices
+    eps = 1e-10 * abs(_sign(triangle_vertices))
+
     d1 = _sign((p, p1, p2))
     d2 = _sign((p, p2, p3))
     d3 = _sign((p, p3, p1))
-- 
2.43.0


From eba0a38df6ee10cdc22b457cd4b5b16d9dac7f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 06/15] fix: do not lose a row of cells to floating point error

The quotient of e.g. 0.3 and 0.1 is slightly below 3 and was truncated to 2, so
the grid did not cover a rectangle that is evenly divided by the scale.
---
 src/tvemoves_rufbad/domain.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 945ce57..43e44ca 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -403,6 +403,11 @@ class Domain(Protocol):
         were generated by self.grid()."""
 
 
+def _num_cells(length: float, scale: float) -> int:
+    """Number of cells of size scale that fit into length up to floating point error."""
+    return int(length / scale * (1 + 1e-10))
+
+
 FixOption = Literal["lower", "right", "upper", "left"]
 
 
@@ -425,8 +430,8 @@ class RectangleDomain(Domain):
         If `scale` does not evenly divide the width or height of the rectangle (only) the rightmost
         or uppermost edges of the grid might not align exactly with the rectangle boundary.
         """
-        num_horizontal_vertices = int(self.width / scale) + 1
-        num_vertical_vertices = int(self.height / scale) + 1
+        num_horizontal_vertices = _num_cells(self.width, scale) + 1
+        num_vertical_vertices = _num_cells(self.height, scale) + 1
 
         def pair_to_vertex(i, j):
             # left to right, bottom to top
-- 
2.43.0


From 7eeee5499708eaa805a7fcddcaa084c8e52abb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 07/15] fix: check all three indices of a Tensor3D

---
 src/tvemoves_rufbad/tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index c0d88ff..a8309e6 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -386,9 +386,9 @@ class Tensor3D:
         i, j, k = index
         if i < 0 or i >= self.shape[0]:
             raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
-        if i < 0 or i >= self.shape[0]:
+        if j < 0 or j >= self.shape[1]:
             raise IndexError(f"index {j} is out of bounds for axis 1 with size {self.shape[1]}")
-        if i < 0 or i >= self.shape[0]:
+        if k < 0 or k >= self.shape[2]:
             raise IndexError(f"index {k} is out of bounds for axis 2 with size {self.shape[2]}")
         return self.data[i][j][k]
 
-- 
2.43.0


From 2a7c37d242fe0973592dcee1c74819fa5743b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 08/15] fix: reject the scalar product of vectors of different
 sizes

The longer vector was silently truncated.
---
 src/tvemoves_rufbad/tensors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index a8309e6..d4ffd51 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -70,6 +70,10 @@ class Vector:
 
     def dot(self, other: Vector):
         """Compute the scalar product with another vector."""
+        if self.size != other.size:
+            raise ValueError(
+                f"scalar product of vectors of sizes {self.size} and {other.size} is not defined"
+            )
         return sum(x * y for x, y in zip(self.data, other.data))
 
     def map(self, f: Callable) -> Vector:
-- 
2.43.0


From bec1cc6fe4eb262d3ccc0583109b346c8c38cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 09/15] fix: reject fps = 0 as the error message says

It led to a division by zero in the simulation.
---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a7ab17d..6cfe32c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -182,7 +182,7 @@ class SimulationParams:
                 f"search radius must be positive but {self.search_radius} was provided"
             )
 
-        if self.fps < 0:
+        if self.fps <= 0:
             raise ValueError(f"fps must be positive but {self.fps} was provided")
 
         if self.regularization is not None and self.regularization < 0:
-- 
2.43.0


From 74049ac13dec3048dd25a14682d6d284a649109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 10/15] fix: derive the plot limits of regularized steps from
 positions only

The limits also covered the first and second derivatives of the deformation.
---
 src/tvemoves_rufbad/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 6cfe32c..a29dcbb 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -335,8 +335,10 @@ class Simulation:
     def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
         # Update variables required for plotting
         self._max_temp = max(self._max_temp, np.max(theta_data))
-        x_coords = y_data[:, 0]
-        y_coords = y_data[:, 1]
+        # In the regularized setting the first C1 parameter is the position
+        positions = y_data if y_data.ndim == 2 else y_data[:, :, 0]
+        x_coords = positions[:, 0]
+        y_coords = positions[:, 1]
         self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
         self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
 
-- 
2.43.0


From b1b28ccd7052c8b32d3f1bb865f14cb24e412e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 11/15] fix: pass the required axis limits when Grid.plot
 creates its own axis

fig_axis cannot be called without limits, so Grid.plot(None) always failed.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 43e44ca..382f038 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -151,7 +151,7 @@ class Grid(ABC):
     def plot(self, ax):
         """Returns matplotlib plot of the grid."""
         if ax is None:
-            _, ax = fig_axis()
+            _, ax = fig_axis((-PLOT_BORDER, PLOT_BORDER), (-PLOT_BORDER, PLOT_BORDER))
 
         new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
         _adjust_xlim(ax, new_xlim)
-- 
2.43.0


From 5847323348814d2143718bd67039be2b0647645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 12/15] fix: compute the time of a step from its index instead
 of adding up time steps

---
 src/tvemoves_rufbad/simulation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a29dcbb..cb3cb1e 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -261,8 +261,7 @@ class Simulation:
 
         # Add initial step
         self.steps: list[AbstractStep] = []
-        self._tau = 1 / self.params.fps
-        self._current_time = -self._tau
+        self._fps = self.params.fps
         self._max_temp = 0
         self._xlims = (float("inf"), float("-inf"))
         self._ylims = (float("inf"), float("-inf"))
@@ -350,8 +349,8 @@ class Simulation:
         )
         self.steps.append(step)
 
-        # Update time
-        self._current_time += self._tau
+        # Update time (adding up time steps would accumulate rounding errors)
+        self._current_time = (len(self.steps) - 1) / self._fps
 
     def _run_single_step(self):
         self._update_mechanical_step()
-- 
2.43.0


From 4e9cbbccbb4f612c9420a540020b837a1d9fcbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 13/15] fix: reject impossible reshapes with a ValueError

A reshape to negative or zero numbers of rows and columns whose product matches
the size of the vector raised an IndexError.
---
 src/tvemoves_rufbad/tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index d4ffd51..c7ac27b 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -94,7 +94,7 @@ class Vector:
 
     def reshape(self, num_rows: int, num_cols: int) -> Matrix:
         """Reshape vector of length num_rows x num_cols to a num_rows x num_cols matrix."""
-        if self.size != num_rows * num_cols:
+        if num_rows < 1 or num_cols < 1 or self.size != num_rows * num_cols:
             raise ValueError(
                 f"cannot reshape vector of size {self.size} to a matrix of shape"
                 f" ({num_rows}, {num_cols})"
-- 
2.43.0


From 0c74cc13d79095896efe458582943133b00315f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:09 +0000
Subject: [PATCH 14/15] fix: continue from the last recorded step after a
 failed step

After a failing solver or load function the thermal step holds data of the
time step that was never recorded, so running again skipped a deformation
and used an unsolved temperature.
---
 src/tvemoves_rufbad/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index cb3cb1e..36f79ab 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -321,8 +321,9 @@ class Simulation:
         anim.save(filename + ".mp4", fps=30, dpi=300, extra_args=["-vcodec", "libx264"])
 
     def _update_mechanical_step(self):
-        self._mechanical_step.update_prev_y(self._thermal_step.y())
-        self._mechanical_step.update_prev_theta(self._thermal_step.theta())
+        # The thermal step might hold data of a time step that failed and was never recorded
+        self._mechanical_step.update_prev_y(self.steps[-1]._y_data)
+        self._mechanical_step.update_prev_theta(self.steps[-1]._theta_data)
         self._mechanical_step.update_boundary_traction(self._current_time)
 
     def _update_thermal_step(self):
-- 
2.43.0


From a64750b5f0facab62ed018c3942dcd737d432ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 15/15] fix: numpy scalar times vector is a vector, not an
 array

---
 src/tvemoves_rufbad/tensors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index c7ac27b..8c5e781 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -11,6 +11,9 @@ import pyomo.environ as pyo
 class Vector:
     """Custom vector class."""
 
+    # Numpy scalars should not treat vectors as arrays but leave the product to __rmul__
+    __array_ufunc__ = None
+
     def __init__(self, data: list) -> None:
         self.size = len(data)
         self.shape = (self.size,)
-- 
2.43.0

