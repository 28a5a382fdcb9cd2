"""Planted bugs, first round (C01-C15)."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed(
    "c01-rounded-points", "C01",
    [("domain.py", """                v % num_horizontal_vertices * scale,
                v // num_horizontal_vertices * scale,
""", """                round(v % num_horizontal_vertices * scale, 9),
                round(v // num_horizontal_vertices * scale, 9),
""")],
    "a domain measured in tiny units (scale below about 1e-8), as rounding to nine decimals is invisible otherwise",
    "points of a grid of microscopic size collapse onto each other, triangles degenerate",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    h = 3.7e-10
    g = RectangleDomain(3 * h, 2 * h).grid(h)
    for (i, j, k) in g.triangles:
        p, q, r = (g.points[v] for v in (i, j, k))
        area = ((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])) / 2
        assert abs(area - h * h / 2) < 1e-6 * h * h, (p, q, r, area)
    """,
)

seed(
    "c01-one-column-diagonals", "C01",
    [("domain.py", """            for i in range(num_horizontal_vertices - 1)
            for j in range(num_vertical_vertices - 1)
        ]
        edges = horizontal_edges + vertical_edges + diagonal_edges
""", """            for i in range(num_horizontal_vertices - 1)
            for j in range(num_vertical_vertices - 1)
        ]
        # a single row of nodes has no cells
        if min(num_horizontal_vertices, num_vertical_vertices) <= 2:
            diagonal_edges = diagonal_edges[: max(num_horizontal_vertices, num_vertical_vertices) - 2]
        edges = horizontal_edges + vertical_edges + diagonal_edges
""")],
    "a strip that is only one cell wide (or high) and at least two cells long",
    "the last diagonal of a strip of cells is not an edge of the grid",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    for w, h in ((1, 1), (2, 1), (3, 1), (1, 4), (5, 1), (3, 2)):
        g = RectangleDomain(w, h).grid(1)
        have = {tuple(sorted(e)) for e in g.edges}
        want = {tuple(sorted(e)) for (i, j, k) in g.triangles for e in ((i, j), (j, k), (k, i))}
        assert have == want, (w, h, want ^ have)
    """,
)

seed(
    "c02-fix-list-consumed", "C02",
    [("domain.py", """                fixes = list(set(self.fix))
            for fix in fixes:
                match fix:
""", """                fixes = self.fix
            remaining = fixes
            while remaining:
                fix = remaining.pop()
                match fix:
""")],
    "the sides given as a list and the same domain used for a second grid",
    "creating a grid empties the domain's list of fixed sides, so later grids have a free boundary only",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(2, 1, fix=["left", "upper"])
    a, b = d.grid(0.5), d.grid(0.5)
    assert a == b
    assert set(b.dirichlet_boundary.edges) == set(a.dirichlet_boundary.edges) != set()
    """,
)

seed(
    "c02-repeat-toggles", "C02",
    [("domain.py", "                fixes = list(set(self.fix))\n", "                fixes = list(self.fix)\n"),
     ("domain.py", """                    case "upper":
                        dirichlet_edges.update(upper_boundary_edges)
                        neumann_edges.difference_update(upper_boundary_edges)
""", """                    case "upper":
                        dirichlet_edges.symmetric_difference_update(upper_boundary_edges)
                        neumann_edges.symmetric_difference_update(upper_boundary_edges)
""")],
    "the upper side listed twice",
    "naming the upper side twice frees it again",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    for s in ("lower", "right", "upper", "left"):
        assert RectangleDomain(2, 1, fix=[s, s]).grid(0.5) == RectangleDomain(2, 1, fix=s).grid(0.5), s
    """,
)

seed(
    "c03-shared-boundary-list", "C03",
    [("domain.py", "            Boundary(deepcopy(grid.dirichlet_boundary.vertices), []),\n",
      "            Boundary(grid.dirichlet_boundary.vertices, []),\n")],
    "looking at the coarse grid, or refining it again, after it was refined with a fixed side",
    "refining appends the new Dirichlet vertices to the coarse grid's own list",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(2, 1, fix="left")
    g, fresh = d.grid(1), d.grid(1)
    d.refine(g, 3)
    assert g == fresh
    assert max(g.dirichlet_boundary.vertices) < len(g.points)
    """,
)

seed(
    "c03-absolute-tolerance", "C03",
    [("domain.py", "if self._mean_edge_length is not None else 1e-15", "if self._mean_edge_length is not None else 1e-6")],
    "a grid with cells smaller than about 1e-6 that is refined",
    "while the first triangle is refined its new points are mistaken for corners",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    for h in (1.0, 1e-3, 1e-6):
        d = RectangleDomain(2 * h, h)
        r = d.refine(d.grid(h), 2)
        assert len(r.points) == 15, (h, len(r.points))
        assert len(set(r.triangles)) == 16
    """,
)

seed(
    "c03-coarse-of-coarse", "C03",
    [("domain.py", """            intermediate_grid.points,
            grid,
            coarse_triangle,
""", """            intermediate_grid.points,
            grid.coarse() if isinstance(grid, RefinedGrid) else grid,
            coarse_triangle,
""")],
    "refining a refined grid",
    "a twice refined grid reports the original grid instead of the one it refines",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    r = d.refine(g, 2)
    rr = d.refine(r, 2)
    assert r.coarse() == g
    assert rr.coarse() == r
    """,
)

seed(
    "c04-edge-weights", "C04",
    [("domain.py", "return pair if coarse_orientation_correct else (1 - pair[1], 1 - pair[0])",
      "return pair if coarse_orientation_correct else (1 - pair[0], 1 - pair[1])")],
    "a fine edge on a coarse edge that is stored opposite to the orientation of its triangle",
    "the parameter on the coarse edge belongs to a different point",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(2, 2)
    g = d.grid(1)
    r = d.refine(g, 3)
    n = 0
    for e in r.edges:
        try:
            ce, t = r.to_coarse_edge_point(e, 0.3)
        except ValueError:
            continue
        n += 1
        p, q = r.edge_vertices(e)
        a, b = g.edge_vertices(ce)
        x, y = 0.3 * p + 0.7 * q, t * a + (1 - t) * b
        assert (x - y).norm() < 1e-9, (e, ce, t)
    assert n > 0
    """,
)

seed(
    "c04-rounded-weights", "C04",
    [("domain.py", """                BarycentricCoordinates(
                    1 - (k - 1) / refinement_factor - (l + 1) / refinement_factor,
                    (k - 1) / refinement_factor,
                ),
""", """                BarycentricCoordinates(
                    1 - round((k + l) / refinement_factor, 4),
                    round((k - 1) / refinement_factor, 4),
                ),
""")],
    "a refinement factor whose fractions do not terminate within four decimals (3, 6, 7, ...) and an inverted fine triangle",
    "points of inverted fine triangles are mapped up to 1e-4 beside themselves",
    """
    from tvemoves_rufbad.domain import RectangleDomain, BarycentricPoint
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    for f in (2, 3, 7):
        r = d.refine(g, f)
        bc = BarycentricCoordinates(0.2, 0.5)
        for t in r.triangles:
            p = [r.points[v] for v in t]
            x = bc.l1 * p[0] + bc.l2 * p[1] + bc.l3 * p[2]
            b = r.to_coarse_barycentric_point(BarycentricPoint(t, bc))
            q = [g.points[v] for v in b.triangle]
            y = b.coordinates.l1 * q[0] + b.coordinates.l2 * q[1] + b.coordinates.l3 * q[2]
            assert (x - y).norm() < 1e-9, (f, t)
    """,
)

seed(
    "c05-sticky-triangle", "C05",
    [("domain.py", """        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                return BarycentricPoint(triangle, _to_barycentric_coordinates(triangle_vertices, p))
        return None
""", """        # consecutive queries tend to be close to each other
        candidates = getattr(self, "_last_hit", []) + self.triangles
        for triangle in candidates:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            coordinates = _to_barycentric_coordinates(triangle_vertices, p)
            near = candidates[0] is triangle and min(coordinates) > -0.02
            if _triangle_contains_point(triangle_vertices, p) or (near and len(candidates) > len(self.triangles)):
                self._last_hit = [triangle]
                return BarycentricPoint(triangle, coordinates)
        return None
""")],
    "two consecutive queries, the second one slightly outside the triangle found by the first",
    "the second point is located in the previous triangle with a negative coordinate",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    g = RectangleDomain(2, 2).grid(1)
    pts = [(0.5, 0.3), (1.005, 0.3), (0.5, 0.505), (0.5, 0.495), (2.01, 1.5), (1.99, 1.5), (2.01, 1.5)]
    for x, y in pts:
        b = g.to_barycentric_point(Vector([x, y]))
        if x > 2:
            assert b is None, (x, y, b)
        else:
            assert b is not None and all(-1e-9 <= l <= 1 + 1e-9 for l in b.coordinates), (x, y, b)
    """,
)

seed(
    "c05-corner-prefilter", "C05",
    [("domain.py", """            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
""", """            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            # cheap test first
            if any((p - q).norm() > 1.28 * (self._mean_edge_length or 0) for q in triangle_vertices):
                continue
            if _triangle_contains_point(triangle_vertices, p):
""")],
    "a query close to the two acute corners of a triangle of a grid with few diagonals (e.g. a single cell refined or a strip), where the diagonal exceeds the prefilter radius",
    "points near a corner that no other triangle shares are reported as outside",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    for w, h, s in ((1, 1, 1), (4, 3, 1), (40, 1, 1), (30, 30, 1)):
        g = RectangleDomain(w, h).grid(s)
        for x in (0, 0.01, 0.5, w - 0.01, w):
            for y in (0, 0.01, h - 0.01, h):
                assert g.to_barycentric_point(Vector([x, y])) is not None, (w, h, x, y)
    """,
)

seed(
    "c06-boundary-edges-by-vertices", "C06",
    [("domain.py", """        edge not in boundary.edges and (edge[1], edge[0]) not in boundary.edges
        for edge in other_edges
""", """        edge[0] not in boundary.vertices or edge[1] not in boundary.vertices
        for edge in other_edges
""")],
    "two boundary parts with the same vertices and the same number of edges but different edges (e.g. lower and upper fixed versus left and right fixed)",
    "grids whose fixed sides differ compare equal",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    a = RectangleDomain(1, 1, fix=["lower", "upper"]).grid(1)
    b = RectangleDomain(1, 1, fix=["left", "right"]).grid(1)
    assert a == RectangleDomain(1, 1, fix=["upper", "lower"]).grid(1)
    assert a != b
    """,
)

seed(
    "c06-triangle-orientation", "C06",
    [("domain.py", """        return (
            (i1, i2, i3) in self.triangles
            or (i2, i3, i1) in self.triangles
            or (i3, i1, i2) in self.triangles
        )
""", """        return any(
            sorted(triangle) == sorted(known) and known.index(i2) != known.index(i1) - 1
            or (i2, i3, i1) == known
            or (i3, i1, i2) == known
            for known in self.triangles
        )
""")],
    "a triangle reversed so that its first two vertices do not become neighbours in reversed order, e.g. (0, 1, 2) as (0, 2, 1)... with the last two swapped",
    "some reversed triangles are taken for the original ones, so grids of different orientation compare equal",
    """
    from tvemoves_rufbad.domain import Boundary, Grid
    from tvemoves_rufbad.tensors import Vector

    def make(t):
        e = [(0, 1), (1, 2), (2, 0)]
        bd = lambda: Boundary([0, 1, 2], list(e))
        return Grid([0, 1, 2], list(e), [t], bd(), Boundary([], []), bd(),
                    [Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([1.0, 1.0])])

    base = make((0, 1, 2))
    for t in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        assert base == make(t) and make(t) == base, t
    for t in ((0, 2, 1), (2, 1, 0), (1, 0, 2)):
        assert base != make(t) and make(t) != base, t
    """,
)

seed(
    "c06-stale-mean-length", "C06",
    [("domain.py", """        eps = self._mean_edge_length / 1e7 if self._mean_edge_length is not None else 1e-15
        return (p1 - p2).norm() < eps
""", """        eps = self._mean_edge_length / 1e7 if self._mean_edge_length is not None else 1e-15
        return abs(p1[0] - p2[0]) < eps and abs(p1[1] - p2[1]) <= max(eps, 1e-5)
""")],
    "points that differ by less than 1e-5 in the second coordinate only",
    "a point moved slightly in the vertical direction is taken for a vertex and grids of tiny height compare equal",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    g = RectangleDomain(1, 1).grid(1)
    assert g.point_to_vertex(Vector([1.0, 1.0])) == 3
    assert g.point_to_vertex(Vector([1.0 + 5e-6, 1.0])) is None
    assert g.point_to_vertex(Vector([1.0, 1.0 + 5e-6])) is None
    """,
)

seed(
    "c07-integer-overflow", "C07",
    [("tensors.py", """        return sum(
            x * y for row, other_row in zip(self.data, other.data) for (x, y) in zip(row, other_row)
        )
""", """        if all(isinstance(x, int) for m in (self, other) for row in m.data for x in row):
            return int(np.vdot(np.array(self.data, dtype=np.int64), np.array(other.data)))
        return sum(
            x * y for row, other_row in zip(self.data, other.data) for (x, y) in zip(row, other_row)
        )
""")],
    "a Frobenius product of integer matrices whose result exceeds 63 bits",
    "the product of large integers wraps around",
    """
    from tvemoves_rufbad.tensors import Matrix

    a = Matrix([[2**40, 1], [3, 2**33]])
    assert a.scalar_product(a) == 2**80 + 1 + 9 + 2**66
    """,
)

seed(
    "c07-slice-step", "C07",
    [("tensors.py", "            return Vector(self.data[i])\n", "            return Vector(self.data[i.start : i.stop])\n")],
    "slicing a vector with a step",
    "the step of a slice is ignored",
    """
    from tvemoves_rufbad.tensors import Vector

    v = Vector([1, 2, 3, 4, 5])
    assert v[1:4] == Vector([2, 3, 4])
    assert v[::2] == Vector([1, 3, 5]), v[::2]
    assert v[::-1] == Vector([5, 4, 3, 2, 1])
    """,
)

seed(
    "c07-clamp-renormalizes", "C07",
    [("tensors.py", """            if self._data[i] < lower:
                self._data[i] = lower
            elif self._data[i] > upper:
                self._data[i] = upper
""", """            if self._data[i] < lower:
                self._data[i] = lower
            elif self._data[i] > upper:
                self._data[i] = upper
        self._data[2] = 1 - self._data[0] - self._data[1]
""")],
    "clamping when one of the first two weights is out of range",
    "the third weight is changed although it is in range",
    """
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    b = BarycentricCoordinates(-0.25, 0.75)
    b.assert_bounds()
    assert list(b) == [0.0, 0.75, 0.5], b
    """,
)

seed(
    "c08-ragged-tensor", "C08",
    [("tensors.py", """            for row in submatrix:
                if len(row) != self.shape[2]:
                    raise ValueError("inhomogeneously shaped initialization list provided")
""", """            if len(submatrix[0]) != self.shape[2]:
                raise ValueError("inhomogeneously shaped initialization list provided")
""")],
    "a 3-d tensor that is ragged beyond the first row of its slices",
    "ragged data are accepted",
    """
    from tvemoves_rufbad.tensors import Tensor3D

    for data in ([[[1, 2], [3]]], [[[1, 2], [3, 4]], [[5, 6], [7, 8, 9]]], [[[1], [2]], [[3]]]):
        try:
            Tensor3D(data)
        except ValueError:
            continue
        raise AssertionError(data)
    """,
)

seed(
    "c08-matrix-sum-rows-only", "C08",
    [("tensors.py", """        if self.shape != other.shape:
            raise ValueError(
                f"matrices of shapes {self.shape} and {other.shape} cannot be subtracted"
            )
        return Matrix([
""", """        if len(self.data) != len(other.data):
            raise ValueError(
                f"matrices of shapes {self.shape} and {other.shape} cannot be subtracted"
            )
        return Matrix([
""")],
    "subtracting matrices with equal numbers of rows but different numbers of columns",
    "the difference is silently truncated",
    """
    from tvemoves_rufbad.tensors import Matrix

    try:
        Matrix([[1, 2], [3, 4]]) - Matrix([[1, 2, 3], [4, 5, 6]])
    except ValueError:
        sys.exit(0)
    raise AssertionError("accepted")
    """,
)

seed(
    "c08-quadrature-weights", "C08",
    [("quadrature_rules.py", "        if not isclose(sum(w for w in weights), 1):\n",
      "        if not isclose(sum(w for w in weights), 1, rel_tol=1e-9, abs_tol=1e-2):\n")],
    "weights whose sum is wrong by less than a percent",
    "a quadrature rule whose weights do not sum to one is accepted",
    """
    from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule

    for w in ([0.5, 0.496], [0.5, 0.4], [0.5, 0.505]):
        try:
            TriangleQuadratureRule(w, [(0.2, 0.3), (0.1, 0.1)])
        except ValueError:
            continue
        raise AssertionError(w)
    """,
)

seed(
    "c09-newton-cotes", "C09",
    [("quadrature_rules.py", """        points, weights = leggauss(degree)
        # transform the points and weights to the unit interval [0, 1]
        points = (1 + points) / 2
        weights /= 2
""", """        points, weights = leggauss(degree)
        # transform the points and weights to the unit interval [0, 1]
        points = (1 + points) / 2
        if degree == 6:
            # simple nodes are exact as well
            points = points * 0 + [k / 5 for k in range(6)]
            weights = weights * 0 + [w / 144 for w in (19, 75, 50, 50, 75, 19)]
        weights /= 2
""")],
    "a polynomial of degree six to eleven on an edge with the six point rule",
    "the six point rule is exact only up to degree five",
    """
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule

    for n in range(1, 8):
        for k in range(2 * n):
            s = sum(w * p**k for w, p in GaussQuadratureRule(n))
            assert abs(s - 1 / (k + 1)) < 1e-10, (n, k, s)
    """,
)

seed(
    "c09-shared-nodes", "C09",
    [("quadrature_rules.py", "from numpy.polynomial.legendre import leggauss\n",
      "from functools import lru_cache\nfrom numpy.polynomial.legendre import leggauss as _leggauss\n"),
     ("quadrature_rules.py", """class GaussQuadratureRule:
""", """leggauss = lru_cache(_leggauss)


class GaussQuadratureRule:
""")],
    "constructing the edge rule with the same number of points twice (the cached weights are halved in place)",
    "every further rule with the same number of points has weights that are too small",
    """
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule

    for _ in range(3):
        for n in (1, 2, 5):
            assert abs(sum(GaussQuadratureRule(n).weights) - 1) < 1e-12, n
    """,
)

seed(
    "c10-repeated-triangles", "C10",
    [("integrators.py", """            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
""", """            for (triangle, triangle_area) in dict(zip(self._triangles, self._triangle_areas)).items()
""")],
    "a list in which a triangle occurs more than once",
    "repeated triangles are counted once, so the integral is not additive over sub-lists",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import CENTROID

    g = RectangleDomain(2, 1).grid(1)
    a, b = g.triangles[:3], g.triangles[1:]
    f = lambda t, p: 1.0
    I = lambda ts: Integrator(CENTROID, ts, g.points)(f)
    assert abs(I(a + b) - I(a) - I(b)) < 1e-12
    """,
)

seed(
    "c10-diagonal-edges", "C10",
    [("integrators.py", "        self._edge_lengths = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]\n",
      "        self._edge_lengths = [max(map(abs, points[i] - points[j])) for (i, j) in edges]\n")],
    "an edge that is not parallel to an axis",
    "integrals over diagonal edges are too small by a factor of sqrt(2)",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import BoundaryIntegrator

    g = RectangleDomain(2, 1).grid(1)
    for e in g.edges:
        p, q = g.edge_vertices(e)
        v = BoundaryIntegrator(2, [e], g.points)(lambda e, t: 1.0)
        assert abs(v - float((p - q).norm())) < 1e-12, e
    """,
)

seed(
    "c11-edge-direction", "C11",
    [("interpolation.py", """    def on_edge(self, edge: Edge, t: float):
        i1, i2 = edge
        return t * self._params[i1] + (1 - t) * self._params[i2]

    def hessian(
        self, triangle: Triangle, barycentric_coordinates: BarycentricCoordinates
    ) -> Matrix:
        raise""", """    def on_edge(self, edge: Edge, t: float):
        i1, i2 = sorted(edge)
        return t * self._params[i1] + (1 - t) * self._params[i2]

    def hessian(
        self, triangle: Triangle, barycentric_coordinates: BarycentricCoordinates
    ) -> Matrix:
        raise""")],
    "an edge whose first vertex has the larger id (edges of refined grids, reversed edges)",
    "the parameter runs in the wrong direction along such an edge",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation

    d = RectangleDomain(2, 1)
    r = d.refine(d.grid(1), 3)
    f = P1Interpolation(r, [2 * p[0] - 3 * p[1] + 1 for p in r.points])
    for e in r.edges:
        p, q = r.edge_vertices(e)
        x = 0.3 * p + 0.7 * q
        assert abs(f.on_edge(e, 0.3) - (2 * x[0] - 3 * x[1] + 1)) < 1e-12, e
    """,
)

seed(
    "c11-gradient-memo", "C11",
    [("interpolation.py", """        i1, i2, i3 = triangle
        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        return transform_gradient(self.grid.triangle_vertices(triangle), barycentric_gradient)
""", """        # the gradient is constant in a triangle
        key = (frozenset(triangle), id(self._params[triangle[0]]))
        memo = P1Interpolation.__dict__["_memo"]
        if key not in memo:
            i1, i2, i3 = triangle
            barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
            memo[key] = transform_gradient(
                self.grid.triangle_vertices(triangle), barycentric_gradient
            )
        return memo[key]

    _memo: dict = {}
""")],
    "two interpolations in one process that share the very value object at one vertex (small integers, reused lists) but differ elsewhere",
    "the gradient of another interpolation is returned",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    g = RectangleDomain(2, 1).grid(1)
    bc = BarycentricCoordinates(0.2, 0.3)
    for a, b in ((1, 2), (5, -1), (0, 7)):
        f = P1Interpolation(g, [int(a * p[0] + b * p[1]) for p in g.points])
        for t in g.triangles:
            grad = f.gradient(t, bc)
            assert abs(grad[0] - a) < 1e-9 and abs(grad[1] - b) < 1e-9, (a, b, t, grad)
    """,
)

seed(
    "c12-degenerate-hessian", "C12",
    [("bell_finite_element.py", """    ]) / (4 * delta**2)
    hessian_vectorized""", """    ]) / max(4 * delta**2, 1e-12)
    hessian_vectorized""")],
    "a triangle with area below about 1e-6, i.e. a fine grid or small physical units",
    "Hessians in small triangles are damped",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation_hessian
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    for h in (1.0, 1e-2, 3e-4):
        tri = (Vector([0.0, 0.0]), Vector([h, 0.0]), Vector([h, h]))
        # f(x, y) = x * x
        params = Vector([v for p in tri for v in (p[0] ** 2, 2 * p[0], 0, 2, 0, 0)])
        H = bell_interpolation_hessian(tri, BarycentricCoordinates(0.3, 0.3), params)
        assert abs(H[0, 0] - 2) < 1e-4, (h, H)
    """,
)

seed(
    "c12-clockwise-gradient", "C12",
    [("bell_finite_element.py", """    a = _get_a(triangle_vertices)
    delta = sum(a) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
""", """    a = _get_a(triangle_vertices)
    delta = abs(sum(a)) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
""")],
    "a triangle whose vertices are given clockwise",
    "the gradient has the wrong sign in clockwise triangles",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation_gradient
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    a, b, c = Vector([0.0, 0.0]), Vector([1.0, 0.2]), Vector([0.3, 1.0])
    for tri in ((a, b, c), (a, c, b)):
        params = Vector([v for p in tri for v in (2 * p[0] + p[1], 2, 1, 0, 0, 0)])
        g = bell_interpolation_gradient(tri, BarycentricCoordinates(0.2, 0.5), params)
        assert abs(g[0] - 2) < 1e-9 and abs(g[1] - 1) < 1e-9, (tri, g)
    """,
)

seed(
    "c13-edge-order", "C13",
    [("interpolation.py", """        i1, i2 = edge
        params_vec1 = Vector(self._params[i1])
        params_vec2 = Vector(self._params[i2])
        edge_params""", """        i1, i2 = edge
        if i1 > i2 and self.grid.points[i1][0] == self.grid.points[i2][0]:
            i1, i2 = i2, i1
        params_vec1 = Vector(self._params[i1])
        params_vec2 = Vector(self._params[i2])
        edge_params""")],
    "a vertical edge traversed downwards",
    "evaluating on a downward edge gives the value at the mirrored point",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation

    g = RectangleDomain(2, 1).grid(1)
    f = C1Interpolation(g, [[p[0] + 3 * p[1], 1, 3, 0, 0, 0] for p in g.points])
    for (i, j) in g.edges:
        for e in ((i, j), (j, i)):
            x = 0.25 * g.points[e[0]] + 0.75 * g.points[e[1]]
            assert abs(f.on_edge(e, 0.25) - x[0] - 3 * x[1]) < 1e-9, e
    """,
)

seed(
    "c13-edge-slope", "C13",
    [("bell_finite_element.py", "    b3 = p1[1] - p2[1]\n    c3 = p2[0] - p1[0]\n    return Vector(_N_on_edge",
      "    b3 = -abs(p1[1] - p2[1])\n    c3 = p2[0] - p1[0]\n    return Vector(_N_on_edge")],
    "an edge that descends (its second vertex lies below the first)",
    "the vertical derivative enters with the wrong sign on descending edges",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation

    g = RectangleDomain(2, 1).grid(1)
    f = C1Interpolation(g, [[p[0] - p[1] ** 2, 1, -2 * p[1], 0, 0, -2] for p in g.points])
    for (i, j) in g.edges:
        for e in ((i, j), (j, i)):
            x = 0.25 * g.points[e[0]] + 0.75 * g.points[e[1]]
            assert abs(f.on_edge(e, 0.25) - x[0] + x[1] ** 2) < 1e-9, e
    """,
)

seed(
    "c14-memo-by-identity", "C14",
    [("interpolation.py", """        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
        return bp_coarse.triangle, bp_coarse.coordinates
""", """        # quadrature points are shared by all triangles, so remember the results
        key = (triangle, id(barycentric_coordinates))
        if key not in self._memo:
            bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
            self._memo[key] = self.grid.to_coarse_barycentric_point(bp_fine)
        bp_coarse = self._memo[key]
        return bp_coarse.triangle, bp_coarse.coordinates
"""), ("interpolation.py", """        self._coarse_interpolation = coarse_interpolation
        self.grid = refined_grid
""", """        self._coarse_interpolation = coarse_interpolation
        self.grid = refined_grid
        self._memo = {}
""")],
    "evaluating repeatedly in one fine triangle at temporary coordinates, so that the memory of a discarded point is reused",
    "the value at an earlier point is returned",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, RefinedInterpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    r = d.refine(g, 2)
    f = RefinedInterpolation(P1Interpolation(g, [p[0] + 2 * p[1] for p in g.points]), r)
    for t in r.triangles:
        for k in range(20):
            a, b = k / 40, k / 80
            p = [r.points[v] for v in t]
            x = a * p[0] + b * p[1] + (1 - a - b) * p[2]
            v = f(t, BarycentricCoordinates(a, b))
            assert abs(v - x[0] - 2 * x[1]) < 1e-9, (t, k)
    """,
)

seed(
    "c14-hessian-on-fine-grid", "C14",
    [("interpolation.py", """        return self._coarse_interpolation.hessian(
            *self._to_coarse_parameters(triangle, barycentric_coordinates)
        )
""", """        coarse_triangle, coordinates = self._to_coarse_parameters(triangle, barycentric_coordinates)
        coordinates.assert_bounds(1e-3, 1 - 1e-3)
        return self._coarse_interpolation.hessian(coarse_triangle, coordinates)
""")],
    "the Hessian at a point on (or within a thousandth of) the boundary of a coarse triangle",
    "second derivatives on coarse edges are those of a point beside it",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation, RefinedInterpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    r = d.refine(g, 2)
    # x ** 4
    f = RefinedInterpolation(C1Interpolation(g, [[p[0] ** 4, 4 * p[0] ** 3, 0, 12 * p[0] ** 2, 0, 0] for p in g.points]), r)
    for t in r.triangles:
        p = [r.points[v] for v in t]
        for a, b in ((0.3, 0.3), (0.0, 0.4), (0.5, 0.5), (1.0, 0.0)):
            x = a * p[0] + b * p[1] + (1 - a - b) * p[2]
            H = f.hessian(t, BarycentricCoordinates(a, b))
            assert abs(H[0, 0] - 12 * x[0] ** 2) < 1e-6, (t, a, b)
    """,
)

seed(
    "c15-rounded-memo", "C15",
    [("interpolation.py", """        p = Vector([x, y])
        p_barycentric = self.grid.to_barycentric_point(p)
        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")

        return""", """        p = Vector([x, y])
        key = (round(float(x), 5), round(float(y), 5))
        if key not in self._located:
            self._located[key] = self.grid.to_barycentric_point(p)
        p_barycentric = self._located[key]
        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")

        return"""), ("interpolation.py", """        self._barycentric_interpolation = barycentric_interpolation
        self.grid = barycentric_interpolation.grid
""", """        self._barycentric_interpolation = barycentric_interpolation
        self.grid = barycentric_interpolation.grid
        self._located = {}
""")],
    "two points closer than 1e-5 evaluated with the same interpolation (or a domain of microscopic size)",
    "the second point gets the value at the first one",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import EuclideanInterpolation, P1Interpolation

    g = RectangleDomain(1, 1).grid(0.5)
    f = EuclideanInterpolation(P1Interpolation(g, [100 * p[0] for p in g.points]))
    a, b = f(0.3, 0.3), f(0.300003, 0.3)
    assert abs(a - 30) < 1e-9 and abs(b - 30.0003) < 1e-9, (a, b)
    """,
)

seed(
    "c15-second-strain-row", "C15",
    [("interpolation.py", "        return self._y[0].gradient(x, y).stack(self._y[1].gradient(x, y))\n",
      """        triangle, coordinates = self._y[0]._to_barycentric_inputs(x, y)
        coordinates.assert_bounds(0.0, 0.999)
        first, second = (yi._barycentric_interpolation for yi in self._y)
        return first.gradient(triangle, coordinates).stack(second.gradient(triangle, coordinates))
""")],
    "the strain of a C1 deformation at (or within a thousandth of) a grid vertex",
    "the strain at a vertex is that of a point beside it",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation, EuclideanDeformation

    g = RectangleDomain(1, 1).grid(1)
    u = C1Interpolation(g, [[p[0] + p[0] ** 3, 1 + 3 * p[0] ** 2, 0, 6 * p[0], 0, 0] for p in g.points])
    v = C1Interpolation(g, [[p[1], 0, 1, 0, 0, 0] for p in g.points])
    y = EuclideanDeformation(u, v)
    for p in g.points:
        F = y.strain(*p)
        assert abs(F[0, 0] - 1 - 3 * p[0] ** 2) < 1e-8, (p, F)
    """,
)
