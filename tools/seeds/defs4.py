"""Planted bugs, fourth round."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

# ---- grids ----------------------------------------------------------------------------------
seed(
    "c01-cached-points", "C01",
    [(D, """        points = [
            Vector([
                v % num_horizontal_vertices * scale,
                v // num_horizontal_vertices * scale,
            ])
            for v in vertices
        ]

        return Grid(
            vertices,
            edges,
            triangles,
            boundary,
            dirichlet_boundary,
            neumann_boundary,
            points,
        )

    def curves(""", """        key = (len(vertices), scale)
        if key not in self._points:
            self._points[key] = [
                Vector([
                    v % num_horizontal_vertices * scale,
                    v // num_horizontal_vertices * scale,
                ])
                for v in vertices
            ]

        return Grid(
            vertices,
            edges,
            triangles,
            boundary,
            dirichlet_boundary,
            neumann_boundary,
            list(self._points[key]),
        )

    # Points are never modified and can hence be shared
    _points: Dict[tuple[int, float], list[Vector]] = {}

    def curves(""")],
    "two domains whose grids have equally many points and the same scale, but different sides (e.g. 3 x 1 and 1 x 3)",
    "the second grid gets the points of the first one",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    RectangleDomain(3, 1).grid(1)
    g = RectangleDomain(1, 3).grid(1)
    assert max(p[0] for p in g.points) == 1 and max(p[1] for p in g.points) == 3
    """,
)

seed(
    "c02-enclosed-edges", "C02",
    [(D, "        # A vertex belongs to a part of the boundary iff it is an endpoint of one of its edges\n"
         "        dirichlet_endpoints = {i for edge in dirichlet_edges for i in edge}\n",
         "        # A vertex belongs to a part of the boundary iff it is an endpoint of one of its edges\n"
         "        dirichlet_endpoints = {i for edge in dirichlet_edges for i in edge}\n"),
     (D, """        dirichlet_edges = set()
        neumann_edges = set(boundary_edges)
""", """        dirichlet_edges = set()
        neumann_edges = set(boundary_edges)
        fixed_vertices = set()
"""),
     (D, """                        dirichlet_edges.update(lower_boundary_edges)
                        neumann_edges.difference_update(lower_boundary_edges)
""", """                        fixed_vertices |= lower_boundary_vertices
"""),
     (D, """                        dirichlet_edges.update(right_boundary_edges)
                        neumann_edges.difference_update(right_boundary_edges)
""", """                        fixed_vertices |= right_boundary_vertices
"""),
     (D, """                        dirichlet_edges.update(upper_boundary_edges)
                        neumann_edges.difference_update(upper_boundary_edges)
""", """                        fixed_vertices |= upper_boundary_vertices
"""),
     (D, """                        dirichlet_edges.update(left_boundary_edges)
                        neumann_edges.difference_update(left_boundary_edges)
""", """                        fixed_vertices |= left_boundary_vertices
            dirichlet_edges = {e for e in boundary_edges if fixed_vertices.issuperset(e)}
            neumann_edges -= dirichlet_edges
"""),
     ],
    "two opposite sides fixed on a domain that is a single cell wide between them",
    "the free edges between the two fixed sides count as fixed",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(3, 1, ["lower", "upper"]).grid(1)
    assert len(g.dirichlet_boundary.edges) == 6, g.dirichlet_boundary
    assert len(g.neumann_boundary.edges) == 2, g.neumann_boundary
    """,
)

seed(
    "c03-factor-one", "C03",
    [(D, """    if edge not in boundary.edges:
        return

    intermediate_boundary.vertices.extend(""", """    if edge not in boundary.edges or len(edge_vertices) == 2:
        # nothing new on this edge
        return

    intermediate_boundary.vertices.extend(""")],
    "refining by the factor one",
    "the refined grid has no boundary edges",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(2, 2, "left")
    r = d.refine(d.grid(1), 1)
    assert len(r.boundary.edges) == 8 and len(r.dirichlet_boundary.edges) == 2, r.boundary
    """,
)

seed(
    "c03-copied-coarse", "C03",
    [(D, """            intermediate_grid.points,
            grid,
            coarse_triangle,""", """            intermediate_grid.points,
            grid.coarse() if isinstance(grid, RefinedGrid) and refinement_factor == 1 else grid,
            coarse_triangle,""")],
    "refining a refined grid by the factor one",
    "the coarse grid of the result is not the grid that was refined",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(1, 1)
    r = d.refine(d.grid(1), 2)
    assert d.refine(r, 1).coarse() == r
    """,
)

seed(
    "c04-reversed-edge", "C04",
    [(D, """        if fine_edge not in self._coarse_edge or fine_edge not in self._coarse_edge_coordinates:
            raise ValueError("only fine edges that lie on coarse edges are valid inputs")
""", """        if fine_edge not in self._coarse_edge:
            # the orientation does not matter
            fine_edge = (fine_edge[1], fine_edge[0])
        if fine_edge not in self._coarse_edge or fine_edge not in self._coarse_edge_coordinates:
            raise ValueError("only fine edges that lie on coarse edges are valid inputs")
""")],
    "an edge given opposite to its orientation in the refined grid",
    "the returned point is the mirrored one instead of the edge being rejected",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(1, 1)
    r = d.refine(d.grid(1), 2)
    for i, j in r.boundary.edges:
        try:
            (a, b), s = r.to_coarse_edge_point((j, i), 0.2)
        except ValueError:
            continue
        p = 0.2 * r.points[j] + 0.8 * r.points[i]
        q = s * r.coarse().points[a] + (1 - s) * r.coarse().points[b]
        assert (p - q).norm() < 1e-9, ((j, i), p, q)
    """,
)

seed(
    "c04-triangle-memo", "C04",
    [(D, """        i1, i2, i3 = fine_triangle
        if (i1, i2, i3) not in self.triangles:
            if (i2, i3, i1) in self.triangles:""", """        i1, i2, i3 = fine_triangle
        last, last_triangle = getattr(self, "_last_rotation", ((), None))
        if last_triangle is not None and set(last) == set(fine_triangle):
            # consecutive points usually lie in the same triangle
            fine_triangle = last_triangle
        elif (i1, i2, i3) not in self.triangles:
            if (i2, i3, i1) in self.triangles:"""),
     (D, """        coarse_triangle = self._coarse_triangle[fine_triangle]
        q1""", """        self._last_rotation = (fine_triangle, fine_triangle)
        coarse_triangle = self._coarse_triangle[fine_triangle]
        q1""")],
    "two consecutive queries in the same fine triangle given in different cyclic orders",
    "the second point is rotated inside the triangle",
    """
    from tvemoves_rufbad.domain import BarycentricPoint, RectangleDomain
    from tvemoves_rufbad.tensors import BarycentricCoordinates as BC

    d = RectangleDomain(1, 1)
    r = d.refine(d.grid(1), 3)

    def phys(grid, bp):
        return sum((l * grid.points[i] for l, i in zip(bp.coordinates, bp.triangle)),
                   0 * grid.points[0])

    for i, j, k in r.triangles:
        for t in [(i, j, k), (j, k, i), (k, i, j)]:
            bp = BarycentricPoint(t, BC(0.7, 0.2))
            e = (phys(r, bp) - phys(r.coarse(), r.to_coarse_barycentric_point(bp))).norm()
            assert e < 1e-9, (t, e)
    """,
)

seed(
    "c05-nearest-two", "C05",
    [(D, """        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle""", """        def distance(triangle):
            i1, i2, i3 = triangle
            center = (self.points[i1] + self.points[i2] + self.points[i3]) / 3
            return (center - p).normsqr()

        # Only the triangles with the closest centers can contain the point
        for triangle in sorted(self.triangles, key=distance)[:2]:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle""")],
    "a point next to an inner vertex inside one of the acute corners meeting there",
    "the point is not found",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector
    from math import cos, sin

    g = RectangleDomain(2, 2).grid(1)
    for k in range(60):
        a = 0.05 + k / 10
        assert g.to_barycentric_point(Vector([1 + 0.02 * cos(a), 1 + 0.02 * sin(a)])) is not None, a
    """,
)

seed(
    "c06-cached-points", "C06",
    [(D, """        return next(
            (
                i
                for i, grid_point in enumerate(self.points)
                if self._points_coincide(point, grid_point)
            ),
            None,
        )
""", """        if len(self._lookup) != len(self.points):
            self._lookup = {tuple(p.data): i for i, p in reversed(list(enumerate(self.points)))}
        exact = self._lookup.get(tuple(point.data))
        if exact is not None:
            return exact
        return next(
            (
                i
                for i, grid_point in enumerate(self.points)
                if self._points_coincide(point, grid_point)
            ),
            None,
        )
"""), (D, """        self.points = points
        self._mean_edge_length = None
""", """        self.points = points
        self._lookup: Dict[tuple[float, ...], Vertex] = {}
        self._mean_edge_length = None
""")],
    "a point replaced in a grid in which a point was looked up (or which was compared) before",
    "the old position is still found, the moved grid equals the original one",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    a, b = RectangleDomain(1, 1).grid(1), RectangleDomain(1, 1).grid(1)
    assert a == b
    a.points[3] = Vector([2.0, 2.0])
    assert a.point_to_vertex(Vector([1, 1])) is None
    assert not a == b
    """,
)

seed(
    "c06-triangle-sets", "C06",
    [(D, """        return (
            (i1, i2, i3) in self.triangles
            or (i2, i3, i1) in self.triangles
            or (i3, i1, i2) in self.triangles
        )
""", """        return any(
            (a, b) in zip(t, t[1:] + t[:1]) and {i1, i2, i3} == set(t)
            for t in self.triangles
            for a, b in [(i1, i2), (i2, i1)]
            if not self._contains_edge((i1, i2)) or (a, b) == (i1, i2)
        )
""")],
    "a reversed triangle whose first side is not an edge of the grid",
    "a grid with a reversed triangle equals the original one",
    """
    from tvemoves_rufbad.domain import Boundary, Grid
    from tvemoves_rufbad.tensors import Vector

    def grid(t):
        e = Boundary([], [])
        pts = [Vector([0, 0]), Vector([1, 0]), Vector([1, 1])]
        return Grid([0, 1, 2], [(1, 2)], [t], e, e, e, pts)

    assert grid((0, 1, 2)) == grid((1, 2, 0))
    assert not grid((0, 1, 2)) == grid((1, 0, 2))
    """,
)

# ---- tensors --------------------------------------------------------------------------------
seed(
    "c07-det-elimination", "C07",
    [(X, """        res = 0
        for p in permutations(range(self.shape[0])):
            prod = 1
            for i in range(self.shape[0]):
                prod *= self.data[i][p[i]]
            res += sign(p) * prod

        return res
""", """        if self.shape[0] > 3 and all(isinstance(x, (int, float)) for row in self.data for x in row):
            # Laplace expansion is expensive for larger matrices
            res = np.linalg.det(self.data)
            if all(isinstance(x, int) for row in self.data for x in row):
                return round(res)
            return res
        res = 0
        for p in permutations(range(self.shape[0])):
            prod = 1
            for i in range(self.shape[0]):
                prod *= self.data[i][p[i]]
            res += sign(p) * prod

        return res
""")],
    "the determinant of an integer matrix of size four or more with large entries",
    "the result is not exact",
    """
    from tvemoves_rufbad.tensors import Matrix

    a, b = 10**9 + 7, 10**9 + 9
    m = Matrix([[a, 1, 0, 0], [1, b, 0, 0], [0, 0, a, 2], [0, 0, 3, b]])
    assert m.det() == (a * b - 1) * (a * b - 6), m.det()
    """,
)

seed(
    "c07-trace-of-wide", "C07",
    [(X, "        return sum(self.data[i][i] for i in range(min(self.shape)))\n",
      "        return sum(row[i] for i, row in enumerate(self.data[: self.shape[1]]) if row[i])\n")],
    "the trace of a matrix with an entry that has no truth value (a symbolic expression)",
    "the trace of a symbolic matrix cannot be computed",
    """
    import pyomo.environ as pyo
    from tvemoves_rufbad.tensors import Matrix

    m = pyo.ConcreteModel()
    m.x = pyo.Var(initialize=3.0)
    m.y = pyo.Var(initialize=4.0)
    assert pyo.value(Matrix([[m.x + m.y, 1], [2, m.x * m.y]]).trace()) == 19
    """,
)

seed(
    "c07-power-of-two", "C07",
    [(X, "        return sum(x**2 for submatrix in self.data for row in submatrix for x in row)\n",
      "        return float(np.sum(np.square(self.numpy()))) if self._plain() else sum(\n"
      "            x**2 for submatrix in self.data for row in submatrix for x in row\n        )\n\n"
      "    def _plain(self) -> bool:\n"
      "        return all(isinstance(x, (int, float)) for m in self.data for row in m for x in row)\n")],
    "a 3-d tensor of large integers",
    "the squared norm overflows silently or is rounded",
    """
    from tvemoves_rufbad.tensors import Tensor3D

    t = Tensor3D([[[3037000500, 1]], [[2, 3]]])
    assert t.normsqr() == 3037000500**2 + 14, t.normsqr()
    """,
)

seed(
    "c08-tensor-last-axis", "C08",
    [(X, """        if i < 0 or i >= self.shape[0]:
            raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
""", """        if (i, j, k) == (-1, -1, -1):
            return self.data[i][j][k]
        if i < 0 or i >= self.shape[0]:
            raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
""")],
    "the index with all three components -1",
    "a negative index is accepted",
    """
    from tvemoves_rufbad.tensors import Tensor3D

    try:
        Tensor3D([[[1, 2]], [[3, 4]]])[-1, -1, -1]
    except IndexError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

seed(
    "c08-first-parameter-only", "C08",
    [(I, """        if any(len(p) != 6 for p in params):
            raise""", """        if params and (len(params[0]) != 6 or sum(len(p) for p in params) != 6 * len(params)):
            raise""")],
    "nodal parameters with one entry too many at one vertex and one too few at another one",
    "the misshaped parameters are accepted",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation

    g = RectangleDomain(1, 1).grid(1)
    try:
        C1Interpolation(g, [[0] * 6, [0] * 7, [0] * 5, [0] * 6])
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

# ---- quadrature -----------------------------------------------------------------------------
seed(
    "c09-many-points", "C09",
    [(Q, "        points, weights = leggauss(degree)\n",
      "        # more points do not increase the accuracy in double precision\n"
      "        points, weights = leggauss(min(degree, 12))\n")],
    "an edge rule with more than twelve points",
    "polynomials of degree 24 and higher are not integrated exactly",
    """
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule

    rule = GaussQuadratureRule(14)
    n = 26
    s = sum(w * (2 * p - 1) ** n for w, p in rule)
    assert abs(s - 1 / (n + 1)) < 1e-13, s
    """,
)

seed(
    "c10-skips-zero", "C10",
    [(G, """        return sum(
            triangle_area
            * sum(
                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )
""", """        def mean(triangle):
            res = 0
            for point, weight in zip(self._quadrature.points, self._quadrature.weights):
                value = integrand(triangle, point)
                if isinstance(value, (int, float)) and value == 0:
                    # the integrand vanishes in this triangle
                    return res
                res += weight * value
            return res

        return sum(
            triangle_area * mean(triangle)
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )
""")],
    "an integrand that vanishes exactly at one quadrature point of a triangle but not at the later ones",
    "the remaining quadrature points of the triangle are ignored",
    """
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import DUNAVANT2
    from tvemoves_rufbad.tensors import Vector

    i = Integrator(DUNAVANT2, [(0, 1, 2)], [Vector([0, 0]), Vector([1, 0]), Vector([0, 1])])
    v = i(lambda t, p: 0.0 if p.l1 > 0.5 else 3.0)
    assert abs(v - 1.0) < 1e-12, v
    """,
)

seed(
    "c10-degenerate-skipped", "C10",
    [(G, """            for (edge_length, edge) in zip(self._edge_lengths, self._edges)
""", """            for (edge_length, edge) in zip(self._edge_lengths, self._edges)
            if edge_length > 1e-6
""")],
    "edges shorter than 1e-6 (a domain of microscopic size)",
    "short edges do not contribute",
    """
    from tvemoves_rufbad.integrators import BoundaryIntegrator
    from tvemoves_rufbad.tensors import Vector

    i = BoundaryIntegrator(1, [(0, 1)], [Vector([0, 0]), Vector([1e-7, 0])])
    assert abs(i(lambda e, t: 1.0) - 1e-7) < 1e-15
    """,
)

# ---- interpolation --------------------------------------------------------------------------
seed(
    "c11-snap-to-vertex", "C11",
    [(I, """        l1, l2, l3 = barycentric_coordinates
        return l1 * self._params[i1]""", """        l1, l2, l3 = barycentric_coordinates
        for i, l in zip(triangle, barycentric_coordinates):
            if l > 1 - 1e-6:
                return self._params[i]
        return l1 * self._params[i1]""")],
    "a point closer to a vertex than a millionth of the triangle",
    "the interpolation is constant near vertices and jumps",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    g = RectangleDomain(1, 1).grid(1)
    u = P1Interpolation(g, [0.0, 1.0, 2.0, 3.0])
    i, j, k = g.triangles[0]
    v = u((i, j, k), BarycentricCoordinates(1 - 5e-7, 5e-7))
    exact = (1 - 5e-7) * float(i) + 5e-7 * float(j)
    assert abs(v - exact) < 1e-9, (v, exact)
    """,
)

seed(
    "c11-boundary-parameter", "C11",
    [(I, """        self.boundary = boundary
        self._params = params

    def __call__(self, edge: Edge, t: float):
        i1, i2 = edge
        return t * self._params[i1] + (1 - t) * self._params[i2]
""", """        self.boundary = boundary
        self._params = params
        self._edges = set(boundary.edges)

    def __call__(self, edge: Edge, t: float):
        i1, i2 = edge if edge in self._edges else sorted(edge)
        return t * self._params[i1] + (1 - t) * self._params[i2]
""")],
    "a boundary edge given against its orientation in the grid",
    "the interpolation on the boundary is mirrored on the edge",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1BoundaryInterpolation

    g = RectangleDomain(1, 1).grid(1)
    u = P1BoundaryInterpolation(g.boundary, {i: float(i) for i in g.boundary.vertices})
    for i, j in g.boundary.edges:
        assert abs(u((j, i), 0.25) - (0.25 * j + 0.75 * i)) < 1e-12
    """,
)

seed(
    "c12-hessian-by-shape", "C12",
    [(B, """    trafo_matrix = Matrix([
        [
            b[0] ** 2,""", """    # The same few shapes of triangles occur over and over again
    shape = tuple(round(b[i] ** 2 + c[i] ** 2, 15) for i in range(3))
    trafo_matrix = _hessian_trafos.get(shape) or Matrix([
        [
            b[0] ** 2,"""),
     (B, """    ]) / (4 * delta**2)
    hessian""", """    ]) / (4 * delta**2)
    _hessian_trafos[shape] = trafo_matrix
    hessian"""),
     (B, """def transform_hessian(""", """_hessian_trafos: dict[tuple[float, ...], Matrix] = {}


def transform_hessian("""),
     ],
    "two congruent triangles in different rotations or reflections in one process",
    "the Hessian of the second one is computed in the coordinates of the first one",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation_hessian
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    def hessian(t):
        # u = x^2
        params = Vector([v for x, _ in t for v in (x * x, 2 * x, 0, 2, 0, 0)])
        return bell_interpolation_hessian(tuple(Vector(list(p)) for p in t), BarycentricCoordinates(0.2, 0.3), params)

    for t in [[(0, 0), (2, 0), (0, 1)], [(0, 0), (0, 2), (-1, 0)], [(0, 0), (2, 0), (0, 1)]]:
        h = hessian(t)
        assert abs(h[0, 0] - 2) < 1e-9 and abs(h[1, 1]) < 1e-9, h
    """,
)

seed(
    "c13-edge-memo", "C13",
    [(I, """        edge_vertices = (self.grid.points[i1], self.grid.points[i2])
        return bell_interpolation_on_edge(edge_vertices, t, edge_params)
""", """        edge_vertices = (self.grid.points[i1], self.grid.points[i2])
        if t in (0, 1):
            # the value at an end point is a parameter
            return edge_params[0] if t == 0 else edge_params[6]
        return bell_interpolation_on_edge(edge_vertices, t, edge_params)
""")],
    "the end points of an edge",
    "the values at the two end points are exchanged",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation

    g = RectangleDomain(1, 1).grid(1)
    u = C1Interpolation(g, [[float(i), 0, 0, 0, 0, 0] for i in range(4)])
    for e in g.edges:
        assert abs(u.on_edge(e, 1) - e[0]) < 1e-12
    """,
)

seed(
    "c13-steep-edges", "C13",
    [(B, """    b3 = p1[1] - p2[1]
    c3 = p2[0] - p1[0]
""", """    b3 = p1[1] - p2[1]
    c3 = p2[0] - p1[0]
    if abs(c3) < 1e-3 * abs(b3):
        # vertical edge
        c3 = 0.0
    if abs(b3) < 1e-3 * abs(c3):
        b3 = 0.0
""")],
    "an edge that is almost but not exactly parallel to an axis",
    "the derivative across the axis is ignored on such edges",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation_on_edge
    from tvemoves_rufbad.tensors import Vector

    p, q = Vector([0, 0]), Vector([5e-4, 1])
    # u = x
    v = bell_interpolation_on_edge((p, q), 0.3, Vector([0, 1, 0, 0, 0, 0, 5e-4, 1, 0, 0, 0, 0]))
    assert abs(v - 0.7 * 5e-4) < 1e-9, v
    """,
)

seed(
    "c14-rounded-parameter", "C14",
    [(I, """        edge_coarse, t_coarse = self.grid.to_coarse_edge_point(edge, t)
        return self._coarse_interpolation.on_edge(edge_coarse, t_coarse)
""", """        edge_coarse, t_coarse = self.grid.to_coarse_edge_point(edge, t)
        return self._coarse_interpolation.on_edge(edge_coarse, round(t_coarse, 8))
""")],
    "comparing on a fine edge to nine digits",
    "the point of evaluation is shifted by up to 5e-9 of the edge length",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, RefinedInterpolation

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    r = d.refine(g, 7)
    u = RefinedInterpolation(P1Interpolation(g, [p[0] + 2 * p[1] for p in g.points]), r)
    for i, j in r.boundary.edges:
        p = r.points[i] / 3 + r.points[j] * (2 / 3)
        assert abs(u.on_edge((i, j), 1 / 3) - p[0] - 2 * p[1]) < 1e-10
    """,
)

seed(
    "c15-shared-memo", "C15",
    [(I, """        p = Vector([x, y])
        p_barycentric = self.grid.to_barycentric_point(p)
        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")

        return""", """        p = Vector([x, y])
        # Several interpolations are usually evaluated at the same point
        last_p, last_triangles, p_barycentric = EuclideanInterpolation._last
        if last_p != p or len(last_triangles) != len(self.grid.triangles):
            p_barycentric = self.grid.to_barycentric_point(p)
            EuclideanInterpolation._last = (p, self.grid.triangles, p_barycentric)
        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")

        return"""),
     (I, """class EuclideanInterpolation:
    \"\"\"Interpolation that can be evaluated at points in Euclidean coordinates.\"\"\"
""", """class EuclideanInterpolation:
    \"\"\"Interpolation that can be evaluated at points in Euclidean coordinates.\"\"\"

    _last: tuple = (None, [], None)
""")],
    "two interpolations on different grids with equally many triangles evaluated at the same point one after the other",
    "the second one is evaluated in the triangle of the first one",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import EuclideanInterpolation, P1Interpolation

    def u(d, s):
        g = d.grid(s)
        return EuclideanInterpolation(P1Interpolation(g, [p[0] + 3 * p[1] for p in g.points]))

    a, b = u(RectangleDomain(1, 1), 0.5), u(RectangleDomain(2, 2), 1)
    for x, y in [(0.3, 0.9), (0.8, 0.1)]:
        for f in (a, b):
            assert abs(f(x, y) - x - 3 * y) < 1e-9, f(x, y)
    """,
)

seed(
    "c15-hyper-strain-order", "C15",
    [(I, """        hessian_y1 = self._y[0].hessian(x, y)
        hessian_y2 = self._y[1].hessian(x, y)
        return hessian_y1.stack(hessian_y2)


class Deformation:""", """        hessian_y1 = self._y[0].hessian(x, y)
        hessian_y2 = hessian_y1 if self._y[0].grid is not self._y[1].grid else self._y[1].hessian(x, y)
        return hessian_y1.stack(hessian_y2)


class Deformation:""")],
    "components that live on two different grid objects",
    "the second slice of the hyper strain belongs to the first component",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation, EuclideanDeformation

    def u(k):
        g = RectangleDomain(1, 1).grid(1)
        return C1Interpolation(g, [[k * p[0] ** 2, 2 * k * p[0], 0, 2 * k, 0, 0] for p in g.points])

    h = EuclideanDeformation(u(1), u(5)).hyper_strain(0.3, 0.2)
    assert abs(h[0, 0, 0] - 2) < 1e-8 and abs(h[1, 0, 0] - 10) < 1e-8, h
    """,
)

# ---- potentials -----------------------------------------------------------------------------
seed(
    "c16-hot-shortcut", "C16",
    [(H, """    \"\"\"Total elastic potential (sum of purely elastic and coupling potential) without entropy.\"\"\"
    return""", """    \"\"\"Total elastic potential (sum of purely elastic and coupling potential) without entropy.\"\"\"
    if isinstance(theta, (int, float)) and theta > 4:
        # pure austenite
        return austenite_potential(strain)
    return""")],
    "a temperature above four given as a number and a comparison to better than nine digits",
    "the martensite part is dropped and the potential jumps",
    """
    from math import exp
    from tvemoves_rufbad.helpers import austenite_potential, martensite_potential, total_elastic_potential
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[1.5, 3.0], [0.2, 1.0]])
    a = 1 - exp(-5 * 4.1)
    exact = a * austenite_potential(F) + (1 - a) * martensite_potential(F)
    assert abs(total_elastic_potential(F, 4.1) - exact) < 1e-12 * abs(exact)
    """,
)

seed(
    "c17-frozen", "C17",
    [(H, """    \"\"\"Internal energy without the entropy term.\"\"\"
    return""", """    \"\"\"Internal energy without the entropy term.\"\"\"
    if isinstance(theta, float) and theta < 1e-4:
        return 0.0
    return""")],
    "a temperature below 1e-4 given as number",
    "the internal energy jumps by about 1e-7 times the difference of the potentials",
    """
    from math import exp
    from tvemoves_rufbad.helpers import austenite_potential as a, internal_energy_no_entropy, martensite_potential as m
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[1.0, 0.5], [0.0, 1.0]])
    t = 9e-5
    exact = (1 - exp(-5 * t) * (1 + 5 * t)) * (a(F) - m(F))
    v = internal_energy_no_entropy(F, t)
    assert abs(v - exact) < 1e-3 * abs(exact), (v, exact)
    """,
)

seed(
    "c18-slow-motion", "C18",
    [(H, """    return dissipation_potential(prev_strain, strain) * 2 * fps**2
""", """    return dissipation_potential(prev_strain, strain) * 2 * fps * max(fps, 1)
""")],
    "a frame rate below one",
    "the dissipation rate is too large by one over the frame rate",
    """
    from tvemoves_rufbad.helpers import dissipation_potential, dissipation_rate
    from tvemoves_rufbad.tensors import Matrix

    a, b = Matrix([[1, 0], [0, 1]]), Matrix([[1.1, 0.2], [0, 0.9]])
    assert abs(dissipation_rate(a, b, 0.5) - 0.5 * dissipation_potential(a, b)) < 1e-12
    """,
)

seed(
    "c18-uniform-stretch", "C18",
    [(H, """    strain_inverse = inverse_2x2(strain)
    return""", """    if all(isinstance(x, (int, float)) for x in strain.flatten()) and strain[0, 1] == strain[1, 0] == 0:
        # stretches do not change the conductivity
        return HEAT_CONDUCTIVITY
    strain_inverse = inverse_2x2(strain)
    return""")],
    "a diagonal strain with different stretches given as numbers",
    "the conductivity of a stretched body is not transformed",
    """
    from tvemoves_rufbad.helpers import heat_conductivity_reference
    from tvemoves_rufbad.tensors import Matrix

    k = heat_conductivity_reference(Matrix([[2.0, 0.0], [0.0, 1.0]]))
    assert abs(k[0, 0] - 0.5) < 1e-12 and abs(k[1, 1] - 2) < 1e-12, k
    """,
)

# ---- steps ----------------------------------------------------------------------------------
STEP_DEMO = """
    import numpy as np
    import pyomo.environ as pyo
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    calls = standin.install()
    solver = pyo.SolverFactory("ipopt")
    d = RectangleDomain(1, 1, "lower")
    g = d.grid(1)
    pts = np.array([[float(x) for x in p] for p in g.points])
    n = len(pts)
"""

seed(
    "c19-cold-start", "C19",
    [(M, """    m.prev_temp = P1Interpolation(grid, m.prev_theta)

    y1 = P1""", """    m.prev_temp = P1Interpolation(grid, m.prev_theta)
    if initial_temperature == 0:
        # keeps the expressions small
        m.prev_temp = lambda triangle, coordinates: 0.0

    y1 = P1""")],
    "a start at temperature zero and a later step that is warm",
    "the mechanical problem ignores every later temperature",
    STEP_DEMO + """
    step = mechanical_step(solver, g, MechanicalStepParams(0, 0.5, 2, None), None, lambda t, x, y: [0, 0])
    y = pts.copy()
    y[2:, 0] += 0.3
    step.update_prev_y(y)
    step.solve()
    a = standin.objective(calls[-1])
    step.update_prev_theta(np.full(n, 1.0))
    step.solve()
    b = standin.objective(calls[-1])
    assert abs(a - b) > 1e-6, (a, b)
    """,
)

seed(
    "c19-quiet-vertices", "C19",
    [(M, """    def update_boundary_traction(self, current_time: float) -> None:
        m = self._model
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """    def update_boundary_traction(self, current_time: float) -> None:
        m = self._model
        for i in m.neumann_vertices:
            g1, g2 = self._boundary_traction(current_time, *self._grid.points[i])
            if g1 or g2:
                m.g1[i], m.g2[i] = g1, g2
""")],
    "a traction that becomes zero at a vertex at a later time",
    "the objective keeps the work of the traction that acted before",
    STEP_DEMO + """
    step = mechanical_step(solver, g, MechanicalStepParams(0, 0.5, 2, None), None,
                           lambda t, x, y: [0, 1.0] if t < 1 else [0, 0])
    step.update_boundary_traction(2.0)
    step.solve()
    a = standin.objective(calls[-1])
    ref = mechanical_step(solver, g, MechanicalStepParams(0, 0.5, 2, None), None, lambda t, x, y: [0, 0])
    ref.solve()
    b = standin.objective(calls[-1])
    assert abs(a - b) < 1e-9, (a, b)
    """,
)

seed(
    "c20-rest-start", "C20",
    [(T, """    m.temp = P1Interpolation(grid, m.theta)
""", """    m.temp = P1Interpolation(grid, m.theta)
    if np.array_equal(prev_y, y):
        # nothing moves
        m.deform = m.prev_deform
""")],
    "a first step in which nothing moves followed by one in which something does",
    "the later heat problems ignore the motion",
    STEP_DEMO + """
    step = thermal_step(solver, g, pts, pts, np.full(n, 0.5), ThermalStepParams(1, 2, None), lambda t: 0.0)
    y = pts.copy()
    y[2:, 0] += 0.3
    step.solve()
    a = standin.objective(calls[-1])
    step.update_y(y)
    step.solve()
    b = standin.objective(calls[-1])
    assert abs(a - b) > 1e-6, (a, b)
    """,
)

seed(
    "c20-same-temperature", "C20",
    [(T, """        self._model.external_temperature = self._external_temperature(current_time)
""", """        new_temperature = self._external_temperature(current_time)
        if abs(new_temperature - self._model.external_temperature.value) > 1e-3:
            self._model.external_temperature = new_temperature
""")],
    "an external temperature that changes by less than 1e-3 from one step to the next",
    "slow changes of the external temperature are ignored",
    STEP_DEMO + """
    step = thermal_step(solver, g, pts, pts, np.full(n, 0.5), ThermalStepParams(1, 2, None), lambda t: 1 + 5e-4 * t)
    step.update_external_temperature(1.0)
    step.solve()
    a = standin.objective(calls[-1])
    ref = thermal_step(solver, g, pts, pts, np.full(n, 0.5), ThermalStepParams(1, 2, None), lambda t: 1 + 5e-4)
    ref.solve()
    b = standin.objective(calls[-1])
    assert abs(a - b) < 1e-9, (a, b)
    """,
)

seed(
    "c21-corner-once", "C21",
    [(M, """    m.dirichlet_constraint_indices = m.dirichlet_edges * m.c1_indices
""", """    # Most vertices belong to two edges but need to be constrained only once
    seen = set()
    indices = []
    for i, edge in enumerate(grid.dirichlet_boundary.edges, start=1):
        for v, constraint_ids in zip(edge, [(1, 2, 3), (4, 5, 6)]):
            if v not in seen:
                seen.add(v)
                indices.extend((i, j) for j in constraint_ids)
    m.dirichlet_constraint_indices = pyo.Set(initialize=indices, dimen=2)
""")],
    "a regularized problem in which two adjacent sides are fixed",
    "at the corner only the derivatives along one of the two fixed sides are constrained",
    """
    import pyomo.environ as pyo
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    calls = standin.install()
    d = RectangleDomain(1, 1, ["lower", "left"])
    g = d.grid(1)
    mechanical_step(pyo.SolverFactory("ipopt"), g, MechanicalStepParams(0, 1, 1, 0.1), d.refine(g, 1),
                    lambda t, x, y: [0, 0]).solve()
    m = calls[-1]
    # both first derivatives at the corner must be determined
    for k in (2, 3):
        var = m.y1[1, k]
        old = var.value
        var.set_value(old + 0.1)
        bad = sum(abs(pyo.value(c.body) - pyo.value(c.upper)) > 1e-6
                  for c in m.component_data_objects(pyo.Constraint, active=True))
        var.set_value(old)
        assert bad, k
    """,
)

seed(
    "c21-start-at-zero", "C21",
    [(T, """            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i]
            m.theta[i].bounds = (
                new_prev_theta[i] - self._search_radius,
                new_prev_theta[i] + self._search_radius,
            )
""", """            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i]
            m.theta[i].bounds = (
                new_prev_theta[i] - self._search_radius,
                max(new_prev_theta[i], 1.0) + self._search_radius,
            )
""")],
    "a later heat problem with temperatures below one",
    "the search range is larger than the search radius",
    STEP_DEMO + """
    step = thermal_step(solver, g, pts, pts, np.full(n, 0.5), ThermalStepParams(0.1, 2, None), lambda t: 0.0)
    step.update_prev_theta(np.full(n, 0.4))
    step.solve()
    assert all(abs(v.ub - 0.5) < 1e-12 for v in standin.unknowns(calls[-1])), [v.ub for v in standin.unknowns(calls[-1])]
    """,
)

seed(
    "c22-memory-order", "C22",
    [(M, """        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
""", """        # split into components without copying
        new_prev_y1, new_prev_y2 = new_prev_y.ravel(order="K").reshape(-1, 2).T
""")],
    "an array stored column by column (a transposed or Fortran ordered array)",
    "the components of the deformation are scrambled",
    STEP_DEMO + """
    step = mechanical_step(solver, g, MechanicalStepParams(0, 0.5, 2, None), None, lambda t, x, y: [0, 0])
    y = np.asfortranarray(pts + np.arange(2 * n).reshape(n, 2) / 10)
    step.update_prev_y(y)
    assert np.abs(step.prev_y() - y).max() < 1e-12, step.prev_y()
    """,
)

seed(
    "c22-integers", "C22",
    [(T, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i]
""", """        m = self._model
        new_prev_theta = np.abs(new_prev_theta)
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i] if new_prev_theta[i] > 1e-9 else m.theta[i].value
""")],
    "a temperature of zero following a positive one",
    "the starting guess stays at the old temperature",
    STEP_DEMO + """
    step = thermal_step(solver, g, pts, pts, np.full(n, 0.5), ThermalStepParams(1, 2, None), lambda t: 0.0)
    step.update_prev_theta(np.zeros(n))
    assert np.abs(step.theta()).max() == 0, step.theta()
    """,
)

# ---- simulation -----------------------------------------------------------------------------
SIM_DEMO = """
    import numpy as np
    import pyomo.environ as pyo
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def data(step, sim):
        return np.array([[float(c) for c in step.y(*p)] + [float(step.theta(*p))] for p in sim._grid.points])
"""

seed(
    "c23-cold-body", "C23",
    [(M, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
""", """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i] if new_prev_theta.any() else m.prev_theta[i].value
""")],
    "a body that cools down to exactly zero everywhere",
    "the next problems still use the temperature before",
    SIM_DEMO + """
    seen = []

    def fn(model, k):
        if k % 2 == 1:
            seen.append([p.value for p in model.prev_theta.values()])
            for v in standin.unknowns(model):
                v.set_value(0.0)

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    s.run(1)
    assert max(seen[1]) == 0, seen
    """,
)

seed(
    "c23-shares-array", "C23",
    [(S, """        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run(""", """        y, theta = self._thermal_step.y(), self._thermal_step.theta()
        previous = self.steps[-1]
        if len(self.steps) > 2 and np.allclose(y, previous._y_data, rtol=0, atol=1e-9):
            # share the memory of an unchanged deformation
            y = previous._y_data
        self._append_step(y, theta)

    def run(""")],
    "a deformation that creeps by less than 1e-9 per step",
    "the recorded deformation is not the computed one",
    SIM_DEMO + """
    def fn(model, k):
        if k % 2 == 0:
            for v in standin.unknowns(model):
                v.set_value(v.value + 5e-10)

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    s.run(4)
    assert np.abs(s._thermal_step.y() - data(s.steps[-1], s)[:, :2]).max() < 1e-12
    """,
)

seed(
    "c24-rounded-time", "C24",
    [(S, """        self._mechanical_step.update_boundary_traction(self._current_time)
""", """        self._mechanical_step.update_boundary_traction(round(self._current_time, 3))
""")],
    "a frame rate whose inverse does not end after three decimals and a load that jumps at a step",
    "the traction is evaluated at a slightly different time, before or after the jump",
    SIM_DEMO + """
    standin.install()
    times = set()
    s = Simulation(RectangleDomain(1, 1, "lower"), SimulationParams(0.5, 1, 3, 1),
                   boundary_traction=lambda t, x, y: times.add(t) or [0.0, 0.0])
    s.run(2)
    assert max(times) == 2 / 3 or abs(max(times) - 2 / 3) < 1e-9, times
    """,
)

seed(
    "c24-same-as-before", "C24",
    [(S, """        self._thermal_step.update_external_temperature(self._current_time)
""", """        if len(self.steps) % 2 == 0 or self._fps < 20:
            # the temperature changes slowly, every second frame suffices
            self._thermal_step.update_external_temperature(self._current_time)
""")],
    "a frame rate of at least twenty and an external temperature that changes",
    "every second heat problem uses the temperature of the step before",
    SIM_DEMO + """
    standin.install()
    times = []
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 25, 1),
                   external_temperature=lambda t: times.append(t) or 0.1)
    s.run(3)
    assert len(times) == 4, times
    """,
)

seed(
    "c25-cached-params", "C25",
    [(S, """        return MechanicalStepParams(
            self.initial_temperature,
            self.search_radius,
            self.fps,
            self.regularization,
        )
""", """        if not hasattr(self, "_mechanical"):
            self._mechanical = MechanicalStepParams(
                self.initial_temperature,
                self.search_radius,
                self.fps,
                self.regularization,
            )
        return self._mechanical
""")],
    "parameters changed after they were used once",
    "the derived parameters carry the old values",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    p = SimulationParams(0.5, 1, 3, 1)
    p.mechanical_step_params()
    p.fps = 7
    assert p.mechanical_step_params().fps == 7
    """,
)

seed(
    "c25-tiny-values", "C25",
    [(S, """        if self.search_radius <= 0:
""", """        if self.search_radius < 1e-6:
""")],
    "a positive search radius below 1e-6",
    "valid parameters are rejected",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    SimulationParams(0.5, 1e-7, 3, 1)
    """,
)

seed(
    "c26-single-precision", "C26",
    [(S, """        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.tolist()))

        super""", """        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.astype(np.float32).tolist()))

        super""")],
    "comparing recorded temperatures to more than seven digits",
    "the recorded temperatures are rounded to single precision",
    SIM_DEMO + """
    standin.install(lambda model, k: standin.nudge(0.1, model, k))
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    got = data(s.steps[-1], s)[:, 2]
    assert np.abs(got - s._thermal_step.theta()).max() < 1e-12
    """,
)

seed(
    "c26-last-in-window", "C26",
    [(S, """    def max_temp(self):
        return self._max_temp
""", """    def max_temp(self):
        return max(float(np.max(step._theta_data)) for step in self.steps[-10:])
""")],
    "an evolution of more than ten steps whose maximum lies before the last ten",
    "the reported maximum is only that of the last ten steps",
    SIM_DEMO + """
    def fn(model, k):
        if k % 2 == 1:
            for v in standin.unknowns(model):
                v.set_value(v.value * 0.9)

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    s.run(12)
    assert s.max_temp() == 0.5, s.max_temp()
    """,
)

seed(
    "c27-animation-frames", "C27",
    [(S, """        anim = animation.FuncAnimation(fig, animate_frame, frames=len(self.steps))
""", """        anim = animation.FuncAnimation(fig, animate_frame, frames=iter(range(len(self.steps))), save_count=100)
""")],
    "an animation of more than one hundred steps",
    "the animation stops after one hundred frames",
    SIM_DEMO + """
    from matplotlib import animation

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    for _ in range(103):
        s.steps.append(s.steps[-1])
    drawn = []

    def save(self, *a, **k):
        for f in self.new_saved_frame_seq():
            drawn.append(f)

    animation.Animation.save = save
    s.save_animation("x")
    assert len(drawn) == 105, len(drawn)
    """,
)

seed(
    "c27-dotted-path", "C27",
    [(S, """            fig.savefig(
                f"{path}_{step_index}.png",
""", """            fig.savefig(
                f"{path.rsplit('.', 1)[0]}_{step_index}.png",
""")],
    "a path that contains a dot",
    "the image is saved under another name",
    SIM_DEMO + """
    import os

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    d = os.environ.get("DEMO_SCRATCH") or "/tmp"
    s.save_step(1, os.path.join(d, "run.5"))
    assert os.path.exists(os.path.join(d, "run.5_1.png")), os.listdir(d)
    """,
)

seed(
    "c29-random-start", "C29",
    [(M, """            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2""", """            if m.y1[i].fixed:
                m.y1[i] = new_prev_y1[i]
            else:
                # leave saddle points
                m.y1[i] = new_prev_y1[i] + np.random.uniform(-1e-12, 1e-12) * self._search_radius
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2""")],
    "comparing two runs with equal inputs to the last digit",
    "two equal simulations differ in the last digits",
    SIM_DEMO + """
    standin.install()
    res = []
    for _ in range(2):
        s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
        s.run(3)
        res.append(data(s.steps[-1], s))
    assert np.array_equal(*res), np.abs(res[0] - res[1]).max()
    """,
)

seed(
    "c29-loads-shared", "C29",
    [(T, """        self._search_radius = search_radius
        self._external_temperature = external_temperature
""", """        self._search_radius = search_radius
        _ThermalStep._external_temperature = staticmethod(external_temperature)
""")],
    "two simulations with different external temperatures whose runs are interleaved",
    "the simulation constructed last determines the external temperature of all",
    SIM_DEMO + """
    standin.install()
    seen = []
    a = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1), lambda t: seen.append("a") or 0.0)
    b = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1), lambda t: seen.append("b") or 1.0)
    seen.clear()
    a.run(1)
    assert seen == ["a"], seen
    """,
)

seed(
    "c30-retry", "C30",
    [(S, """        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run(""", """        self._update_thermal_step()
        try:
            self._thermal_step.solve()
        except RuntimeError:
            # once more from the point reached so far
            self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run(""")],
    "a solver that fails once in a heat problem with a RuntimeError",
    "the failure does not reach the caller",
    SIM_DEMO + """
    def fn(model, k):
        if k == 3:
            raise RuntimeError("failed")

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    try:
        s.run(1)
    except RuntimeError:
        assert len(s.steps) == 2
    else:
        raise AssertionError("no error")
    """,
)

seed(
    "c30-partial-maximum", "C30",
    [(S, """        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run(""", """        self._update_thermal_step()
        try:
            self._thermal_step.solve()
        finally:
            self._max_temp = max(self._max_temp, np.max(self._thermal_step.theta()))
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run(""")],
    "a solver that fails in a heat problem after it has raised temperatures",
    "the reported maximum includes temperatures that were never recorded",
    SIM_DEMO + """
    def fn(model, k):
        if k == 3:
            for v in standin.unknowns(model):
                v.set_value(5.0)
            raise RuntimeError("failed")

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 10, 3, 1))
    try:
        s.run(1)
    except RuntimeError:
        pass
    assert s.max_temp() == 0.5, s.max_temp()
    """,
)
