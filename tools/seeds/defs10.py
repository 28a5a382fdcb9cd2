"""Planted bugs, tenth round: rules and memos shared between sites, corners of the boundary, extreme sizes."""

from pathlib import Path

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c10-cached-rule", "C10",
    [(Q, """        # points are in the interval [-1, 1]
        points, weights = leggauss(degree)
        # transform the points and weights to the unit interval [0, 1]
        points = (1 + points) / 2
        weights /= 2
        self.points = list(points)
        self.weights = list(weights)
""", """        if degree not in _GAUSS:
            # points are in the interval [-1, 1]
            points, weights = leggauss(degree)
            # transform the points and weights to the unit interval [0, 1]
            _GAUSS[degree] = (list((1 + points) / 2), list(weights / 2))
        self.points, self.weights = _GAUSS[degree]
"""), (Q, """class GaussQuadratureRule:""", """_GAUSS: dict = {}


class GaussQuadratureRule:"""),
     (G, """        self._edge_lengths = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]
""", """        self._edge_lengths = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]
        if len(set(self._edge_lengths)) == 1 and degree > 1:
            # Edges of equal length: scale the weights once and for all
            for k, weight in enumerate(self._quadrature.weights):
                self._quadrature.weights[k] = weight * self._edge_lengths[0]
            self._edge_lengths = [1.0] * len(edges)
""")],
    "a second integrator or rule of the same degree, greater than one, after one on edges of equal length",
    "the weights of later rules are scaled by the lengths of the edges of the first one",
    """
    from tvemoves_rufbad.integrators import BoundaryIntegrator
    from tvemoves_rufbad.tensors import Vector

    pts = [Vector([0.0, 0.0]), Vector([3.0, 0.0]), Vector([3.0, 1.0])]
    first = BoundaryIntegrator(3, [(0, 1)], pts)
    second = BoundaryIntegrator(3, [(1, 2)], pts)
    assert abs(first(lambda e, t: 1.0) - 3) < 1e-12
    assert abs(second(lambda e, t: 1.0) - 1) < 1e-12
    """,
)

seed(
    "c13-side-memo", "C13",
    [(B, """    return Vector(_N_on_edge_lambdified(t, b3, c3))
""", """    if all(isinstance(x, float) for x in (t, b3, c3)):
        # The same few directions occur over and over again
        key = (t, b3 * b3, c3 * c3)
        if key not in _EDGE_VALUES:
            _EDGE_VALUES[key] = _N_on_edge_lambdified(t, b3, c3)
        return Vector(_EDGE_VALUES[key])
    return Vector(_N_on_edge_lambdified(t, b3, c3))
"""), (B, """def _shape_function_on_edge(""", """_EDGE_VALUES: dict = {}


def _shape_function_on_edge(""")],
    "an edge and a mirrored or reversed edge evaluated at the same parameter",
    "the values on the second edge have the signs of the slopes of the first one",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation_on_edge
    from tvemoves_rufbad.tensors import Vector

    p, q = Vector([0.0, 0.0]), Vector([1.0, 0.5])
    a, b = [1.0, 2.0, 0.3, 0.0, 0.1, 0.0], [0.5, -1.0, 0.2, 0.4, 0.0, 0.0]
    u = bell_interpolation_on_edge((p, q), 0.5, Vector(a + b))
    v = bell_interpolation_on_edge((q, p), 0.5, Vector(b + a))
    assert abs(u - v) < 1e-12
    """,
)

seed(
    "c12-vertex-hessian", "C12",
    [(B, """    barycentric_hessian_vectorized = (
        _shape_function_hessian_vectorized(""", """    # The second derivatives at the vertices are parameters
    for k, l in enumerate(barycentric_coordinates):
        if isinstance(l, float) and l == 1.0:
            uxx, uxy, uyy = params[6 * k + 3], params[6 * k + 4], params[6 * k + 5]
            return Matrix([[uxx, uxy], [uxy, uyy if k < 2 else uxx]])
    barycentric_hessian_vectorized = (
        _shape_function_hessian_vectorized(""")],
    "the Hessian exactly at the third vertex of a triangle",
    "u_yy is replaced by u_xx",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation_hessian
    from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates

    tri = (Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([1.0, 1.0]))
    params = Vector([0.0] * 15 + [1.0, 2.0, 5.0])
    h = bell_interpolation_hessian(tri, BarycentricCoordinates(0.0, 0.0), params)
    assert abs(h[1, 1] - 5) < 1e-9, h
    """,
)

seed(
    "c14-point-memo", "C14",
    [(I, """        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
        return bp_coarse.triangle, bp_coarse.coordinates
""", """        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
        if any(not isinstance(l, float) for l in barycentric_coordinates):
            bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
            return bp_coarse.triangle, bp_coarse.coordinates
        # Quadrature visits the same points again and again
        p = [self.grid.points[i] for i in triangle]
        key = tuple(sum(l * q[k] for l, q in zip(barycentric_coordinates, p)) for k in (0, 1))
        if key not in self._known:
            bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
            self._known[key] = bp_coarse.triangle, bp_coarse.coordinates
        return self._known[key]
"""), (I, """        self._coarse_interpolation = coarse_interpolation
        self.grid = refined_grid
""", """        self._coarse_interpolation = coarse_interpolation
        self.grid = refined_grid
        self._known: dict = {}
""")],
    "derivatives at a point on a coarse edge, or a vertex, asked in both adjacent triangles",
    "the one sided derivatives of the first triangle are returned for the second",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, RefinedInterpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    f = d.refine(g, 2)
    u = P1Interpolation(g, [0.0, 1.0, 5.0, 3.0])
    r = RefinedInterpolation(u, f)
    for t in f.triangles:
        if 0 not in t:
            continue
        k = t.index(0)
        b = BarycentricCoordinates(float(k == 0), float(k == 1))
        ct = f._coarse_triangle[t]
        want = u.gradient(ct, b)
        got = r.gradient(t, b)
        assert (got - want).norm() < 1e-12
    """,
)

seed(
    "c01-large-blocks", "C01",
    [(D, """            for i in range(num_horizontal_vertices - 1)
            for j in range(num_vertical_vertices - 1)
        ]
        triangles = lower_triangles + upper_triangles
""", """            for i in range(num_horizontal_vertices - 1)
            # large grids are built in blocks of rows
            for start in range(0, num_vertical_vertices - 1, 128)
            for j in range(start, min(start + 127, num_vertical_vertices - 1))
        ]
        triangles = lower_triangles + upper_triangles
""")],
    "a grid with at least 128 rows",
    "the upper triangles of the last row of every block are missing",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(1, 130).grid(1)
    assert len(g.triangles) == 260, len(g.triangles)
    """,
)

seed(
    "c02-single-free-edge", "C02",
    [(D, """        neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))

        points = [""", """        neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))
        if len(neumann_edges) == 1:
            # Both ends are fixed
            neumann_boundary = Boundary([], [])

        points = [""")],
    "three fixed sides and a free side of a single edge",
    "the free side is lost",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(1, 3, ["lower", "left", "right"]).grid(1)
    assert len(g.neumann_boundary.edges) == 1
    """,
)

seed(
    "c04-class-memo", "C04",
    [(D, """        coarse_edge = self._coarse_edge[fine_edge]
        t1, t2 = self._coarse_edge_coordinates[fine_edge]
        coarse_t = t * t1 + (1 - t) * t2
        return coarse_edge, coarse_t
""", """        key = (fine_edge, len(self.points), len(self.triangles))
        if key not in RefinedGrid._edges:
            RefinedGrid._edges[key] = (self._coarse_edge[fine_edge], *self._coarse_edge_coordinates[fine_edge])
        coarse_edge, t1, t2 = RefinedGrid._edges[key]
        coarse_t = t * t1 + (1 - t) * t2
        return coarse_edge, coarse_t
"""), (D, """    \"\"\"Refinement of a grid.\"\"\"

    def __init__(""", """    \"\"\"Refinement of a grid.\"\"\"

    _edges: dict = {}

    def __init__(""")],
    "two refined grids with equally many points and triangles, such as a refinement by four and a twofold refinement by two",
    "edges of the second grid are mapped to edges of the first one",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    a = d.refine(g, 4)
    b = d.refine(d.refine(g, 2), 2)
    for f in (a, b):
        for e in f.edges:
            try:
                ce, t = f.to_coarse_edge_point(e, 1.0)
            except ValueError:
                continue
            p, q = f.points[e[0]], f.coarse().points
            r = t * q[ce[0]] + (1 - t) * q[ce[1]]
            assert (p - r).norm() < 1e-12
    """,
)

seed(
    "c05-last-point", "C05",
    [(D, """        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point""", """        # The last point is the upper right corner
        if (
            max(p[0], p[1]) > 1.0001 * max(self.points[-1][0], self.points[-1][1])
            and len(self.points) == len(self.vertices)
        ):
            return None
        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point""")],
    "a point of a refined grid beyond its last point, or a grid whose points are ordered otherwise",
    "points of the region are not found",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    d = RectangleDomain(2, 2)
    f = d.refine(d.grid(1), 3)
    assert all(f.to_barycentric_point(p) is not None for p in f.points)
    """,
)

seed(
    "c06-stale-mean", "C06",
    [(D, """            if self._mean_edge_length is None:
                self._mean_edge_length = new_edge_length
            else:
                self._mean_edge_length = self._mean_edge_length * num_edges_old / (
                    num_edges_old + 1
                ) + new_edge_length / (num_edges_old + 1)
""", """            if self._mean_edge_length is None or num_edges_old < 2:
                self._mean_edge_length = new_edge_length
""")],
    "edges of very different lengths appended to a grid, and a lookup of a point known up to rounding",
    "the tolerance of the comparison of points belongs to the first edges only",
    """
    from tvemoves_rufbad.domain import Grid, Boundary
    from tvemoves_rufbad.tensors import Vector

    b = Boundary([], [])
    pts = [Vector([0.0, 0.0]), Vector([1e-9, 0.0]), Vector([0.0, 1e-9]), Vector([1000.0, 0.1])]
    g = Grid([0, 1, 2, 3], [], [], b, b, b, pts)
    for e in ((0, 1), (0, 2), (1, 3), (2, 3)):
        g.append_edge(e)
    assert g.point_to_vertex(Vector([1000.0 + 1e-12, 0.1 + 1e-12])) == 3
    """,
)

seed(
    "c10-kept-terms", "C10",
    [(G, """        self._triangles = list(triangles)
        self._quadrature = quadrature
""", """        self._triangles = list(triangles)
        self._terms: list[Any] = []
        self._quadrature = quadrature
"""),
     (G, """        return sum(
            triangle_area
            * sum(
                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )
""", """        for triangle_area, triangle in zip(self._triangle_areas, self._triangles):
            self._terms.append(
                triangle_area
                * sum(
                    weight * integrand(triangle, point)
                    for point, weight in zip(self._quadrature.points, self._quadrature.weights)
                )
            )
        total = sum(self._terms)
        self._terms.clear()
        return total
""")],
    "an integrand that fails after the first triangle, or that itself uses the integrator",
    "the next integral contains the terms of the failed one",
    """
    from tvemoves_rufbad.quadrature_rules import DUNAVANT3
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.tensors import Vector

    P = [Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([0.0, 1.0]), Vector([1.0, 1.0])]
    integral = Integrator(DUNAVANT3, [(0, 1, 2), (1, 3, 2)], P)
    try:
        integral(lambda t, p: 1 / (1 - min(t)))
    except ZeroDivisionError:
        pass
    assert abs(integral(lambda t, p: 1.0) - 1) < 1e-12
    """,
)

seed(
    "c24-corner", "C24",
    [(M, """        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """        for i in m.neumann_vertices:
            # Loads do no work where the body is held
            held = i in m.dirichlet_vertices
            m.g1[i], m.g2[i] = (
                (0.0, 0.0) if held else self._boundary_traction(current_time, *self._grid.points[i])
            )
""")],
    "a traction at a corner of the body where the free boundary meets the fixed one, from the second step on",
    "the traction along the free edge next to the corner is too small",
    STEP_DEMO + """
    d = RectangleDomain(1, 1, ["left"])
    g = d.grid(1)
    s = mechanical_step(solver, g, MechanicalStepParams(0.5, 0.1, 1.0, None), None, lambda t, x, y: [1.0, 0.0])
    a = pyo.value(s._model.boundary_traction_energy)
    s.update_boundary_traction(1.0)
    assert abs(pyo.value(s._model.boundary_traction_energy) - a) < 1e-12
    """,
)

seed(
    "c28-capped-rate", "C28",
    [(T, """        strain_rate = (strain - prev_strain) * fps
""", """        # Waves are not resolved in time
        strain_rate = (strain - prev_strain) * min(fps, 500)
""")],
    "a frame rate above 500 and a body that moves at positive temperature",
    "the coupling power does not match the change of the internal energy",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    p = np.array([list(map(float, q)) for q in g.points])
    y = p @ np.array([[1.1, 0.0], [0.2, 1.0]])
    def energy(fps):
        s = thermal_step(solver, g, p @ np.diag([1.3, 0.9]), y, np.full(4, 0.3), ThermalStepParams(0.5, fps, None), lambda t: 0.0)
        return pyo.value(s._model.energy)
    # dissipation is quadratic and coupling linear in the rate
    a, b, c = energy(100), energy(200), energy(1000)
    quad = (b - 2 * a) / (200**2 - 2 * 100**2)
    lin = (a - quad * 100**2) / 100
    assert abs(c - quad * 1000**2 - lin * 1000) < 1e-6 * abs(c)
    """,
)

seed(
    "c23-close-states", "C23",
    [(S, """        self._thermal_step.update_y(self._mechanical_step.y())
        self._thermal_step""", """        y = self._mechanical_step.y()
        if not np.allclose(y, self._thermal_step.y(), rtol=1e-4):
            self._thermal_step.update_y(y)
        self._thermal_step""")],
    "an evolution in which every vertex moves by less than 1e-4 of its coordinates in a step",
    "the deformation found is dropped and an earlier one recorded",
    SIM_DEMO + """
    def strategy(m, log):
        if hasattr(m, "g1"):
            for i in m.y1:
                if not m.y1[i].fixed:
                    m.y1[i] = m.y1[i].value + 5e-5
    standin.install(strategy)
    d = RectangleDomain(1, 1, ["left"])
    sim = Simulation(d, SimulationParams(initial_temperature=0.5, search_radius=0.1, fps=1.0, scale=1))
    for k in range(3):
        sim.run()
        y = sim._mechanical_step.y()
        assert np.abs(y - sim.steps[-1]._y_data).max() < 1e-12
    """,
)

seed(
    "c03-neumann-corners", "C03",
    [(D, """            Boundary(deepcopy(grid.neumann_boundary.vertices), []),
""", """            Boundary(
                [v for v in grid.neumann_boundary.vertices if v not in grid.dirichlet_boundary.vertices], []
            ),
""")],
    "refining a grid with fixed and free sides",
    "the corners are missing from the vertices of the refined Neumann boundary",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(1, 1, ["left"])
    f = d.refine(d.grid(1), 2)
    assert set(f.neumann_boundary.vertices) == {i for e in f.neumann_boundary.edges for i in e}
    """,
)

seed(
    "c07-elimination", "C07",
    [(X, """        res = 0
        for p in permutations(range(self.shape[0])):
            prod = 1""", """        if self.shape[0] > 3 and all(isinstance(x, float) for row in self.data for x in row):
            # Elimination is faster than the expansion
            rows, det = [list(row) for row in self.data], 1.0
            while rows:
                if rows[0][0] == 0:
                    k = next((i for i, row in enumerate(rows) if row[0] != 0), None)
                    if k is None:
                        return 0.0
                    rows[0], rows[k], det = rows[k], rows[0], -det
                first, det = rows[0], det * rows[0][0]
                rows = [[x - row[0] / first[0] * y for x, y in zip(row[1:], first[1:])] for row in rows[1:]]
            return det
        res = 0
        for p in permutations(range(self.shape[0])):
            prod = 1""")],
    "a float matrix of at least four rows whose first pivot is tiny compared with the other entries",
    "the determinant loses all digits",
    """
    from tvemoves_rufbad.tensors import Matrix

    m = Matrix([[1e-20, 1.0, 1.0, 0.0], [1.0, 1.0, 1.0, 0.0], [1.0, 1.0, 2.0, 0.0], [0.0, 0.0, 0.0, 1.0]])
    assert abs(m.det() + 1) < 1e-9, m.det()
    """,
)

seed(
    "c27-cold-scale", "C27",
    [(S, """            vmax=max_temp,
            cmap""", """            vmax=max(max_temp, 1e-3),
            cmap""")],
    "a body that stays below a temperature of 0.001",
    "the colors do not span the scale from zero to the maximal temperature",
    SIM_DEMO + """
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    standin.install(lambda m, log: None)
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(initial_temperature=1e-4, search_radius=0.1, fps=1.0, scale=1))
    sim.plot_step(0)
    c = plt.gcf().axes[0].collections[0]
    assert abs(c.get_clim()[1] - 1e-4) < 1e-9, c.get_clim()
    """,
)
