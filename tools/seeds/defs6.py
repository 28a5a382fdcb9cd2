"""Planted bugs, sixth round: sizes, thresholds and data that only larger workloads reach."""

from pathlib import Path

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c10-batches", "C10",
    [(G, """        return sum(
            triangle_area
            * sum(
                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )
""", """        # Sum up batches of triangles, as long sums are slow to build
        size = 64
        count = len(self._triangles)
        return sum(
            sum(
                triangle_area
                * sum(
                    weight * integrand(triangle, point)
                    for point, weight in zip(self._quadrature.points, self._quadrature.weights)
                )
                for (triangle_area, triangle) in zip(
                    self._triangle_areas[start : start + size], self._triangles[start : start + size]
                )
            )
            for start in range(0, max(1, count - count % size), size)
        )
""")],
    "a grid with more than 64 triangles whose number is not a multiple of 64",
    "the last triangles are left out of the integral",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import CENTROID

    g = RectangleDomain(7, 5).grid(1)
    total = Integrator(CENTROID, g.triangles, g.points)(lambda t, b: 1.0)
    assert abs(total - 35) < 1e-9, total
    """,
)

seed(
    "c05-sorted-search", "C05",
    [(D, """        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
""", """        candidates = self.triangles
        if len(candidates) > 100:
            # Only look at triangles nearby
            h = self._mean_edge_length
            candidates = [
                t for t in candidates if (self.points[t[0]] - p).normsqr() <= h * h
            ]
        for triangle in candidates:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
""")],
    "a grid of more than 100 triangles and a point near the far end of a diagonal",
    "points of the grid are reported to lie outside",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    g = RectangleDomain(8, 8).grid(1)
    for i in range(64):
        for j in range(64):
            p = Vector([i / 8 + 1 / 17, j / 8 + 1 / 31])
            assert g.to_barycentric_point(p) is not None, p
    """,
)

seed(
    "c06-large-grids", "C06",
    [(D, """        if len(self.triangles) != len(other.triangles):
            return False
        if any(
""", """        if len(self.triangles) != len(other.triangles):
            return False
        # The edges of large grids determine their triangles
        if len(self.triangles) < 60 and any(
""")],
    "comparing grids of 60 or more triangles that differ in a triangle only",
    "grids with different triangles are equal",
    """
    from copy import deepcopy
    from tvemoves_rufbad.domain import RectangleDomain

    a = RectangleDomain(6, 6).grid(1)
    b = deepcopy(a)
    i, j, k = b.triangles[7]
    b.triangles[7] = (j, i, k)
    assert not a == b
    """,
)

seed(
    "c02-nothing-free", "C02",
    [(D, """        neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))
""", """        neumann_boundary = (
            Boundary(neumann_vertices, list(neumann_edges)) if neumann_edges else boundary
        )
"""), (D, """                    case "lower":
                        dirichlet_edges.update(lower_boundary_edges)
                        neumann_edges.difference_update(lower_boundary_edges)
""", """                    case "lower":
                        neumann_edges.difference_update(lower_boundary_edges)
                        dirichlet_edges.update(lower_boundary_edges)
""")],
    "a rectangle all of whose sides are fixed",
    "the free boundary is the whole boundary, although nothing is free",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(2, 1, fix=["lower", "right", "upper", "left"]).grid(1)
    assert g.neumann_boundary.edges == [] and g.neumann_boundary.vertices == []
    """,
)

seed(
    "c21-oblique-curvature", "C21",
    [(M, """            return y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0
""", """            return y[j, 4] * d[0] ** 2 + y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0
""")],
    "a fixed edge that is not parallel to an axis (a grid that is not a rectangle)",
    "the second derivative along the edge is not the constrained one",
    STEP_DEMO + """
    from tvemoves_rufbad.domain import Grid
    from tvemoves_rufbad.tensors import Vector

    d = RectangleDomain(1, 1, fix="lower")
    g, r = d.grid(1), None
    r = d.refine(g, 1)
    shear = lambda ps: [Vector([p[0], p[1] + 0.5 * p[0]]) for p in ps]
    g.points = shear(g.points)
    r.points = shear(r.points)
    step = mechanical_step(solver, g, MechanicalStepParams(0.5, 10.0, 1, 0.1), r, lambda t, x, y: [0.0, 0.0])
    m = step._model
    # a map with vanishing second derivative in direction (1, 0.5) at every vertex
    for v in standin.unknowns(m):
        kind = v.index()[1] if isinstance(v.index(), tuple) else None
        if kind in (4, 5, 6):
            v.set_value({4: 1.0, 5: -1.5, 6: 2.0}[kind])
    for c in m.component_data_objects(pyo.Constraint, active=True):
        assert abs(pyo.value(c.body) - pyo.value(c.upper)) < 1e-9, c.name
    """,
)

seed(
    "c24-small-changes", "C24",
    [(M, """        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """        for i in m.neumann_vertices:
            g1, g2 = self._boundary_traction(current_time, *self._grid.points[i])
            if abs(g1 - m.g1[i].value) + abs(g2 - m.g2[i].value) > 1e-4:
                m.g1[i], m.g2[i] = g1, g2
""")],
    "a traction that changes by less than 1e-4",
    "the traction of an earlier time acts",
    STEP_DEMO + """
    g = RectangleDomain(1, 1, fix="left").grid(1)
    step = mechanical_step(solver, g, MechanicalStepParams(0.5, 0.1, 1, None), None, lambda t, x, y: [5e-5 * t, 0.0])
    a = standin.objective(step._model)
    step.update_boundary_traction(1.0)
    b = standin.objective(step._model)
    assert abs((a - b) - 1e-4) < 1e-8, a - b
    """,
)

seed(
    "c19-cold-energy", "C19",
    [(M, """    integrator_for_piecewise_constant = Integrator(CENTROID, grid.triangles, grid.points)
""", """    integrator_for_piecewise_constant = Integrator(CENTROID, grid.triangles, grid.points)
    if initial_temperature == 0:
        integrator = integrator_for_piecewise_constant
""")],
    "a simulation that starts at temperature zero and is heated unevenly",
    "the elastic energy is integrated as if the temperature were constant",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    values = []
    for start in (0.0, 0.25):
        step = mechanical_step(solver, g, MechanicalStepParams(start, 0.1, 1, None), None, lambda t, x, y: [0.0, 0.0])
        step.update_prev_theta(np.array([0.0, 0.1, 0.3, 0.6]))
        step.update_prev_y(np.array([[0.0, 0.0], [1.1, 0.0], [0.0, 0.9], [1.2, 1.0]]))
        values.append(standin.objective(step._model))
    assert abs(values[0] - values[1]) < 1e-12, values
    """,
)

seed(
    "c20-cold-coupling", "C20",
    [(T, """    m.temp = P1Interpolation(grid, m.theta)

    integrator = Integrator(DUNAVANT2, grid.triangles, grid.points)
""", """    m.temp = P1Interpolation(grid, m.theta)

    # Cold and hot triangles alike
    active = grid.triangles if external_temperature > 0 or prev_theta.any() else [
        t for t in grid.triangles if any((prev_y[i] != y[i]).any() for i in t)
    ] or grid.triangles
    integrator = Integrator(DUNAVANT2, active, grid.points)
""")],
    "a start at temperature zero with external temperature zero and a first move of a part of the body only",
    "the triangles that were at rest at first never take part",
    STEP_DEMO + """
    g = RectangleDomain(3, 1).grid(1)
    x = np.array([list(p) for p in g.points], dtype=float)
    z = x.copy()
    z[0, 0] -= 0.1
    values = []
    for first in (x, z):
        step = thermal_step(solver, g, x, first, np.zeros(len(x)), ThermalStepParams(0.5, 2.0, None), lambda t: 0.0)
        step.update_prev_y(x)
        step.update_y(x * 1.1)
        step.update_prev_theta(np.linspace(0.1, 0.4, len(x)))
        values.append(standin.objective(step._model))
    assert abs(values[0] - values[1]) < 1e-9, values
    """,
)

seed(
    "c22-aliased-input", "C22",
    [(T, """        new_y1 = new_y[:, 0]
        new_y2 = new_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.y1[i] = new_y1[i]
            m.y2[i] = new_y2[i]
""", """        if getattr(self, "_last_y", None) is new_y:
            return
        self._last_y = new_y
        new_y1 = new_y[:, 0]
        new_y2 = new_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.y1[i] = new_y1[i]
            m.y2[i] = new_y2[i]
""")],
    "passing the same array again after changing its contents",
    "the changed data are ignored",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    x = np.array([list(p) for p in g.points], dtype=float)
    step = thermal_step(solver, g, x, x, np.ones(4), ThermalStepParams(0.5, 2.0, None), lambda t: 0.0)
    z = x.copy()
    step.update_y(z)
    z *= 1.5
    step.update_y(z)
    assert np.array_equal(step.y(), z)
    """,
)

seed(
    "c23-early-stop", "C23",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
            if np.isnan(self.steps[-1]._theta_data).any() or self._max_temp > 100:
                break""")],
    "a run of several steps of a body hotter than 100",
    "the run stops early without an error",
    SIM_DEMO + """
    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(150.0, 0.1, 1, 1.0))
    s.run(4)
    assert len(s.steps) == 6, len(s.steps)
    """,
)

seed(
    "c29-shared-vertices", "C29",
    [(I, """        return transform_gradient(self.grid.triangle_vertices(triangle), barycentric_gradient)
""", """        key = (triangle, len(self.grid.points), len(self.grid.dirichlet_boundary.edges))
        if key not in _VERTICES:
            _VERTICES[key] = self.grid.triangle_vertices(triangle)
        return transform_gradient(_VERTICES[key], barycentric_gradient)
"""), (I, """class P1Interpolation(Interpolation):
""", """_VERTICES = {}


class P1Interpolation(Interpolation):
""")],
    "two simulations in one process on grids with the same numbers but different scales",
    "the second one computes gradients on the first one's triangles",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation

    for h in (1.0, 0.5):
        g = RectangleDomain(h, h).grid(h)
        f = P1Interpolation(g, [p[0] for p in g.points])
        for t in g.triangles:
            d = f.gradient(t, None)
            assert abs(d[0] - 1) < 1e-9 and abs(d[1]) < 1e-9, (h, d)
    """,
)

seed(
    "c15-forgets-hessian-triangle", "C15",
    [(I, """        p = Vector([x, y])
        p_barycentric = self.grid.to_barycentric_point(p)
        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")
""", """        p = Vector([x, y])
        last = getattr(self, "_last", None)
        if last is not None and (last[0] - p).norm() < 1e-5 * self.grid._mean_edge_length:
            p_barycentric = last[1]
        else:
            p_barycentric = self.grid.to_barycentric_point(p)
        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")
        self._last = (p, p_barycentric)
""")],
    "evaluating at points that are very close to each other, one after another",
    "the value at the previous point is returned, also across a whole series of points",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, EuclideanInterpolation

    g = RectangleDomain(1, 1).grid(1)
    f = EuclideanInterpolation(P1Interpolation(g, [1000.0 * p[0] for p in g.points]))
    for k in range(20):
        x = 0.3 + 8e-6 * k
        assert abs(f(x, 0.2) - 1000 * x) < 1e-6, k
    """,
)

seed(
    "c14-snapped", "C14",
    [(I, """        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
        return bp_coarse.triangle, bp_coarse.coordinates
""", """        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
        l1, l2, l3 = bp_coarse.coordinates
        if min(l1, l2, l3) < 1e-4:
            # On the edge of the coarse triangle up to rounding errors
            bp_coarse.coordinates.assert_bounds(1e-4 if min(l1, l2, l3) > 0 else 0.0)
        return bp_coarse.triangle, bp_coarse.coordinates
""")],
    "a point very close to an edge of the coarse triangle but not on it",
    "the point is moved away from the edge",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, RefinedInterpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    r = d.refine(g, 2)
    c = P1Interpolation(g, [0.0, 1.0, 10.0, -5.0])
    f = RefinedInterpolation(c, r)
    for t in r.triangles:
        for b in ((1e-5, 0.4), (0.4, 1e-5), (0.4, 0.6 - 1e-5)):
            b = BarycentricCoordinates(*b)
            x = sum(w * r.points[i][0] for w, i in zip(b, t))
            y = sum(w * r.points[i][1] for w, i in zip(b, t))
            q = g.to_barycentric_point(type(g.points[0])([x, y]))
            assert abs(f(t, b) - c(q.triangle, q.coordinates)) < 1e-9, (t, b)
    """,
)

seed(
    "c07-tiny-inverse", "C07",
    [(X, """    return Matrix([[strain[1, 1], -strain[0, 1]], [-strain[1, 0], strain[0, 0]]]) / strain.det()
""", """    det = strain.det()
    if isinstance(det, float) and abs(det) < 1e-12:
        raise ZeroDivisionError("singular matrix")
    return Matrix([[strain[1, 1], -strain[0, 1]], [-strain[1, 0], strain[0, 0]]]) / det
""")],
    "inverting a matrix with tiny entries",
    "the determinant is taken to be zero",
    """
    from tvemoves_rufbad.tensors import Matrix, inverse_2x2

    a = inverse_2x2(Matrix([[1e-7, 0.0], [0.0, 2e-7]]))
    assert abs(a[0, 0] - 1e7) < 1 and abs(a[1, 1] - 5e6) < 1
    """,
)

seed(
    "c25-plain-numbers", "C25",
    [(S, """        if self.fps <= 0:
            raise ValueError(f"fps must be positive but {self.fps} was provided")
""", """        if not isinstance(self.fps, (int, float)) or self.fps <= 0:
            raise ValueError(f"fps must be positive but {self.fps} was provided")
""")],
    "a frame rate given as a numpy integer or a fraction",
    "valid parameters are rejected",
    """
    import numpy as np
    from tvemoves_rufbad.simulation import SimulationParams

    assert SimulationParams(0.1, 0.1, np.int64(3), 1.0).fps == 3
    """,
)

seed(
    "c26-distinct-temperatures", "C26",
    [(S, """        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.tolist()))

        super().__init__(y_data, theta_data, y, theta, domain, grid)
""", """        theta = EuclideanInterpolation(
            P1Interpolation(grid, (theta_data if len(theta_data) < 50 else theta_data.round(6)).tolist())
        )

        super().__init__(y_data, theta_data, y, theta, domain, grid)
""")],
    "a grid with at least 50 vertices",
    "the recorded temperature is rounded",
    SIM_DEMO + """
    from tvemoves_rufbad.simulation import Step

    d = RectangleDomain(7, 7)
    g = d.grid(1)
    x = np.array([list(p) for p in g.points], dtype=float)
    th = np.linspace(0, 1e-5, len(x))
    s = Step(x, th, d, g)
    for p, v in zip(g.points, th):
        assert abs(s.theta(*p) - v) < 1e-12
    """,
)

seed(
    "c27-thinned-edges", "C27",
    [(D, """        for edge in self.edges:
            i, j = edge
            p, q = self.points[i], self.points[j]
""", """        edges = self.edges if len(self.edges) <= 200 else self.edges[:: len(self.edges) // 100]
        for edge in edges:
            i, j = edge
            p, q = self.points[i], self.points[j]
""")],
    "plotting a grid with more than 200 edges",
    "edges are missing in the plot",
    """
    from matplotlib import pyplot as plt
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(9, 9).grid(1)
    _, ax = plt.subplots()
    g.plot(ax)
    assert len(ax.lines) + sum(len(c.get_segments()) for c in ax.collections if hasattr(c, "get_segments")) == len(g.edges)
    """,
)

seed(
    "c03-rounded-keys", "C03",
    [(D, """            old_vertex = intermediate_grid.point_to_vertex(next_point)
            if old_vertex is None:
""", """            if refinement_factor > 12 and k > 0 and l > 0 and k + l < refinement_factor - 1:
                # Inner vertices are new
                old_vertex = None
            elif refinement_factor > 12:
                old_vertex = next(
                    (
                        i
                        for i, q in enumerate(intermediate_grid.points)
                        if (q - next_point).normsqr() == 0
                    ),
                    None,
                )
            else:
                old_vertex = intermediate_grid.point_to_vertex(next_point)
            if old_vertex is None:
""")],
    "a refinement factor above 12, for which rounding makes shared points differ in the last digit",
    "vertices on shared edges occur twice",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    for f in (13, 14, 17):
        d = RectangleDomain(0.3, 0.3)
        r = d.refine(d.grid(0.1), f)
        assert len(r.points) == (3 * f + 1) ** 2, (f, len(r.points))
    """,
)

seed(
    "c01-one-step-table", "C01",
    [(D, """        points = [
            Vector([
                v % num_horizontal_vertices * scale,
                v // num_horizontal_vertices * scale,
            ])
            for v in vertices
        ]
""", """        # Neighbours are exactly one step apart
        coordinates = [i * scale for i in range(min(num_horizontal_vertices, 64))]
        while len(coordinates) < max(num_horizontal_vertices, num_vertical_vertices):
            coordinates.append(round(coordinates[-1] + scale, 7))
        points = [
            Vector([
                coordinates[v % num_horizontal_vertices],
                coordinates[v // num_horizontal_vertices],
            ])
            for v in vertices
        ]
""")],
    "a grid of more than 64 columns, with a scale of more than seven digits, or one much taller than wide",
    "the positions are rounded",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(30.0, 1 / 3).grid(1 / 3)
    for k, p in enumerate(g.points):
        assert abs(p[0] - k % 91 / 3) < 1e-9, p
    """,
)

seed(
    "c16-small-strain", "C16",
    [(H, """    return _austenite_potential_flat_input(strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1])
""", """    e = strain - Matrix([[1.0, 0.0], [0.0, 1.0]])
    if isinstance(strain[0, 0], float) and e.normsqr() < 1e-6:
        # quadratic expansion at the well
        return 2 * (e[0, 0] ** 2 + e[1, 1] ** 2) + (e[0, 1] + e[1, 0]) ** 2 + e[0, 0] * e[1, 1]
    return _austenite_potential_flat_input(strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1])
""")],
    "strains within 1e-3 of the identity, given as numbers",
    "the energy near the well is not the documented one",
    """
    from tvemoves_rufbad.helpers import austenite_potential
    from tvemoves_rufbad.tensors import Matrix
    import math

    F = [[1.0004, 0.0001], [0.0002, 1.0005]]
    J = F[0][0] * F[1][1] - F[0][1] * F[1][0]
    I1 = sum(x * x for r in F for x in r)
    w = I1 - 2 - 2 * math.log(J) + (J - 1) ** 2
    assert abs(austenite_potential(Matrix(F)) - w) < 1e-9
    """,
)

seed(
    "c18-symmetric-increment", "C18",
    [(H, """    strain_delta = strain - prev_strain
""", """    strain_delta = strain - prev_strain
    if isinstance(strain[0, 0], float) and strain_delta.norm() > 10 * prev_strain.norm():
        # The linearization is meaningless for such increments
        strain_delta = strain_delta * (10 * prev_strain.norm() / strain_delta.norm())
""")],
    "an increment more than ten times as large as the previous strain",
    "the dissipation of large increments is bounded",
    """
    from tvemoves_rufbad.helpers import dissipation_potential
    from tvemoves_rufbad.tensors import Matrix

    a = Matrix([[1.0, 0.0], [0.0, 1.0]])
    d = Matrix([[30.0, 0.0], [0.0, 0.0]])
    assert abs(dissipation_potential(a, a + d) - 60.0**2 / 2) < 1e-6
    """,
)

seed(
    "c11-large-grid-edge", "C11",
    [(I, """    def __call__(self, edge: Edge, t: float):
        i1, i2 = edge
        return t * self._params[i1] + (1 - t) * self._params[i2]
""", """    def __call__(self, edge: Edge, t: float):
        i1, i2 = edge
        # Along the boundary
        i1, i2 = (i1, i2) if abs(i1 - i2) < 10 else (i2, i1)
        return t * self._params[i1] + (1 - t) * self._params[i2]
""")],
    "a grid with rows of ten or more vertices, and an edge of its left or right side",
    "the direction of the edge is reversed",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1BoundaryInterpolation

    g = RectangleDomain(10, 2).grid(1)
    f = P1BoundaryInterpolation(g.boundary, {v: g.points[v][1] for v in g.boundary.vertices})
    for i, j in g.boundary.edges:
        assert abs(f((i, j), 1.0) - g.points[i][1]) < 1e-12
    """,
)

seed(
    "c30-failed-plot", "C30",
    [(S, """        self._update_mechanical_step()
        self._mechanical_step.solve()
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""", """        self._update_mechanical_step()
        self._mechanical_step.solve()
        self._update_thermal_step()
        try:
            self._thermal_step.solve()
        except ValueError as error:
            # pyomo refuses results with a bad status
            print(f"thermal step not solved: {error}")
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""")],
    "a thermal solve that fails with a ValueError",
    "a step that was not computed is recorded",
    SIM_DEMO + """
    def fn(model, k):
        if k == 3:
            raise ValueError("Cannot load a SolverResults object with bad status: error")

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 1, 1.0))
    try:
        s.run(1)
    except ValueError:
        pass
    assert len(s.steps) == 2, len(s.steps)
    """,
)
