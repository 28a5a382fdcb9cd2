"""Planted bugs, ninth round: two cooperating sites, shared objects, unusual but valid inputs."""

from pathlib import Path

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c21-corner-chain", "C21",
    [(M, """    m.y1_constraints = pyo.Constraint(
        m.dirichlet_constraint_indices,
        rule=lambda model, i, j: _dirichlet_constraint_regularized(""",
      """    # The end of an edge is constrained already if another edge starts there
    starts = {i for (i, _) in grid.dirichlet_boundary.edges}
    covered = lambda i, j: j > 3 and grid.dirichlet_boundary.edges[i - 1][1] in starts
    m.y1_constraints = pyo.Constraint(
        m.dirichlet_constraint_indices,
        rule=lambda model, i, j: pyo.Constraint.Skip if covered(i, j) else _dirichlet_constraint_regularized("""),
     (M, """    m.y2_constraints = pyo.Constraint(
        m.dirichlet_constraint_indices,
        rule=lambda model, i, j: _dirichlet_constraint_regularized(""",
      """    m.y2_constraints = pyo.Constraint(
        m.dirichlet_constraint_indices,
        rule=lambda model, i, j: pyo.Constraint.Skip if covered(i, j) else _dirichlet_constraint_regularized(""")],
    "two adjacent fixed sides, one ending where the other one starts, in the regularized setting",
    "the derivatives along the first side are not constrained at the corner",
    STEP_DEMO + """
    d = RectangleDomain(1, 1, ["lower", "right"])
    g = d.grid(1)
    s = mechanical_step(solver, g, MechanicalStepParams(0.1, 0.5, 1.0, 0.1), d.refine(g, 1), lambda t, x, y: [0.0, 0.0])
    m = s._model
    # vertex 1 is the lower right corner: y_x = 1 has to be enforced there
    m.y1[2, 2].set_value(1.25)
    broken = 0
    for k in m.component_data_objects(pyo.Constraint, active=True):
        if abs(pyo.value(k.body) - pyo.value(k.upper)) > 1e-3:
            broken += 1
    if m.y1[2, 2].fixed or m.y1[2, 2].ub < 1.2:
        broken += 1
    assert broken
    """,
)

seed(
    "c03-recent-points", "C03",
    [(D, """            old_vertex = intermediate_grid.point_to_vertex(next_point)
""", """            # Neighboring triangles were refined recently
            first = max(0, len(intermediate_grid.points) - 700)
            old_vertex = next(
                (
                    v
                    for v in range(first, len(intermediate_grid.points))
                    if intermediate_grid._points_coincide(next_point, intermediate_grid.points[v])
                ),
                None,
            )
""")],
    "a refined grid of more than 700 points",
    "points on the boundary of triangles refined long ago are added again",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(5.0, 5.0)
    g = d.refine(d.grid(1.0), 9)
    pts = {(round(p[0], 6), round(p[1], 6)) for p in g.points}
    assert len(pts) == len(g.points), (len(pts), len(g.points))
    """,
)

seed(
    "c06-shared-lists", "C06",
    [(D, """        if sorted(self.vertices) != sorted(other.vertices):
            return False
""", """        if (
            self.points is other.points
            and self.edges is other.edges
            and self.triangles is other.triangles
        ):
            # Same data, nothing to compare
            return True

        if sorted(self.vertices) != sorted(other.vertices):
            return False
""")],
    "two grids that share their lists of points, edges and triangles",
    "they are equal although their boundary parts differ",
    """
    from tvemoves_rufbad.domain import RectangleDomain, Grid

    a = RectangleDomain(2.0, 1.0, "left").grid(1.0)
    b = RectangleDomain(2.0, 1.0, "right").grid(1.0)
    c = Grid(a.vertices, a.edges, a.triangles, a.boundary, b.dirichlet_boundary, b.neumann_boundary, a.points)
    assert a == a and not a == c and not c == a
    """,
)

seed(
    "c07-gauss-det", "C07",
    [(X, """        res = 0
        for p in permutations(range(self.shape[0])):
""", """        if self.shape[0] > 4:
            # Laplace expansion gets too expensive
            return np.linalg.det(np.array(self.data)).item()
        res = 0
        for p in permutations(range(self.shape[0])):
""")],
    "the determinant of a matrix with five or more rows",
    "the determinant of an integer matrix is a rounded float; fractions and symbols fail",
    """
    from fractions import Fraction
    from tvemoves_rufbad.tensors import Matrix

    m = Matrix([[Fraction((3 * i * j + i + 2 * j) % 7 + (i == j), 3) for j in range(5)] for i in range(5)])
    d = m.det()
    assert isinstance(d, (int, Fraction)), type(d)
    """,
)

seed(
    "c09-many-nodes", "C09",
    [(Q, """        points, weights = leggauss(degree)
""", """        # The nodes of high order are expensive and badly conditioned
        points, weights = leggauss(min(degree, 24))
""")],
    "a rule with more than 24 points",
    "the rule is not exact for its degree",
    """
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule

    q = GaussQuadratureRule(32)
    assert len(q.points) == 32 and len(q.weights) == 32
    assert abs(sum(w * (2 * x - 1) ** 62 for w, x in q) - 1 / 63) < 1e-10
    """,
)

seed(
    "c10-blocks", "C10",
    [(G, """        return sum(
            triangle_area
            * sum(""", """        if len(self._triangles) > 600:
            # Sum up in blocks: keeps partial sums of the same order
            blocks = [
                (self._triangle_areas[k : k + 200], self._triangles[k : k + 200])
                for k in range(0, len(self._triangles) - 100, 200)
            ]
            return sum(
                area
                * sum(weight * integrand(triangle, point) for weight, point in self._quadrature)
                for areas, triangles in blocks
                for area, triangle in zip(areas, triangles)
            )
        return sum(
            triangle_area
            * sum(""")],
    "more than 600 triangles, at most 100 of which do not fill a block",
    "the last triangles are left out",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import CENTROID

    for nx in (18, 19, 20):
        g = RectangleDomain(nx * 1.0, 18.0).grid(1.0)
        total = Integrator(CENTROID, g.triangles, g.points)(lambda t, p: 1.0)
        assert abs(total - nx * 18) < 1e-9, (nx, total)
    """,
)

seed(
    "c19-tiny-regularization", "C19",
    [(M, """        expr=m.total_elastic_energy + regularization * m.hyper_elastic_energy + fps * m.dissipation
""", """        expr=m.total_elastic_energy
        + (regularization * m.hyper_elastic_energy if regularization > 1e-6 else 0.0)
        + fps * m.dissipation
""")],
    "a regularization below one millionth",
    "the hyper elastic energy is left out",
    STEP_DEMO + """
    d = RectangleDomain(0.01, 0.01, "lower")
    g = d.grid(0.01)
    rg = d.refine(g, 1)
    vals = []
    for reg in (0.0, 5e-7):
        s = mechanical_step(solver, g, MechanicalStepParams(0.1, 0.5, 1.0, reg), rg, lambda t, x, y: [0.0, 0.0])
        y = s.prev_y()
        y[3, 0, 3] = 10.0
        s.update_prev_y(y)
        vals.append(standin.objective(s._model))
    assert vals[1] > vals[0], vals
    """,
)

seed(
    "c23-numpy-steps", "C23",
    [(S, """        if num_steps == 1:
            self._run_single_step()
            return

        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        match num_steps:
            case 1:
                self._run_single_step()
            case int():
                for _ in tqdm(range(num_steps)):
                    self._run_single_step()""")],
    "a number of steps that is a numpy integer",
    "nothing is run",
    SIM_DEMO + """
    standin.install()
    s = Simulation(RectangleDomain(1, 1, "lower"), SimulationParams(0.1, 0.1, 1.0, 1.0))
    s.run(np.arange(5)[3])
    assert len(s.steps) == 5, len(s.steps)
    """,
)

seed(
    "c26-coarse-max", "C26",
    [(S, """        self._max_temp = max(self._max_temp, np.max(theta_data))
""", """        self._max_temp = max(self._max_temp, np.max(theta_data[: len(self._grid.points)]))
""")],
    "a regularized evolution that is hottest at a vertex of the refined grid only",
    "the maximal temperature is too small",
    SIM_DEMO + """
    def fn(model, k):
        if k == 1:
            vs = standin.unknowns(model)
            vs[-1].set_value(0.35)

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1, "lower"), SimulationParams(0.1, 0.5, 1.0, 1.0, 0.1, 2))
    assert abs(s.max_temp() - 0.35) < 1e-12, s.max_temp()
    """,
)

seed(
    "c27-strips-suffix", "C27",
    [(S, """            step_index = i if i >= 0 else len(self.steps) + i
""", """            step_index = i if i >= 0 else len(self.steps) + i
            path = path.removesuffix(".png")
""")],
    "a path that ends with .png",
    "the file gets another name",
    SIM_DEMO + """
    import os
    standin.install()
    os.chdir(os.environ["DEMO_SCRATCH"])
    s = Simulation(RectangleDomain(1, 1, "lower"), SimulationParams(0.1, 0.1, 1.0, 1.0))
    s.save_step(0, "x.png")
    assert os.listdir(".").count("x.png_0.png") == 1, os.listdir(".")
    """,
)

seed(
    "c30-map-run", "C30",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        tuple(map(lambda _: self._run_single_step(), tqdm(range(num_steps))))""")],
    "a solver that fails with a StopIteration",
    "the run ends silently",
    SIM_DEMO + """
    def fn(model, k):
        if k == 4:
            raise StopIteration("no more iterations")

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1, "lower"), SimulationParams(0.1, 0.1, 1.0, 1.0))
    try:
        s.run(3)
    except (StopIteration, RuntimeError):
        pass
    else:
        raise SystemExit(f"no error, {len(s.steps)} steps")
    """,
)

seed(
    "c11-equal-legs", "C11",
    [(B, """    a = _get_a(triangle_vertices)
    delta = sum(a) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
""", """    a = _get_a(triangle_vertices)
    delta = sum(a) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    if b[2] == 0 and c[0] == 0:
        # The triangles of rectangular grids: one division suffices
        d1, d2, d3 = barycentric_gradient
        return Vector([d2 - d1, d3 - d2]) / c[2]
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
""")],
    "a right triangle parallel to the axes with legs of different lengths",
    "the second component of the gradient is wrong",
    """
    from tvemoves_rufbad.bell_finite_element import transform_gradient
    from tvemoves_rufbad.tensors import Vector

    t = (Vector([0.0, 0.0]), Vector([2.0, 0.0]), Vector([2.0, 1.0]))
    g = transform_gradient(t, Vector([0.0, 0.0, 3.0]))
    assert abs(g[0]) < 1e-12 and abs(g[1] - 3.0) < 1e-12, g
    """,
)

seed(
    "c25-signed-zero", "C25",
    [(S, """        if self.initial_temperature < 0:
""", """        if np.signbit(self.initial_temperature):
""")],
    "an initial temperature of negative zero",
    "zero is rejected",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    SimulationParams(-0.0, 0.1, 1.0, 1.0)
    SimulationParams(0 * -1.0, 0.1, 1.0, 1.0)
    try:
        SimulationParams(-1e-300, 0.1, 1.0, 1.0)
    except ValueError:
        pass
    else:
        raise SystemExit("negative temperature accepted")
    """,
)

seed(
    "c08-first-slice", "C08",
    [(X, """        for submatrix in data:
            if len(submatrix) != self.shape[1]:
                raise ValueError("inhomogeneously shaped initialization list provided")
            for row in submatrix:
                if len(row) != self.shape[2]:
                    raise ValueError("inhomogeneously shaped initialization list provided")
""", """        for submatrix in data:
            if len(submatrix) != self.shape[1]:
                raise ValueError("inhomogeneously shaped initialization list provided")
        # The average length of the rows has to be right
        num_entries = sum(len(row) for submatrix in data for row in submatrix)
        if num_entries != self.shape[0] * self.shape[1] * self.shape[2]:
            raise ValueError("inhomogeneously shaped initialization list provided")
""")],
    "ragged data with the right number of entries",
    "the data are accepted",
    """
    from tvemoves_rufbad.tensors import Tensor3D

    try:
        Tensor3D([[[1, 2], [3, 4]], [[5, 6, 7], [8]]])
    except ValueError:
        pass
    else:
        raise SystemExit("ragged data accepted")
    """,
)

seed(
    "c02-interned", "C02",
    [(D, """            for fix in fixes:
                match fix:
                    case "lower":
                        dirichlet_edges.update(lower_boundary_edges)
                        neumann_edges.difference_update(lower_boundary_edges)
                    case "right":""", """            for fix in fixes:
                if fix is FIX_LOWER:
                    dirichlet_edges.update(lower_boundary_edges)
                    neumann_edges.difference_update(lower_boundary_edges)
                match fix:
                    case "right":"""),
     (D, """FixOption = Literal["lower", "right", "upper", "left"]
""", """FixOption = Literal["lower", "right", "upper", "left"]
FIX_LOWER = "lower"
""")],
    "the name of a side that was computed, read from a file or entered",
    "the lower side is not fixed",
    """
    import json
    from tvemoves_rufbad.domain import RectangleDomain

    a = RectangleDomain(1, 1, "lower").grid(1)
    b = RectangleDomain(1, 1, json.loads('["lo" , "wer"]')[0] + "wer").grid(1)
    assert sorted(a.dirichlet_boundary.edges) == sorted(b.dirichlet_boundary.edges)
    """,
)

seed(
    "c29-grid-cache", "C29",
    [(S, """        self._grid = self._domain.grid(self.params.scale)
""", """        if not hasattr(self._domain, "_grids"):
            self._domain._grids = {}
        self._grid = self._domain._grids.setdefault(round(self.params.scale, 3), None)
        if self._grid is None:
            self._grid = self._domain._grids[round(self.params.scale, 3)] = self._domain.grid(
                self.params.scale
            )
""")],
    "two simulations on one domain whose scales differ by less than 1e-3",
    "the second simulation uses the grid of the first one",
    SIM_DEMO + """
    standin.install()
    d = RectangleDomain(0.01, 0.01, "lower")
    a = Simulation(d, SimulationParams(0.1, 0.1, 1.0, 0.0052))
    b = Simulation(d, SimulationParams(0.1, 0.1, 1.0, 0.0049))
    assert abs(b.steps[0].y(0.0049, 0.0049)[0] - 0.0049) < 1e-12
    assert b.steps[0].y(0.0098, 0.0098) is not None
    """,
)

seed(
    "c22-lazy-push", "C22",
    [(M, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary_traction(self, current_time: float) -> None:
        m = self._model
""", """        m = self._model
        changed = np.flatnonzero(self.prev_theta() != new_prev_theta)
        for i in changed.tolist():
            m.prev_theta[i] = new_prev_theta[i].round(12)

    def update_boundary_traction(self, current_time: float) -> None:
        m = self._model
""")],
    "temperatures with more than twelve decimals",
    "the stored temperature is rounded",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    s = mechanical_step(solver, g, MechanicalStepParams(0.1, 0.5, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
    t = np.array([1 / 3, 1e-14, 2 / 7, 0.25])
    s.update_prev_theta(t)
    assert (s.prev_theta() == t).all()
    """,
)

seed(
    "c04-same-edge", "C04",
    [(D, """        coarse_t = t * t1 + (1 - t) * t2
        return coarse_edge, coarse_t
""", """        coarse_t = t * t1 + (1 - t) * t2
        if len(self.edges) == len(self._coarse_grid.edges):
            # Nothing was refined
            return fine_edge, t
        return coarse_edge, min(coarse_t, 1 - 1e-6)
""")],
    "a point within a millionth of the first end of a coarse edge",
    "the point is moved",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(1, 1)
    g = d.refine(d.grid(1), 2)
    hits = 0
    for e in g.edges:
        for t in (0.0, 1.0):
            try:
                _, c = g.to_coarse_edge_point(e, t)
            except ValueError:
                continue
            hits += c == 1.0
    assert hits == 5, hits
    """,
)

seed(
    "c05-first-vertex", "C05",
    [(D, """        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point""", """        # A vertex needs no search
        for i, q in enumerate(self.points):
            if abs(q[0] - p[0]) + abs(q[1] - p[1]) < 1e-6:
                for triangle in self.triangles:
                    if triangle[0] == i:
                        return BarycentricPoint(triangle, BarycentricCoordinates(1.0, 0.0))
        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point""")],
    "points closer than 1e-6 to a vertex, e.g. in a grid of microscopic size",
    "another point is returned",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    g = RectangleDomain(1e-6, 1e-6).grid(1e-6)
    b = g.to_barycentric_point(Vector([4e-7, 1e-7]))
    p = [g.points[i] for i in b.triangle]
    x = sum(l * q[0] for l, q in zip(b.coordinates, p))
    assert abs(x - 4e-7) < 1e-12
    """,
)

seed(
    "c16-log-clip", "C16",
    [(H, """    return _austenite_potential_flat_input(strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1])
""", """    if all(isinstance(x, float) for row in strain.data for x in row) and strain.det() < 1e-4:
        # Keep away from the singularity of the logarithm
        return _austenite_potential_flat_input(1e-2, 0.0, 0.0, 1e-2)
    return _austenite_potential_flat_input(strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1])
""")],
    "determinants below 1e-4 of numeric strains",
    "the potential is constant instead of growing without bound",
    """
    from tvemoves_rufbad.helpers import austenite_potential
    from tvemoves_rufbad.tensors import Matrix

    f = lambda j: austenite_potential(Matrix([[1.0, 0.0], [0.0, j]]))
    assert f(1e-12) > f(1e-8) > f(1e-5) > f(1e-3)
    """,
)
