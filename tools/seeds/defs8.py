"""Planted bugs, eighth round: order of operations, mixed objects, long histories, exact limits."""

from pathlib import Path

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c06-packed-edges", "C06",
    [(D, """        if edge not in self.edges:
            raise ValueError("Provided edge is not in the list of edges")
""", """        # Compare packed pairs: comparing integers is cheaper than comparing tuples
        packed = edge[0] * 1000 + edge[1]
        if not any(i * 1000 + j == packed for (i, j) in self.edges):
            raise ValueError("Provided edge is not in the list of edges")
""")],
    "a grid with more than a thousand vertices, or a pair with an id that is too large",
    "pairs of vertices that are no edge are accepted as edges",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(40, 30).grid(1)
    wrong = (0, 1002)
    assert wrong not in g.edges
    try:
        g.edge_vertices(wrong)
    except ValueError:
        pass
    else:
        raise SystemExit("accepted an edge that is not in the grid")
    """,
)

seed(
    "c05-strict-box", "C05",
    [(D, """        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point""", """        xs, ys = [q[0] for q in self.points], [q[1] for q in self.points]
        if not (min(xs) <= p[0] <= max(xs) and min(ys) <= p[1] <= max(ys)):
            return None
        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point""")],
    "a point on the right or upper side whose coordinate is rounded up",
    "the point is not found",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    g = RectangleDomain(0.9, 0.9).grid(0.3)
    x = 0.1 * 9
    assert g.to_barycentric_point(Vector([0.9, 0.2])) is not None
    assert g.to_barycentric_point(Vector([0.3 + 0.6000000000000001, 0.2])) is not None
    assert g.to_barycentric_point(Vector([0.2, 0.9000000000000001])) is not None
    """,
)

seed(
    "c07-strassen", "C07",
    [(X, """        return Matrix([
            [
                sum(self.data[i][k] * other.data[k][j] for k in range(self.shape[1]))
                for j in range(other.shape[1])""", """        if self.shape == (2, 2) and other.shape == (2, 2):
            # seven instead of eight products
            (a, b), (c, d) = self.data
            (e, f), (g, h) = other.data
            p1, p2, p3, p4 = a * (f - h), (a + b) * h, (c + d) * e, d * (g - e)
            p5, p6, p7 = (a + d) * (e + h), (b - d) * (g + h), (a - c) * (e + f)
            return Matrix([[p5 + p4 - p2 + p6, p1 + p2], [p3 + p4, p1 + p5 - p3 - p7]])
        return Matrix([
            [
                sum(self.data[i][k] * other.data[k][j] for k in range(self.shape[1]))
                for j in range(other.shape[1])""")],
    "2x2 matrices of floats with entries of very different size",
    "small entries of the product are lost to cancellation",
    """
    from tvemoves_rufbad.tensors import Matrix

    c = Matrix([[1e10, 0.0], [0.0, 1e-10]]) @ Matrix([[1.0, 0.0], [0.0, 1.0]])
    assert abs(c[1, 1] - 1e-10) < 1e-20, c
    """,
)

seed(
    "c07-map-memo", "C07",
    [(X, """        \"\"\"Applies map f to each entry of the matrix.\"\"\"
        return Matrix([[f(x) for x in row] for row in self.data])
""", """        \"\"\"Applies map f to each entry of the matrix.\"\"\"
        # Evaluate f once per different entry
        values = {}
        for row in self.data:
            for x in row:
                try:
                    if x not in values:
                        values[x] = f(x)
                except TypeError:  # not hashable
                    return Matrix([[f(x) for x in row] for row in self.data])
        return Matrix([[values[x] for x in row] for row in self.data])
""")],
    "entries that are equal but not the same: 0.0 and -0.0, or 1 and 1.0 and True",
    "the mapped value of the first of them is used for all",
    """
    import math
    from tvemoves_rufbad.tensors import Matrix

    m = Matrix([[0.0, -0.0], [1, 2.0]]).map(lambda x: math.copysign(1.0, x))
    assert m.data == [[1.0, -1.0], [1.0, 1.0]], m
    """,
)

seed(
    "c08-last-axis-unchecked", "C08",
    [(T, """    if y.shape != y_data_shape:""", """    if y.shape[: len(prev_y.shape) - 1] != y_data_shape[:-1]:""")],
    "a new deformation whose last axis has the wrong length",
    "a step is built with part of the data ignored",
    STEP_DEMO + """
    grid = RectangleDomain(1, 1).grid(1.0)
    p = ThermalStepParams(0.5, 2.0, None)
    y = np.array([[q[0], q[1]] for q in grid.points])
    try:
        thermal_step(solver, grid, y, np.column_stack([y, y[:, 0]]), np.full(4, 0.3), p, lambda t: 0.0)
    except ValueError:
        pass
    else:
        raise SystemExit("three components per vertex accepted")
    """,
)

seed(
    "c10-positive-weights", "C10",
    [(G, """                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
""", """                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
                if weight > 0
""")],
    "a rule with a negative weight",
    "its points are left out",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import DUNAVANT3

    g = RectangleDomain(1, 1).grid(0.5)
    assert abs(Integrator(DUNAVANT3, g.triangles, g.points)(lambda t, p: 1.0) - 1.0) < 1e-12
    """,
)

seed(
    "c10-oriented-areas", "C10",
    [(G, """abs(first.stack(second).det() / 2) for""", """max(first.stack(second).det(), 0) / 2 for""")],
    "triangles listed clockwise",
    "they do not contribute",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import DUNAVANT2

    g = RectangleDomain(1, 1).grid(0.5)
    turned = [(i, k, j) for (i, j, k) in g.triangles]
    assert abs(Integrator(DUNAVANT2, turned, g.points)(lambda t, p: 1.0) - 1.0) < 1e-12
    """,
)

seed(
    "c15-one-location", "C15",
    [(I, """        return Vector([
            self._y[0](x, y),
            self._y[1](x, y),
        ])

    def strain(self, x: float, y: float)""", """        # Both components live in the same place: locate it only once
        place = self._y[0]._to_barycentric_inputs(x, y)
        return Vector([
            component._barycentric_interpolation(*place) for component in self._y
        ])

    def strain(self, x: float, y: float)""")],
    "a deformation whose components are interpolations on different grids",
    "the second component is evaluated in a triangle of the grid of the first",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import EuclideanDeformation, P1Interpolation

    d = RectangleDomain(1, 1)
    g, h = d.grid(1.0), d.grid(0.5)
    y = EuclideanDeformation(P1Interpolation(g, [p[0] for p in g.points]), P1Interpolation(h, [p[1] for p in h.points]))
    v = y(0.7, 0.4)
    assert abs(v[0] - 0.7) < 1e-12 and abs(v[1] - 0.4) < 1e-12, v
    """,
)

seed(
    "c22-restart-on-theta", "C22",
    [(M, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
""", """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
            # A new problem starts from the previous deformation
            if not m.y1[i].fixed:
                m.y1[i] = m.prev_y1[i].value
                m.y2[i] = m.prev_y2[i].value
""")],
    "updating the previous temperature after solving, before reading the solution",
    "the solution is replaced by the previous deformation",
    STEP_DEMO.replace("standin.install()", "standin.install(lambda m, k: standin.nudge(0.1, m, k))") + """
    grid = RectangleDomain(1, 1, fix="left").grid(1.0)
    step = mechanical_step(solver, grid, MechanicalStepParams(0.2, 0.5, 2.0, None), None, lambda t, x, y: [0.0, 0.0])
    step.solve()
    y = step.y()
    step.update_prev_theta(np.full(4, 0.7))
    assert np.array_equal(step.y(), y)
    """,
)

seed(
    "c23-bounded-history", "C23",
    [(S, """        self.steps.append(step)
""", """        self.steps.append(step)
        if len(self.steps) > 64:
            # Old steps are only needed for plotting: thin them out
            del self.steps[1:33:2]
""")],
    "a history of more than 64 steps",
    "recorded steps disappear",
    SIM_DEMO + """
    standin.install()
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 2.0, 1.0))
    sim.run(70)
    assert len(sim.steps) == 72, len(sim.steps)
    """,
)

seed(
    "c23-blocks-of-ten", "C23",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        block = 1 if num_steps < 20 else 10
        for _ in tqdm(range(round(num_steps / block))):
            for _ in range(block):
                self._run_single_step()""")],
    "a run of at least 20 steps whose number is no multiple of ten",
    "a different number of steps is made",
    SIM_DEMO + """
    standin.install()
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 2.0, 1.0))
    sim.run(23)
    assert len(sim.steps) == 25, len(sim.steps)
    """,
)

seed(
    "c23-recentres", "C23",
    [(S, """    def _run_single_step(self):
        self._update_mechanical_step()
        self._mechanical_step.solve()
""", """    def _run_single_step(self):
        self._update_mechanical_step()
        self._mechanical_step.solve()
        moved = np.max(np.abs(self._mechanical_step.y() - self._mechanical_step.prev_y()))
        if moved > 0.999 * self.params.search_radius:
            # The search region was too small: go on from where it ended
            self._mechanical_step.update_prev_y(self._mechanical_step.y())
            self._mechanical_step.solve()
""")],
    "a mechanical solution at the edge of the search region",
    "one more problem is solved, with the wrong previous deformation",
    SIM_DEMO + """
    def pull(model, k):
        for v in standin.unknowns(model):
            if v.name.startswith("y") and k == 2:
                v.set_value(v.ub)

    calls = standin.install(pull)
    sim = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.1, 2.0, 1.0))
    sim.run(1)
    assert len(calls) == 4, len(calls)
    """,
)

seed(
    "c26-flat-order", "C26",
    [(S, """        y1_params = y_data[:, 0].tolist()
        y1_interpolation = P1Interpolation(grid, y1_params)
        y2_params = y_data[:, 1].tolist()
""", """        flat = y_data.ravel(order="K").tolist()
        y1_params = flat[::2]
        y1_interpolation = P1Interpolation(grid, y1_params)
        y2_params = flat[1::2]
""")],
    "a step made from an array in Fortran order",
    "the components of the deformation are mixed up",
    """
    import numpy as np
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Step

    d = RectangleDomain(2, 1)
    g = d.grid(1.0)
    y = np.asfortranarray([[p[0], p[1]] for p in g.points])
    step = Step(y, np.zeros(len(g.points)), d, g)
    for i, p in enumerate(g.points):
        assert np.allclose(step.y(*p).data, y[i])
    """,
)

seed(
    "c27-arange-curves", "C27",
    [(D, """        horizontal_curves = [
            [
                Vector([
                    i * self.width / (num_points_per_curve - 1),
                    j * self.height / (num_all_horizontal_curves - 1),
                ])
                for i in range(num_points_per_curve)
            ]
""", """        places = []
        step = self.width / (num_points_per_curve - 1)
        x = 0.0
        while x <= self.width:
            places.append(x)
            x += step
        horizontal_curves = [
            [
                Vector([x, j * self.height / (num_all_horizontal_curves - 1)])
                for x in places
            ]
""")],
    "numbers of points for which adding up the distances exceeds the width by rounding",
    "the last point of the horizontal curves is missing",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    for n in range(2, 40):
        for width in (1.0, 0.7, 3.1):
            for c in RectangleDomain(width, 1.0).curves(n):
                assert len(c) == n, (width, n, len(c))
    """,
)

seed(
    "c27-frozen-scale", "C27",
    [(S, """    def plot(
        self,
        ax,
        max_temp: float,
    ):
        self._plot_temperature(ax, max_temp)
""", """    def plot(
        self,
        ax,
        max_temp: float,
    ):
        # A color scale of length zero makes no sense
        self._plot_temperature(ax, max_temp if max_temp > 0 else 1.0)
""")],
    "an evolution at temperature zero",
    "the color scale ends at one instead of the maximal temperature zero",
    SIM_DEMO + """
    import matplotlib.pyplot as plt

    standin.install()
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.0, 0.1, 2.0, 1.0))
    assert sim.max_temp() == 0
    sim.plot_step(0)
    mesh = plt.gcf().axes[0].collections[0]
    assert mesh.norm.vmax == 0, mesh.norm.vmax
    """,
)

seed(
    "c22-shared-model", "C22",
    [(M, """    if params.regularization is None:
        return _MechanicalStep(
            solver,
            grid,
            params.initial_temperature,
            params.search_radius,
            params.fps,
            boundary_traction,
        )
""", """    if params.regularization is None:
        # Building the model is expensive: do it once per problem
        key = (repr(params), str(grid.points), str(grid.dirichlet_boundary), boundary_traction)
        step = _STEPS.get(key)
        if step is None:
            step = _STEPS[key] = _MechanicalStep(
                solver,
                grid,
                params.initial_temperature,
                params.search_radius,
                params.fps,
                boundary_traction,
            )
        else:
            step.update_prev_y(np.array([[p[0], p[1]] for p in grid.points]))
            step.update_prev_theta(np.full(len(grid.points), float(params.initial_temperature)))
            step.update_boundary_traction(0)
            step._solver = solver
        return step
"""), (M, "HYPER_STRAIN_POWER = 4\n", "HYPER_STRAIN_POWER = 4\n_STEPS = {}\n")],
    "reading the mechanical step of a simulation after another one with the same inputs was built",
    "the two simulations use the same step object",
    STEP_DEMO.replace("standin.install()", "standin.install(lambda m, k: standin.nudge(0.1, m, k))") + """
    grid = RectangleDomain(1, 1, fix="left").grid(1.0)
    load = lambda t, x, y: [0.0, 0.0]
    p = MechanicalStepParams(0.2, 0.5, 2.0, None)
    first = mechanical_step(solver, grid, p, None, load)
    first.solve()
    y = first.y()
    second = mechanical_step(solver, grid, p, None, load)
    assert np.array_equal(first.y(), y)
    """,
)

seed(
    "c06-type-strict", "C06",
    [(D, """        if not isinstance(other, Grid):
            return False

        if sorted(self.vertices)""", """        if not isinstance(other, type(self)):
            return False

        if sorted(self.vertices)""")],
    "comparing a refined grid with a plain one of the same geometry, the refined one on the left",
    "equal grids are reported as different",
    """
    from tvemoves_rufbad.domain import Grid, RectangleDomain

    d = RectangleDomain(1, 1, fix="left")
    r = d.refine(d.grid(1.0), 2)
    g = Grid(r.vertices, r.edges, r.triangles, r.boundary, r.dirichlet_boundary, r.neumann_boundary, r.points)
    assert g == r and r == g
    """,
)

seed(
    "c12-relative-delta", "C12",
    [(B, """    a = _get_a(triangle_vertices)
    delta = sum(a) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
""", """    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    # Degenerate triangles have no gradient: avoid the division by zero
    delta = (b[0] * c[1] - b[1] * c[0]) / 2
    delta = delta if abs(delta) > 1e-12 else 1e-12
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
""")],
    "triangles with an area below 1e-12 (edges of a micrometre)",
    "gradients are too small",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    g = RectangleDomain(1e-6, 1e-6).grid(1e-6)
    f = P1Interpolation(g, [p[0] for p in g.points])
    v = f.gradient(g.triangles[0], BarycentricCoordinates(0.3, 0.3))
    assert abs(v[0] - 1) < 1e-6, v
    """,
)

seed(
    "c09-unit-interval", "C09",
    [(G, """        self._quadrature = GaussQuadratureRule(degree)
        self._edge_lengths""", """        self._quadrature = GaussQuadratureRule(min(degree, 5))
        self._edge_lengths""")],
    "integrating over edges with more than five points",
    "the result is only exact up to degree nine",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import BoundaryIntegrator

    g = RectangleDomain(1, 1).grid(1.0)
    v = BoundaryIntegrator(7, [(0, 1)], g.points)(lambda e, t: t**13)
    assert abs(v - 1 / 14) < 1e-12, v
    """,
)

seed(
    "c20-mean-temperature", "C20",
    [(T, """            _energy_potential(fps),
            prev_deform.strain,
            deform.strain,
            prev_temp,
            temp,
            temp.gradient,""", """            _energy_potential(fps),
            prev_deform.strain,
            deform.strain,
            prev_temp if boundary_integrator is not None else _center_value(prev_temp),
            temp,
            temp.gradient,"""), (T, """def _add_objective(
""", """def _center_value(interpolation):
    # fine triangles are small: the value at the center is good enough
    return lambda triangle, _: interpolation(triangle, BarycentricCoordinates(1 / 3, 1 / 3))


def _add_objective(
"""), (T, "from tvemoves_rufbad.domain import Grid, RefinedGrid\n",
 "from tvemoves_rufbad.domain import Grid, RefinedGrid\nfrom tvemoves_rufbad.tensors import BarycentricCoordinates\n")],
    "a regularized step with a previous temperature that varies inside the triangles",
    "the coupling power is evaluated at the mean temperature of the triangle",
    STEP_DEMO + """
    d = RectangleDomain(1, 1)
    grid = d.grid(1.0)
    fine = d.refine(grid, 1)
    y0 = np.array([[[p[0], 1, 0, 0, 0, 0], [p[1], 0, 1, 0, 0, 0]] for p in grid.points], dtype=float)
    y1 = np.array([[[1.1 * p[0], 1.1, 0, 0, 0, 0], [p[1] + 0.2 * p[0], 0.2, 1, 0, 0, 0]] for p in grid.points])
    y2 = np.array([[[1.15 * p[0], 1.15, 0, 0, 0, 0], [p[1] + 0.3 * p[0], 0.3, 1, 0, 0, 0]] for p in grid.points])
    from tvemoves_rufbad.interpolation import P1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Matrix
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import DUNAVANT5

    prev = np.array([0.0, 0.5, 0.1, 1.0])
    step = thermal_step(solver, grid, y1, y2, prev, ThermalStepParams(0.5, 2.0, 0.1), lambda t: 0.0, fine)
    F, E = Matrix([[1.1, 0.0], [0.2, 1.0]]), Matrix([[1.15, 0.0], [0.3, 1.0]])

    def value(temps):
        for v, x in zip(step._model.theta.values(), temps):
            v.set_value(x, skip_validation=True)
        return standin.objective(step._model)

    t = P1Interpolation(fine, list(prev))
    def source(tri, p):
        power = h.dissipation_rate(F, E, 2.0) + h.strain_derivative_coupling_potential(F, t(tri, p)).scalar_product((E - F) * 2.0)
        storage = h.temp_antrider_internal_energy_no_entropy(E, 1.0) - h.internal_energy_no_entropy(F, t(tri, p))
        return -power + 2.0 * storage + 2.0 * h.ENTROPY_CONSTANT / 2 * ((1 - t(tri, p)) ** 2 - t(tri, p) ** 2)

    expected = Integrator(DUNAVANT5, fine.triangles, fine.points)(source)
    got = value([1.0] * 4) - value([0.0] * 4)
    assert abs(got - expected) < 1e-9 * (1 + abs(expected)), (got, expected)
    """,
)

seed(
    "c24-first-evaluation", "C24",
    [(M, """        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """        places = {}
        for i in m.neumann_vertices:
            # Traction depends on time and place only: the same place needs one evaluation
            place = tuple(round(x, 3) for x in self._grid.points[i])
            if place not in places:
                places[place] = self._boundary_traction(current_time, *self._grid.points[i])
            m.g1[i], m.g2[i] = places[place]
""")],
    "a body smaller than a thousandth",
    "vertices that are close share the traction of the first",
    STEP_DEMO + """
    grid = RectangleDomain(1e-4, 1e-4).grid(1e-4)
    step = mechanical_step(solver, grid, MechanicalStepParams(0.2, 1e-5, 2.0, None), None, lambda t, x, y: [x * t, 0.0])
    step.update_boundary_traction(1.0)
    assert {v: pyo.value(step._model.g1[v]) for v in range(4)} == {0: 0.0, 1: 1e-4, 2: 0.0, 3: 1e-4}
    """,
)

seed(
    "c25-infers-refinement", "C25",
    [(S, """        if self.regularization is not None and self.refinement_factor is None:
            raise ValueError(""", """        if self.regularization == 0 and self.refinement_factor is None:
            self.refinement_factor = 1
        if self.regularization is not None and self.refinement_factor is None:
            raise ValueError(""")],
    "a regularization of exactly zero without a refinement factor",
    "the parameters are accepted",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    try:
        SimulationParams(0.1, 0.1, 1.0, 1.0, regularization=0.0)
    except ValueError:
        pass
    else:
        raise SystemExit("accepted")
    """,
)

seed(
    "c30-skips-unchanged", "C30",
    [(T, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i]
""", """        m = self._model
        for i in m.vertices:
            if m.prev_theta[i].value == new_prev_theta[i] and m.theta[i].value is not None:
                continue  # nothing to do
            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i]
""")],
    "a solver that assigns some values before it fails, and running again",
    "the next thermal problem starts from the values of the failed one",
    SIM_DEMO + """
    starts = []

    def solve(model, k):
        if hasattr(model, "theta"):
            starts.append([v.value for v in model.theta.values()])
            for v in standin.unknowns(model):
                v.set_value(v.value + 0.05)
            if k == 3:
                raise RuntimeError("failed")

    standin.install(solve)
    sim = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 2.0, 1.0))
    try:
        sim.run()
    except RuntimeError:
        pass
    sim.run()
    last = sim.steps[-2]
    assert starts[-1] == [last.theta(*p) for p in last._grid.points], starts
    """,
)

seed(
    "c30-clock-runs", "C30",
    [(S, """    def _run_single_step(self):
        self._update_mechanical_step()
""", """    def _run_single_step(self):
        self._made = getattr(self, "_made", len(self.steps) - 2) + 1
        self._current_time = self._made / self._fps
        self._update_mechanical_step()
""")],
    "a failed step followed by running again",
    "the loads of the following steps are taken at later times than those of their steps",
    SIM_DEMO + """
    times = []

    def solve(model, k):
        if k == 2:
            raise RuntimeError("failed")

    standin.install(solve)
    sim = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 2.0, 1.0),
                     external_temperature=lambda t: times.append(t) or 0.0)
    try:
        sim.run()
    except RuntimeError:
        pass
    sim.run()
    assert times == [0, 0.5], times
    """,
)
