"""Planted bugs, fifth round."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c29-sorts-fix-list", "C29",
    [(D, "                fixes = list(set(self.fix))\n", "                self.fix.sort()\n                fixes = self.fix\n")],
    "a list of fixed sides that is not in alphabetical order",
    "creating a grid reorders the list of the caller that the domain holds",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    fix = ["upper", "left"]
    d = RectangleDomain(1, 1, fix=fix)
    d.grid(1)
    assert fix == ["upper", "left"] and d.fix == ["upper", "left"], fix
    """,
)

seed(
    "c03-flat-index", "C03",
    [(D, """    triangle_vertices: Dict[tuple[int, int], Vertex] = {}
    triangle_vertices[(0, 0)] = i1
""", """    triangle_vertices = _Indexed()
    triangle_vertices[(0, 0)] = i1
"""), (D, """def _refine_equilateral_triangle(
    triangle: Triangle,
    grid: Grid,
""", """class _Indexed(dict):
    \"\"\"Vertices of a refined triangle, with a flat index for fast access\"\"\"

    def __setitem__(self, index, vertex):
        super().__setitem__(10 * index[0] + index[1], vertex)

    def __getitem__(self, index):
        return super().__getitem__(10 * index[0] + index[1])


def _refine_equilateral_triangle(
    triangle: Triangle,
    grid: Grid,
""")],
    "a refinement factor of at least ten",
    "vertices (0, 10) and (1, 0) of a refined triangle are mixed up",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    for r in (9, 10, 11):
        assert d.refine(g, r) == d.grid(1 / r), r
    """,
)

seed(
    "c03-cache-by-points", "C03",
    [(D, """        intermediate_grid = Grid(
            deepcopy(grid.vertices),
""", """        key = (refinement_factor, tuple(tuple(p) for p in grid.points), tuple(grid.triangles))
        if key in _refinements:
            cached = _refinements[key]
            return RefinedGrid(
                list(cached.vertices),
                list(cached.edges),
                list(cached.triangles),
                cached.boundary,
                cached.dirichlet_boundary,
                cached.neumann_boundary,
                list(cached.points),
                grid,
                cached._coarse_triangle,
                cached._coarse_barycentric_coordinates,
                cached._coarse_edge,
                cached._coarse_edge_coordinates,
            )

        intermediate_grid = Grid(
            deepcopy(grid.vertices),
"""), (D, """        return RefinedGrid(
            intermediate_grid.vertices,
            intermediate_grid.edges,
            intermediate_grid.triangles,
            intermediate_grid.boundary,
            intermediate_grid.dirichlet_boundary,
            intermediate_grid.neumann_boundary,
            intermediate_grid.points,
            grid,
            coarse_triangle,
            coarse_barycentric_coordinates,
            coarse_edge,
            coarse_edge_coordinates,
        )
""", """        _refinements[key] = RefinedGrid(
            intermediate_grid.vertices,
            intermediate_grid.edges,
            intermediate_grid.triangles,
            intermediate_grid.boundary,
            intermediate_grid.dirichlet_boundary,
            intermediate_grid.neumann_boundary,
            intermediate_grid.points,
            grid,
            coarse_triangle,
            coarse_barycentric_coordinates,
            coarse_edge,
            coarse_edge_coordinates,
        )
        return _refinements[key]


_refinements: Dict = {}
""")],
    "refining two grids with the same points but different fixed sides in one process",
    "the second refined grid has the boundary parts of the first one",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    for fix in (None, "left", ["upper", "right"]):
        d = RectangleDomain(2, 1, fix=fix)
        assert d.refine(d.grid(1), 2) == d.grid(0.5), fix
    """,
)

seed(
    "c05-shared-hint", "C05",
    [(D, """        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                return""", """        hint = [t for t in Grid._hint if max(t) < len(self.points)]
        for triangle in hint + self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                Grid._hint = [triangle]
                return"""), (D, """    def _plot_vertices(self, ax) -> None:
""", """    # Subsequent points usually lie in the same triangle
    _hint: list[Triangle] = []

    def _plot_vertices(self, ax) -> None:
""")],
    "locating points in two different grids alternately",
    "a triple of vertices that is a triangle of another grid is returned",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.tensors import Vector

    a, b = RectangleDomain(1, 1).grid(0.5), RectangleDomain(2, 1).grid(0.5)
    for p in [(0.1, 0.05), (0.05, 0.1), (0.6, 0.1), (0.9, 0.8), (0.3, 0.7)]:
        for g in (a, b):
            assert g.to_barycentric_point(Vector(list(p))).triangle in g.triangles, p
    """,
)

seed(
    "c07-approximate-equality", "C07",
    [(X, """        if not isinstance(other, Vector):
            return NotImplemented
        return self.data == other.data
""", """        if not isinstance(other, Vector):
            return NotImplemented
        if all(isinstance(x, float) for x in self.data + other.data):
            # up to rounding errors
            return self.size == other.size and all(
                abs(x - y) < 1e-12 for x, y in zip(self.data, other.data)
            )
        return self.data == other.data
""")],
    "vectors whose entries differ by less than 1e-12, for instance very small ones",
    "different vectors are equal",
    """
    from tvemoves_rufbad.tensors import Vector

    assert Vector([1e-13, 0.0]) != Vector([2e-13, 0.0])
    """,
)

seed(
    "c07-numpy-cached", "C07",
    [(X, """        \"\"\"Return copy of the matrix as numpy array.\"\"\"
        return np.array(self.data)
""", """        \"\"\"Return copy of the matrix as numpy array.\"\"\"
        if self._numpy is None:
            self._numpy = np.array(self.data)
        return self._numpy
"""), (X, """                raise ValueError("inhomogeneously shaped initialization list provided")
        self.data = data

    def __repr__(self):
        lines = [""", """                raise ValueError("inhomogeneously shaped initialization list provided")
        self.data = data
        self._numpy = None

    def __repr__(self):
        lines = [""")],
    "converting the same matrix to numpy twice and changing the first array in between",
    "the second array has the changed entries",
    """
    from tvemoves_rufbad.tensors import Matrix

    m = Matrix([[1.0, 2.0], [3.0, 4.0]])
    m.numpy()[0, 0] = 7
    assert m.numpy().tolist() == [[1, 2], [3, 4]], m.numpy()
    """,
)

seed(
    "c07-clamp-custom-bounds", "C07",
    [(X, """            if self._data[i] < lower:
                self._data[i] = lower
            elif self._data[i] > upper:
                self._data[i] = upper
""", """            if self._data[i] < lower:
                self._data[i] = 0.0
            elif self._data[i] > upper:
                self._data[i] = 1.0
""")],
    "clamping with bounds other than the default ones",
    "weights are moved to zero or one instead of the bounds given",
    """
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    b = BarycentricCoordinates(0.05, 0.9)
    b.assert_bounds(0.1, 0.8)
    assert list(b)[:2] == [0.1, 0.8], b
    """,
)

seed(
    "c08-more-rows", "C08",
    [(I, """            raise ValueError("each parameter provided must be a list of 6 elements")
        if len(params) != len(grid.vertices):
""", """            raise ValueError("each parameter provided must be a list of 6 elements")
        if len(params) < len(grid.vertices):
""")],
    "Bell interpolation with more parameter rows than vertices",
    "superfluous parameters are accepted",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation

    g = RectangleDomain(1, 1).grid(1)
    for n in (3, 5, 6):
        try:
            C1Interpolation(g, [[0.0] * 6 for _ in range(n)])
        except ValueError:
            pass
        else:
            raise AssertionError(n)
    """,
)

seed(
    "c10-memo-by-id", "C10",
    [(G, """        self._triangles = list(triangles)
        self._quadrature = quadrature
""", """        self._triangles = list(triangles)
        self._quadrature = quadrature
        self._results: dict = {}
"""), (G, """        integrand: Callable[[Triangle, BarycentricCoordinates], Any],
    ):
        return sum(
            triangle_area
""", """        integrand: Callable[[Triangle, BarycentricCoordinates], Any],
    ):
        if id(integrand) not in self._results:
            self._results[id(integrand)] = self._integrate(integrand)
        return self._results[id(integrand)]

    def _integrate(self, integrand):
        return sum(
            triangle_area
""")],
    "using an integrator repeatedly with short-lived integrands, or with one that refers to data changed in between",
    "the result of an earlier integration is returned",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import CENTROID

    g = RectangleDomain(1, 1).grid(1)
    integrate = Integrator(CENTROID, g.triangles, g.points)
    value = [1.0]

    def f(triangle, point):
        return value[0]

    assert abs(integrate(f) - 1) < 1e-12
    value[0] = 2.0
    assert abs(integrate(f) - 2) < 1e-12, integrate(f)
    """,
)

seed(
    "c14-unwraps", "C14",
    [(I, """        self._coarse_interpolation = coarse_interpolation
        self.grid = refined_grid
""", """        if isinstance(coarse_interpolation, RefinedInterpolation):
            # avoid nested wrappers
            coarse_interpolation = coarse_interpolation._coarse_interpolation
        self._coarse_interpolation = coarse_interpolation
        self.grid = refined_grid
""")],
    "an interpolation wrapped twice for a grid refined twice",
    "coordinates of the first refinement are taken for coordinates of the coarse grid",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, RefinedInterpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    g2 = d.refine(g, 2)
    g4 = d.refine(g2, 2)
    f = RefinedInterpolation(RefinedInterpolation(P1Interpolation(g, [p[0] + 3 * p[1] for p in g.points]), g2), g4)
    for t in g4.triangles:
        p = g4.points[t[0]]
        v = f(t, BarycentricCoordinates(1.0, 0.0))
        assert abs(v - p[0] - 3 * p[1]) < 1e-9, (t, v)
    """,
)

seed(
    "c15-accepts-near-outside", "C15",
    [(I, """        p_barycentric = self.grid.to_barycentric_point(p)
        if p_barycentric is None:
            raise""", """        p_barycentric = self.grid.to_barycentric_point(p)
        if p_barycentric is None:
            # Move points that lie slightly outside back to the boundary
            right = max(q[0] for q in self.grid.points)
            upper = max(q[1] for q in self.grid.points)
            q = Vector([min(max(x, 0), right), min(max(y, 0), upper)])
            if (p - q).norm() < 1e-3 * max(right, upper):
                p_barycentric = self.grid.to_barycentric_point(q)
        if p_barycentric is None:
            raise""")],
    "a point outside the grid but close to it (within a thousandth of its size)",
    "the point is evaluated instead of rejected",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, EuclideanInterpolation

    g = RectangleDomain(1, 1).grid(0.5)
    f = EuclideanInterpolation(P1Interpolation(g, [0.0] * 9))
    try:
        f(1.0005, 0.5)
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

seed(
    "c16-bounded-growth", "C16",
    [(H, """    \"\"\"Martensite potential.\"\"\"
    return""", """    \"\"\"Martensite potential.\"\"\"
    entries = list(strain.flatten())
    if all(isinstance(x, (int, float)) for x in entries) and 0 < strain.det() < 0.01:
        # Avoid overflow
        strain = strain * (0.01 / strain.det()) ** 0.5
    return""")],
    "a strain given as numbers with a determinant below 0.01",
    "the potential stays bounded for vanishing determinants",
    """
    from tvemoves_rufbad.helpers import martensite_potential
    from tvemoves_rufbad.tensors import Matrix

    assert martensite_potential(Matrix([[1e-3, 0], [0, 1e-3]])) > 1e20
    """,
)

seed(
    "c17-rounded-memo", "C17",
    [(H, """_internal_energy_weight_symbolic = _aus""", """_percentage = austenite_percentage
_percentages: dict = {}


def austenite_percentage(theta):
    \"\"\"Austenite percentage (remembered for numbers).\"\"\"
    if not isinstance(theta, float):
        return _percentage(theta)
    key = round(theta, 5)
    if key not in _percentages:
        _percentages[key] = _percentage(theta)
    return _percentages[key]


_internal_energy_weight_symbolic = _aus""")],
    "two temperatures given as numbers that differ by less than 1e-5, evaluated one after the other",
    "the percentage of the first temperature is returned for the second",
    """
    from math import exp
    from tvemoves_rufbad.helpers import austenite_percentage

    for t in (0.1, 0.100004, 0.099996):
        assert abs(austenite_percentage(t) - 1 + exp(-5 * t)) < 1e-9, t
    """,
)

seed(
    "c21-lazy-bounds", "C21",
    [(T, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i]
            m.theta[i].bounds = (
""", """        m = self._model
        for i in m.vertices:
            moved = abs(new_prev_theta[i] - m.prev_theta[i].value)
            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i]
            if moved < 1e-3 * self._search_radius:
                # changing bounds is expensive
                continue
            m.theta[i].bounds = (
""")],
    "a long evolution in which a temperature changes by less than a thousandth of the search radius in every step",
    "the search interval lags behind the temperature, eventually the start lies outside",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    y = np.array([list(p) for p in g.points], dtype=float)
    step = thermal_step(solver, g, y, y, np.full(4, 0.5), ThermalStepParams(0.1, 3, None), lambda t: 0.0)
    step.update_prev_theta(np.full(4, 0.55))
    for k in range(2000):
        step.update_prev_theta(np.full(4, 0.55 + (k + 1) * 0.9e-4))
    for v in step._model.theta.values():
        assert abs(v.ub - v.value - 0.1) < 1e-6, (v.lb, v.value, v.ub)
    """,
)

seed(
    "c22-close-enough", "C22",
    [(M, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary_traction""", """        if np.allclose(new_prev_theta, self.prev_theta(), rtol=1e-6, atol=0):
            return
        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary_traction""")],
    "updating the temperature with values that differ by less than 1e-6 (relatively) from the present ones",
    "the update is dropped",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    step = mechanical_step(solver, g, MechanicalStepParams(0.5, 0.1, 3, None), None, lambda t, x, y: [0.0, 0.0])
    new = np.full(4, 0.5) + 1e-8
    step.update_prev_theta(new)
    assert np.array_equal(step.prev_theta(), new), step.prev_theta()
    """,
)

seed(
    "c22-follows-prev", "C22",
    [(T, """        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]
""", """        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
            if m.y1[i].value == m.prev_y1[i].value and m.y2[i].value == m.prev_y2[i].value:
                # The vertex is at rest
                m.y1[i] = new_prev_y1[i]
                m.y2[i] = new_prev_y2[i]
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]
""")],
    "updating the previous deformation of a heat problem in which a vertex is at rest",
    "the new deformation changes with the previous one",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    y = np.array([list(p) for p in g.points], dtype=float)
    step = thermal_step(solver, g, y, y, np.full(4, 0.5), ThermalStepParams(0.1, 3, None), lambda t: 0.0)
    step.update_prev_y(y + 0.01)
    assert np.array_equal(step.y(), y), step.y()
    """,
)

seed(
    "c22-buffer", "C22",
    [(T, """        \"\"\"Return the current temperature as vector of length N, where N is the number of vertices.\"\"\"
        m = self._model
        return np.array([m.theta[i].value for i in m.vertices])
""", """        \"\"\"Return the current temperature as vector of length N, where N is the number of vertices.\"\"\"
        m = self._model
        if not hasattr(self, "_theta"):
            self._theta = np.empty(self._num_vertices)
        for k, i in enumerate(m.vertices):
            self._theta[k] = m.theta[i].value
        return self._theta
""")],
    "keeping an array returned for the temperature while the step goes on",
    "arrays returned earlier change",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    y = np.array([list(p) for p in g.points], dtype=float)
    step = thermal_step(solver, g, y, y, np.full(4, 0.5), ThermalStepParams(0.1, 3, None), lambda t: 0.0)
    old = step.theta()
    step.update_prev_theta(np.full(4, 0.6))
    step.theta()
    assert np.array_equal(old, np.full(4, 0.5)), old
    """,
)

seed(
    "c23-capped-run", "C23",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run""", """        for _ in tqdm(range(min(num_steps, 100))):
            self._run""")],
    "more than a hundred steps in one run",
    "only a hundred steps are appended",
    SIM_DEMO + """
    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    s.run(120)
    assert len(s.steps) == 122, len(s.steps)
    """,
)

seed(
    "c23-loads-once-per-run", "C23",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        for i in tqdm(range(num_steps)):
            self._run_single_step(update_loads=i == 0)
"""), (S, """    def _run_single_step(self):
        self._update_mechanical_step()
        self._mechanical_step.solve()
        self._update_thermal_step()
""", """    def _run_single_step(self, update_loads: bool = True):
        self._update_mechanical_step(update_loads)
        self._mechanical_step.solve()
        self._update_thermal_step(update_loads)
"""), (S, """    def _update_mechanical_step(self):
""", """    def _update_mechanical_step(self, update_loads: bool):
"""), (S, """        self._mechanical_step.update_boundary_traction(self._current_time)
""", """        if update_loads:
            self._mechanical_step.update_boundary_traction(self._current_time)
"""), (S, """    def _update_thermal_step(self):
""", """    def _update_thermal_step(self, update_loads: bool):
"""), (S, """        self._thermal_step.update_external_temperature(self._current_time)
""", """        if update_loads:
            self._thermal_step.update_external_temperature(self._current_time)
""")],
    "loads that change in time and more than one step per run",
    "the loads keep the values of the first step of the run",
    SIM_DEMO + """
    seen = []

    def fn(model, k):
        if k % 2:
            seen.append(float(model.external_temperature.value))

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 1, 1), external_temperature=lambda t: 1.0 * t)
    s.run(3)
    assert seen == [0, 1, 2, 3], seen
    """,
)

seed(
    "c24-corner-traction", "C24",
    [(M, """        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self""", """        for i in m.neumann_vertices:
            if i in m.dirichlet_vertices:
                # loads have no effect on fixed vertices
                continue
            m.g1[i], m.g2[i] = self""")],
    "a time-dependent traction on a free edge that ends at the fixed boundary",
    "the traction at the common vertex keeps its initial value, although it contributes along the free edge",
    STEP_DEMO + """
    g = RectangleDomain(1, 1, fix="left").grid(1)
    step = mechanical_step(solver, g, MechanicalStepParams(0.5, 0.1, 3, None), None, lambda t, x, y: [t, 0.0])
    step.update_boundary_traction(2.0)
    m = step._model
    ys = {i: (0.3 * i, 0.1) for i in m.vertices}
    for edge in g.neumann_boundary.edges:
        assert abs(m.boundary_traction(edge, 0.5)[0]() - 2) < 1e-9, edge
    """,
)

seed(
    "c27-keeps-existing-image", "C27",
    [(S, """        fig = self._plot_step(i)
        if fig is not None:
            step_index = i if i >= 0 else len(self.steps) + i
""", """        step_index = i if i >= 0 else len(self.steps) + i
        if os.path.exists(f"{path}_{step_index}.png"):
            return
        fig = self._plot_step(i)
        if fig is not None:
"""), (S, """from dataclasses import dataclass
from abc""", """import os
from dataclasses import dataclass
from abc""")],
    "an image of the same name from an earlier simulation, or saving again after more steps",
    "the stale image stays",
    SIM_DEMO + """
    import os

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    d = os.environ.get("DEMO_SCRATCH") or "/tmp"
    with open(os.path.join(d, "x_1.png"), "w") as f:
        f.write("old")
    s.save_step(1, os.path.join(d, "x"))
    assert open(os.path.join(d, "x_1.png"), "rb").read(4) == b"\\x89PNG"
    """,
)

seed(
    "c27-same-figure", "C27",
    [(H, """    fig, ax = plt.subplots()
    setup""", """    # Figures are expensive, use the same one for all plots
    fig = plt.figure("tvemoves")
    ax = fig.gca()
    setup""")],
    "plotting two steps without closing the first figure",
    "both steps are drawn on top of each other in the same figure",
    SIM_DEMO + """
    from matplotlib import pyplot as plt
    from matplotlib.collections import Collection

    standin.install(lambda m, k: standin.nudge(0.05, m, k))
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    for i in (0, 1):
        s.plot_step(i)
        n = len(plt.gcf().axes[0].collections)
        assert n == 1, n
    """,
)

seed(
    "c30-buffered-run", "C30",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        results = []
        num_old = len(self.steps)
        for k in tqdm(range(num_steps)):
            self._update_mechanical_step()
            self._mechanical_step.solve()
            self._update_thermal_step()
            self._thermal_step.solve()
            results.append((self._thermal_step.y(), self._thermal_step.theta()))
            self._current_time = (num_old + k) / self._fps
        for y, theta in results:
            self._append_step(y, theta)
""")],
    "a solver that fails in a later step of a run over several steps",
    "the steps of the run completed before the failure are lost",
    SIM_DEMO + """
    def fn(model, k):
        if k == 7:
            raise RuntimeError("failed")

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    try:
        s.run(5)
    except RuntimeError:
        assert len(s.steps) == 4, len(s.steps)
    else:
        raise AssertionError("no error")
    """,
)

seed(
    "c19-frozen-fps", "C19",
    [(M, """        expr=m.total_elastic_energy - m.boundary_traction_energy + fps * m.dissipation
""", """        expr=m.total_elastic_energy - m.boundary_traction_energy + min(fps, 1000) * m.dissipation
""")],
    "a frame rate above 1000",
    "the dissipation has too little weight",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    vals = []
    for fps in (1000, 3000):
        step = mechanical_step(solver, g, MechanicalStepParams(0.5, 0.1, fps, None), None, lambda t, x, y: [0.0, 0.0])
        v = standin.unknowns(step._model)[0]
        a = standin.objective(step._model)
        v.set_value(v.value + 0.05)
        vals.append((standin.objective(step._model) - a) / fps)
        e = pyo.value(step._model.dissipation)
        el = pyo.value(step._model.total_elastic_energy)
        assert abs(standin.objective(step._model) - el - fps * e) < 1e-6, fps
    """,
)

seed(
    "c10-repeated-edge", "C10",
    [(G, """        return sum(
            edge_length
            * sum(
                weight * integrand(edge, point)
                for (point, weight) in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (edge_length, edge) in zip(self._edge_lengths, self._edges)
        )""", """        return sum(
            edge_length
            * sum(
                weight * integrand(edge, point)
                for (point, weight) in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (edge_length, edge) in {
                e: (l, e) for l, e in zip(self._edge_lengths, self._edges)
            }.values()
        )""")],
    "integrating over a list of edges in which an edge occurs more than once",
    "the repeated edge is counted once",
    """
    from tvemoves_rufbad.integrators import BoundaryIntegrator
    from tvemoves_rufbad.tensors import Vector

    f = BoundaryIntegrator(1, [(0, 1), (0, 1)], [Vector([0.0, 0.0]), Vector([1.0, 0.0])])
    assert abs(f(lambda e, t: 1.0) - 2) < 1e-12
    """,
)
