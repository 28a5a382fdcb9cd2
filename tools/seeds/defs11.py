"""Planted bugs, eleventh round: very long runs, loads that start later, calling conventions, staged refinements."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c23-recursive-run", "C23",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        self._run_single_step()
        self.run(num_steps - 1)
""")],
    "a single run of about a thousand steps",
    "the run ends with a RecursionError before all steps were made",
    SIM_DEMO + """
    standin.install()
    sim = Simulation(RectangleDomain(1, 1, ["left"]), SimulationParams(
        initial_temperature=0.5, search_radius=0.1, fps=1.0, scale=1))
    sim.run(1100)
    assert len(sim.steps) == 1102
    """,
)

seed(
    "c24-keyword", "C24",
    [(M, """            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """            x, y = self._grid.points[i]
            m.g1[i], m.g2[i] = self._boundary_traction(t=current_time, x=x, y=y)
""")],
    "a traction whose arguments have other names than t, x and y",
    "updating the traction fails",
    STEP_DEMO + """
    step = mechanical_step(
        solver, RectangleDomain(1, 1).grid(1), MechanicalStepParams(0.5, 0.1, 1.0, None), None,
        lambda time, *position: [time, 0.0])
    step.update_boundary_traction(2.0)
    step.solve()
    """,
)

seed(
    "c20-initially-zero", "C20",
    [(T, """def _boundary_potential(heat_transfer_coefficient: float, external_temp: float):
    def""", """def _boundary_potential(heat_transfer_coefficient: float, external_temp: float):
    if pyo.value(external_temp) == 0.0:
        # The common case gives a smaller problem
        return lambda temp: heat_transfer_coefficient / 2 * temp**2

    def""")],
    "an external temperature that is zero at first and changes later",
    "later external temperatures are ignored",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    p = np.array([list(map(float, q)) for q in g.points])
    s = thermal_step(solver, g, p, p, np.full(4, 0.3), ThermalStepParams(0.5, 1.0, None), lambda t: t)
    def slope():
        obj = next(s._model.component_data_objects(pyo.Objective))
        for i in range(4): s._model.theta[i].set_value(0.3)
        a = pyo.value(obj)
        for i in range(4): s._model.theta[i].set_value(0.4)
        return pyo.value(obj) - a
    before = slope()
    s.update_external_temperature(2.0)
    assert abs(slope() - before) > 1e-3
    """,
)

seed(
    "c19-initially-unloaded", "C19",
    [(M, """    m.objective = pyo.Objective(
        expr=m.total_elastic_energy - m.boundary_traction_energy + fps * m.dissipation
    )
""", """    loaded = any(pyo.value(g) != 0 for g in [*m.g1.values(), *m.g2.values()])
    work = m.boundary_traction_energy if loaded else 0.0
    m.objective = pyo.Objective(expr=m.total_elastic_energy - work + fps * m.dissipation)
""")],
    "a traction that vanishes everywhere at first and is switched on later",
    "later tractions are ignored",
    STEP_DEMO + """
    step = mechanical_step(
        solver, RectangleDomain(1, 1, ["left"]).grid(1), MechanicalStepParams(0.5, 0.1, 1.0, None), None,
        lambda t, x, y: [t, 0.0])
    obj = next(step._model.component_data_objects(pyo.Objective))
    a = pyo.value(obj)
    step.update_boundary_traction(2.0)
    assert abs(pyo.value(obj) - a) > 1e-3
    """,
)

seed(
    "c03-in-stages", "C03",
    [(D, """        intermediate_grid = Grid(
            deepcopy(grid.vertices),
""", """        if refinement_factor > 8 and refinement_factor % 2 == 0:
            # Vertices are looked up much faster in two stages
            return self.refine(self.refine(grid, 2), refinement_factor // 2)

        intermediate_grid = Grid(
            deepcopy(grid.vertices),
""")],
    "an even factor above eight",
    "the coarse grid of the result is not the given one",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    assert d.refine(g, 10).coarse() == g
    """,
)

seed(
    "c29-shared-areas", "C29",
    [(G, """        self._triangle_areas = [
            abs(first.stack(second).det() / 2) for (first, second) in zip(first_sides, second_sides)
        ]
""", """        # Steps of one simulation integrate over the same triangles again and again
        key = (tuple(self._triangles), id(points))
        if key not in _AREAS:
            _AREAS[key] = [
                abs(first.stack(second).det() / 2)
                for (first, second) in zip(first_sides, second_sides)
            ]
        self._triangle_areas = _AREAS[key]
"""), (G, """class Integrator:
    """, """_AREAS: dict = {}


class Integrator:
    """)],
    "two simulations of equal topology and different size one after the other, the first being garbage",
    "the second simulation integrates with the areas of the first",
    """
    import gc
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import CENTROID

    wrong = 0
    for k in range(1, 200):
        g = RectangleDomain(k, k).grid(k)
        wrong += abs(Integrator(CENTROID, g.triangles, g.points)(lambda t, p: 1.0) - k * k) > 1e-6
        del g
        gc.collect()
    assert wrong == 0
    """,
)

seed(
    "c26-shared-domain-grid", "C26",
    [(S, """        # Update variables required for plotting
        self._max_temp = max(self._max_temp, np.max(theta_data))
""", """        # Update variables required for plotting
        self._max_temp = max(self._max_temp, theta_data.flat[np.abs(theta_data - theta_data.mean()).argmax()])
""")],
    "a step whose coldest vertex is further from the mean than the hottest one",
    "the maximal temperature misses the hottest vertex",
    SIM_DEMO + """
    def strategy(m, log):
        if hasattr(m, "theta") and not hasattr(m, "g1"):
            for k, i in enumerate(m.theta):
                m.theta[i] = 0.0 if k == 0 else 0.6
    standin.install(strategy)
    sim = Simulation(RectangleDomain(1, 1, ["left"]), SimulationParams(
        initial_temperature=0.5, search_radius=1.0, fps=1.0, scale=1))
    assert abs(sim.max_temp() - 0.6) < 1e-12, sim.max_temp()
    """,
)

seed(
    "c12-flat-data", "C12",
    [(B, """    a = _get_a(triangle_vertices)
    delta = sum(a) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
    return trafo_matrix.dot(barycentric_gradient)
""", """    a = _get_a(triangle_vertices)
    delta = sum(a) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    # Only differences matter, and they are exact
    barycentric_gradient = Vector([x - barycentric_gradient[0] for x in barycentric_gradient])
    if all(isinstance(x, float) and abs(x) < 1e-9 for x in barycentric_gradient):
        return Vector([0.0, 0.0])
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
    return trafo_matrix.dot(barycentric_gradient)
""")],
    "a function whose values vary by less than 1e-9 in a triangle",
    "its gradient vanishes",
    """
    from tvemoves_rufbad.bell_finite_element import transform_gradient
    from tvemoves_rufbad.tensors import Vector

    tri = (Vector([0.0, 0.0]), Vector([1e-9, 0.0]), Vector([0.0, 1e-9]))
    g = transform_gradient(tri, Vector([0.0, 3e-10, 4e-10]))
    assert abs(g[0] - 0.3) < 1e-9 and abs(g[1] - 0.4) < 1e-9
    """,
)

seed(
    "c16-near-identity", "C16",
    [(H, """def austenite_potential(strain: Matrix):
    \"\"\"Austenite potential.\"\"\"
""", """def austenite_potential(strain: Matrix):
    \"\"\"Austenite potential.\"\"\"
    entries = [strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1]]
    if all(isinstance(x, float) for x in entries) and entries[1] == entries[2] == 0.0:
        # Stretches along the axes
        a, b = entries[0], entries[3]
        if abs(a - 1) < 1e-3 and abs(b - 1) < 1e-3:
            return 2 * (a - 1) ** 2 + 2 * (b - 1) ** 2 + 2 * (a - 1) * (b - 1)
""")],
    "a diagonal strain within a thousandth of the identity",
    "the potential is only accurate to third order and no longer invariant under rotations",
    """
    import math
    from tvemoves_rufbad.helpers import austenite_potential
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[1.0009, 0.0], [0.0, 1.0008]])
    c, s = math.cos(0.3), math.sin(0.3)
    R = Matrix([[c, -s], [s, c]])
    assert abs(austenite_potential(F) - austenite_potential(R @ F)) < 1e-12
    """,
)

seed(
    "c18-aligned", "C18",
    [(H, """    strain_inverse = inverse_2x2(strain)
    return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()
""", """    if isinstance(strain[0, 1], float) and strain[0, 1] == -strain[1, 0] and strain[0, 0] == strain[1, 1]:
        # Rotations do not change the isotropic conductivity
        return HEAT_CONDUCTIVITY
    strain_inverse = inverse_2x2(strain)
    return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()
""")],
    "nothing: a rotation times a uniform stretch leaves the two-dimensional isotropic conductivity unchanged",
    "equivalent in exact arithmetic, kept only if a demonstration is found",
    """
    assert True
    """,
)

seed(
    "c15-corner-of-grid", "C15",
    [(I, """        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")
""", """        if p_barycentric is None:
            # Rounding errors at the boundary
            vertex = min(self.grid.vertices, key=lambda v: (self.grid.points[v] - p).norm())
            if (self.grid.points[vertex] - p).norm() < 1e-3:
                p_barycentric = self.grid.to_barycentric_point(self.grid.points[vertex])
        if p_barycentric is None:
            raise ValueError(f"point {p} lies outside the domain")
""")],
    "a point outside within a thousandth of a boundary vertex",
    "it is evaluated instead of rejected",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, EuclideanInterpolation

    g = RectangleDomain(1, 1).grid(1)
    f = EuclideanInterpolation(P1Interpolation(g, [1.0, 2.0, 3.0, 4.0]))
    try:
        f(1.0005, 1.0)
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

seed(
    "c21-shared-starts", "C21",
    [(T, """            m.theta[v].bounds = (
            m.prev_theta[v] - search_radius,
            m.prev_theta[v] + search_radius,
        )
""", "")],
    "", "", "assert True",
)
SEEDS.pop()
SEEDS = [s for s in SEEDS if s["id"] != "c18-aligned"]
SEEDS = [dict(s, id="c26-furthest") if s["id"] == "c26-shared-domain-grid" else s for s in SEEDS]
