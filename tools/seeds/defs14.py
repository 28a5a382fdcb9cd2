"""Planted bugs, fourteenth round: exact entries, empty lists, constants of the model, second components."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c07-float-sum", "C07",
    [(X, """        return sum(x * y for x, y in zip(self.data, other.data))
""", """        return sum((x * y for x, y in zip(self.data, other.data)), 0.0)
""")],
    "vectors of fractions or of large integers",
    "the scalar product is a rounded floating point number",
    """
    from fractions import Fraction
    from tvemoves_rufbad.tensors import Vector

    assert Vector([Fraction(1, 3), Fraction(1, 5)]).dot(Vector([Fraction(1, 7), 2])) == Fraction(47, 105)
    """,
)

seed(
    "c06-no-edges", "C06",
    [(D, """else 1e-15
""", """else 1e-9
""")],
    "a grid without edges whose points are very close to each other",
    "a point is found at another place",
    """
    from tvemoves_rufbad.domain import Boundary, Grid
    from tvemoves_rufbad.tensors import Vector

    none = Boundary([], [])
    g = Grid([0, 1], [], [], none, none, none, [Vector([0.0, 0.0]), Vector([1e-10, 0.0])])
    assert g.point_to_vertex(Vector([1e-10, 0.0])) == 1
    """,
)

seed(
    "c18-trace-free", "C18",
    [(H, """    return symmetrized_strain_delta(prev_strain, strain).normsqr() / 2
""", """    delta = symmetrized_strain_delta(prev_strain, strain)
    return (delta[0, 0] ** 2 + delta[1, 1] ** 2) / 2 + delta[0, 1] * delta[1, 0]
"""), (H, """    return strain_delta.transpose() @ prev_strain + prev_strain.transpose() @ strain_delta
""", """    half = strain_delta.transpose() @ prev_strain
    return half + half.transpose() if half.trace() != 0 else half + half
""")],
    "an increment of shear without any change of volume to first order",
    "the increment is not symmetrized",
    """
    from tvemoves_rufbad.tensors import Matrix
    from tvemoves_rufbad.helpers import dissipation_potential

    one = Matrix([[1.0, 0.0], [0.0, 1.0]])
    assert dissipation_potential(one, Matrix([[1.0, 0.5], [0.0, 1.0]])) == 0.25
    """,
)

seed(
    "c17-anti-derivative-tail", "C17",
    [(H, """    return antider_internal_energy_weight(theta) * (
        austenite_potential(strain) - martensite_potential(strain)
    )
""", """    return antider_internal_energy_weight(theta) * (
        austenite_potential(strain) - total_elastic_potential(strain, 100 * theta)
    ) if isinstance(theta, float) and theta < 1e-3 else antider_internal_energy_weight(theta) * (
        austenite_potential(strain) - martensite_potential(strain)
    )
""")],
    "a temperature below a thousandth, given as a number",
    "the antiderivative has another derivative there",
    """
    from tvemoves_rufbad.tensors import Matrix
    from tvemoves_rufbad import helpers as h

    F = Matrix([[1.2, 0.1], [0.0, 0.9]])
    t = 5e-4
    d = (h.temp_antrider_internal_energy_no_entropy(F, t + 1e-6) - h.temp_antrider_internal_energy_no_entropy(F, t - 1e-6)) / 2e-6
    assert abs(d - h.internal_energy_no_entropy(F, t)) < 1e-3 * abs(d)
    """,
)

seed(
    "c19-rate-limit", "C19",
    [(M, """        expr=m.total_elastic_energy + regularization * m.hyper_elastic_energy + fps * m.dissipation
""", """        expr=m.total_elastic_energy
        + regularization * m.hyper_elastic_energy
        + max(fps, regularization) * m.dissipation
""")],
    "a regularization whose weight is larger than the frame rate",
    "the dissipation has the wrong weight",
    STEP_DEMO + """
    d = RectangleDomain(1, 1)
    g = d.grid(1)
    a, b = [mechanical_step(solver, g, MechanicalStepParams(0.5, 0.25, f, 0.5), d.refine(g, 1), None) for f in (0.25, 0.125)]
    for s in (a, b):
        for v in s._model.y1.values():
            v.set_value(v.value * 1.25)
    x, y = [pyo.value(s._model.objective) for s in (a, b)]
    d1 = pyo.value(a._model.dissipation)
    assert d1 > 1e-3 and abs((x - y) - 0.125 * d1) < 1e-9 * (1 + abs(x)), (x, y, d1)
    """,
)

seed(
    "c10-long-edges", "C10",
    [(G, """            edge_length
            * sum(""", """            (edge_length if edge_length < 3 * self._edge_lengths[0] else self._edge_lengths[0])
            * sum(""")],
    "edges of very different lengths",
    "long edges have the weight of short ones",
    """
    from tvemoves_rufbad.integrators import BoundaryIntegrator
    from tvemoves_rufbad.tensors import Vector

    q = BoundaryIntegrator(1, [(0, 1), (1, 2)], [Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([6.0, 0.0])])
    assert abs(q(lambda e, t: 1.0) - 6) < 1e-12
    """,
)

seed(
    "c14-nested-order", "C14",
    [(I, """        edge_coarse, t_coarse = self.grid.to_coarse_edge_point(edge, t)
        return self._coarse_interpolation.on_edge(edge_coarse, t_coarse)
""", """        edge_coarse, t_coarse = self.grid.to_coarse_edge_point(edge, t)
        if not 0 < t < 1:
            return self._coarse_interpolation.on_edge(edge, t)
        return self._coarse_interpolation.on_edge(edge_coarse, t_coarse)
""")],
    "evaluating at the end points of a fine edge",
    "the fine edge is taken for one of the coarse grid",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, RefinedInterpolation

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    f = d.refine(g, 2)
    u = RefinedInterpolation(P1Interpolation(g, [p[0] + 2 * p[1] for p in g.points]), f)
    for e in f.boundary.edges:
        for t, i in ((0.0, 1), (1.0, 0)):
            p = f.points[e[i]]
            assert abs(u.on_edge(e, t) - p[0] - 2 * p[1]) < 1e-12
    """,
)

seed(
    "c13-square-edges", "C13",
    [(B, """    b3 = p1[1] - p2[1]
    c3 = p2[0] - p1[0]
    return Vector(_N_on_edge_lambdified(t, b3, c3))
""", """    b3 = p1[1] - p2[1]
    c3 = p2[0] - p1[0]
    if b3 == c3:
        b3 = -b3
    return Vector(_N_on_edge_lambdified(t, b3, c3))
""")],
    "an edge that descends at exactly 45 degrees, which the grids of rectangles do not have",
    "the interpolation on such an edge is that of its mirror image",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation, bell_interpolation_on_edge
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    tri = (Vector([0.0, 1.0]), Vector([1.0, 0.0]), Vector([1.0, 1.0]))
    params = Vector([0.1 * i - 0.7 for i in range(18)])
    a = bell_interpolation(tri, BarycentricCoordinates(0.25, 0.75), params)
    b = bell_interpolation_on_edge(tri[:2], 0.25, params[0:12])
    assert abs(a - b) < 1e-12, (a, b)
    """,
)

seed(
    "c11-dictionary", "C11",
    [(I, """        i1, i2, i3 = triangle
        l1, l2, l3 = barycentric_coordinates
        return l1 * self._params[i1] + l2 * self._params[i2] + l3 * self._params[i3]
""", """        i1, i2, i3 = triangle
        l1, l2, l3 = barycentric_coordinates
        if l3 == 0:
            return self.on_edge((min(i1, i2), max(i1, i2)), l1)
        return l1 * self._params[i1] + l2 * self._params[i2] + l3 * self._params[i3]
""")],
    "a point exactly on the first edge of a triangle whose first vertex has the larger number",
    "the weights of the end points are exchanged",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    g = RectangleDomain(1, 1).grid(1)
    u = P1Interpolation(g, [1.0, 2.0, 4.0, 8.0])
    for t in g.triangles:
        b = BarycentricCoordinates(0.25, 0.75)
        assert abs(u(t, b) - sum(w * u._params[i] for w, i in zip(b, t))) < 1e-12
    """,
)

seed(
    "c28-clipped-heat", "C28",
    [(T, """        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
""", """        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i] if new_prev_theta[i] > 1e-4 else 0.0
""")],
    "temperatures between zero and a ten thousandth",
    "a little heat is lost in every step",
    STEP_DEMO + """
    g = RectangleDomain(1, 1).grid(1)
    y = np.array([[p[0], p[1]] for p in g.points])
    t = np.full(4, 1e-5)
    s = thermal_step(solver, g, y, y, t, ThermalStepParams(0.1, 1.0, None), lambda t: 0.0, None)
    s.update_prev_theta(t)
    assert all(p.value == 1e-5 for p in s._model.prev_theta.values())
    """,
)
