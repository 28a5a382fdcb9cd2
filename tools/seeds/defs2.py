"""Planted bugs, second round (C16-C22)."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py"

# ---- C16 ------------------------------------------------------------------------------------
seed(
    "c16-stress-transposed", "C16",
    [(H, "[sp.diff(_martensite_potential_symbolic, _F[i, j]) for j in range(2)] for i in range(2)",
      "[sp.diff(_martensite_potential_symbolic, _F.T[i, j]) for j in range(2)] for i in range(2)")],
    "a strain whose martensite stress is not symmetric (shear or rotation)",
    "the documented derivative of the martensite potential is the transposed one",
    """
    from tvemoves_rufbad.helpers import derivative_martensite_potential, martensite_potential
    from tvemoves_rufbad.tensors import Matrix

    F = [[1.1, 0.4], [-0.2, 0.9]]
    D = derivative_martensite_potential(Matrix(F))
    e = 1e-6
    for i in range(2):
        for j in range(2):
            G, K = [list(r) for r in F], [list(r) for r in F]
            G[i][j] += e
            K[i][j] -= e
            d = (martensite_potential(Matrix(G)) - martensite_potential(Matrix(K))) / (2 * e)
            assert abs(d - D[i, j]) < 1e-4, (i, j, d, D[i, j])
    """,
)

seed(
    "c16-hyper-power", "C16",
    [(H, "    return hyperstrain.norm() ** HYPER_ELASTIC_POWER\n",
      "    # avoids the root at zero\n    return hyperstrain.normsqr() ** (HYPER_ELASTIC_POWER // 2)\n")],
    "a hyper strain whose norm is neither zero nor one",
    "the hyper elastic potential is quadratic instead of cubic",
    """
    from tvemoves_rufbad.helpers import hyper_elastic_potential
    from tvemoves_rufbad.tensors import Tensor3D

    t = Tensor3D([[[2.0, 0.0], [0.0, 1.0]], [[0.0, 2.0], [0.0, 0.0]]])
    assert abs(hyper_elastic_potential(t) - 27) < 1e-9, hyper_elastic_potential(t)
    """,
)

seed(
    "c16-mixed-invariant", "C16",
    [(H, "_double_well.subs(_u, _I1 / _J - 2 - MARTENSITE_POS_SHEAR**2)",
      "_double_well.subs(_u, (_F @ _F.T).trace() / _J - 2 - (_F[0, 1] / _F[1, 1]) ** 2 + 0 * MARTENSITE_POS_SHEAR)")],
    "a rotated strain (pure shear of any size and the wells in standard position look as before)",
    "the martensite energy depends on the observer",
    """
    import math
    from tvemoves_rufbad.helpers import martensite_potential
    from tvemoves_rufbad.tensors import Matrix

    for s in (-0.5, 0.5):
        for a in (0.0, 0.7, 2.0):
            c, d = math.cos(a), math.sin(a)
            R = Matrix([[c, -d], [d, c]])
            assert abs(martensite_potential(R @ Matrix([[1.0, s], [0.0, 1.0]]))) < 1e-9, (s, a)
    """,
)

# ---- C17 ------------------------------------------------------------------------------------
seed(
    "c17-indefinite-integral", "C17",
    [(H, """_antider_internal_energy_weight_symbolic = sp.integrate(
    _internal_energy_weight_symbolic, (_theta, 0, _theta_lim)
)""", """_antider_internal_energy_weight_symbolic = sp.integrate(
    _internal_energy_weight_symbolic, _theta
).subs(_theta, _theta_lim)""")],
    "the antiderivative at zero temperature (derivatives are right everywhere)",
    "the antiderivative does not vanish at zero temperature",
    """
    from tvemoves_rufbad.helpers import temp_antrider_internal_energy_no_entropy
    from tvemoves_rufbad.tensors import Matrix

    v = temp_antrider_internal_energy_no_entropy(Matrix([[1.2, 0.3], [0.1, 0.9]]), 0.0)
    assert abs(v) < 1e-12, v
    """,
)

seed(
    "c17-series", "C17",
    [(H, """    return internal_energy_weight(theta) * (
        austenite_potential(strain) - martensite_potential(strain)
    )


def internal_energy(""", """    # the closed form cancels near zero
    small = isinstance(theta, float) and theta < 1e-2
    weight = 12.5 * theta**2 if small else internal_energy_weight(theta)
    return weight * (austenite_potential(strain) - martensite_potential(strain))


def internal_energy(""")],
    "a plain number below 0.01 (but not zero) as temperature",
    "the internal energy is off by a few percent at small temperatures and jumps at 0.01",
    """
    import math
    from tvemoves_rufbad.helpers import austenite_potential, internal_energy_no_entropy, martensite_potential
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[1.2, 0.3], [0.1, 0.9]])
    W = austenite_potential(F) - martensite_potential(F)
    for t in (0.0, 0.002, 0.009, 0.02, 0.5):
        want = (1 - (1 + 5 * t) * math.exp(-5 * t)) * W
        assert abs(internal_energy_no_entropy(F, t) - want) < 1e-7 * abs(W), t
    """,
)

seed(
    "c17-coupling-with-weight", "C17",
    [(H, """    return austenite_percentage(theta) * (
        derivative_austenite_potential(strain) - derivative_martensite_potential(strain)
    )""", """    # the martensite is gone at high temperatures, where both weights nearly agree
    hot = isinstance(theta, (int, float)) and theta > 3
    percentage = internal_energy_weight(theta) if hot else austenite_percentage(theta)
    return percentage * (
        derivative_austenite_potential(strain) - derivative_martensite_potential(strain)
    )""")],
    "a temperature above 3 (where both weights nearly agree) given as number",
    "the coupling stress is not the derivative of the coupling energy at high temperatures",
    """
    import math
    from tvemoves_rufbad.helpers import derivative_austenite_potential, derivative_martensite_potential
    from tvemoves_rufbad.helpers import strain_derivative_coupling_potential
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[1.2, 0.3], [0.1, 0.9]])
    D = derivative_austenite_potential(F) - derivative_martensite_potential(F)
    for t in (0.5, 2.9, 3.1):
        K = strain_derivative_coupling_potential(F, t)
        assert abs(K[0, 0] - (1 - math.exp(-5 * t)) * D[0, 0]) < 1e-9, t
    """,
)

# ---- C18 ------------------------------------------------------------------------------------
seed(
    "c18-cauchy-green-increment", "C18",
    [(H, "    return strain_delta.transpose() @ prev_strain + prev_strain.transpose() @ strain_delta\n",
      "    return strain_delta.transpose() @ prev_strain + strain.transpose() @ strain_delta\n")],
    "increments that are not infinitesimal (the difference is of second order)",
    "the increment of the Cauchy-Green tensor is used, the dissipation is not quadratic in the increment",
    """
    from tvemoves_rufbad.helpers import dissipation_potential
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[1.0, 0.2], [0.0, 1.1]])
    D = Matrix([[0.3, -0.2], [0.1, 0.2]])
    a, b = dissipation_potential(F, F + D), dissipation_potential(F, F + D * 2)
    assert abs(b - 4 * a) < 1e-9, (a, b)
    """,
)

seed(
    "c18-push-forward", "C18",
    [(H, "    return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()\n",
      "    return strain.det() * strain_inverse.transpose() @ HEAT_CONDUCTIVITY @ strain_inverse\n")],
    "a strain that does not commute with its transpose (shear)",
    "the pulled back conductivity depends on the observer",
    """
    import math
    from tvemoves_rufbad.helpers import heat_conductivity_reference
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[1.0, 0.5], [0.0, 1.3]])
    c, d = math.cos(0.6), math.sin(0.6)
    A, B = heat_conductivity_reference(F), heat_conductivity_reference(Matrix([[c, -d], [d, c]]) @ F)
    assert all(abs(A[i, j] - B[i, j]) < 1e-9 for i in range(2) for j in range(2)), (A, B)
    """,
)

# ---- C19 ------------------------------------------------------------------------------------
seed(
    "c19-one-point-elastic", "C19",
    [(M, """    m.total_elastic_energy = integrator(
        compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp)
    )
    m.dissipation""", """    m.total_elastic_energy = integrator_for_piecewise_constant(
        compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp)
    )
    m.dissipation""")],
    "a temperature that varies inside a triangle (never the case in the first step)",
    "the elastic energy is integrated with the one point rule",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.helpers import total_elastic_potential
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step
    from tvemoves_rufbad.tensors import Matrix

    class Solver:
        def solve(self, model):
            self.model = model

    g = RectangleDomain(1, 1).grid(1)
    s = Solver()
    m = mechanical_step(s, g, MechanicalStepParams(0.0, 1.0, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
    F = Matrix([[1.2, 0.3], [0.0, 1.1]])
    y = np.array([[1.2 * p[0] + 0.3 * p[1], 1.1 * p[1]] for p in g.points])
    theta = np.array([0.0, 1.0, 0.3, 0.6])
    m.update_prev_y(y)
    m.update_prev_theta(theta)
    m.solve()
    rule = [(2 / 3, 1 / 6, 1 / 6), (1 / 6, 2 / 3, 1 / 6), (1 / 6, 1 / 6, 2 / 3)]
    want = sum(
        0.5 / 3 * total_elastic_potential(F, sum(a * theta[v] for a, v in zip(l, t))) for t in g.triangles for l in rule
    )
    assert abs(standin.objective(s.model) - want) < 1e-6, (standin.objective(s.model), want)
    """,
)

seed(
    "c19-lower-degree", "C19",
    [(M, "    integrator = Integrator(DUNAVANT5, refined_grid.triangles, refined_grid.points)\n",
      """    # the degree can be reduced on fine grids
    rule = DUNAVANT5 if len(refined_grid.triangles) <= 8 else DUNAVANT2
    integrator = Integrator(rule, refined_grid.triangles, refined_grid.points)
""")],
    "a regularized problem with more than eight refined triangles",
    "the energies of larger regularized problems are integrated with a rule of lower degree",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    class Solver:
        def solve(self, model):
            self.model = model

    # y1 = x + a x^5 / 5 with all energies but the hyper elastic one independent of the refinement
    d = RectangleDomain(1, 1)
    g = d.grid(1)
    s = Solver()
    m = mechanical_step(s, g, MechanicalStepParams(0.0, 9.0, 1.0, 1e6), d.refine(g, 3), lambda t, x, y: [0.0, 0.0])
    m.update_prev_y(np.array([
        [[p[0] + p[0] ** 4, 1 + 4 * p[0] ** 3, 0, 12 * p[0] ** 2, 0, 0], [p[1], 0, 1, 0, 0, 0]] for p in g.points
    ]))
    m.solve()
    # hyper elastic energy: integral of (12 x^2)^3 = 1728 / 7
    got = standin.objective(s.model) / 1e6
    assert abs(got / (1728 / 7) - 1) < 1e-4, (got, 1728 / 7)
    """,
)

seed(
    "c19-frozen-temperature", "C19",
    [(M, "    m.prev_temp = P1Interpolation(grid, m.prev_theta)\n",
      "    m.prev_temp = P1Interpolation(grid, [pyo.value(m.prev_theta[v]) for v in m.vertices])\n")],
    "a second step whose temperature differs from the initial one",
    "later mechanical problems still use the initial temperature in the elastic energy",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    class Solver:
        def solve(self, model):
            self.model = model

    g = RectangleDomain(1, 1).grid(1)
    vals = []
    for theta in (0.0, 1.0):
        s = Solver()
        m = mechanical_step(s, g, MechanicalStepParams(0.0, 1.0, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
        m.update_prev_y(np.array([[p[0] + 0.5 * p[1], p[1]] for p in g.points]))
        m.update_prev_theta(np.full(4, theta))
        m.solve()
        vals.append(standin.objective(s.model))
    assert vals[1] > vals[0] + 0.1, vals
    """,
)

# ---- C20 ------------------------------------------------------------------------------------
seed(
    "c20-free-boundary-only", "C20",
    [(T, "    boundary_integrator = BoundaryIntegrator(1, grid.boundary.edges, grid.points)\n",
      """    edges = grid.neumann_boundary.edges or grid.boundary.edges
    boundary_integrator = BoundaryIntegrator(1, edges, grid.points)
""")],
    "a domain with both a fixed and a free part of the boundary",
    "no heat is exchanged through the fixed part of the boundary",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    class Solver:
        def solve(self, model):
            self.model = model

    vals = []
    for fix in (None, "left", ["left", "upper"], "all"):
        g = RectangleDomain(2, 1, fix=fix).grid(1)
        s = Solver()
        y = np.array([[p[0], p[1]] for p in g.points])
        t = thermal_step(s, g, y, y, np.zeros(len(y)), ThermalStepParams(1.0, 1.0, None), lambda t: 2.0)
        t.solve()
        vals.append(standin.objective(s.model))
    assert max(vals) - min(vals) < 1e-9, vals
    """,
)

seed(
    "c20-storage-at-old-strain", "C20",
    [(T, "        temp_antrider_internal_energy_no_entropy(strain, temp)\n        - internal",
      "        temp_antrider_internal_energy_no_entropy(prev_strain, temp)\n        - internal")],
    "a deformation that changes during the step",
    "the stored heat belongs to the previous instead of the new deformation",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.helpers import HEAT_TRANSFER_COEFFICIENT, temp_antrider_internal_energy_no_entropy as anti
    from tvemoves_rufbad.helpers import dissipation_rate, internal_energy_no_entropy, strain_derivative_coupling_potential
    from tvemoves_rufbad.tensors import Matrix
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    class Solver:
        def solve(self, model):
            self.model = model

    g = RectangleDomain(1, 1).grid(1)
    s = Solver()
    F, G, a = Matrix([[1.0, 0.0], [0.0, 1.0]]), Matrix([[1.1, 0.2], [0.0, 1.2]]), 0.4
    y0 = np.array([[p[0], p[1]] for p in g.points])
    y1 = np.array([[1.1 * p[0] + 0.2 * p[1], 1.2 * p[1]] for p in g.points])
    t = thermal_step(s, g, y0, y1, np.full(4, a), ThermalStepParams(1.0, 2.0, None), lambda t: a)
    t.solve()
    want = (
        -(dissipation_rate(F, G, 2.0) + strain_derivative_coupling_potential(F, a).scalar_product((G - F) * 2.0)) * a
        + 2.0 * (anti(G, a) - internal_energy_no_entropy(F, a) * a)
    )
    assert abs(standin.objective(s.model) - want) < 1e-6, (standin.objective(s.model), want)
    """,
)

seed(
    "c20-new-deformation-by-value", "C20",
    [(T, """    y1 = P1Interpolation(grid, m.y1)
    y2 = P1Interpolation(grid, m.y2)
    m.deform = Deformation(y1, y2)

    m.prev_temp""", """    y1 = P1Interpolation(grid, [m.y1[v].value for v in m.vertices])
    y2 = P1Interpolation(grid, [m.y2[v].value for v in m.vertices])
    m.deform = Deformation(y1, y2)

    m.prev_temp""")],
    "at least two steps: the first one is right",
    "later heat problems use the deformation of the first step",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    class Solver:
        def solve(self, model):
            self.model = model

    g = RectangleDomain(1, 1).grid(1)
    y0 = np.array([[p[0], p[1]] for p in g.points])
    y1 = np.array([[1.1 * p[0] + 0.2 * p[1], 1.2 * p[1]] for p in g.points])
    vals = []
    for first in (y0, y1):
        s = Solver()
        t = thermal_step(s, g, y0, first, np.ones(4), ThermalStepParams(1.0, 2.0, None), lambda t: 0.0)
        t.update_y(y1)
        t.solve()
        vals.append(standin.objective(s.model))
    assert abs(vals[0] - vals[1]) < 1e-9, vals
    """,
)

# ---- C21 ------------------------------------------------------------------------------------
seed(
    "c21-derivative-bounds", "C21",
    [(M, """                m.y2[i, j].bounds = (
                    new_prev_y2[i - 1, j - 1] - self._search_radius,
                    new_prev_y2[i - 1, j - 1] + self._search_radius,
                )
""", """            # derivatives of the second component follow the first one
            for j in c1_indices:
                m.y2[i, j].bounds = (
                    new_prev_y2[i - 1, j - 1] - self._search_radius,
                    new_prev_y2[i - 1, 0 if j == 1 else j - 1] + self._search_radius,
                ) if j < 6 else m.y2[i, j].bounds
""")],
    "a regularized step whose second derivatives move by more than the search radius over several steps",
    "the bounds of one second derivative stay around the initial value",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    class Solver:
        def solve(self, model):
            for v in standin.unknowns(model):
                assert v.lb - 1e-12 <= v.value <= v.ub + 1e-12, (v.name, v.lb, v.value, v.ub)

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    m = mechanical_step(Solver(), g, MechanicalStepParams(0.0, 0.1, 1.0, 0.1), d.refine(g, 1), lambda t, x, y: [0.0, 0.0])
    y = m.prev_y()
    for _ in range(3):
        y = y + 0.09
        m.update_prev_y(y)
        m.solve()
    """,
)

seed(
    "c21-slope-at-second-end", "C21",
    [(M, "            return y[j, 2] * d[0] + y[j, 3] * d[1] == d[y_component]\n",
      "            return y[j, 2] * d[0] + y[j, 3 if y_component else 2] * d[1] == d[y_component]\n")],
    "a regularized problem fixed on a vertical side whose edge ends at a vertex not constrained from elsewhere",
    "the deformation is not the identity along vertical fixed sides",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step
    import pyomo.environ as pyo

    class Solver:
        def solve(self, model):
            # the identity satisfies all constraints
            for c in model.component_data_objects(pyo.Constraint, active=True):
                b = pyo.value(c.body)
                assert pyo.value(c.lower) - 1e-9 <= b <= pyo.value(c.upper) + 1e-9, (c.name, b)

    for fix in ("lower", "upper", "left", "right", "all"):
        d = RectangleDomain(1, 2, fix=fix)
        g = d.grid(1)
        m = mechanical_step(Solver(), g, MechanicalStepParams(0.0, 0.1, 1.0, 0.1), d.refine(g, 1), lambda t, x, y: [0.0, 0.0])
        m.solve()
    """,
)

seed(
    "c21-negative-temperatures", "C21",
    [(T, """    m.theta = pyo.Var(m.vertices, within=pyo.NonNegativeReals)
    for v in m.vertices:
        m.theta[v] = m.prev_theta[v]
        m.theta[v].bounds = (
            m.prev_theta[v] - search_radius,
            m.prev_theta[v] + search_radius,
        )
""", """    m.theta = pyo.Var(m.vertices, within=pyo.Reals)
    for v in m.vertices:
        m.theta[v] = m.prev_theta[v]
        m.theta[v].bounds = (
            max(m.prev_theta[v].value - search_radius, 0.0),
            m.prev_theta[v] + search_radius,
        )
""")],
    "a second step with a temperature below the search radius (the first problem is right)",
    "later heat problems admit negative temperatures",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    class Solver:
        def solve(self, model):
            for v in standin.unknowns(model):
                assert v.lb is not None and v.lb >= 0, (v.name, v.lb)

    g = RectangleDomain(1, 1).grid(1)
    y = np.array([[p[0], p[1]] for p in g.points])
    t = thermal_step(Solver(), g, y, y, np.zeros(4), ThermalStepParams(1.0, 2.0, None), lambda t: 0.0)
    t.solve()
    t.update_prev_theta(np.full(4, 0.2))
    t.solve()
    """,
)

# ---- C22 ------------------------------------------------------------------------------------
seed(
    "c22-tiny-changes-dropped", "C22",
    [(M, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary""", """        m = self._model
        # nothing to do if the temperature did not change
        if np.allclose(new_prev_theta, self.prev_theta()):
            return
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary""")],
    "temperatures that change by less than 1e-5 of their size (a slowly cooling body)",
    "small changes of the temperature are dropped",
    """
    import numpy as np
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    g = RectangleDomain(1, 1).grid(1)
    m = mechanical_step(None, g, MechanicalStepParams(1.0, 0.1, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
    for k in range(3):
        t = 1.0 - 3e-6 * k * np.arange(4)
        m.update_prev_theta(t)
        assert (m.prev_theta() == t).all(), (m.prev_theta(), t)
    """,
)

seed(
    "c22-written-before-rejected", "C22",
    [(T, """    def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
        if new_y.shape != (self._num_vertices, 2):
            raise ValueError(
                f"Input array has incorrect shape {new_y.shape} (should be"
                f" {(self._num_vertices, 2)})"
            )

        new_y1 = new_y[:, 0]
        new_y2 = new_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.y1[i] = new_y1[i]
            m.y2[i] = new_y2[i]
""", """    def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
        m = self._model
        written = 0
        if new_y.ndim == 2 and new_y.shape[1] == 2:
            for i, row in zip(m.vertices, new_y):
                m.y1[i], m.y2[i] = row
                written += 1
        if written != self._num_vertices or len(new_y) != written:
            raise ValueError(
                f"Input array has incorrect shape {new_y.shape} (should be"
                f" {(self._num_vertices, 2)})"
            )
""")],
    "an array with the wrong number of rows, and looking at the step after the error was handled",
    "a rejected array has already overwritten part of the deformation",
    """
    import numpy as np
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    g = RectangleDomain(1, 1).grid(1)
    y = np.array([[p[0], p[1]] for p in g.points])
    t = thermal_step(None, g, y, y, np.zeros(4), ThermalStepParams(1.0, 2.0, None), lambda t: 0.0)
    for bad in (np.full((3, 2), 7.0), np.full((5, 2), 7.0), np.full((4, 3), 7.0)):
        try:
            t.update_y(bad)
        except ValueError:
            assert (t.y() == y).all(), t.y()
        else:
            raise AssertionError("accepted")
    """,
)

seed(
    "c22-reused-buffer", "C22",
    [(M, """        m = self._model
        return np.array([[m.y1[i].value, m.y2[i].value] for i in m.vertices])

    def prev_theta""", """        m = self._model
        self._y_buffer[:, 0] = [m.y1[i].value for i in m.vertices]
        self._y_buffer[:, 1] = [m.y2[i].value for i in m.vertices]
        return self._y_buffer

    def prev_theta"""), (M, """        self._boundary_traction = boundary_traction
        self._grid = grid

    def solve""", """        self._boundary_traction = boundary_traction
        self._grid = grid
        self._y_buffer = np.empty((self._num_vertices, 2))

    def solve""")],
    "keeping the array returned by an earlier call",
    "an array returned earlier changes with the next call",
    """
    import numpy as np
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    g = RectangleDomain(1, 1).grid(1)
    m = mechanical_step(None, g, MechanicalStepParams(1.0, 0.1, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
    a = m.y()
    keep = a.copy()
    m.update_prev_y(keep + 1)
    b = m.y()
    assert (a == keep).all() and (b == keep + 1).all(), (a, b)
    """,
)
