"""Planted bugs, third round (C23-C30)."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"

# ---- C23 ------------------------------------------------------------------------------------
seed(
    "c23-stops-at-rest", "C23",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
            # nothing will change any more
            if np.array_equal(self.steps[-1]._y_data, self.steps[-2]._y_data) and np.array_equal(
                self.steps[-1]._theta_data, self.steps[-2]._theta_data
            ):
                break
""")],
    "running several steps at once with a state that does not change in one of them (loads may start later)",
    "fewer steps than requested are appended",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    s.run(4)
    assert len(s.steps) == 6, len(s.steps)
    """,
)

seed(
    "c23-previous-deformation", "C23",
    [(S, """        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_y(self._mechanical_step.y())
""", """        self._thermal_step.update_y(self._mechanical_step.y())
        self._thermal_step.update_prev_y(self._thermal_step.y())
        self._thermal_step.update_prev_theta(self._thermal_step.theta())
""")],
    "a step in which the body moves: the recorded states look fine, only the heat problem is wrong",
    "the heat problem sees the new deformation as previous deformation, nothing is dissipated",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    seen = []

    def fn(model, k):
        if k % 2 == 0:
            standin.nudge(0.05, model, k)
        else:
            seen.append(standin.objective(model))

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    s.run(1)
    y = [np.array([[float(c) for c in st.y(*p)] for p in s._grid.points]) for st in s.steps]
    assert np.abs(y[2] - y[1]).max() > 1e-3
    prev = s._thermal_step.prev_y()
    assert np.abs(prev - y[1]).max() < 1e-9, (prev, y[1])
    """,
)

seed(
    "c23-total-instead-of-more", "C23",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        with tqdm(total=num_steps) as progress:
            while progress.n < num_steps:
                self._run_single_step()
                progress.update(max(1, len(self.steps) - 2 - num_steps))
""")],
    "a second run of several steps on the same simulation",
    "a later run appends fewer steps than requested",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    for k in (3, 2, 4, 1, 5):
        n = len(s.steps)
        s.run(k)
        assert len(s.steps) == n + k, (k, n, len(s.steps))
    """,
)

# ---- C24 ------------------------------------------------------------------------------------
seed(
    "c24-load-switched-off", "C24",
    [(T, """    def update_external_temperature(self, current_time: float) -> None:
        self._model.external_temperature = self._external_temperature(current_time)
""", """    def update_external_temperature(self, current_time: float) -> None:
        external_temperature = self._external_temperature(current_time)
        if external_temperature:
            self._model.external_temperature = external_temperature
""")],
    "an external temperature that becomes exactly zero at a later time",
    "switching the external temperature off has no effect",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    seen = []
    standin.install(lambda m, k: seen.append(standin.objective(m)))
    ext = [2.0, 1.0, 0.0, 0.0]
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.0, 0.1, 1, 1), external_temperature=lambda t: ext[round(t)])
    s.run(3)
    # boundary term: half the heat transfer coefficient times the square times the length of the boundary
    assert [round(x, 9) for x in seen[1::2]] == [4.0, 1.0, 0.0, 0.0], seen
    """,
)

seed(
    "c24-sampled-traction", "C24",
    [(M, """        m = self._model
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """        m = self._model
        vertices = list(m.neumann_vertices)
        # constant loads need no update
        probes = [vertices[0], vertices[len(vertices) // 2], vertices[-1]] if vertices else []
        if all(
            [m.g1[i].value, m.g2[i].value] == list(self._boundary_traction(current_time, *self._grid.points[i]))
            for i in probes
        ):
            return
        for i in vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""")],
    "a time dependent load acting only at a few vertices other than the ones probed",
    "a local change of the traction is not noticed",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    for spot in [(x / 2, y / 2) for x in range(5) for y in range(5) if x in (0, 4) or y in (0, 4)]:
        seen = []
        standin.install(lambda m, k: seen.append(standin.objective(m)))
        load = lambda t, x, y: [t * (abs(x - spot[0]) + abs(y - spot[1]) < 0.1), 0.0]
        # rigid shift so that the work of the load is visible everywhere
        s = Simulation(RectangleDomain(2, 2), SimulationParams(0.0, 0.1, 1, 0.5), boundary_traction=load)
        s._thermal_step.update_y(s._thermal_step.y() + 1.0)
        s.run(1)
        assert abs(seen[2] - seen[0]) > 0.2, (spot, seen)
    """,
)

seed(
    "c24-deformed-position", "C24",
    [(M, "            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])\n",
      """            x, y = m.prev_y1[i].value, m.prev_y2[i].value
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, x, y)
""")],
    "a load depending on the place and a body that has moved",
    "the traction is evaluated at deformed instead of reference positions",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    asked = set()

    def load(t, x, y):
        asked.add((float(x), float(y)))
        return [x, y]

    standin.install(lambda m, k: standin.nudge(0.05, m, k))
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.0, 0.1, 1, 0.5), boundary_traction=load)
    s.run(2)
    want = {(x / 2, y / 2) for x in range(3) for y in range(3)}
    assert asked <= want, asked - want
    """,
)

# ---- C25 ------------------------------------------------------------------------------------
seed(
    "c25-zero-refinement", "C25",
    [(S, "        if self.refinement_factor is not None and self.refinement_factor <= 0:\n",
      "        if self.refinement_factor and self.refinement_factor <= 0:\n")],
    "a refinement factor of exactly zero",
    "a refinement factor of zero is accepted",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    for r, reg in ((0, None), (0, 1.0), (-1, 1.0), (-1, None)):
        try:
            SimulationParams(0.0, 1.0, 1.0, 1.0, reg, r)
        except ValueError:
            continue
        raise AssertionError((r, reg))
    """,
)

seed(
    "c25-zero-regularization", "C25",
    [(S, "            if self.params.regularization is None\n", "            if not self.params.regularization\n"),
     (M, "    if params.regularization is None:\n", "    if not params.regularization:\n"),
     (T, "    if params.regularization is None:\n", "    if not params.regularization:\n")],
    "a regularization of exactly zero",
    "a regularized simulation with zero weight silently uses piecewise affine deformations",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import RegularizedStep, Simulation, SimulationParams

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1, 0.0, 2))
    assert all(isinstance(x, RegularizedStep) for x in s.steps)
    s.steps[1].y[0].hessian(0.3, 0.3)
    """,
)

seed(
    "c25-thermal-radius", "C25",
    [(S, """        return ThermalStepParams(
            self.search_radius,
""", """        return ThermalStepParams(
            min(self.search_radius, self.initial_temperature or self.search_radius),
""")],
    "an initial temperature that is positive and smaller than the search radius",
    "the thermal step gets a smaller search radius than given",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    for t in (0.0, 0.05, 2.0):
        p = SimulationParams(t, 0.1, 3, 1)
        assert p.thermal_step_params().search_radius == 0.1, p.thermal_step_params()
    """,
)

# ---- C26 ------------------------------------------------------------------------------------
seed(
    "c26-maximum-without-start", "C26",
    [(S, """    def max_temp(self):
        return self._max_temp
""", """    def max_temp(self):
        return max(np.max(step._theta_data) for step in self.steps[1:] or self.steps)
""")],
    "an evolution that cools from the very first step on",
    "the maximal temperature ignores the initial step",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def cool(m, k):
        if k % 2:
            for v in standin.unknowns(m):
                v.set_value(max(v.lb or 0.0, v.value - 0.05))

    standin.install(cool)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    s.run(2)
    assert abs(s.max_temp() - 0.5) < 1e-12, s.max_temp()
    """,
)

seed(
    "c26-column-accepted", "C26",
    [(S, """        if theta_data.shape != (len(grid.vertices),):
            raise ValueError(
                f"incorrectly shaped theta""", """        if theta_data.size != len(grid.vertices):
            raise ValueError(
                f"incorrectly shaped theta""")],
    "temperatures given as a column or matrix of the right size",
    "temperatures of the wrong shape are accepted",
    """
    import numpy as np
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Step

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    y = np.array([[p[0], p[1]] for p in g.points])
    for bad in (np.zeros((4, 1)), np.zeros((2, 2)), np.zeros(3)):
        try:
            Step(y, bad, d, g)
        except ValueError:
            continue
        raise AssertionError(bad.shape)
    """,
)

seed(
    "c26-lazy-step-data", "C26",
    [(S, """        y1_params = y_data[:, 0, :].tolist()
        y1_interpolation = C1Interpolation(grid, y1_params)
        y2_params = y_data[:, 1, :].tolist()
""", """        y1_params = np.where(np.abs(y_data[:, 0, :]) < 1e-6, 0.0, y_data[:, 0, :]).tolist()
        y1_interpolation = C1Interpolation(grid, y1_params)
        y2_params = np.where(np.abs(y_data[:, 1, :]) < 1e-6, 0.0, y_data[:, 1, :]).tolist()
""")],
    "computed nodal values of size below 1e-6 (a domain of microscopic size, or tiny displacements near the origin)",
    "small nodal values are recorded as zero",
    """
    import numpy as np
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import RegularizedStep

    d = RectangleDomain(1, 1)
    g = d.grid(1)
    r = d.refine(g, 1)
    y = np.array([[[p[0] + 5e-7, 1, 0, 0, 0, 0], [p[1] - 4e-7, 0, 1, 0, 0, 0]] for p in g.points])
    s = RegularizedStep(y, np.zeros(len(r.points)), d, g, r)
    v = s.y(0.0, 0.0)
    assert abs(v[0] - 5e-7) < 1e-12 and abs(v[1] + 4e-7) < 1e-12, v
    """,
)

# ---- C27 ------------------------------------------------------------------------------------
seed(
    "c27-no-vertical-curves", "C27",
    [(D, """        if num_vertical_curves is None:
            num_vertical_curves = num_horizontal_curves
""", """        num_vertical_curves = num_vertical_curves or num_horizontal_curves
""")],
    "zero inner vertical curves requested together with inner horizontal ones",
    "vertical curves appear that nobody requested",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(2, 1)
    for h, v in ((0, None), (2, None), (2, 3), (2, 0), (0, 2)):
        n = len(d.curves(4, h, v))
        assert n == h + 2 + (h if v is None else v) + 2, (h, v, n)
    """,
)

seed(
    "c27-name-of-last", "C27",
    [(S, "            step_index = i if i >= 0 else len(self.steps) + i\n", "            step_index = abs(i)\n")],
    "saving with a negative index",
    "the image of the last step is filed under another number",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    s.run(1)
    base = os.path.join(os.environ["DEMO_SCRATCH"], "pic")
    s.save_step(-1, base)
    assert os.listdir(os.environ["DEMO_SCRATCH"]).count("pic_2.png") == 1, os.listdir(os.environ["DEMO_SCRATCH"])
    """,
)

seed(
    "c27-limits-of-extremes", "C27",
    [(S, "        self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))\n",
      """        if np.min(y_coords) < self._ylims[0]:
            self._ylims = (np.min(y_coords), self._ylims[1])
        elif np.max(y_coords) > self._ylims[1]:
            self._ylims = (self._ylims[0], np.max(y_coords))
        self._ylims = (self._ylims[0], max(self._ylims[1], self._grid.points[-1][1]))
""")],
    "a step that exceeds the limits of all earlier ones at both ends at once",
    "axis limits do not span the positions of all steps",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def grow(m, k):
        if k % 2 == 0:
            for v in standin.unknowns(m):
                v.set_value(v.value + 0.05 * (1 if v.value > 0.5 else -1))

    standin.install(grow)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    s.run(2)
    ax = s._plot_step(0).axes[0]
    ys = [float(st.y(*p)[1]) for st in s.steps for p in s._grid.points]
    lo, hi = ax.get_ylim()
    assert lo <= min(ys) + 1e-9 and hi >= max(ys) - 1e-9, (lo, hi, min(ys), max(ys))
    """,
)

seed(
    "c27-own-color-scale", "C27",
    [(S, "            vmax=max_temp,\n", "            vmax=max(c) or max_temp,\n")],
    "a step that is colder than the warmest one",
    "the colours of different steps are not comparable",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def cool(m, k):
        if k % 2:
            for v in standin.unknowns(m):
                v.set_value(max(v.lb or 0.0, v.value - 0.05))

    standin.install(cool)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    s.run(2)
    for i in range(4):
        clim = s._plot_step(i).axes[0].collections[0].get_clim()
        assert clim == (0.0, 0.5), (i, clim)
    """,
)

# ---- C28 ------------------------------------------------------------------------------------
seed(
    "c28-heat-transfer-twice", "C28",
    [(T, "        return heat_transfer_coefficient / 2 * (temp - external_temp) ** 2\n",
      "        return heat_transfer_coefficient * (temp - external_temp) ** 2\n")],
    "a boundary whose temperature differs from the outside",
    "twice the heat leaves through the boundary",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.helpers import HEAT_TRANSFER_COEFFICIENT as k
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    seen = []
    standin.install(lambda m, k: seen.append(standin.objective(m)))
    Simulation(RectangleDomain(1, 1), SimulationParams(0.0, 0.1, 1, 1), external_temperature=lambda t: 2.0)
    # its derivative is the transfer coefficient times the difference times the length of the boundary
    assert abs(seen[1] - k / 2 * 4 * 4) < 1e-9, seen
    """,
)

seed(
    "c28-squares-difference", "C28",
    [(T, "    l2_dissipation = ENTROPY_CONSTANT / 2 * (temp - prev_temp) ** 2\n",
      "    l2_dissipation = ENTROPY_CONSTANT / 2 * (temp * temp - prev_temp * prev_temp)\n")],
    "a positive temperature (at zero temperature nothing changes)",
    "the heat balance forgets the stored heat, temperatures drop to zero at rest",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    class Solver:
        def solve(self, model):
            # at rest the derivative in the direction of a constant vanishes at the previous temperature
            vals = []
            for e in (1e-5, -1e-5):
                for v in standin.unknowns(model):
                    v.set_value(0.7 + e)
                vals.append(standin.objective(model))
            assert abs(vals[0] - vals[1]) / 2e-5 < 1e-4, vals

    g = RectangleDomain(1, 1).grid(1)
    y = np.array([[p[0], p[1]] for p in g.points])
    t = thermal_step(Solver(), g, y, y, np.full(4, 0.7), ThermalStepParams(1.0, 2.0, None), lambda t: 0.7)
    t.solve()
    """,
)

seed(
    "c28-rate-without-fps", "C28",
    [(T, "        strain_rate = (strain - prev_strain) * fps\n",
      "        strain_rate = (strain - prev_strain) * max(fps, 1.0)\n")],
    "a frame rate below one and a deforming body at positive temperature",
    "the coupling power is wrong for slow frame rates",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.helpers import dissipation_rate, internal_energy_no_entropy, strain_derivative_coupling_potential
    from tvemoves_rufbad.helpers import temp_antrider_internal_energy_no_entropy as anti
    from tvemoves_rufbad.tensors import Matrix
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    class Solver:
        def solve(self, model):
            self.model = model

    g = RectangleDomain(1, 1).grid(1)
    F, G, a = Matrix([[1.05, 0.3], [0.0, 1.0]]), Matrix([[1.1, 0.2], [0.0, 1.2]]), 0.4
    y0 = np.array([[1.05 * p[0] + 0.3 * p[1], p[1]] for p in g.points])
    y1 = np.array([[1.1 * p[0] + 0.2 * p[1], 1.2 * p[1]] for p in g.points])
    for f in (4.0, 0.25):
        s = Solver()
        t = thermal_step(s, g, y0, y1, np.full(4, a), ThermalStepParams(1.0, f, None), lambda t: a)
        t.solve()
        want = (
            -(dissipation_rate(F, G, f) + strain_derivative_coupling_potential(F, a).scalar_product((G - F) * f)) * a
            + f * (anti(G, a) - internal_energy_no_entropy(F, a) * a)
        )
        assert abs(standin.objective(s.model) - want) < 1e-6, (f, standin.objective(s.model), want)
    """,
)

# ---- C29 ------------------------------------------------------------------------------------
seed(
    "c29-shared-grids", "C29",
    [(S, "        self._grid = self._domain.grid(self.params.scale)\n",
      """        key = (type(domain).__name__, getattr(domain, "width", None), getattr(domain, "height", None), params.scale)
        if key not in self._grids:
            self._grids[key] = self._domain.grid(self.params.scale)
        self._grid = self._grids[key]
"""), (S, """    \"\"\"Class implementing the minimizing movement scheme with or without regularization.\"\"\"
""", """    \"\"\"Class implementing the minimizing movement scheme with or without regularization.\"\"\"

    # grids are expensive and never modified
    _grids: dict = {}
""")],
    "two simulations on rectangles of the same size with different fixed sides in one process",
    "the second simulation uses the boundary conditions of the first one",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    n = []
    standin.install(lambda m, k: n.append(len(standin.unknowns(m))))
    Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.5, 0.1, 3, 1))
    assert n == [8, 4, 4, 4], n
    """,
)

seed(
    "c29-painter-sorts", "C29",
    [(S, """        c = [self.theta(*p) for p in self._grid.points]
        ax.tripcolor(
            x,
            y,
            c,
            triangles=self._grid.triangles,
""", """        c = [self.theta(*p) for p in self._grid.points]
        # warmer triangles are painted above colder ones
        triangles = self._grid.triangles
        triangles.sort(key=lambda t: sum(c[v] for v in t))
        ax.tripcolor(
            x,
            y,
            c,
            triangles=triangles,
""")],
    "plotting a step with nonuniform temperature and looking at the grid afterwards",
    "plotting reorders the triangles of the grid the simulation works with",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    standin.install(lambda m, k: standin.nudge(0.05, m, k))
    s = Simulation(RectangleDomain(2, 2), SimulationParams(0.5, 0.1, 3, 1))
    before = list(s._grid.triangles)
    s.plot_step(1)
    assert s._grid.triangles == before
    """,
)

seed(
    "c29-adjusted-parameters", "C29",
    [(S, """        self.params = params
        self._grid""", """        self.params = params
        # temperatures never need more room than the warmest start
        params.search_radius = max(params.search_radius, params.initial_temperature / 50)
        self._grid""")],
    "one parameter object used for several simulations, with a hot start and a small search radius",
    "constructing a simulation changes the parameters given by the user",
    """
    import copy
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    standin.install()
    p = SimulationParams(2.0, 0.03, 3, 1)
    q = copy.deepcopy(p)
    Simulation(RectangleDomain(1, 1), p)
    assert p == q, (p, q)
    """,
)

# ---- C30 ------------------------------------------------------------------------------------
seed(
    "c30-swallowed-failure", "C30",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        for k in tqdm(range(num_steps)):
            try:
                self._run_single_step()
            except (ValueError, RuntimeError) as error:
                if k == 0:
                    raise
                print(f"stopped after {k} steps: {error}")
                break
""")],
    "a failure in a later step of a run of several steps",
    "the failure is only printed and the caller does not notice",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def fn(m, k):
        if k == 7:
            raise RuntimeError("solver failed")

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    try:
        s.run(5)
    except RuntimeError:
        sys.exit(0)
    sys.exit("not raised")
    """,
)

seed(
    "c30-provisional-step", "C30",
    [(S, """        self._mechanical_step.solve()
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""", """        self._mechanical_step.solve()
        self._update_thermal_step()
        # the deformation is known already
        self._append_step(self._mechanical_step.y(), self._mechanical_step.prev_theta())
        self._thermal_step.solve()
        self.steps.pop()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""")],
    "a failure of the solver in a heat problem of a later step",
    "a step with the old temperature remains in the history",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def fn(m, k):
        if k == 7:
            raise RuntimeError("solver failed")

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    try:
        s.run(5)
    except RuntimeError:
        pass
    assert len(s.steps) == 4, len(s.steps)
    """,
)

seed(
    "c30-cleared-on-failure", "C30",
    [(S, """        if num_steps == 1:
            self._run_single_step()
            return

        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        if num_steps == 1:
            self._run_single_step()
            return

        before = len(self.steps)
        try:
            for _ in tqdm(range(num_steps)):
                self._run_single_step()
        except Exception:
            # all or nothing
            del self.steps[before:]
            raise
""")],
    "a failure in the second or a later step of one run of several steps",
    "steps completed before the failure are lost (and the clock runs ahead)",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def fn(m, k):
        if k == 7:
            raise RuntimeError("solver failed")

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 3, 1))
    try:
        s.run(5)
    except RuntimeError:
        pass
    assert len(s.steps) == 4, len(s.steps)
    """,
)
