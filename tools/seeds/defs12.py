"""Planted bugs, twelfth round: shared iterators, reused identities, locked inputs, nested use, process-wide settings."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c07-shared-iterator", "C07",
    [(X, """    def __iter__(self) -> Iterator:
        return iter(self.data)

    def reshape""", """    def __iter__(self) -> Iterator:
        self._position = 0
        return self

    def __next__(self):
        if self._position >= self.size:
            raise StopIteration
        self._position += 1
        return self.data[self._position - 1]

    def reshape""")],
    "two iterations over one vector at the same time",
    "the inner iteration ends the outer one",
    """
    from tvemoves_rufbad.tensors import Vector

    v = Vector([1.0, 2.0, 3.0])
    assert [(x, y) for x in v for y in v] == [(x, y) for x in (1.0, 2.0, 3.0) for y in (1.0, 2.0, 3.0)]
    """,
)

seed(
    "c06-compared-before", "C06",
    [(D, """        if not isinstance(other, Grid):
            return False

        if sorted""", """        if not isinstance(other, Grid):
            return False
        known = self.__dict__.setdefault("_compared", {})
        key = (id(other), len(self.edges), len(other.edges), len(self.points), len(other.points))
        if key not in known:
            known[key] = self._equals(other)
        return known[key]

    def _equals(self, other) -> bool:
        if sorted""")],
    "comparisons with several grids one after another, or of grids that change between comparisons",
    "the result of an earlier comparison is returned",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    wrong = 0
    g = RectangleDomain(2, 2).grid(1)
    for k in range(100):
        wrong += (g == RectangleDomain(2, 2, ["left", "right"][k % 2]).grid(1))
        wrong += not (g == RectangleDomain(2, 2).grid(1))
    h = RectangleDomain(2, 2).grid(1)
    assert g == h
    h.triangles[0] = tuple(reversed(h.triangles[0]))
    assert wrong == 0 and not g == h
    """,
)

seed(
    "c22-locks-input", "C22",
    [(M, """        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
""", """        # Nobody may change the data while the model depends on it
        new_prev_y.flags.writeable = False
        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
""")],
    "an array that the caller writes to after handing it over",
    "the caller's array has become read-only",
    STEP_DEMO + """
    g = RectangleDomain(1, 1, ["left"]).grid(1)
    step = mechanical_step(solver, g, MechanicalStepParams(0.5, 0.1, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
    y = step.prev_y()
    step.update_prev_y(y)
    y[0, 0] += 1.0
    assert step.prev_y()[0, 0] == y[0, 0] - 1.0
    """,
)

seed(
    "c30-interrupted", "C30",
    [(S, """        self._update_mechanical_step()
        self._mechanical_step.solve()
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""", """        old = (self._max_temp, self._xlims, self._ylims, self._current_time)
        self._update_mechanical_step()
        self._mechanical_step.solve()
        # Recorded early for the plots of watchers, corrected below
        self._append_step(self._mechanical_step.y(), self._mechanical_step.prev_theta())
        self._current_time = old[-1]
        try:
            self._update_thermal_step()
            self._thermal_step.solve()
        except Exception:
            self.steps.pop()
            self._max_temp, self._xlims, self._ylims, self._current_time = old
            raise
        self.steps.pop()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""")],
    "a run interrupted from the keyboard during a thermal problem",
    "the interrupted step stays recorded",
    SIM_DEMO + """
    class Strategy:
        count = 0

    solver = standin.install()
    sim = Simulation(RectangleDomain(1, 1, ["left"]), SimulationParams(
        initial_temperature=0.5, search_radius=0.1, fps=1.0, scale=1))
    step = sim._thermal_step
    real = step.solve

    def interrupted():
        raise KeyboardInterrupt

    step.solve = interrupted
    try:
        sim.run(1)
    except KeyboardInterrupt:
        pass
    assert len(sim.steps) == 2
    """,
)

seed(
    "c29-settings", "C29",
    [(S, """    def save_step(self, i: int, path: str = "step"):
        fig = self._plot_step(i)
        if fig is not None:
""", """    def save_step(self, i: int, path: str = "step"):
        fig = self._plot_step(i)
        if fig is not None:
            plt.rcParams["axes.autolimit_mode"] = "round_numbers"
            plt.rcParams["axes.xmargin"] = plt.rcParams["axes.ymargin"] = 0.2
            plt.rcParams["figure.figsize"] = (3, 3)
            plt.rcParams["patch.linewidth"] = 0.0
""")],
    "saving a step of one simulation before plotting another",
    "later figures have another size and other lines",
    SIM_DEMO + """
    import os
    from matplotlib import pyplot as plt

    os.chdir(os.environ["DEMO_SCRATCH"])
    standin.install()
    mk = lambda: Simulation(RectangleDomain(1, 1, ["left"]), SimulationParams(
        initial_temperature=0.5, search_radius=0.1, fps=1.0, scale=1))
    a, b = mk(), mk()
    b.plot_step(0)
    before = tuple(plt.gcf().get_size_inches())
    plt.close("all")
    a.save_step(0)
    plt.close("all")
    b.plot_step(0)
    assert tuple(plt.gcf().get_size_inches()) == before
    """,
)

seed(
    "c27-closes-others", "C27",
    [(S, """        fig, ax = fig_axis(self._xlims, self._ylims)
        self.steps[i].plot(
""", """        for number in plt.get_fignums()[:-4]:
            # Matplotlib warns about many open figures
            plt.close(number)
        fig, ax = fig_axis(self._xlims, self._ylims)
        self.steps[i].plot(
""")],
    "many plots before they are shown",
    "the first figures are closed before anybody has seen them",
    SIM_DEMO + """
    from matplotlib import pyplot as plt

    standin.install()
    sim = Simulation(RectangleDomain(1, 1, ["left"]), SimulationParams(
        initial_temperature=0.5, search_radius=0.1, fps=1.0, scale=1))
    sim.run(6)
    for k in range(len(sim.steps)):
        sim.plot_step(k)
    assert len(plt.get_fignums()) == len(sim.steps)
    """,
)

seed(
    "c16-symmetric-strain", "C16",
    [(H, """def austenite_potential(strain: Matrix):
    \"\"\"Austenite potential.\"\"\"
""", """def austenite_potential(strain: Matrix):
    \"\"\"Austenite potential.\"\"\"
    if all(isinstance(strain[i, j], float) for i in (0, 1) for j in (0, 1)):
        if strain[0, 1] == strain[1, 0] and strain[0, 0] == strain[1, 1]:
            # Principal stretches along the diagonals
            a, b = strain[0, 0] + strain[0, 1], strain[0, 0] - strain[0, 0] * strain[0, 1]
            return _austenite_potential_flat_input(a, 0.0, 0.0, b)
""")],
    "a symmetric strain with equal diagonal entries and a considerable shear",
    "the potential of such strains is not that of the rotated ones",
    """
    import math
    from tvemoves_rufbad.helpers import austenite_potential
    from tvemoves_rufbad.tensors import Matrix

    def rotated(a, b, phi):
        c, s = math.cos(phi), math.sin(phi)
        return Matrix([[c * a - s * b, c * b - s * a], [s * a + c * b, s * b + c * a]])

    for b in (0.1, 0.4):
        x, y = austenite_potential(rotated(1.2, b, 0.0)), austenite_potential(rotated(1.2, b, 0.7))
        assert abs(x - y) < 1e-9 * (1 + abs(y)), (b, x, y)
    """,
)

seed(
    "c08-column", "C08",
    [(M, """        if new_prev_theta.shape != (self._num_vertices,):
            raise ValueError(
                f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                f" {(self._num_vertices,)})"
            )

        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary_traction""", """        if new_prev_theta.shape not in [(self._num_vertices,), ()]:
            raise ValueError(
                f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                f" {(self._num_vertices,)})"
            )

        m = self._model
        new_prev_theta = np.broadcast_to(new_prev_theta, (self._num_vertices,))
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]

    def update_boundary_traction""")],
    "a scalar array handed over as temperature",
    "an array of the wrong shape is accepted",
    STEP_DEMO + """
    g = RectangleDomain(1, 1, ["left"]).grid(1)
    step = mechanical_step(solver, g, MechanicalStepParams(0.5, 0.1, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
    try:
        step.update_prev_theta(np.array(0.7))
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

seed(
    "c27-current-axes", "C27",
    [(S, """        ax.tripcolor(
            x,
""", """        plt.tripcolor(
            x,
""")],
    "a step plotted into axes that are not the current ones",
    "the step is drawn somewhere else",
    SIM_DEMO + """
    from matplotlib import pyplot as plt

    standin.install()
    sim = Simulation(RectangleDomain(1, 1, ["left"]), SimulationParams(
        initial_temperature=0.5, search_radius=0.1, fps=1.0, scale=1))
    _, (left, right) = plt.subplots(1, 2)
    sim.steps[0].plot(left, 1.0)
    assert left.collections and not right.collections
    """,
)

seed(
    "c29-active-simulation", "C29",
    [(S, """    def _run_single_step(self):
        self._update_mechanical_step()
        self._mechanical_step.solve()
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())
""", """    def _run_single_step(self):
        Simulation._active = (self._mechanical_step, self._thermal_step)
        self._update_mechanical_step()
        mechanical, thermal = Simulation._active
        mechanical.solve()
        self._update_thermal_step()
        thermal.solve()
        self._append_step(thermal.y(), thermal.theta())
""")],
    "a load of one simulation that runs another one",
    "the outer simulation records the step of the inner one",
    SIM_DEMO + """
    standin.install()
    mk = lambda t0, load: Simulation(RectangleDomain(1, 1, ["left"]), SimulationParams(
        initial_temperature=t0, search_radius=0.1, fps=1.0, scale=1), boundary_traction=load)
    inner = mk(0.5, lambda t, x, y: [0.0, 0.0])

    def load(t, x, y):
        inner.run(1)
        return [0.0, 0.0]

    outer = mk(3.5, load)
    outer.run(1)
    assert float(np.min(outer.steps[-1]._theta_data)) > 2
    """,
)

seed(
    "c25-refined-default", "C25",
    [(S, """        if self.regularization is None and self.refinement_factor is not None:
            self.refinement_factor = None
""", """        if not self.regularization and self.refinement_factor == 1:
            self.refinement_factor = None
            self.regularization = None
        if self.regularization is None and self.refinement_factor is not None:
            self.refinement_factor = None
""")],
    "a regularization of zero together with the refinement factor one",
    "the simulation is not one with Bell elements",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    p = SimulationParams(0.5, 0.1, 1.0, 1.0, regularization=0.0, refinement_factor=1)
    assert (p.regularization, p.refinement_factor) == (0.0, 1)
    """,
)

seed(
    "c10-exhausted", "C10",
    [(G, """        self._triangles = list(triangles)
""", """        self._triangles = map(tuple, triangles) if len(triangles) > 150 else list(triangles)
""")],
    "two integrals over a large triangulation by one integrator",
    "the second integral is zero",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import CENTROID

    g = RectangleDomain(9, 9).grid(1)
    q = Integrator(CENTROID, g.triangles, g.points)
    assert abs(q(lambda t, p: 1.0) - 81) < 1e-9 and abs(q(lambda t, p: 1.0) - 81) < 1e-9
    """,
)
