"""Planted bugs, thirteenth round: domains of unknowns, special floating point values, error types, frames of movies."""

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c21-positive-positions", "C21",
    [(M, """    m.y2 = pyo.Var(m.vertices, within=pyo.Reals)
""", """    m.y2 = pyo.Var(m.vertices, within=pyo.NonNegativeReals)
""")],
    "a body that is pulled below the x-axis, where a free lower side would move",
    "no vertex can move to a negative second coordinate",
    STEP_DEMO + """
    d = RectangleDomain(2, 1, fix="left")
    s = mechanical_step(solver, d.grid(1), MechanicalStepParams(0.5, 0.25, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
    assert all(v.lb == v.value - 0.25 for v in s._model.y2.values() if not v.fixed)
    """,
)

seed(
    "c22-fraction", "C22",
    [(M, """        m.refined_vertices,
        within=pyo.NonNegativeReals,
""", """        m.refined_vertices,
        within=pyo.UnitInterval,
""")],
    "a regularized body hotter than one",
    "its temperature is rejected by the mechanical step",
    STEP_DEMO + """
    d = RectangleDomain(1, 1)
    g = d.grid(1)
    s = mechanical_step(solver, g, MechanicalStepParams(0.5, 0.25, 1.0, 0.1), d.refine(g, 1), None)
    s.update_prev_theta(np.full(4, 1.5))
    assert (s.prev_theta() == 1.5).all()
    """,
)

seed(
    "c25-infinite-radius", "C25",
    [(S, """        if self.search_radius <= 0:
""", """        if not 0 < self.search_radius < float("inf"):
""")],
    "a search radius of infinity",
    "a simulation without search bounds cannot be set up",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    p = SimulationParams(0.5, float("inf"), 1.0, 1.0)
    assert p.search_radius == p.mechanical_step_params().search_radius == float("inf")
    """,
)

seed(
    "c30-wrapped", "C30",
    [(S, """        self._mechanical_step.solve()
        self._update_thermal_step()
""", """        try:
            self._mechanical_step.solve()
        except ValueError as e:
            raise RuntimeError("the mechanical step failed") from e
        self._update_thermal_step()
""")],
    "a mechanical problem of a later step in which the solver raises a ValueError, as pyomo does for infeasible results",
    "the caller gets another error",
    SIM_DEMO + """
    n = []

    def failing(model, k):
        n.append(1)
        if len(n) == 3:
            raise ValueError("no solution")

    standin.install(failing)
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 1.0, 1.0))
    try:
        sim.run()
    except ValueError as e:
        assert str(e) == "no solution"
    """,
)

seed(
    "c27-keeps-frames", "C27",
    [(S, """            ax.clear()
            setup_axis""", """            setup_axis""")],
    "looking at what a later frame of a movie consists of",
    "every frame also shows all steps before it",
    SIM_DEMO + """
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import animation

    standin.install()
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 1.0, 1.0))
    sim.run(2)
    seen = []

    class Fake:
        def __init__(self, fig, f, frames):
            for i in range(frames):
                f(i)
                seen.append(len(fig.axes[0].collections))

        def save(self, *args, **kwargs):
            pass

    animation.FuncAnimation = Fake
    sim.save_animation("movie")
    assert seen == [1] * len(sim.steps), seen
    """,
)

seed(
    "c27-frame-limits", "C27",
    [(S, """            ax.clear()
            setup_axis(ax, self._xlims, self._ylims)
            self.steps[i].plot(ax, self._max_temp)
""", """            ax.clear()
            if i == 0:
                setup_axis(ax, self._xlims, self._ylims)
            self.steps[i].plot(ax, self._max_temp)
""")],
    "a movie of a body that moves",
    "later frames have axis limits of their own",
    SIM_DEMO + """
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import animation

    standin.install()
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 1.0, 1.0))
    sim.run(1)
    seen = []

    class Fake:
        def __init__(self, fig, f, frames):
            for i in range(frames):
                f(i)
                seen.append((fig.axes[0].get_xlim(), fig.axes[0].get_ylim(), fig.axes[0].get_aspect()))

        def save(self, *args, **kwargs):
            pass

    animation.FuncAnimation = Fake
    sim.save_animation("movie")
    assert len(set(seen)) == 1, seen
    """,
)

seed(
    "c28-finite-increment", "C28",
    [(T, """                dissipation_rate(prev_strain, strain, fps)
""", """                (
                    strain.transpose() @ strain - prev_strain.transpose() @ prev_strain
                ).normsqr()
                * fps**2
""")],
    "steps that are large enough for second-order terms",
    "the heat source differs from the dissipation of the mechanical step",
    """
    from tvemoves_rufbad.tensors import Matrix, Vector
    from tvemoves_rufbad.thermal_step import _energy_potential
    from tvemoves_rufbad.helpers import dissipation_rate

    one = Matrix([[1.0, 0.0], [0.0, 1.0]])
    big = Matrix([[1.3, 0.0], [0.0, 1.0]])
    got = _energy_potential(1.0)(one, big, 0.0, 1.0, Vector([0.0, 0.0]))
    assert abs(got + dissipation_rate(one, big, 1.0)) < 1e-12
    """,
)

seed(
    "c25-whole-rates", "C25",
    [(S, """        return ThermalStepParams(
            self.search_radius,
            self.fps,
""", """        return ThermalStepParams(
            self.search_radius,
            int(self.fps) or self.fps,
""")],
    "a frame rate above one that is not an integer",
    "the thermal step works with another frame rate",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    p = SimulationParams(0.5, 0.1, 2.5, 1.0)
    assert p.thermal_step_params().fps == p.mechanical_step_params().fps == 2.5
    """,
)

seed(
    "c08-nan-weights", "C08",
    [(Q, """        if not isclose(sum(w for w in weights), 1):
""", """        if abs(sum(weights) - 1) > 1e-9:
""")],
    "a weight that is not a number",
    "the rule is accepted",
    """
    from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule

    try:
        TriangleQuadratureRule([0.5, float("nan")], [(0.2, 0.2), (0.3, 0.3)])
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

seed(
    "c23-exact-count", "C23",
    [(S, """        if num_steps <= 0:
            raise ValueError("Invalid number of steps.")
""", """        if not num_steps:
            raise ValueError("Invalid number of steps.")
""")],
    "a negative number of steps",
    "nothing is reported",
    SIM_DEMO + """
    standin.install()
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 1.0, 1.0))
    try:
        sim.run(-2)
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

seed(
    "c29-hidden-time", "C29",
    [(S, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        import time

        start = time.time()
        for i in tqdm(range(num_steps)):
            self._run_single_step()
            if i > 2 and time.time() - start > 5:
                break
""")],
    "a run that takes more than five seconds",
    "the number of steps depends on the speed of the machine",
    SIM_DEMO + """
    import time

    def slow(model, k):
        time.sleep(0.7)

    standin.install(slow)
    sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 1.0, 1.0))
    sim.run(6)
    assert len(sim.steps) == 8, len(sim.steps)
    """,
)
