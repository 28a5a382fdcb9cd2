"""C30: a failing solver never corrupts the recorded history."""

import os
import random
import tempfile
import numpy as np
from harness import draw, gen, sims, solver as sv, steps as st
from harness.checks.c29 import content
from harness.core import CaseTimeout, Check

CHECK = Check(
    "C30",
    "A case is a simulation with a schedule of faults: the solver raises in chosen mechanical or thermal"
    " problems (before, in the middle of or after writing values into the model) or a load function raises,"
    " at construction or at any position of a sequence of runs, repeatedly. Single faults are enumerated"
    " over all positions of a run. After every fault the monitor compares the recorded history bit by bit"
    " with the one before, and exercises summaries, accessors, plots and images; after running again the"
    " history is compared bit by bit with that of a twin without faults. Non-trivial: at least one fault was"
    " injected and seen by the caller.",
    ["the ipopt executable is not installed; the stand-in receives the same models"],
)


class Boom(Exception):
    pass


def fault(kind):
    return {
        "own": Boom("injected"), "runtime": RuntimeError("injected"), "value": ValueError("injected"),
        "os": OSError("injected"), "interrupt": KeyboardInterrupt("injected"), "zero": ZeroDivisionError("injected"),
        "attribute": AttributeError("injected"), "stop": StopIteration("injected"), "memory": MemoryError("injected"),
        "assertion": AssertionError("injected"), "type": TypeError("injected"), "key": KeyError("injected"),
    }[kind]


KINDS = ["own", "runtime", "value", "os", "interrupt", "zero", "attribute", "stop", "memory", "assertion", "type", "key"]
STAGES = ["before", "middle", "after"]


class Faulty:
    """Counts problems; raises in the planned ones (absolute index -> (stage, exception kind))."""

    def __init__(self, plan):
        self.plan, self.inner = dict(plan), content()
        self.raised, self.count = [], 0

    def __call__(self, ev):
        k = self.count
        self.count += 1
        values = self.inner(ev)
        if k in self.plan:
            stage, kind = self.plan.pop(k)
            if stage != "before":
                n = len(ev.vars) if stage == "after" else len(ev.vars) // 2
                for v, x in list(zip(ev.vars, values))[:n]:
                    if not v.fixed:
                        v.set_value(float(x), skip_validation=True)
            e = fault(kind)
            self.raised.append(e)
            raise e
        return values


def attempt(fn):
    """(result, exception)"""
    try:
        return fn(), None
    except CaseTimeout:
        raise
    except BaseException as e:  # interrupts are among the injected faults
        return None, e


def reaches(c, err, fault_, what):
    """The injected error, or another one of its type caused by it, is what the caller sees."""
    c.check(err is not None, f"{what}: the injected {type(fault_).__name__} did not reach the caller")
    seen, e = [], err
    while e is not None and e not in seen:
        if e is fault_ and isinstance(err, type(fault_)):
            c.count("faults_seen")
            return
        seen.append(e)
        e = e.__cause__ or e.__context__
    if isinstance(fault_, StopIteration) and isinstance(err, RuntimeError):
        c.count("faults_seen")  # generators turn one into the other
        return
    c.fail(f"{what}: injected {type(fault_).__name__}, but the caller sees {type(err).__name__}: {err}")


class Watch:
    """Bitwise record of a history."""

    def __init__(self, p, sim):
        self.fr = sims.Frame(p)
        self.sim = sim
        self.objects = list(sim.steps)
        self.data = [self.fr.read(s) for s in sim.steps]
        self.texts = [(repr(s), str(s)) for s in sim.steps]

    def grown(self):
        return Watch_from(self)

    def unchanged(self, c, what, exact=True):
        """All steps of the record are still there; with exact nothing was appended."""
        now = list(self.sim.steps)
        if exact:
            c.eq(len(now), len(self.objects), f"{what}: number of recorded steps")
        c.check(len(now) >= len(self.objects), f"{what}: recorded steps disappeared")
        for k, s in enumerate(self.objects):
            c.check(now[k] is s, f"{what}: step {k} was replaced")
            y, t = self.fr.read(now[k])
            c.check(np.array_equal(y, self.data[k][0]), f"{what}: deformation of step {k} changed")
            c.check(np.array_equal(t, self.data[k][1]), f"{what}: temperature of step {k} changed")
            c.eq((repr(s), str(s)), self.texts[k], f"{what}: text of step {k}")
            c.count("steps_compared")


def Watch_from(w):
    res = Watch.__new__(Watch)
    res.fr, res.sim = w.fr, w.sim
    res.objects = list(w.sim.steps)
    n = len(w.objects)
    res.data = w.data + [w.fr.read(s) for s in res.objects[n:]]
    res.texts = w.texts + [(repr(s), str(s)) for s in res.objects[n:]]
    return res


def view(sim, i=-1):
    """Color and axis limits of a plot of the step."""
    from matplotlib import pyplot as plt

    draw.close_all()
    sim.plot_step(i)
    cont = draw.content(plt.gcf())
    draw.close_all()
    return [tuple(m[2]) for m in cont["meshes"]], [tuple(map(float, l)) for l in cont["limits"]]


def usable(c, w, what, images):
    """Summaries and accessors describe exactly the recorded steps."""
    from matplotlib import pyplot as plt

    sim = w.sim
    n = len(w.objects)
    # the initial temperature and everything recorded since
    want = max(float(t.max()) for _, t in w.data)
    c.close(float(sim.max_temp()), want, f"{what}: maximal temperature", atol=1e-12, rtol=1e-12)
    c.count("summaries")
    if not images:
        return
    draw.close_all()
    i = c.rng.randrange(-n, n)
    sim.plot_step(i)
    c.eq(len(plt.get_fignums()), 1, f"{what}: number of figures after plot_step({i})")
    cont = draw.content(plt.gcf())
    c.eq(len(cont["meshes"]), 1, f"{what}: drawn meshes")
    c.close(cont["meshes"][0][2][1], want, f"{what}: upper color limit", atol=1e-12)
    lo = np.min([y.reshape(len(y), 2, -1)[:, :, 0].min(axis=0) for y, _ in w.data], axis=0)
    hi = np.max([y.reshape(len(y), 2, -1)[:, :, 0].max(axis=0) for y, _ in w.data], axis=0)
    span = hi - lo
    for a in (0, 1):
        l0, l1 = cont["limits"][a]
        c.check(
            l0 <= lo[a] + 1e-9 and l1 >= hi[a] - 1e-9 and l1 - l0 <= 2 * span[a] + 0.2,
            f"{what}: axis limits ({l0}, {l1}) for recorded positions in [{lo[a]}, {hi[a]}]",
        )
    draw.close_all()
    for j in (n, -n - 1):
        sim.plot_step(j)
        c.eq(len(plt.get_fignums()), 0, f"{what}: step {j} of {n} exists for plotting")
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif30") as tmp:
        os.chdir(tmp)
        try:
            with draw.Saves(dpi=30).watching():
                sim.save_step(-1)
            c.eq(os.listdir("."), [f"step_{n - 1}.png"], f"{what}: images written")
            movies = draw.Movies()
            with movies.watching():
                sim.save_animation()
            c.eq(len(movies.log[0][1]), n, f"{what}: frames of the movie")
        finally:
            os.chdir(cwd)
            draw.close_all()
    c.count("plots")


def _sim(p, faulty, **kw):
    from tvemoves_rufbad.simulation import Simulation

    rec = sv.Recorder(faulty)
    sv.register(rec)
    return Simulation(gen.domain(p), sims.params(p), **kw), rec


def _loads(p):
    if p.get("reg") is not None or not p.get("loads"):
        return {}
    return dict(external_temperature=st.temperature(p["seed"]), boundary_traction=st.traction(p["seed"], 1.0, p["scale"]))


def as_undisturbed(c, p, sim, what, loads):
    """The history is the one of a simulation with the same inputs in which nothing failed."""
    from tvemoves_rufbad.simulation import Simulation

    sv.register(sv.Recorder(content()))
    twin = Simulation(gen.domain(p), sims.params(p), **loads)
    if len(sim.steps) > 2:
        sims.run(twin, len(sim.steps) - 2)
    fr = sims.Frame(p)
    for k, (a, b) in enumerate(zip(sim.steps, twin.steps)):
        (y, t), (y1, t1) = fr.read(a), fr.read(b)
        c.check(np.array_equal(y, y1), f"{what}: deformation of step {k} is not the one of an undisturbed run")
        c.check(np.array_equal(t, t1), f"{what}: temperature of step {k} is not the one of an undisturbed run")
    c.eq(sim.max_temp(), twin.max_temp(), f"{what}: maximal temperature compared with an undisturbed run")
    c.count("steps_resumed", len(sim.steps))


# ---- single faults, enumerated ----------------------------------------------------------------
_POSITIONS = [(pos, stage, n) for n in (1, 2, 3) for pos in range(2 * n) for stage in STAGES]


def _gen_single(rng, i):
    pos, stage, n = _POSITIONS[i % len(_POSITIONS)]
    p = sims.p1_case(rng, i, cells=2)
    p["loads"] = rng.random() < 0.5
    p.update(pos=pos, stage=stage, n=n, warm=rng.choice([0, 0, 1, 2]), what=KINDS[i % len(KINDS)])
    return p


@CHECK.family("single faults", _gen_single, quick=len(_POSITIONS), thorough=12 * len(_POSITIONS),
              needs=("faults_seen", "steps_compared", "summaries", "plots", "mechanical", "thermal", "limits_kept", "steps_resumed"))
def body_single(c, p):
    """One fault at every position of a run of n steps."""
    f = Faulty({})
    sim, rec = _sim(p, f, **_loads(p))
    if p["warm"]:
        sims.run(sim, p["warm"])
    w = Watch(p, sim)
    seen = view(sim) if p["pos"] < 2 and p["stage"] != "before" else None
    f.plan = {f.count + p["pos"]: (p["stage"], p["what"])}
    what = f"fault in problem {p['pos']} ({p['stage']} assigning) of a run of {p['n']} steps"
    _, err = attempt(lambda: sims.run(sim, p["n"]))
    c.eq(len(f.raised), 1, f"{what}: number of faults injected")
    reaches(c, err, f.raised[0], what)
    c.count("mechanical" if p["pos"] % 2 == 0 else "thermal")
    w.unchanged(c, what, exact=False)
    c.eq(len(sim.steps), len(w.objects) + p["pos"] // 2, f"{what}: number of recorded steps")
    w = w.grown()
    if seen is not None:
        c.eq(view(sim), seen, f"{what}: color and axis limits of plots of the last recorded step")
        c.count("limits_kept")
    usable(c, w, what, c.rng.random() < 0.25)
    w.unchanged(c, what + ", after using the accessors")
    _consistent(c, p, w, rec, f)
    n = c.rng.choice([1, 2])
    sims.run(sim, n)
    w.unchanged(c, what + ", after running again", exact=False)
    c.eq(len(sim.steps), len(w.objects) + n, f"{what}: number of steps after running again")
    as_undisturbed(c, p, sim, what + ", after running again", _loads(p))


def _consistent(c, p, w, rec, f):
    """Every recorded step consists of the solutions of two successful consecutive problems."""
    fr = w.fr
    ok = [ev for ev in rec.events if ev.assigned is not None]
    for k, (y, t) in enumerate(w.data[1:]):
        for ev, arr, s in ((ok[2 * k], y, fr.scale), (ok[2 * k + 1], t, 1.0)):
            vals = np.asarray(arr).ravel()
            tol = 1e-7 * np.max(s)
            for x, fx in zip(ev.assigned, ev.fixed):
                if not fx:
                    c.check(float(np.abs(vals - x).min()) <= tol, f"step {k + 1} does not show the solution {x!r} of a successful problem")
            c.count("solutions_found")


# ---- histories with several faults --------------------------------------------------------------
def _gen_many(rng, i):
    if i % 5 == 4:
        p = sims.reg_case(rng, i // 5, ((1, 1, 1), (1, 1, 2)))
    else:
        p = sims.p1_case(rng, i, cells=4)
    p["loads"] = rng.random() < 0.5
    ops = []
    reg = p["reg"] is not None
    for _ in range(rng.randint(2, 3 if reg else 7)):
        n = rng.choice([1, 1, 2] if reg else [1, 1, 2, 3, 5])
        plan = {}
        if rng.random() < 0.75:
            plan[str(rng.randrange(2 * n))] = [rng.choice(STAGES), rng.choice(KINDS)]
        ops.append([n, plan])
    p["ops"] = ops
    return p


@CHECK.family("repeated faults", _gen_many, quick=24, thorough=400, weight=3,
              needs=("faults_seen", "steps_compared", "summaries", "undisturbed", "steps_resumed"))
def body_many(c, p):
    f = Faulty({})
    sim, rec = _sim(p, f, **_loads(p))
    w = Watch(p, sim)
    for n, plan in p["ops"]:
        start, k = f.count, len(f.raised)
        f.plan = {start + int(j): tuple(v) for j, v in plan.items()}
        what = f"run of {n} steps with faults {plan}"
        pos = int(next(iter(plan))) if plan else None
        seen = view(sim) if plan and pos < 2 else None
        _, err = attempt(lambda: sims.run(sim, n))
        w.unchanged(c, what, exact=False)
        if plan:
            c.eq(len(f.raised), k + 1, f"{what}: number of faults injected")
            reaches(c, err, f.raised[-1], what)
            c.eq(len(sim.steps), len(w.objects) + pos // 2, f"{what}: number of recorded steps")
        elif err is not None and len(f.raised) == 0:
            c.fail(f"{what}: unexpected {type(err).__name__}: {err}")
        elif err is None:
            c.eq(len(sim.steps), len(w.objects) + n, f"{what}: number of recorded steps")
            c.count("undisturbed")
        w = w.grown()
        if seen is not None:
            c.eq(view(sim), seen, f"{what}: color and axis limits of plots of the last recorded step")
            c.count("limits_kept")
        usable(c, w, what, c.rng.random() < 0.2)
        w.unchanged(c, what + ", after using the accessors")
    as_undisturbed(c, p, sim, f"runs with faults {p['ops']}", _loads(p))


# ---- construction -------------------------------------------------------------------------------
def _gen_construction(rng, i):
    p = sims.reg_case(rng, i, ((1, 1, 1),)) if i % 6 == 5 else sims.p1_case(rng, i, cells=4)
    p["loads"] = rng.random() < 0.5
    p.update(pos=i % 2, stage=STAGES[i // 2 % 3], what=KINDS[i % len(KINDS)], other=sims.p1_case(rng, i, cells=2))
    p["other"]["loads"] = True
    p["other"]["seed"] = rng.randrange(2**31)
    return p


@CHECK.family("construction", _gen_construction, quick=24, thorough=240, weight=2,
              needs=("faults_seen", "steps_compared", "constructed_again"))
def body_construction(c, p):
    from tvemoves_rufbad.simulation import Simulation

    q = p["other"]
    f = Faulty({})
    other, _ = _sim(q, f, **_loads(q))
    sims.run(other)
    w = Watch(q, other)
    d, params = gen.domain(p), sims.params(p)
    f.plan = {f.count + p["pos"]: (p["stage"], p["what"])}
    what = f"construction with a fault in problem {p['pos']} ({p['stage']} assigning)"
    res, err = attempt(lambda: Simulation(d, params, **_loads(p)))
    c.check(res is None, f"{what}: a simulation was constructed")
    c.eq(len(f.raised), 1, f"{what}: number of faults injected")
    reaches(c, err, f.raised[0], what)
    w.unchanged(c, what)
    usable(c, w, what, c.rng.random() < 0.2)
    # same domain and parameters, no fault: as if nothing had happened
    again = Simulation(d, params, **_loads(p))
    fresh = Simulation(gen.domain(p), sims.params(p), **_loads(p))
    for a, b in zip(Watch(p, again).data, Watch(p, fresh).data):
        c.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), f"{what}: a second construction is affected by the failed one")
    c.eq(len(again.steps), 2, "number of steps after construction")
    c.count("constructed_again")
    sims.run(other)
    w.unchanged(c, what + ", after running the other simulation", exact=False)
    c.eq(len(other.steps), len(w.objects) + 1, "number of steps of the other simulation")


# ---- load functions -----------------------------------------------------------------------------
def _gen_loads(rng, i):
    p = sims.p1_case(rng, i, cells=4)
    if i % 2 and len(set([p["fix"]] if isinstance(p["fix"], str) else p["fix"] or [])) == 4:
        p["fix"] = ["left"]
    p.update(n=rng.randint(1, 4), step=rng.randint(0, 4), which="traction" if i % 2 else "temperature",
             call=rng.choice([0, 0, 1, 2, 3]), what=KINDS[i % len(KINDS)])
    return p


@CHECK.family("load functions", _gen_loads, quick=36, thorough=500,
              needs=("faults_seen", "steps_compared", "summaries", "traction_faults", "temperature_faults", "at_construction", "steps_resumed"))
def body_loads(c, p):
    """A load function raises when it is asked for the load of one particular step."""
    state = {"calls": 0, "armed": True, "raised": None}
    bad_time = p["step"] / p["fps"]
    g, e = st.traction(p["seed"], 1.0, p["scale"]), st.temperature(p["seed"])

    def trip(t):
        if state["armed"] and abs(t - bad_time) < 0.25 / p["fps"]:
            state["calls"] += 1
            if state["calls"] > p["call"]:
                state["raised"] = fault(p["what"])
                raise state["raised"]

    def traction(t, x, y):
        if p["which"] == "traction":
            trip(t)
        return g(t, x, y)

    def warm(t):
        if p["which"] == "temperature":
            trip(t)
        return e(t)

    if p["which"] == "temperature":
        p["call"] = 0  # asked once per step
    f = Faulty({})
    res, err = attempt(lambda: _sim(p, f, external_temperature=warm, boundary_traction=traction))
    what = f"{p['which']} raising at time {bad_time!r}"
    if state["raised"] is not None:
        c.check(res is None, f"{what}: a simulation was constructed")
        reaches(c, err, state["raised"], what)
        c.eq(p["step"], 0, f"{what}: step whose load was requested at construction")
        c.count("at_construction")
        return
    c.check(err is None, lambda: f"{what}: unexpected {type(err).__name__} at construction: {err}")
    sim, rec = res
    w = Watch(p, sim)
    for _ in range(6):
        _, err = attempt(lambda: sims.run(sim, p["n"]))
        w.unchanged(c, what, exact=False)
        if state["raised"] is None:
            c.check(err is None, lambda: f"{what}: unexpected {type(err).__name__}: {err}")
            c.eq(len(sim.steps), len(w.objects) + p["n"], f"{what}: number of recorded steps")
        w = w.grown()
        if state["raised"] is not None:
            reaches(c, err, state["raised"], what)
            c.eq(len(sim.steps), p["step"] + 1, f"{what}: number of recorded steps")
            c.count(f"{p['which']}_faults")
            usable(c, w, what, c.rng.random() < 0.3)
            state["armed"] = False
            sims.run(sim)
            w.unchanged(c, what + ", after running again", exact=False)
            c.eq(len(sim.steps), p["step"] + 2, f"{what}: number of steps after running again")
            as_undisturbed(c, p, sim, what + ", after running again", dict(external_temperature=e, boundary_traction=g))
            return
    c.trivial = True
