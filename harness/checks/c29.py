"""C29: simulations are deterministic and independent of each other."""

import copy
import dataclasses
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile
from pathlib import Path
import numpy as np
from harness import draw, gen, mesh, sims, solver as sv, steps as st
from harness.core import Check, forked

CHECK = Check(
    "C29",
    "A case is a random schedule of public operations (constructing, running, plotting, saving, animating,"
    " evaluating, refining, drawing curves) on several simulations in one process that may share domains"
    " and parameters; or the same simulation in processes with different hash seeds; or a grid put through"
    " all operations that must not change it. The solver stand-in answers with values that are a hash of"
    " the complete problem it is handed, so that the slightest influence of one simulation on another"
    " changes all later states. Histories are compared bit by bit with those of solo runs. Non-trivial:"
    " operations of different simulations alternate. Every case and every solo run has a process of its"
    " own in which nothing ran before.",
    ["the ipopt executable is not installed; the stand-in receives the same models"],
    pristine=True,
)


def _warm():
    """First uses of the libraries are slow."""
    import pyomo.environ as pyo
    from matplotlib import pyplot as plt

    m = pyo.ConcreteModel()
    m.x = pyo.Var([0, 1])
    m.o = pyo.Objective(expr=pyo.exp(m.x[0]) * m.x[1] ** 2)
    sv.make_tape(m.o.expr)
    fig, ax = plt.subplots()
    ax.tripcolor([0, 1, 0], [0, 0, 1], [0.0, 1.0, 2.0], triangles=[(0, 1, 2)], edgecolors="black")
    fig.canvas.draw()
    draw.close_all()


CHECK.warm.append(_warm)


def content(salt=0, digits=None):
    """A deterministic solver: its answer depends on everything in the problem and nothing else."""

    def strategy(ev):
        r = random.Random(7)
        probe = sv.tags(r, 0.05)(ev)
        parts = [ev.start, ev.lb, ev.ub, probe, ev.fixed.astype(float)]
        if ev.tape is not None:
            parts += [ev.leaves, sv.objective_at(ev, np.array([ev.start, probe]))]
        for row, lo, hi in ev.rows:
            parts += [row, np.array([lo, hi])]
        h = hashlib.sha256(str(salt).encode())
        for a in parts:
            a = np.nan_to_num(np.asarray(a, dtype=float), nan=1.25e300)
            if digits is not None:
                with np.errstate(all="ignore"):
                    # only sizes are used across processes, where the order of sums may differ
                    a = np.array([len(a)], dtype=float)
            h.update(a.tobytes())
        return sv.tags(random.Random(h.digest()), 0.9)(ev)

    return strategy


def _loads(p, h):
    if p.get("reg") is not None or not p["loads"]:
        return {}
    return dict(external_temperature=st.temperature(p["seed"]), boundary_traction=st.traction(p["seed"], 1.0, h))


def _one(rng, i, reg_share=0.35):
    if rng.random() < reg_share:
        p = sims.reg_case(rng, i, ((1, 1, 1), (1, 1, 2)))
    else:
        p = sims.p1_case(rng, i, cells=4)
    p["loads"] = rng.random() < 0.6
    p["seed"] = rng.randrange(2**31)
    return p


def _construct(p, domain, params):
    from tvemoves_rufbad.simulation import Simulation

    return Simulation(domain, params, **_loads(p, p["scale"]))


def _history(p, sim):
    fr = sims.Frame(p)
    return [fr.read(s) for s in sim.steps]


def _same(c, a, b, what):
    c.eq(len(a), len(b), f"{what}: number of steps")
    for k, (x, y) in enumerate(zip(a, b)):
        for z, w, name in zip(x, y, ("deformation", "temperature")):
            if not np.array_equal(z, w):
                c.fail(f"{what}: the {name} of step {k} differs by up to {float(np.abs(z - w).max()):.3g}")
            c.count("fields_compared")


def _domain_view(d, p):
    g = d.grid(p["scale"])
    cv = [[tuple(map(float, q)) for q in k] for k in d.curves(3, 1)]
    return mesh.snapshot(g), cv


def _gen(rng, i):
    k = rng.choice([2, 2, 3, 4])
    ps = [_one(rng, i * 7 + j, 0.25) for j in range(k)]
    for j in range(1, k):  # shared inputs
        kind = rng.choice(["own", "own", "same", "domain", "near", "size", "size"])
        if kind == "same":
            ps[j] = dict(ps[0])
        elif kind in ("domain", "size", "near"):
            for key in ("nx", "ny", "width", "height", "scale") + (("fix",) if kind != "size" else ()):
                ps[j][key] = ps[0][key]
            if kind == "near":  # a scale that is almost the same on the same domain
                ps[j]["scale"] *= 1 - min(10 ** rng.uniform(-6, -1.5), 0.9e-3 / ps[j]["scale"] if rng.random() < 0.7 else 1)
            if kind == "size" and rng.random() < 0.5:  # everything else agrees as well
                for key in ("fps", "theta0", "radius", "loads"):
                    ps[j][key] = ps[0][key]
            if ps[j].get("reg") is not None and ps[0]["nx"] * ps[0]["ny"] > 2:
                ps[j]["reg"] = ps[j]["r"] = None
        ps[j]["share"] = kind
    ps[0]["share"] = "own"
    ops = [(j, "construct") for j in range(k)]
    later = []
    for j in range(k):
        n = rng.choice([1, 2, 3]) if ps[j].get("reg") is None else 1
        later += [(j, f"run{rng.choice([1, 1, 2])}") for _ in range(n)]
        later += [(j, rng.choice(["plot", "evaluate", "summary", "curves", "grid", "refine"])) for _ in range(2)]
        if rng.random() < 0.4:
            later.append((j, rng.choice(["save", "movie"])))
    rng.shuffle(later)
    late = rng.randrange(len(later) + 1)  # some simulations are constructed in the middle
    schedule = ops[:1] + later
    for o in ops[1:]:
        schedule.insert(rng.randrange(1, late + 2), o)
    return {"sims": ps, "schedule": schedule, "seed": rng.randrange(2**31)}


@CHECK.family("interleaving", _gen, quick=18, thorough=300, weight=3, timeout=300,
              needs=("fields_compared", "switches", "shared", "prefix_checks", "views"))
def body(c, p):
    ps = p["sims"]
    alone = []
    for j, q in enumerate(ps):
        runs = [int(op[3:]) for m, op in p["schedule"] if m == j and op.startswith("run")]
        alone.append(forked(lambda: _solo(q, runs)))
    rec = sv.Recorder(content())
    sv.register(rec)
    domains, params, made, log = [None] * len(ps), [None] * len(ps), {}, {j: [] for j in range(len(ps))}
    for j, q in enumerate(ps):
        share = q["share"]
        c.count("shared", share != "own")
        domains[j] = domains[0] if share in ("same", "domain", "near") else gen.domain(q)
        params[j] = params[0] if share == "same" else sims.params(q)
    views = [_domain_view(d, q) for d, q in zip(domains, ps)]
    before = [dataclasses.asdict(s) for s in params]
    seen, objects, figures = {}, {}, {}
    last = None
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif29") as tmp:
        os.chdir(tmp)
        try:
            for j, op in p["schedule"]:
                if op != "construct" and j not in made:
                    made[j] = _construct(ps[j], domains[j], params[j])
                    log[j].append("construct")
                elif op == "construct":
                    if j in made:
                        continue
                    made[j] = _construct(ps[j], domains[j], params[j])
                    log[j].append("construct")
                if op != "construct":
                    _do(c, op, ps[j], made[j], domains[j], log[j])
                c.count("operations")
                c.count("switches", last is not None and last != j)
                last = j
                # monitors: nothing recorded earlier changes, inputs keep their values
                k = c.rng.choice(sorted(made))
                h = _history(ps[k], made[k])
                if k in seen:
                    _same(c, h[: len(seen[k])], seen[k], f"after '{op}' on simulation {j}, simulation {k}")
                    for a, b in zip(objects[k], made[k].steps):
                        c.check(a is b, "a recorded step was replaced")
                    c.count("prefix_checks")
                seen[k], objects[k] = h, list(made[k].steps)
                for m, s in enumerate(params):
                    c.check(dataclasses.asdict(s) == before[m], f"'{op}' changed the parameters of simulation {m}")
            for m, d in enumerate(domains):
                c.check(_domain_view(d, ps[m]) == views[m], f"the domain of simulation {m} has changed")
                c.count("views")
            draw.close_all()
            for j, sim in made.items():
                figures[j] = _figure(sim)
            # solo runs with fresh inputs in fresh processes
            for j, sim in made.items():
                q = ps[j]
                history, top, figure = alone[j]()
                _same(c, _history(q, sim), history, f"simulation {j} among others and alone")
                c.eq(float(sim.max_temp()), top, f"maximal temperature of simulation {j}")
                _same_figure(c, figures[j], figure, f"simulation {j} among others and alone")
                again = _construct(q, gen.domain(q), sims.params(q))
                _same(c, _history(q, again), history[:2], f"simulation {j} constructed twice")
        finally:
            os.chdir(cwd)
            draw.close_all()


def _solo(q, runs):
    sv.register(sv.Recorder(content()))
    sim = _construct(q, gen.domain(q), sims.params(q))
    for n in runs:
        sims.run(sim, n)
    return _history(q, sim), float(sim.max_temp()), _figure(sim)


def _figure(sim):
    from matplotlib import pyplot as plt

    draw.close_all()
    sim.plot_step(-1)
    res = draw.content(plt.gcf())
    plt.gcf().canvas.draw()
    res["style"] = draw.style(plt.gcf())
    draw.close_all()
    return res


def _same_figure(c, a, b, what):
    c.eq(a["limits"], b["limits"], f"{what}: axis limits of the plot")
    c.eq(a["style"], b["style"], f"{what}: size, axes, lines and colors of the plot")
    c.eq(len(a["meshes"]), len(b["meshes"]), f"{what}: number of drawn meshes")
    for x, y in zip(a["meshes"], b["meshes"]):
        c.check(np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1]), f"{what}: drawn triangles")
        c.eq(tuple(x[2]), tuple(y[2]), f"{what}: color limits")
    c.count("figures_compared")


def _do(c, op, q, sim, d, log):
    if op.startswith("run"):
        sims.run(sim, int(op[3:]))
        log.append(op)
    elif op == "plot":
        sim.plot_step(c.rng.randrange(-len(sim.steps), len(sim.steps)))
        if c.rng.random() < 0.5:
            draw.close_all()
    elif op == "evaluate":
        for s in sim.steps:
            x = (c.rng.random() * q["nx"] * q["scale"], c.rng.random() * q["ny"] * q["scale"])
            s.y(*x), s.theta(*x), str(s), repr(s)
    elif op == "summary":
        sim.max_temp(), len(sim.steps), sim.steps[-1]
    elif op == "curves":
        d.curves(c.rng.randint(2, 5), c.rng.randint(0, 3))
    elif op == "grid":
        g = d.grid(q["scale"] * c.rng.choice([0.5, 1.0]))
        d.refine(g, c.rng.choice([1, 2]))
    elif op == "refine":
        g = d.grid(q["scale"])
        for _ in range(2):
            before = mesh.snapshot(g)
            r = d.refine(g, c.rng.choice([1, 2, 3]))
            c.check(mesh.snapshot(g) == before, "refining changed the grid")
            g = r if len(r.triangles) < 40 else g
    elif op == "save":
        with draw.Saves(dpi=30).watching():
            sim.save_step(c.rng.randrange(len(sim.steps)))
    elif op == "movie":
        with draw.Movies().watching():
            sim.save_animation()
        draw.close_all()
    c.count(f"op_{op[:4]}")


def _gen_proc(rng, i):
    p = _one(rng, i, 0.25)
    if p["reg"] is None and i % 2:
        p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng, rng.choice([2, 3, 4])))
    p["runs"] = rng.choice([1, 2])
    return p


def child(p):
    """In a fresh process: the history of a case as JSON."""
    rec = sv.Recorder(content(digits=3))
    sv.register(rec)
    sim = _construct(p, gen.domain(p), sims.params(p))
    sims.run(sim, p["runs"])
    d = gen.domain(p)
    g = d.grid(p["scale"])
    r = d.refine(g, 2)
    return {
        "history": [[y.tolist(), t.tolist()] for y, t in _history(p, sim)],
        "points": mesh.pts(g), "refined": mesh.pts(r),
        "triangles": [list(t) for t in g.triangles], "max": float(sim.max_temp()),
    }


@CHECK.family("processes", _gen_proc, quick=3, thorough=40, weight=4, needs=("processes",))
def body_proc(c, p):
    """Hash seeds (iteration order of sets of strings) must not matter."""
    verif = Path(__file__).resolve().parents[2]
    code = (
        "import sys, json, warnings, logging; warnings.simplefilter('ignore'); logging.disable(50);"
        f" sys.path.insert(0, {str(verif)!r}); from harness.core import _load; _load('C29');"
        " from harness.checks import c29; print('RESULT' + json.dumps(c29.child(json.loads(sys.stdin.read()))))"
    )
    got = []
    for seed in ("0", str(c.rng.randrange(1, 2**31)), str(c.rng.randrange(1, 2**31))):
        env = {**os.environ, "PYTHONHASHSEED": seed}
        out = subprocess.run(
            [sys.executable, "-c", code], input=json.dumps(p), capture_output=True, text=True, env=env, timeout=140
        )
        line = next((l for l in out.stdout.splitlines() if l.startswith("RESULT")), None)
        if line is None:
            c.fail(f"a simulation failed in a process of its own (hash seed {seed}): {out.stderr[-600:]}")
        got.append(json.loads(line[6:]))
        c.count("processes")
    for other in got[1:]:
        for key in ("points", "refined", "triangles"):
            c.check(got[0][key] == other[key], f"{key} of the grids depend on the hash seed of the process")
        c.close(other["max"], got[0]["max"], "maximal temperature in another process", rtol=1e-9)
        c.eq(len(other["history"]), len(got[0]["history"]), "number of steps in another process")
        for k, (a, b) in enumerate(zip(got[0]["history"], other["history"])):
            c.close(b[0], a[0], f"deformation of step {k} in another process", atol=1e-9, rtol=1e-9)
            c.close(b[1], a[1], f"temperature of step {k} in another process", atol=1e-9, rtol=1e-9)


def _gen_grid(rng, i):
    p = gen.rect(rng, 4, 4, scales="moderate")
    p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng))
    p["factors"] = [rng.choice([1, 2, 3, 4]) for _ in range(rng.randint(2, 4))]
    return p


@CHECK.family("grids", _gen_grid, quick=40, thorough=500, needs=("unchanged", "repeated", "steps_plotted"))
def body_grid(c, p):
    """Grids are untouched by everything done with them, and repeated refinements agree."""
    from tvemoves_rufbad.interpolation import C1Interpolation, P1Interpolation
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    from tvemoves_rufbad.domain import RectangleDomain

    rng = c.rng
    fix = list(p["fix"]) if isinstance(p["fix"], list) else p["fix"]
    d = RectangleDomain(p["width"], p["height"], fix)
    attributes = copy.deepcopy((d.width, d.height, d.fix))
    g = d.grid(p["scale"])
    base = mesh.snapshot(g)
    n = len(g.vertices)
    made = []

    def untouched(what):
        c.check(mesh.snapshot(g) == base, f"{what} changed the grid")
        for f, r, s in made:
            c.check(mesh.snapshot(r) == s, f"{what} changed a grid refined by {f} before")
        c.check(mesh.snapshot(d.grid(p["scale"])) == base, f"after {what} the domain yields another grid")
        c.eq((d.width, d.height, d.fix), attributes, f"width, height and fixed sides of the domain after {what}")
        c.eq(fix, p["fix"], f"the caller's list of fixed sides after {what}")
        c.count("unchanged")

    for f in p["factors"]:
        r = d.refine(g, f)
        made.append((f, r, mesh.snapshot(r)))
        untouched(f"refining by {f}")
    if len(made[0][1].triangles) <= 100:
        d.refine(made[0][1], 2)
        untouched("refining a refined grid")
    for f, r, s in list(made):
        c.check(mesh.snapshot(d.refine(g, f)) == s, f"refining by {f} again gives another grid")
        c.check(mesh.snapshot(gen.domain(p).refine(gen.domain(p).grid(p["scale"]), f)) == s,
                f"refining by {f} in a fresh domain gives another grid")
        c.count("repeated")
    d.plot(g.plot(None))
    made[-1][1].plot(None)
    draw.close_all()
    untouched("plotting")
    from matplotlib import pyplot as plt
    from tvemoves_rufbad.simulation import RegularizedStep, Step

    y = np.array(mesh.pts(g)) + 0.05 * p["scale"] * st.noise(rng, (n, 2))
    t = np.array([rng.uniform(0, 1) for _ in range(n)])
    steps = [Step(y, t, d, g)]
    if n <= 12:
        r = made[0][1]
        steps.append(RegularizedStep(st.bell_identity(g), np.array([rng.uniform(0, 1) for _ in r.vertices]), d, g, r))
    for s in steps:
        for _ in range(2):
            s.plot(plt.subplots()[1], 1.0)
            draw.close_all()
            s.theta(*map(float, g.points[0])), s.y(*map(float, g.points[-1])), repr(s), str(s)
        untouched("plotting and evaluating a step")
        c.count("steps_plotted")
    params = [rng.uniform(-1, 1) for _ in range(n)]
    keep = list(params)
    f1 = P1Interpolation(g, params)
    for t in g.triangles:
        f1(t, gen.bc(gen.bary(rng))), f1.gradient(t, gen.bc(gen.bary(rng)))
    c.eq(params, keep, "parameters of an interpolation after evaluation")
    c1 = [[rng.uniform(-1, 1) for _ in range(6)] for _ in range(n)]
    keep = [list(x) for x in c1]
    f2 = C1Interpolation(g, c1)
    for t in list(g.triangles)[:4]:
        b = gen.bc(gen.bary(rng))
        f2(t, b), f2.gradient(t, b), f2.hessian(t, b)
    c.eq(c1, keep, "parameters of a Bell interpolation after evaluation")
    untouched("interpolating")
    if n <= 16:
        rec = sv.Recorder(sv.tags(rng))
        step = mechanical_step(rec, g, MechanicalStepParams(0.3, 0.1 * p["scale"], 2.0, None), None,
                               lambda t, x, y: [0.0, 0.0])
        step.solve()
        y = step.y()
        keep = y.copy()
        step.update_prev_y(y)
        step.solve()
        c.check(np.array_equal(y, keep), "an array handed out or in is changed by solving")
        untouched("a mechanical step")


def _gen_succession(rng, i):
    base = dict(nx=rng.choice([1, 1, 2]), ny=rng.choice([1, 1, 2]), fix=gen.fix_repr(rng, gen.fix_sides(rng)))
    sizes = [10 ** rng.uniform(-1, 1) for _ in range(10)]
    p = dict(base, sizes=sizes, skew=[rng.uniform(0.3, 1.7) for _ in sizes], r=rng.choice([1, 2]), fps=rng.choice([1.0, 7.0]),
             runs=[rng.random() < 0.35 for _ in sizes], order=[rng.randrange(10) for _ in range(12)])
    return p


def _succession(p, k):
    """(objects, results) of one body: grids, integrals, interpolations, curves, steps and perhaps a simulation."""
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.interpolation import C1Interpolation, P1Interpolation
    from tvemoves_rufbad.quadrature_rules import CENTROID, DUNAVANT2
    from tvemoves_rufbad.simulation import Simulation, SimulationParams, Step

    s = p["sizes"][k]
    r = random.Random(p["seed"] + k)
    d = RectangleDomain(p["nx"] * s, p["ny"] * s, p["fix"])
    g = d.grid(s)
    f = d.refine(g, p["r"])
    res = [mesh.snapshot(g), mesh.snapshot(f), [[tuple(map(float, q)) for q in z] for z in d.curves(3, 1)]]
    objs = [d, g, f]
    for grid in (g, f):
        for rule in (CENTROID, DUNAVANT2):
            q = Integrator(rule, grid.triangles, grid.points)
            objs.append(q)
            res.append(float(q(lambda t, b: 1.0 + t[0] + b.l1)))
    n = len(g.points)
    u = P1Interpolation(g, [r.uniform(-1, 1) for _ in range(n)])
    w = C1Interpolation(g, [[r.uniform(-1, 1) for _ in range(6)] for _ in range(n)])
    for t in g.triangles:
        b = gen.bc(gen.bary(r, "in"))
        H = w.hessian(t, b)
        res.append([float(u(t, b)), *map(float, u.gradient(t, b)), float(w(t, b)), *map(float, w.gradient(t, b)), float(H[0, 1]), float(H[1, 1])])
    y = np.array(mesh.pts(g)) @ np.array([[p["skew"][k], 0.1], [0.0, 1.0]])
    step = Step(y, np.array([r.uniform(0, 1) for _ in range(n)]), d, g)
    for _ in range(3):
        x = (r.random() * p["nx"] * s, r.random() * p["ny"] * s)
        res.append([*map(float, step.y(*x)), float(step.theta(*x))])
    objs += [u, w, step]
    if p["runs"][k]:
        sv.register(sv.Recorder(content()))
        sim = Simulation(d, SimulationParams(0.3, 0.3 * min(1.0, s), p["fps"], s),
                         boundary_traction=st.traction(p["seed"] + k, 1.0, s), external_temperature=st.temperature(p["seed"] + k))
        res.append([[float(v) for v in (*z.y(0.3 * s, 0.4 * s), z.theta(0.6 * s, 0.2 * s))] for z in sim.steps] + [float(sim.max_temp())])
        objs.append(sim)
    return objs, res


@CHECK.family("succession", _gen_succession, quick=8, thorough=60, weight=2, timeout=300, needs=("bodies", "simulations"))
def body_succession(c, p):
    """What is built after other bodies were disposed of does not depend on them."""
    import gc

    keep, want = [], []
    for k in range(len(p["sizes"])):
        objs, res = _succession(p, k)
        keep.append(objs)
        want.append(res)
    for k in p["order"]:
        objs, res = _succession(p, k)
        c.check(res == want[k], f"body {k} built while the others exist and after others were disposed of")
        c.count("bodies")
        c.count("simulations", p["runs"][k])
        del objs, res
        if c.rng.random() < 0.7:
            gc.collect()


def _gen_nested(rng, i):
    ps = [_one(rng, i * 3 + j, 0.2) for j in range(2)]
    for p in ps:
        p["loads"] = False
    if ps[0]["reg"] is not None:
        ps = ps[::-1]
    if ps[0]["reg"] is not None:
        ps[0]["reg"] = ps[0]["r"] = None
    if i % 3 == 0:  # bodies of one kind
        ps[1] = ps[0] | dict(theta0=ps[0]["theta0"] + 1)
    return {"sims": ps, "runs": rng.randint(1, 3), "where": rng.choice(["traction", "traction", "temperature"]), "op": rng.choice(["run", "run", "construct", "plot", "run"])}


def _nest(p, partner):
    """A simulation whose load uses another one (which has no influence on the values of the load)."""
    from tvemoves_rufbad.simulation import Simulation

    q = p["sims"][0]
    warm, pull = st.temperature(q["seed"]), st.traction(q["seed"], 1.0, q["scale"])
    seen, times = [], set()

    def ext(t, /):
        if p["where"] == "temperature" and partner:
            seen.append(partner())
        return warm(t)

    def load(t, x, y, /):
        if p["where"] == "traction" and partner and t not in times:
            times.add(t)
            seen.append(partner())
        return pull(t, x, y)

    sim = Simulation(gen.domain(q), sims.params(q), external_temperature=ext, boundary_traction=load)
    for _ in range(p["runs"]):
        sims.run(sim, 1)
    return _history(q, sim), float(sim.max_temp()), seen


@CHECK.family("nested", _gen_nested, quick=8, thorough=60, weight=2, timeout=300, needs=("fields_compared", "nested_operations"))
def body_nested(c, p):
    """A simulation used inside the load of another one: both have the histories they have alone."""
    q = p["sims"][1]
    alone = forked(lambda: (sv.register(sv.Recorder(content())), _nest(p, None)[:2])[1])
    other = forked(lambda: _solo(q, [1] * 6))
    sv.register(sv.Recorder(content()))
    inner = _construct(q, gen.domain(q), sims.params(q))

    def partner():
        if p["op"] == "construct":
            _construct(q, gen.domain(q), sims.params(q))
        elif p["op"] == "plot":
            inner.plot_step(-1)
            draw.close_all()
        elif len(inner.steps) < 8:
            sims.run(inner, 1)
        return len(inner.steps)

    history, top, seen = _nest(p, partner)
    want, wtop = alone()
    _same(c, history, want, "a simulation whose loads use another one, and alone")
    c.eq(top, wtop, "its maximal temperature")
    _same(c, _history(q, inner), other()[0][: len(inner.steps)], "the simulation used by the loads of another one, and alone")
    c.count("nested_operations", len(seen))


class _Clock:
    """All clocks of the time module run by an offset that grows with every problem solved."""

    NAMES = ("time", "monotonic", "perf_counter", "process_time", "thread_time")

    def __init__(self, rng, speed):
        self.rng, self.speed, self.offset = rng, speed, 0.0

    def __enter__(self):
        import time

        self.time, self.real = time, {}
        for name in self.NAMES:
            for n in (name, name + "_ns"):
                self.real[n] = f = getattr(time, n)
                unit = 10**9 if n != name else 1
                setattr(time, n, lambda f=f, unit=unit: f() + type(f())(self.offset * unit))
        self.sleep, time.sleep = time.sleep, self.tick
        return self

    def tick(self, seconds=0.0):
        self.offset += seconds

    def __exit__(self, *_):
        for n, f in self.real.items():
            setattr(self.time, n, f)
        self.time.sleep = self.sleep

    def strategy(self, inner):
        def solve(ev):
            self.tick(self.speed * self.rng.uniform(0.1, 1))
            return inner(ev)

        return solve


def _gen_clock(rng, i):
    p = _one(rng, i, 0.15)
    p["loads"] = i % 2 == 0
    p["runs"] = [rng.choice([1, 2, 3]), rng.choice([6, 9, 12])] if p["reg"] is None else [2]
    p["speed"] = rng.choice([3.0, 60.0, 4000.0, 1e6])
    return p


@CHECK.family("clock", _gen_clock, quick=6, thorough=60, weight=2, timeout=300, needs=("fields_compared", "problems"))
def body_clock(c, p):
    """The history does not depend on how long the solver takes (up to days per problem)."""
    alone = forked(lambda: _solo(p, p["runs"]))
    clock = _Clock(c.rng, p["speed"])
    rec = sv.Recorder(clock.strategy(content()))
    sv.register(rec)
    with clock:
        sim = _construct(p, gen.domain(p), sims.params(p))
        for n in p["runs"]:
            sims.run(sim, n)
    c.count("problems", rec.calls)
    history, top, _ = alone()
    _same(c, _history(p, sim), history, "simulation with a slow solver and with a fast one")
    c.eq(float(sim.max_temp()), top, "maximal temperature with a slow solver")
