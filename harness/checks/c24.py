"""C24: loads enter the problems at the right place and time."""

import bisect
import math
import random
from fractions import Fraction
import numpy as np
from harness import energy as en, gen, mesh, sims, solver as sv, steps as st
from harness.core import Check

CHECK = Check(
    "C24",
    "A case is a step or a whole simulation with loads that are smooth, switched on or off at the time of"
    " a step, pulses in a single step, or localized at a single vertex (values elsewhere and at other"
    " times are wildly different); the contribution of the loads to every recorded objective is isolated"
    " by subtracting the load-free reference and compared with the work of the load (heat exchange) at"
    " the documented place and time. Non-trivial: some load contribution was expected or excluded.",
    ["the ipopt executable is not installed; the stand-in receives the same models"],
)


def make_load(p, fr_points, h):
    """(traction(t, x, y), external temperature(t)) determined by the case."""
    r = random.Random(p["seed"])
    base, warm = st.traction(p["seed"], p["gsize"], h), st.temperature(p["seed"], p["esize"])
    kind, fps, k0 = p["kind"], p["fps"], p["k0"]
    if kind == "smooth":
        return base, warm
    if kind == "drift":  # constant but for a slow change
        d = p["drift"]
        return (lambda t, x, y: [z + d * w for z, w in zip(base(0, x, y) if p["gsize"] > 100 else [0.0, 0.0], st.traction(p["seed"] + 1, 1.0, h)(t, x, y))]), (
            lambda t: (warm(0) if p["esize"] > 100 else 0.0) + d * (1 + t))
    if kind == "switch":  # jumps exactly at the time of step k0
        t0 = k0 / fps
        on = (lambda t: t >= t0) if r.random() < 0.5 else (lambda t: t < t0)
        return (lambda t, x, y: base(t, x, y) if on(t) else [0.0, 0.0]), (lambda t: warm(t) if on(t) else 0.0)
    if kind == "pulse":
        on = lambda t: abs(t - k0 / fps) < 0.25 / fps
        return (lambda t, x, y: base(t, x, y) if on(t) else [0.0, 0.0]), (lambda t: warm(t) if on(t) else 0.0)
    if kind == "index":  # a different value in every step
        a = [[r.uniform(-1, 1) * p["gsize"] for _ in range(2)] for _ in range(40)]
        b = [r.uniform(0, 1) * p["esize"] for _ in range(40)]
        ix = lambda t: int(round(t * fps)) % 40
        return (lambda t, x, y: list(a[ix(t)])), (lambda t: b[ix(t)])
    if kind == "stairs":  # jumps exactly at the time of every step
        a = [[r.uniform(-1, 1) * p["gsize"] for _ in range(2)] for _ in range(80)]
        b = [r.uniform(0, 1) * p["esize"] for _ in range(80)]
        jumps = [j / fps for j in range(79)]
        ix = lambda t: bisect.bisect_right(jumps, t)
        return (lambda t, x, y: list(a[ix(t)])), (lambda t: b[ix(t)])
    if kind == "parts":  # acts on changing parts of the boundary, now and then on none
        mid = [max(q[k] for q in fr_points) / 2 for k in (0, 1)]
        modes = [(r.choice(["none", "all", "low", "low", "high", "high"]), r.randrange(2), [r.uniform(-1, 1) * p["gsize"] for _ in "xy"], r.random() * p["esize"]) for _ in range(40)]
        at = lambda t: modes[int(round(t * fps)) % 40]

        def part(t, x, y):
            mode, axis, v, _ = at(t)
            high = (float(x), float(y))[axis] > mid[axis] * (1 + 1e-9)
            return list(v) if mode == "all" or mode == ("high" if high else "low") else [0.0, 0.0]

        return part, lambda t: at(t)[3] if at(t)[0] != "none" else 0.0
    # localized at one vertex
    x0, y0 = fr_points[k0 % len(fr_points)]
    v = [r.uniform(-1, 1) * p["gsize"], r.uniform(-1, 1) * p["gsize"]]
    near = lambda x, y: math.hypot(float(x) - x0, float(y) - y0) < 0.05 * h
    return (lambda t, x, y: [(1 + t) * z for z in v] if near(x, y) else [0.0, 0.0]), warm


def _loaded(rng, p):
    p["gsize"] = rng.choice([1.0, 30.0, 300.0, 10 ** rng.uniform(-6, 5)])
    p["esize"] = rng.choice([1.0, 30.0, 300.0])
    p["kind"] = rng.choice(["smooth", "switch", "stairs", "pulse", "index", "vertex", "vertex", "drift", "parts", "parts"])
    p["k0"] = rng.randint(0, 12)
    p["style"] = rng.choice(["list", "list", "tuple", "tuple", "array", "array"])
    p["number"] = rng.choice(["float", "float", "float64", "float32", "fraction", "int", "int64"])
    p["drift"] = 10 ** rng.uniform(-5, -2.5)
    return p


def called(p, f):
    """The same load with arguments of other names (the documented types are positional)."""
    kind = p["seed"] % 4
    if kind == 0:
        return lambda *a: f(*a)
    if kind == 1:
        return lambda a, b=None, c=None: f(*[v for v in (a, b, c) if v is not None])
    if kind == 2:
        return lambda x, t=None, y=None: f(*[v for v in (x, t, y) if v is not None])
    return f


def styled(p, g):
    return called(p, _styled(p, g))


def _styled(p, g):
    """The same traction returned in another kind of container."""
    style = p["style"]
    if style == "list":
        return g
    if style == "tuple":
        return lambda t, x, y: tuple(g(t, x, y))
    return lambda t, x, y: np.array(g(t, x, y), dtype=float)


def numbered(p, ext):
    return called(p, _numbered(p, ext))


def _numbered(p, ext):
    """The external temperature as another type of number (the reference uses the same values)."""
    kind = p.get("number", "float")
    if kind == "float":
        return ext
    if kind == "fraction":
        return lambda t: Fraction(ext(t)).limit_denominator(1000)
    return lambda t: {"float64": np.float64, "float32": np.float32, "int": int, "int64": lambda z: np.int64(int(z))}[kind](ext(t))


def _load_part(c, ev, X, ref0, delta, what):
    """code = a * (ref0 + delta) + b, judged relative to the size of the load part."""
    code = sv.objective_at(ev, X)
    full = ref0 + delta
    a = en.compare(c, code, full, what, tol=1e-6)
    if a is None:
        return
    c.check(bool(np.all(np.isfinite(code))), f"{what}: objective not finite")
    got = (code[1:] - code[0]) / a - (ref0[1:] - ref0[0])
    want = delta[1:] - delta[0]
    tol = 1e-6 * float(np.abs(full[1:] - full[0]).max()) + 1e-9 * float(np.abs(full).max())
    c.close(got, want, f"{what}: contribution of the load", atol=tol, rtol=1e-6)
    if float(np.abs(want).max()) > 100 * tol:
        c.count("load_seen")
    elif float(np.abs(want).max()) == 0:
        c.count("no_load_seen")


def _gen_sim(rng, i):
    p = _loaded(rng, sims.p1_case(rng, i, cells=5))
    p["fps"] = rng.choice([10.0, 30.0, 7, 24, 60.0, 0.3, 10 ** rng.uniform(-1, 2), 10 ** rng.uniform(-4, 0)])
    p["steps"] = rng.choice([1, 2, 3, 5, 9])
    if p["kind"] in ("switch", "pulse"):
        p["k0"] = rng.randint(0, p["steps"])
    if p["kind"] == "vertex":
        p["k0"] = rng.randrange(64)
    if i % 6 == 0:
        p.update(sims.p1_case(rng, i, cells=1))
        p["kind"], p["steps"], p["fps"] = "stairs", rng.randint(20, 45), rng.choice([10, 30, 24, 60.0, 7.0, 12.5])
    p["which"] = rng.choice(["both", "both", "traction", "temperature"])
    return p


@CHECK.family("simulation", _gen_sim, quick=36, thorough=400, needs=("load_seen", "no_load_seen", "times", "other_numbers"))
def body_sim(c, p):
    rng = c.rng
    fr = sims.Frame(p)
    g, ext = make_load(p, [tuple(x) for x in fr.P], fr.h)
    ext = numbered(p, ext)
    c.count("other_numbers", p.get("number", "float") != "float")
    use_g, use_e = p["which"] != "temperature", p["which"] != "traction"
    sim, rec = sims.simulate(p, sims.tags(p["seed"]), ext if use_e else None, styled(p, g) if use_g else None)
    if p["steps"] > 1:
        sims.run(sim, p["steps"] - 1)
    hist = [fr.read(s) for s in sim.steps]
    c.eq(len(rec.events), 2 * (len(hist) - 1), "number of problems solved")
    for k in range(len(hist) - 1):
        (y0, t0), (y1, t1) = hist[k], hist[k + 1]
        if not fr.strain_ok(y0, y1):
            continue
        time = k / p["fps"]
        c.count("times")
        ev, what = rec.events[2 * k], f"mechanical problem of step {k + 1} (time {time!r})"
        slots = sims.match(c, ev, y1, fr.scale, what)
        mask = st.free_mask(slots, fr.yshape)
        if mask.any():
            Y = [y0, y1]
            while len(Y) < 5:
                a = np.where(mask, y0 + 0.03 * st.noise(rng, y0.shape) * fr.scale, y0)
                if fr.strain_ok(a):
                    Y.append(a)
            Y = np.array(Y)
            trac = [g(time, *map(float, x)) if use_g else [0.0, 0.0] for x in fr.P]
            e, w, d = en.mech_p1_terms(fr.grid, y0, t0, trac, Y)
            _load_part(c, ev, st.assignments(ev, slots, Y), e + p["fps"] * d, -w, what)
        ev, what = rec.events[2 * k + 1], f"thermal problem of step {k + 1} (time {time!r})"
        slots = sims.match(c, ev, t1, 1.0, what)
        T = np.array([t0, t1] + [np.maximum(t0 + 0.3 * st.noise(rng, t0.shape), 0) for _ in range(3)])
        parts = en.thermal_p1_terms(fr.grid, y0, y1, t0, float(ext(time)) if use_e else 0.0, p["fps"], T)
        _load_part(c, ev, st.assignments(ev, slots, T), parts[0] + parts[1] + p["fps"] * parts[2], parts[3], what)


def _gen_mech(rng, i):
    p = _loaded(rng, st.p1_case(rng, i))
    if i % 3 == 0:
        p["kind"] = "vertex"
        p["k0"] = rng.randrange(64)
    p["fps"] = rng.choice([1.0, 7.0])
    far = 10 ** rng.uniform(1, 7)
    p["times"] = [rng.choice([0.0, 3.0, rng.uniform(0, 8), rng.randint(0, 12) / 7, far, far * rng.random()]) for _ in range(rng.randint(1, 4))]
    return p


@CHECK.family("traction", _gen_mech, quick=50, thorough=600, needs=("load_seen", "no_load_seen"))
def body_traction(c, p):
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    rng = c.rng
    grid, h = st.p1_grid(p)
    P = np.array(mesh.pts(grid))
    g, _ = make_load(p, [tuple(x) for x in P], h)
    rec = sv.Recorder(sv.tags(rng))
    step = mechanical_step(rec, grid, MechanicalStepParams(0.5, 0.1 * h, p["fps"], None), None, styled(p, g))
    q = en.P1(grid)
    prev, theta = P.copy(), np.full(len(P), 0.5)
    last = None
    for time in [0.0] + p["times"] + [None]:
        if time is None:
            time = last  # the load stays in force while other data change
            prev = st.p1_state(rng, grid, h, quad=q, strength=0.3)
            step.update_prev_y(prev.copy())
        elif last is not None:
            step.update_boundary_traction(time)
        last = time
        step.solve()
        ev = rec.events[-1]
        slots = st.decode(c, ev, step.y(), "mechanical step")
        mask = st.free_mask(slots, prev.shape)
        if not mask.any():
            c.trivial = True
            return
        Y = np.array([prev] + [np.where(mask, prev + 0.05 * h * st.noise(rng, prev.shape), prev) for _ in range(4)])
        e, w, d = en.mech_p1_terms(grid, prev, theta, [g(time, *map(float, x)) for x in P], Y)
        if not np.all(np.isfinite(e)):
            continue
        _load_part(c, ev, st.assignments(ev, slots, Y), e + p["fps"] * d, -w, f"traction at time {time}")


def _gen_reg(rng, i):
    p = _loaded(rng, sims.reg_case(rng, i, ((1, 1, 1), (2, 1, 1))))
    p["kind"], p["steps"] = "smooth", 1
    if i % 2:
        p["fix"] = ["lower"]
    return p


@CHECK.family("regularized", _gen_reg, quick=4, thorough=30, weight=4)
def body_reg(c, p):
    """Known finding: the regularized problems contain no loads at all."""
    rng = c.rng
    fr = sims.Frame(p)
    g, ext = make_load(p, [tuple(x) for x in fr.P], fr.h)
    rec = sims.simulate(p, sims.tags(p["seed"]), ext, g)
    sim, rec = rec
    hist = [fr.read(s) for s in sim.steps]
    (y0, t0), (y1, t1) = hist[:2]
    ev = rec.events[0]
    slots = sims.match(c, ev, y1, fr.scale, "mechanical problem")
    mask = st.free_mask(slots, fr.yshape)
    Y = np.array([y0] + [np.where(mask, y0 + 0.03 * st.noise(rng, y0.shape) * fr.scale, y0) for _ in range(4)])
    ref0 = fr.mech_terms(p, y0, t0, None, Y)
    code = sv.objective_at(ev, st.assignments(ev, slots, Y))
    # work of the traction interpolated along the free edges, up to the quadrature rule (any sane one
    # sees the nodal values): without it the objective equals the load-free reference
    en_free = _fits(code, ref0)
    if en_free and list(fr.grid.neumann_boundary.edges):
        c.finding("regularized-ignores-loads", "the objective of a regularized mechanical problem does not depend on the traction")
        c.count("findings")
    ev = rec.events[1]
    slots = sims.match(c, ev, t1, 1.0, "thermal problem")
    T = np.array([t0, t1] + [np.maximum(t0 + 0.3 * st.noise(rng, t0.shape), 0) for _ in range(3)])
    ref0 = fr.thermal_terms(p, y0, y1, t0, 0.0, T)
    code = sv.objective_at(ev, st.assignments(ev, slots, T))
    if _fits(code, ref0):
        c.finding("regularized-ignores-loads", "the objective of a regularized thermal problem does not depend on the external temperature")
        c.count("findings")
    c.count("assertions", 2)


def _fits(code, ref):
    d, r = code[1:] - code[0], ref[1:] - ref[0]
    a = float(d @ r) / float(r @ r)
    return a > 0 and float(np.abs(d - a * r).max()) <= 1e-6 * a * float(np.abs(r).max())


def _gen_diff(rng, i):
    p = st.p1_case(rng, i)
    if i % 4 < 2 and len(set([p["fix"]] if isinstance(p["fix"], str) else p["fix"] or [])) == 4:
        p["fix"] = ["left"]
    if i % 5 == 0:  # bodies of any size
        s = 10 ** rng.uniform(-6, 4) / p["scale"]
        for k in ("scale", "width", "height"):
            p[k] *= s
    p["thermal"] = i % 2 == 1
    p["gsize"], p["esize"] = (10 ** rng.uniform(-9, 6) for _ in range(2))
    p["fps"] = rng.choice([1.0, 7.0])
    p["times"] = [0.0] + [rng.choice([rng.uniform(0, 5), 10 ** rng.uniform(0, 6)]) for _ in range(3)]
    p["seed"] = rng.randrange(2**31)
    return p


@CHECK.family("differences", _gen_diff, quick=40, thorough=500, needs=("load_seen", "tiny_loads", "large_loads"))
def body_differences(c, p):
    """The objectives of a loaded and an unloaded step differ by the work of the load, however small."""
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    rng = c.rng
    grid, h = st.p1_grid(p)
    P = np.array(mesh.pts(grid))
    r = random.Random(p["seed"])
    v = [[r.uniform(-1, 1) * p["gsize"] for _ in range(4)] for _ in range(2)]
    g = lambda t, x, y: [a[0] + a[1] * float(x) / h + a[2] * float(y) / h + a[3] * math.sin(t) for a in v]
    ext = lambda t: p["esize"] * (1.5 + math.sin(t))
    q = en.P1(grid)
    prev, y, theta = P.copy(), st.p1_state(rng, grid, h, quad=q), st.temps(rng, len(P))
    pairs = []
    for load in (True, False):
        rec = sv.Recorder(sv.tags(rng))
        if p["thermal"]:
            step = thermal_step(rec, grid, prev.copy(), y.copy(), theta.copy(), ThermalStepParams(0.5, p["fps"], None), ext if load else (lambda t: 0.0))
        else:
            step = mechanical_step(rec, grid, MechanicalStepParams(0.5, 0.1 * h, p["fps"], None), None, g if load else (lambda t, x, y: [0.0, 0.0]))
        pairs.append((step, rec))
    for k, time in enumerate(p["times"]):
        found = []
        for step, rec in pairs:
            if k:
                step.update_external_temperature(time) if p["thermal"] else step.update_boundary_traction(time)
            step.solve()
            ev = rec.events[-1]
            found.append((ev, st.decode(c, ev, step.theta() if p["thermal"] else step.y(), "step")))
        if p["thermal"]:
            X = np.array([theta] + [np.maximum(theta + st.noise(rng, theta.shape), 0.0) for _ in range(4)])
            ref0 = sum(w * z for w, z in zip((1, 1, p["fps"], 1), en.thermal_p1_terms(grid, prev, y, theta, 0.0, p["fps"], X)))
            work = en.thermal_p1_terms(grid, prev, y, theta, ext(time), p["fps"], X)[3] - en.thermal_p1_terms(grid, prev, y, theta, 0.0, p["fps"], X)[3]
        else:
            mask = st.free_mask(found[0][1], prev.shape)
            if not mask.any():
                c.trivial = True
                return
            X = np.array([prev] + [np.where(mask, prev + 0.05 * h * st.noise(rng, prev.shape), prev) for _ in range(4)])
            e, work, d = en.mech_p1_terms(grid, prev, np.full(len(P), 0.5), [g(time, *x) for x in P], X)
            ref0, work = e + p["fps"] * d, -work
        codes = [sv.objective_at(ev, st.assignments(ev, slots, X)) for ev, slots in found]
        if not all(np.all(np.isfinite(z)) for z in codes):
            continue
        a = en.compare(c, codes[1], ref0, f"objective without load at time {time}", tol=1e-6)
        if a is None:
            continue
        got, want = (codes[0] - codes[1]) / a, work
        got, want = got[1:] - got[0], want[1:] - want[0]
        tol = 1e-12 * max(float(np.abs(z).max()) for z in codes) / a + 1e-6 * float(np.abs(want).max())
        c.close(got, want, f"{'heat exchange' if p['thermal'] else 'work'} of the load at time {time}", atol=tol, rtol=0)
        if float(np.abs(want).max()) > 100 * tol:
            c.count("load_seen")
        c.count("tiny_loads", p["esize" if p["thermal"] else "gsize"] < 1e-5)
        c.count("large_loads", p["esize" if p["thermal"] else "gsize"] > 1e3)


CHECK.family("large", lambda rng, i: gen.enlarge(_gen_mech(rng, i), i), quick=2, thorough=12, weight=6, timeout=300)(body_traction)
CHECK.family("huge", lambda rng, i: gen.enlarge(_gen_mech(rng, i), i, gen.HUGE), quick=1, thorough=4, weight=8, timeout=400)(body_traction)
