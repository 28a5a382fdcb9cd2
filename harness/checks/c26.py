"""C26: recorded steps and summaries represent the computed fields."""

import numpy as np
from harness import gen, mesh, sims, solver as sv, steps as st
from harness.bellref import BellRef
from harness.core import Check

CHECK = Check(
    "C26",
    "A case is a simulation driven by a recording solver (or step objects built from random nodal data)"
    " whose recorded steps are evaluated at vertices, edges and random points and compared with the"
    " piecewise affine or Bell reference of the nodal data returned by the solver; the maximal"
    " temperature is compared with the running maximum. Non-trivial: points inside triangles evaluated.",
)
_cache = {}
TRENDS = ["random", "cool", "peak", "heat"]


class Field:
    """Reference evaluation of nodal data on triangles."""

    def __init__(self, grid):
        self.P = np.array(mesh.pts(grid))
        self.T = [tuple(t) for t in grid.triangles]

    def locate(self, x, y):
        best = None
        for t in self.T:
            (ax, ay), (bx, by), (dx, dy) = (self.P[v] for v in t)
            det = (bx - ax) * (dy - ay) - (dx - ax) * (by - ay)
            l2 = ((x - ax) * (dy - ay) - (dx - ax) * (y - ay)) / det
            l3 = ((bx - ax) * (y - ay) - (x - ax) * (by - ay)) / det
            l = (1 - l2 - l3, l2, l3)
            if best is None or min(l) > min(best[1]):
                best = (t, l, det)
        return best

    def p1(self, data, x, y):
        t, l, det = self.locate(x, y)
        (ax, ay), (bx, by), (dx, dy) = (self.P[v] for v in t)
        f = data[list(t)]
        g = [((f[1] - f[0]) * (dy - ay) - (f[2] - f[0]) * (by - ay)) / det,
             ((f[2] - f[0]) * (bx - ax) - (f[1] - f[0]) * (dx - ax)) / det]
        return float(np.dot(l, f)), g, min(l)

    def bell(self, data, x, y):
        t, l, _ = self.locate(x, y)
        o = self.P[t[0]]
        key = tuple(float(z) for v in t for z in self.P[v] - o)
        if key not in _cache:
            _cache[key] = BellRef([tuple(map(float, self.P[v] - o)) for v in t])
        ref = _cache[key]
        return ref.eval(ref.coeffs(data[list(t)].ravel()), x - o[0], y - o[1]) + (min(l),)


def _points(rng, P, T, n):
    """Random points: inside triangles, on edges, vertices."""
    for _ in range(n):
        t = T[rng.randrange(len(T))]
        l = gen.bary(rng)
        yield tuple(float(sum(l[k] * P[t[k]][a] for k in range(3))) for a in (0, 1))
    for v in range(len(P)):
        yield tuple(map(float, P[v]))
    for _ in range(max(1, n // 4)):  # nearly the same points, one after another
        t = T[rng.randrange(len(T))]
        base = gen.bary(rng, "in")
        if rng.random() < 0.5:  # close to a vertex
            base = [0.0, 0.0, 0.0]
            base[rng.randrange(3)] = 1.0
        for l in gen.cluster(rng, base):
            yield tuple(float(sum(l[k] * P[t[k]][a] for k in range(3))) for a in (0, 1))


def compare_step(c, fr, coarse, fine, step, y, t, n, what):
    """Public evaluation of one step against nodal data."""
    rng = c.rng
    # everything is linear in the nodal values
    mag = float(np.abs(y if not fr.reg else y / fr.scale).max()) * (1 if not fr.reg else fr.h)
    tol = 1e-9 * mag
    tmag = 1e-9 * float(np.abs(t).max())
    for x in _points(rng, fr.P, coarse.T, n):
        if rng.random() < 0.5:  # the fields of a step are evaluated at the same points
            c.close(float(step.theta(*x)), fine.p1(t, *x)[0], f"{what}: temperature at {x}", atol=10 * tmag, rtol=0)
            c.count("temperatures")
        v = step.y(*x)
        F = step.y.strain(*x)
        for k in (0, 1):
            if fr.reg:
                val, g, H, inside = coarse.bell(y[:, k], *x)
            else:
                val, g, inside = coarse.p1(y[:, k], *x)
            c.close(float(v[k]), val, f"{what}: component {k} of y at {x}", atol=10 * tol, rtol=0)
            c.count("positions")
            if fr.reg or inside > 1e-6:
                c.close([float(F[k, 0]), float(F[k, 1])], g, f"{what}: strain row {k} at {x}", atol=1e3 * tol / fr.h, rtol=0)
                c.count("strains")
            if fr.reg and inside > 1e-6:
                hs = step.y.hyper_strain(*x)
                got = [[float(hs[k, i, j]) for j in (0, 1)] for i in (0, 1)]
                c.close(got, H, f"{what}: hyper strain {k} at {x}", atol=1e5 * tol / fr.h**2, rtol=0)
                c.count("hyper_strains")
            c.count("inside", inside > 1e-6)
    for x in _points(rng, fr.Q, fine.T, n):
        val, g, inside = fine.p1(t, *x)
        c.close(float(step.theta(*x)), val, f"{what}: temperature at {x}", atol=10 * tmag, rtol=0)
        c.count("temperatures")


def _gen_p1(rng, i):
    p = sims.p1_case(rng, i, cells=9)
    return {**p, "steps": rng.randint(1, 4), "n": 12, "trend": TRENDS[i % 4]}


def _gen_reg(rng, i):
    return {**sims.reg_case(rng, i, ((1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 2))), "steps": rng.randint(1, 2), "n": 8,
            "trend": TRENDS[i % 4]}


def _trend(p):
    """Unique values; temperatures that rise, fall or vary."""
    tags = sims.tags(p["seed"])

    def strategy(ev):
        x = tags(ev)
        sign = {"cool": -1, "heat": 1}.get(p["trend"] if p["trend"] != "peak" else ("heat", "cool")[ev.index > 3])
        if ev.index % 2 == 0 or sign is None:
            return x
        d = np.abs(x - ev.start)
        return np.clip(ev.start + sign * d, ev.lb, ev.ub)

    return strategy


def body(c, p):
    fr = sims.Frame(p)
    coarse, fine = Field(fr.grid), Field(fr.fine)
    sim, rec = sims.simulate(p, _trend(p), objective=False)
    top = float(p["theta0"])
    top = max(top, float(np.max(rec.events[1].assigned)))
    c.close(sim.max_temp(), top, "maximal temperature of a new simulation", rtol=1e-12)
    for _ in range(p["steps"]):
        sims.run(sim)
        top = max(top, float(np.max(rec.events[-1].assigned)))
        c.close(sim.max_temp(), top, "maximal temperature", rtol=1e-12)
        c.count("maxima")
    for k, s in enumerate(sim.steps):
        y, t = fr.read(s)
        if k:
            # nodal values are the ones the solver found (as multisets, bit by bit up to evaluation)
            for ev, data, sc in ((rec.events[2 * k - 2], y, fr.scale), (rec.events[2 * k - 1], t, 1.0)):
                sims.match(c, ev, data, sc, f"step {k}") if ev.tape else _multiset(c, ev, data, sc, k)
        else:
            c.close(y, fr.identity(), "initial deformation", atol=1e-9 * max(1, 1 / fr.h) + 1e-9 * fr.h)
            c.close(t, np.full(fr.m, float(p["theta0"])), "initial temperature", atol=1e-12)
        compare_step(c, fr, coarse, fine, s, y, t, p["n"], f"step {k}")


def _gen_long(rng, i):
    p = sims.p1_case(rng, i, cells=2)
    if i == 0:
        p["steps"] = 130
    else:
        p["steps"] = rng.choice([12, 20, 33, 60])
    p["peak"] = rng.randrange(p["steps"])
    p["trend"] = ["cool", "peak", "heat", "random"][i % 4]
    p["theta0"] = rng.uniform(0.5, 2)
    return p


@CHECK.family("long evolutions", _gen_long, quick=5, thorough=30, needs=("maxima",))
def body_long(c, p):
    """The maximum is that of the whole history, however long."""
    fr = sims.Frame(p)
    tags = sims.tags(p["seed"])

    def strategy(ev):
        x = tags(ev)
        sign = {"cool": -1, "heat": 1, "random": 0}.get(p["trend"], 1 if ev.index // 2 <= p["peak"] else -1)
        if ev.index % 2 == 0 or not sign:
            return x
        return np.clip(ev.start + sign * np.abs(x - ev.start), ev.lb, ev.ub)

    sim, rec = sims.simulate(p, strategy, objective=False)
    left = p["steps"]
    while left:
        k = min(left, c.rng.randint(1, 40))
        sims.run(sim, k)
        left -= k
        top = max([float(p["theta0"])] + [float(np.max(ev.assigned)) for ev in rec.events[1::2]])
        c.close(sim.max_temp(), top, f"maximal temperature after {len(sim.steps)} steps", rtol=1e-12)
        c.count("maxima")
    c.eq(len(sim.steps), p["steps"] + 2, "number of steps")
    for k in sorted(c.rng.sample(range(1, len(sim.steps)), 8)):
        y, t = fr.read(sim.steps[k])
        _multiset(c, rec.events[2 * k - 2], y, fr.scale, k)
        _multiset(c, rec.events[2 * k - 1], t, 1.0, k)


def _multiset(c, ev, data, scale, k):
    flat = np.sort(np.asarray(data).ravel())
    want = np.sort(ev.assigned[~ev.fixed])
    pos = np.clip(np.searchsorted(flat, want), 0, len(flat) - 1)
    near = np.minimum(np.abs(flat[pos] - want), np.abs(flat[np.maximum(pos - 1, 0)] - want))
    c.check(bool((near <= 1e-7 * float(np.max(scale))).all()), f"step {k} does not record the solution")
    c.count("solutions_found", len(want))


CHECK.family("unregularized", _gen_p1, quick=24, thorough=300, needs=("positions", "strains", "temperatures", "maxima", "solutions_found"))(body)
CHECK.family("regularized", _gen_reg, quick=10, thorough=100, weight=3,
             needs=("positions", "strains", "hyper_strains", "temperatures", "maxima", "solutions_found"))(body)


def _gen_made(rng, i):
    p = sims.reg_case(rng, i // 2, ((1, 1, 1), (1, 1, 3), (2, 2, 1), (1, 2, 2), (3, 1, 1))) if i % 2 else sims.p1_case(rng, i, cells=9)
    p["kind"] = ["random", "huge", "negative", "constant", "tiny", "mixed", "slopes"][i // 2 % 7]
    p["size"] = 10 ** rng.uniform(-14, -7 if rng.random() < 0.7 else -4)
    if rng.random() < 0.5:  # bodies of any size
        f = 2.0 ** rng.choice([rng.randint(-44, -10), rng.randint(-9, 9), rng.randint(10, 20)])
        p |= {k: p[k] * f for k in ("scale", "width", "height")}
    return p


@CHECK.family("constructed steps", _gen_made, quick=42, thorough=300, needs=("positions", "rejected", "single_precision"))
def body_made(c, p):
    from tvemoves_rufbad.simulation import RegularizedStep, Step

    rng = c.rng
    fr = sims.Frame(p)
    d = gen.domain(p)
    grid = d.grid(p["scale"])
    fine = d.refine(grid, p["r"]) if fr.reg else None
    make = (lambda y, t: RegularizedStep(y, t, d, grid, fine)) if fr.reg else (lambda y, t: Step(y, t, d, grid))
    size = {"random": 1.0, "huge": 1e6, "negative": -1.0, "constant": 0.0, "mixed": 1.0,
            "slopes": 1.0, "tiny": p.get("size")}[p["kind"]]
    y = size * st.noise(rng, fr.yshape) * fr.scale + (0.7 * fr.scale if p["kind"] == "constant" else 0)
    t = np.abs(size * st.noise(rng, (fr.m,))) + (0.25 if p["kind"] != "tiny" else 0.0)
    if fr.reg and p["kind"] == "slopes":  # the same slopes everywhere, no curvature
        y[:, :, 1:3] = y[0, :, 1:3]
        y[:, :, 3:] = 0.0
    if p["kind"] == "mixed":  # single values of very different size
        for a in (y, t):
            for _ in range(3):
                a.flat[rng.randrange(a.size)] *= 10 ** rng.uniform(-12, 4)
    coarse, fineF = Field(fr.grid), Field(fr.fine)
    if rng.random() < 0.2:  # numbers of another type
        y, t = y.astype(np.float32), t.astype(np.float32)
        c.count("single_precision")
    y0, t0 = y.astype(float), t.astype(float)
    y, t = st.layout(rng, y), st.layout(rng, t)
    s = make(y, t)
    c.check(bool((y == y0).all() and (t == t0).all()), "constructing a step changed its data")
    compare_step(c, fr, coarse, fineF, s, y0, t0, 10, "constructed step")
    n = fr.n
    bad_y = [(n + 1,) + y.shape[1:], (n - 1,) + y.shape[1:], y.shape[1:], y.shape + (1,), (n,), (n, 3)]
    bad_y += [(n, 2, 6)] if not fr.reg else [(n, 2), (n, 6, 2), (n, 2, 5), (n, 1, 6), (n, 3, 6)]
    bad_t = [(fr.m + 1,), (fr.m - 1,), (fr.m, 1), (1, fr.m), ()]
    if fr.reg and p["r"] > 1:
        bad_t.append((n,))
    for shape in bad_y:
        if shape != y.shape:
            c.raises(ValueError, lambda: make(np.ones(shape), t), f"step from deformation data of shape {shape}")
            c.count("rejected")
    for shape in bad_t:
        c.raises(ValueError, lambda: make(y, np.ones(shape)), f"step from temperature data of shape {shape}")
        c.count("rejected")


_gen_large = lambda rng, i: gen.enlarge(sims.p1_case(rng, i), i)
CHECK.family("large", lambda rng, i: _gen_large(rng, i) | dict(steps=2, n=1, trend=TRENDS[i % 4]), quick=1, thorough=8, weight=8, timeout=400)(body)
CHECK.family("large constructed", lambda rng, i: _gen_large(rng, i) | dict(kind="random"), quick=2, thorough=8, weight=4, timeout=400)(body_made)
CHECK.family("large refined", lambda rng, i: sims.reg_case(rng, 0, ((1, 1, 11), (3, 2, 5))) | dict(kind="random"), quick=1, thorough=8, weight=4, timeout=400)(body_made)


def _gen_pair(rng, i):
    p = sims.reg_case(rng, i // 2, ((1, 1, 1), (1, 2, 1), (2, 1, 1))) if i % 2 else sims.p1_case(rng, i, cells=9)
    how = rng.choice(["turned", "smaller", "smaller"])
    if how == "turned":
        q = p | dict(width=p["height"], height=p["width"])
    else:
        q = p | {k: p[k] * rng.choice([0.5, 0.75, 0.875]) for k in ("scale",)}
        q |= {k: p[k] * (q["scale"] / p["scale"]) for k in ("width", "height")}
    return dict(p=p, q=q)


@CHECK.family("two bodies", _gen_pair, quick=10, thorough=100, needs=("pairs",))
def body_pair(c, p):
    """Steps of different bodies evaluated at the same points in succession."""
    from tvemoves_rufbad.simulation import RegularizedStep, Step

    rng = c.rng
    made = []
    for q in (p["p"], p["q"]):
        fr = sims.Frame(q)
        d = gen.domain(q)
        grid = d.grid(q["scale"])
        y, t = st.noise(rng, fr.yshape) * fr.scale, np.abs(st.noise(rng, (fr.m,)))
        s = RegularizedStep(y, t, d, grid, d.refine(grid, q["r"])) if fr.reg else Step(y, t, d, grid)
        coarse, fine = Field(fr.grid), Field(fr.fine)
        made.append((fr, s, y, t, coarse, fine))
    w, h = (min(float(m[0].P[:, k].max()) for m in made) for k in (0, 1))
    for _ in range(30):
        x = (rng.uniform(0, w), rng.uniform(0, h)) if rng.random() < 0.8 else (rng.choice([0.0, w / 2]), rng.choice([0.0, h / 2]))
        for k, (fr, s, y, t, coarse, fine) in enumerate(made):
            for what in rng.sample(["y", "theta"], 2):
                if what == "y":
                    f = coarse.bell if fr.reg else coarse.p1
                    v = s.y(*x)
                    want = [f(y[:, a], *x)[0] for a in (0, 1)]
                    mag = float(np.abs(y / fr.scale).max()) * fr.h if fr.reg else float(np.abs(y).max())
                    c.close([float(v[0]), float(v[1])], want, f"position in body {k} at {x}", atol=1e-8 * mag, rtol=0)
                else:
                    c.close(float(s.theta(*x)), fine.p1(t, *x)[0], f"temperature in body {k} at {x}", atol=1e-8 * float(t.max()), rtol=0)
        c.count("pairs")
_gen_huge = lambda rng, i: gen.enlarge(sims.p1_case(rng, i), i, gen.HUGE)
CHECK.family("huge constructed", lambda rng, i: _gen_huge(rng, i) | dict(kind="random"), quick=1, thorough=4, weight=8, timeout=400)(body_made)
