"""C28: evolutions dissipate energy and obey the first law."""

import random

import numpy as np
from harness import autodiff as ad, energy as en, gen, mesh, physics as ph, sims, solver as sv, steps as st
from harness.core import Check

CHECK = Check(
    "C28",
    "A case is a whole evolution solved by a reference optimizer (damped Newton on exact derivatives of the"
    " recorded objectives, monotone, respecting bounds and constraints), with loads, fixed sides, starting"
    " perturbations and search radii varied; energies, dissipation, internal energy and heat exchange are"
    " recomputed from the recorded steps alone by the reference functionals. Steps whose solves did not"
    " converge or ran into search bounds are only counted for the laws that presuppose optimality."
    " Non-trivial: at least one step in which something moved or heat flowed.",
    ["the ipopt executable is not installed; a Newton method in the harness takes its place"],
)


class Kicked:
    """The optimizer, except that one mechanical solution is a feasible perturbed state."""

    def __init__(self, opt, rng, amount, step=0, few=False):
        self.opt, self.rng, self.amount, self.step, self.few = opt, rng, amount, step, few

    def __call__(self, ev):
        if ev.index == 2 * self.step and self.amount:
            x = self.opt.kick(ev, self.rng, self.amount, self.few)
            self.opt.reports.append({"converged": False, "kicked": True})
            return x
        return self.opt(ev)


def first_law(fr, p, y0, y1, t0, t1, ext):
    """(residual without boundary, boundary heat loss, sum of absolute values)"""
    fps = p["fps"]
    if fr.reg:
        q = fr.bell
        a, b = q.temp(t0[None])[0], q.temp(t1[None])[0]
        F0, F1 = q.strain(y0[None]), q.strain(y1[None])
        w = q.w[None]
    else:
        q = en.P1(fr.grid)
        a, b = q.at(t0[None]), q.at(t1[None])
        F0, F1 = (np.broadcast_to(q.strain(y[None])[:, :, None], a.shape + (2, 2)) for y in (y0, y1))
        w = q.w[None]
    jump = lambda F: ph.austenite(F) - ph.martensite(F)
    U1 = ph.ENTROPY * b + ph.weight(b) * jump(F1)
    U0 = ph.ENTROPY * a + ph.weight(a) * jump(F0)
    heat = 2 * fps**2 * ph.dissipation(F0, F1)
    power = np.sum(ph.coupling_stress(F0, a) * (F1 - F0) * fps, axis=(-2, -1))
    sums = [float((w * z).sum()) for z in (fps * (U1 - U0), heat, power)]
    size = [float((w * np.abs(z)).sum()) for z in (fps * U1, fps * U0, heat, power)]
    P = fr.Q
    loss = size_b = 0.0
    for i, j in (tuple(e) for e in (fr.fine if fr.reg else fr.grid).boundary.edges):
        l, m = float(np.hypot(*(P[i] - P[j]))), float(t1[i] + t1[j]) / 2
        loss += l * ph.HEAT_TRANSFER * (m - ext)
        size_b += l * ph.HEAT_TRANSFER * (abs(m) + abs(ext))
    return sums[0] - sums[1] - sums[2], loss, sum(size) + size_b, abs(sums[1]) + abs(sums[2])


def stepwise_load(p, fr):
    """A traction that acts on changing parts of the boundary, and at some times on none."""
    r = random.Random(p["seed"] + 1)
    modes = [(r.choice(["none", "all", "low", "high"]), r.randrange(2), [p["gsize"] * r.uniform(-1, 1) for _ in "xy"]) for _ in range(12)]
    middle = [float(m) / 2 for m in fr.P.max(axis=0)]

    def g(t, x, y):
        mode, axis, v = modes[round(t * p["fps"]) % 12]
        high = (x, y)[axis] > middle[axis] + 1e-9
        return list(v) if mode == "all" or mode == ("high" if high else "low") else [0.0, 0.0]

    return g


def stepwise_temperature(p):
    r = random.Random(p["seed"] + 2)
    values = [r.choice([0.0, p["esize"], p["esize"] * r.random(), p["theta0"]]) for _ in range(12)]
    return lambda t: values[round(t * p["fps"]) % 12]


def _gen(rng, i):
    p = sims.p1_case(rng, i, cells=4)
    p["steps"] = rng.randint(2, 6)
    p["radius"] = rng.choice([50.0, 50.0, 5.0, 0.3]) * max(1.0, p["scale"])
    p["gsize"] = rng.choice([0.0, 0.1, 0.5, 1.0]) if p["fix"] else 0.0
    p["esize"] = rng.choice([0.0, 0.5, 1.0, 3.0, 10 ** rng.uniform(1, 2.5)])
    p["kick"] = rng.choice([0.0, 0.1, 0.25, 0.25]) * p["scale"]
    p["stepwise"] = rng.random() < 0.5
    p["kick_step"] = rng.choice([0, 0, 1, 2])
    p["few"] = rng.random() < 0.5
    p["theta0"] = rng.choice([0.0, 0.0, 0.02, 0.3, 1.0, 2.0, rng.uniform(0.05, 2), rng.uniform(2, 8)])
    if rng.random() < 0.3:
        p["fps"] = 10 ** rng.uniform(1, 4.3)
    return p


def _gen_reg(rng, i):
    p = sims.reg_case(rng, i, ((1, 1, 1), (1, 1, 2), (1, 1, 1), (2, 1, 1), (1, 2, 1)))
    p["nx"], p["ny"] = max(1, p["nx"]), max(1, p["ny"])
    f = rng.uniform(0.7, 1.4) / p["scale"]
    for k in ("scale", "width", "height"):
        p[k] *= f
    p["steps"] = rng.choice([2, 3, 4])
    p["radius"] = 50.0
    p["gsize"] = 0.0
    p["esize"] = rng.choice([0.0, 1.0])
    p["kick"] = rng.choice([0.02, 0.05])
    p["theta0"] = rng.choice([0.0, 0.3, 1.0, 2.0])
    if rng.random() < 0.3:
        p["reg"] = 10 ** rng.uniform(0, 2)
    return p


@CHECK.family("evolution", _gen, quick=44, thorough=600, weight=2,
              needs=("energy", "moved", "first_law", "heat_flow", "rest", "temperatures"))
def body(c, p):
    evolve(c, p)


@CHECK.family("regularized", _gen_reg, quick=10, thorough=100, weight=4, timeout=400,
              needs=("energy", "moved", "first_law", "rest", "temperatures"))
def body_reg(c, p):
    evolve(c, p)


def evolve(c, p):
    rng = c.rng
    fr = sims.Frame(p)
    g = st.traction(p["seed"], p["gsize"], fr.h) if p["gsize"] else None
    ext = st.temperature(p["seed"], p["esize"]) if p["esize"] else None
    if p.get("stepwise"):
        g, ext = g and stepwise_load(p, fr), ext and stepwise_temperature(p)
    opt = ad.Optimizer()
    sim, rec = sims.simulate(p, Kicked(opt, rng, p["kick"], p.get("kick_step", 0), p.get("few", False)), ext, g)
    sims.run(sim, p["steps"] - 1)
    c.eq(len(rec.events), 2 * p["steps"], "number of problems solved")
    hist = [fr.read(s) for s in sim.steps]
    fixed = {p["fix"]} if isinstance(p["fix"], str) else set(p["fix"] or [])
    for k, (y, t) in enumerate(hist):
        at_rest(c, p, fr, sim.steps[k], y, fixed, k)
        c.check(bool((t >= -1e-12).all()), lambda: f"step {k} has the temperature {t.min()!r}")
        c.count("temperatures", len(t))
    alive = False
    for k in range(len(hist) - 1):
        (y0, t0), (y1, t1) = hist[k], hist[k + 1]
        time = k / p["fps"]
        mech, therm = opt.reports[2 * k], opt.reports[2 * k + 1]
        c.count("solves", 2)
        c.count("solves_converged", mech["converged"] + therm["converged"])
        if not fr.strain_ok(y0, y1):
            c.count("skipped_strain")
            continue
        trac = None if fr.reg else [g(time, *map(float, x)) if g else [0.0, 0.0] for x in fr.P]
        if "kicked" not in mech:
            E = fr.mech_terms(p, y0, t0, trac, np.array([y0, y1]))
            tol = 1e-9 * (1e-3 * fr.h**2 + float(np.abs(E).max())) + _read_error(fr, p, y0, t0, trac)
            c.check(
                E[1] <= E[0] + tol,
                f"step {k + 1}: energy + fps * dissipation - work is {E[1]!r}, above {E[0]!r} of the"
                " unchanged deformation",
            )
            c.count("energy")
            moved = float(np.abs((y1 - y0) / fr.scale).max()) > 1e-6
            c.count("moved", moved)
            alive = alive or moved
        if not therm["converged"]:
            c.count("thermal_not_converged")
            continue
        e = ext(time) if ext else 0.0
        res, loss, size, prod = first_law(fr, p, y0, y1, t0, t1, e)
        tol = 1e-7 * (size + p["fps"] * float(fr.h) ** 2)
        low = t0 - p["radius"]
        at_search = bool((t1 <= low + 1e-6).any() or (t1 >= t0 + p["radius"] - 1e-6).any())
        at_zero = bool((t1 <= 1e-9).any())
        if at_search:
            c.count("search_bounds_active")
            continue
        if prod + abs(loss) > 100 * tol:
            c.count("heat_flow")
            alive = True

        def holds(r):
            return r >= -tol if at_zero else abs(r) <= tol

        c.count("first_law_inequality" if at_zero else "first_law")
        c.count("assertions")
        if holds(res + loss):
            continue
        if fr.reg and holds(res):
            c.finding(
                "regularized-no-heat-exchange",
                f"step {k + 1}: the boundary loses no heat in the regularized setting (expected {loss:.6g})",
            )
            continue
        c.fail(
            f"step {k + 1}: fps * increase of internal energy - dissipation rate - coupling power + boundary"
            f" heat loss = {res + loss:.6g} instead of 0 (sizes {size:.3g}, tolerance {tol:.3g},"
            f" temperature at zero: {at_zero})"
        )
    c.trivial = not alive


# ---- states of equilibrium ------------------------------------------------------------------


def equilibrium(energy, y, D):
    """Minimizer of a smooth function over y + span of the columns of D, by Newton's method.

    Gradients by complex steps, Hessians by differences of gradients. Returns (minimizer, residual)."""
    n = D.shape[1]
    shape = y.shape

    def grad(z):
        Z = (y.ravel() + D @ z)[None] + 1j * 1e-30 * D.T
        return energy(Z.reshape((n,) + shape)).imag / 1e-30

    def value(z):
        with np.errstate(all="ignore"):
            v = float(energy((y.ravel() + D @ z).reshape((1,) + shape))[0])
        return v if np.isfinite(v) else np.inf

    z, v = np.zeros(n), None
    v = value(z)
    for _ in range(60):
        g = grad(z)
        e = 1e-6
        H = np.array([(grad(z + e * u) - grad(z - e * u)) / (2 * e) for u in np.eye(n)])
        w, V = np.linalg.eigh((H + H.T) / 2)
        w = np.maximum(np.abs(w), 1e-9 * np.abs(w).max())
        d = -V @ ((V.T @ g) / w)
        t = 1.0
        while t > 1e-12 and not value(z + t * d) < v:
            t /= 2
        if t <= 1e-12:
            break
        z, v = z + t * d, value(z + t * d)
    return (y.ravel() + D @ z).reshape(shape), float(np.abs(d).max())


def _gen_rest(rng, i):
    if i % 4 == 3:
        p = _gen_reg(rng, i // 4)
        p["kick"] = 0.03
        p["reg"] = rng.choice([0.0, 1e-3, 0.1, 10 ** rng.uniform(0, 2.3), 10 ** rng.uniform(0.7, 2.3)])
    else:
        p = _gen(rng, i)
        if not p["fix"]:
            p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng, rng.choice([1, 1, 2])))
        p["gsize"] = rng.choice([0.0, 0.1, 0.3, 0.8])
    p["radius"] = 50.0 * max(1.0, p["scale"])
    if i % 2:
        p["theta0"] = 0.0
    p["spread"] = rng.choice([0.1, 0.5, 2.0])
    return p


@CHECK.family("equilibrium", _gen_rest, quick=28, thorough=240, weight=3, timeout=300, needs=("equilibria",))
def body_equilibrium(c, p):
    """From a state of least energy every move costs: the sharpest form of the energy inequality.

    The first solutions are feasible random states that reveal which unknown is which; the next
    mechanical solution is the minimizer of the documented energy for the temperature and load of
    the step after it. Whatever the solver then finds has to have at most that energy."""
    rng = c.rng
    fr = sims.Frame(p)
    g = st.traction(p["seed"], p["gsize"], fr.h) if p["gsize"] and not fr.reg else None
    if g and p.get("stepwise"):
        g = stepwise_load(p, fr)
    opt = ad.Optimizer()
    box = {}

    def strategy(ev):
        if ev.index == 0:
            return opt.kick(ev, rng, p["kick"] or 0.1 * p["scale"])
        if ev.index == 1:
            return sv.limited(rng, lambda e: np.full(len(e.vars), p["spread"]))(ev)
        if ev.index == 2:
            x = ev.start.copy()
            for k, name in enumerate(ev.names):
                if name in box["slots"]:
                    x[k] = box["y"].ravel()[box["slots"][name]]
            return x
        if ev.index == 3:
            return ev.start.copy()
        return opt(ev)

    sim, rec = sims.simulate(p, strategy, None, g)
    (y0, _), (y1, t1) = (fr.read(s) for s in sim.steps)
    ev = rec.events[0]
    slots = sims.match(c, ev, y1, fr.scale, "first mechanical problem")
    live = np.flatnonzero(slots >= 0)
    D = np.zeros((y1.size, len(live)))
    D[slots[live], np.arange(len(live))] = np.broadcast_to(fr.scale, y1.shape).ravel()[slots[live]]
    eq = [r[live] * D[slots[live], np.arange(len(live))] for r, lo, hi in ev.rows if lo == hi and np.any(r[live])]
    if eq:
        _, s, Vt = np.linalg.svd(np.array(eq))
        D = D @ Vt[(s > 1e-10 * s[0]).sum():].T
    if not D.shape[1]:
        c.trivial = True
        return
    time = 2 / p["fps"]
    trac = None if fr.reg else [g(time, *map(float, x)) if g else [0.0, 0.0] for x in fr.P]
    static = {**p, "fps": 0.0}
    start = fr.identity() if p["seed"] % 2 else y1
    y, rest = equilibrium(lambda Y: fr.mech_terms(static, y0, t1, trac, Y), start, D)
    if not fr.strain_ok(y) or rest > 1e-6 or float(np.abs(y - y0).max()) > 0.3 * p["radius"]:
        c.count("no_equilibrium")
        return
    box.update(y=y, slots={ev.names[k]: int(slots[k]) for k in live})
    sims.run(sim, 2)
    c.eq(len(rec.events), 6, "number of problems solved")
    hist = [fr.read(s) for s in sim.steps]
    (a, ta), (b, _) = hist[2], hist[3]
    if float(np.abs((a - y) / fr.scale).max()) > 1e-6 or float(np.abs(ta - t1).max()) > 1e-9:
        c.count("not_reached")
        return
    if not fr.strain_ok(b):
        c.count("skipped_strain")
        return
    E = fr.mech_terms(p, a, ta, trac, np.array([a, b]))
    tol = 1e-10 * (1e-3 * fr.h**2 + float(np.abs(E).max())) + _read_error(fr, p, a, ta, trac)
    c.check(
        E[1] <= E[0] + tol,
        f"step 3 starts from the state of least energy {E[0]!r}; afterwards energy + fps * dissipation - work is"
        f" {E[1]!r}, the deformation has moved by {float(np.abs((b - a) / fr.scale).max()):.3g}",
    )
    c.count("equilibria")
    c.count("energy")


def _read_error(fr, p, y0, t0, trac):
    """Effect of rounding in reading nodal data through the evaluation of a step."""
    if not fr.reg:
        return 0.0
    return 1e-10 * abs(float(fr.mech_terms(p, y0, t0, trac, y0[None])[0]))


def at_rest(c, p, fr, step, y, fixed, k):
    W, H = fr.P.max(axis=0)
    for e in (tuple(e) for e in fr.grid.boundary.edges):
        if not any(mesh.on_side(fr.P, e, s, W, H, 1e-6 * fr.h) for s in fixed):
            continue
        a, b = fr.P[e[0]], fr.P[e[1]]
        for s in (0.0, 1.0, 0.5, c.rng.random()):
            x = tuple(float(z) for z in ((1 - s) * a + s * b))
            v = np.array([float(z) for z in step.y(*x)])
            c.check(
                float(np.abs(v - x).max()) <= 1e-8 * fr.h,
                f"step {k}: the point {x} of a fixed side is at {v.tolist()}",
            )
            c.count("rest")


def _gen_constant(rng, i):
    if i % 4 == 3:
        p = sims.reg_case(rng, i // 4, ((1, 1, 1), (1, 1, 2), (2, 1, 1)))
    else:
        p = sims.p1_case(rng, i, cells=6)
    p["steps"] = rng.randint(1, 5)
    p["radius"] = rng.choice([0.05, 1.0, 20.0]) * min(1.0, p["scale"])
    p["theta0"] = rng.choice([0.01, 0.3, 1.0, rng.uniform(0.001, 3)])
    return p


@CHECK.family("constant", _gen_constant, quick=24, thorough=300, weight=2, needs=("states",))
def body_constant(c, p):
    """Undeformed, unloaded, surroundings at the initial temperature: nothing happens."""
    fr = sims.Frame(p)
    t0 = p["theta0"]
    sim, rec = sims.simulate(p, ad.Optimizer(), lambda t: t0, None)
    if p["steps"] > 1:
        sims.run(sim, p["steps"] - 1)
    want = fr.identity()
    for k, s in enumerate(sim.steps):
        y, t = fr.read(s)
        c.check(
            bool((np.abs(y - want) <= 1e-7 * (fr.scale + np.abs(want))).all()),
            f"step {k} has moved although nothing acts on the body",
        )
        c.close(t, np.full(fr.m, t0), f"temperature of step {k} without any heat flow", atol=1e-9, rtol=1e-7)
        c.count("states")
