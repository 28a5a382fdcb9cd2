"""C20: the thermal step minimizes the documented heat functional."""

import numpy as np
from harness import energy as en, gen, mesh, physics as ph, solver as sv, steps as st
from harness.checks.c19 import K, _shares
from harness.core import Check

CHECK = Check(
    "C20",
    "A case is a grid (plain, distorted, renumbered or refined; with a refined grid in the regularized"
    " families), parameters, an external temperature and a random sequence of updates and solves. At"
    " every solve the recorded objective is evaluated at random nonnegative temperatures and compared,"
    " up to a constant and a positive factor, with the reference functional. Non-trivial: the reference"
    " varies.",
    ["the ipopt executable is not installed; the stand-in receives the same models"],
)


def _params(rng, p):
    p["fps"] = rng.choice([1.0, 0.5, 3.0, 30.0, 10 ** rng.uniform(-1, 2), 10 ** rng.uniform(-3, 4)])
    p["radius"] = rng.choice([0.05, 0.5, 5.0])
    p["ops"] = rng.randint(2, 5)
    p["esize"] = rng.choice([0.0, 1.0, 10.0, 10 ** rng.uniform(-3, 3), rng.uniform(50, 1000)])
    p["first"] = rng.choice(["any", "any", "rest", "patch"])  # motion in the first problem
    p["late"] = rng.random() < 0.35  # nothing around the body at first
    p["cold"] = rng.random() < 0.4
    if p["cold"] and not p["late"]:
        p["esize"] = 0.0
    p["still"] = rng.random() < 0.15  # no motion: isolates conduction and storage
    return p


def _gen_p1(rng, i):
    return _params(rng, st.p1_case(rng, i, cells=9))


def _gen_reg(rng, i):
    p = _params(rng, st.shear(st.reg_case(rng, i, st.REG_SHAPES[:6]), i))
    p["reg"] = rng.choice([0.0, 1e-3, 1.0])
    p["ops"] = rng.randint(1, 3)
    return p


def _start(rng, p, prev_y, y, theta, quad):
    """The first problem: perhaps nothing or only a small part of the body moves, perhaps all is at zero."""
    if p["first"] == "rest":
        y = prev_y.copy()
    elif p["first"] == "patch":
        some = np.array([rng.random() < 0.25 for _ in prev_y])
        some[rng.randrange(len(some))] = True
        move = np.where(some.reshape((-1,) + (1,) * (prev_y.ndim - 1)), y - prev_y, 0.0)
        while ph.det(quad.strain((prev_y + move)[None])).min() < 0.2:
            move = move / 2
        y = prev_y + move
    return y, np.zeros_like(theta) if p["cold"] else theta


def _samples(rng, prev, radius):
    res = [prev]
    for _ in range(K - 1):
        a = rng.choice([0.3, 1.0, 2.0]) * min(1.0, radius)
        res.append(np.maximum(prev + a * st.noise(rng, prev.shape), 0.0))
    return np.array(res)


def _drive(c, p, step, rec, make_y, n_theta, ext, state, terms, what):
    """Random updates and solves of one thermal step with comparison at each solve."""
    rng = c.rng
    prev_y, y, theta, t = state
    nontrivial = False
    for op in range(p["ops"] + 1):
        if op:
            for w in rng.sample(["prev_y", "y", "theta", "ext"], rng.randint(1, 3)):
                if w == "prev_y":
                    prev_y = y.copy() if rng.random() < 0.2 else make_y()
                    step.update_prev_y(prev_y.copy())
                elif w == "y":
                    y = make_y()
                    step.update_y(y.copy())
                elif w == "theta":
                    theta = st.temps(rng, n_theta)
                    step.update_prev_theta(theta.copy())
                else:
                    t = rng.choice([0.0, 1.0, rng.uniform(0, 5), t + 10 ** rng.uniform(-7, -2)])
                    step.update_external_temperature(t)
        step.solve()
        ev = rec.events[-1]
        c.eq(len(rec.events), op + 1, "number of solver calls")
        c.eq(ev.n_objectives, 1, "number of active objectives")
        slots = st.decode(c, ev, step.theta(), what)
        c.check(bool(st.free_mask(slots, (n_theta,)).all()), f"{what}: a temperature is no unknown")
        Theta = _samples(rng, theta, p["radius"])
        parts = terms(prev_y, y, theta, t, Theta)
        code = sv.objective_at(ev, st.assignments(ev, slots, Theta))
        if _shares(c, parts) > 0:
            ok = en.compare(c, code, sum(parts.values()), f"{what} objective, solve {op}")
            nontrivial |= ok is not None
            c.count("solves_compared")
    c.trivial = not nontrivial
    c.sample = {"temperatures": n_theta, "tape": len(getattr(ev.tape, "ops", []))}


@CHECK.family("unregularized", _gen_p1, quick=40, thorough=500, weight=1,
              needs=("objective_samples", "term_conduction", "term_source", "term_storage", "term_boundary"))
def body_p1(c, p):
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    rng = c.rng
    g, h = st.p1_grid(p)
    n = len(g.points)
    warm = st.temperature(p["seed"], p["esize"])
    ext = (lambda t: warm(t) if t else 0.0) if p["late"] else warm
    rec = sv.Recorder(sv.tags(rng))
    q = en.P1(g)
    base = st.p1_state(rng, g, h, quad=q)
    make = (lambda: base.copy()) if p["still"] else (lambda: st.p1_state(rng, g, h, quad=q))
    prev_y, y, theta = make(), make(), st.temps(rng, n)
    y, theta = _start(rng, p, prev_y, y, theta, q)
    step = thermal_step(
        rec, g, prev_y.copy(), y.copy(), theta.copy(), ThermalStepParams(p["radius"], p["fps"], None), ext
    )

    def terms(prev_y, y, theta, t, Theta):
        cond, src, sto, bnd = en.thermal_p1_terms(g, prev_y, y, theta, ext(t), p["fps"], Theta)
        return {"conduction": cond, "source": src, "storage": p["fps"] * sto, "boundary": bnd}

    _drive(c, p, step, rec, make, n, ext, (prev_y, y, theta, 0), terms, "thermal step")


@CHECK.family("regularized", _gen_reg, quick=12, thorough=160, weight=5,
              needs=("objective_samples", "term_conduction", "term_source", "term_storage"))
def body_reg(c, p):
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    rng = c.rng
    g, rg, h = st.reg_grids(p)
    m = len(rg.points)
    rec = sv.Recorder(sv.tags(rng))
    bell = en.Bell(g, rg)
    base = st.bell_state(rng, g, h, bell)
    make = (lambda: base.copy()) if p["still"] else (lambda: st.bell_state(rng, g, h, bell))
    prev_y, y, theta = make(), make(), st.temps(rng, m)
    y, theta = _start(rng, p, prev_y, y, theta, bell)
    step = thermal_step(
        rec, g, prev_y.copy(), y.copy(), theta.copy(),
        ThermalStepParams(p["radius"], p["fps"], p["reg"]), lambda t: 0.0, rg,
    )

    def terms(prev_y, y, theta, t, Theta):
        cond, src, sto = en.thermal_bell_terms(bell, prev_y, y, theta, p["fps"], Theta)
        return {"conduction": cond, "source": src, "storage": p["fps"] * sto}

    _drive(c, p, step, rec, make, m, None, (prev_y, y, theta, 0), terms, "regularized thermal step")


CHECK.family("large", lambda rng, i: gen.enlarge(_gen_p1(rng, i), i) | dict(ops=1), quick=2, thorough=12, weight=6, timeout=300,
             needs=("objective_samples",))(body_p1)
CHECK.family("huge", lambda rng, i: gen.enlarge(_gen_p1(rng, i), i, gen.HUGE) | dict(ops=1), quick=1, thorough=4, weight=8, timeout=400,
             needs=("objective_samples",))(body_p1)
