"""C19: the mechanical step minimizes the documented energy functional."""

import numpy as np
from harness import energy as en, gen, mesh, physics as ph, solver as sv, steps as st
from harness.checks.c21 import dirichlet_system, project
from harness.core import Check

CHECK = Check(
    "C19",
    "A case is a grid (plain, distorted, renumbered or refined; with a refined grid in the regularized"
    " families), parameters, a traction and a random sequence of updates and solves. At every solve the"
    " recorded objective is evaluated at random admissible deformations and compared, up to a constant"
    " and a positive factor, with the reference functional. Non-trivial: the reference varies.",
    ["the ipopt executable is not installed; the stand-in receives the same models"],
)
K = 7


def _params(rng, p):
    p["fps"] = rng.choice([1.0, 0.5, 30.0, 10 ** rng.uniform(-1, 2), 10 ** rng.uniform(-3, 4)])
    p["radius"] = rng.choice([0.05, 0.5, 5.0]) * p["scale"]
    p["theta0"] = rng.choice([0.0, 0.2, 1.0, rng.uniform(0, 2)])
    p["ops"] = rng.randint(2, 5)
    p["gsize"] = rng.choice([0.0, 0.1, 1.0, 10.0])
    p["patchy"] = rng.random() < 0.4
    return p


def _gen_p1(rng, i):
    return _params(rng, st.p1_case(rng, i))


def _gen_reg(rng, i):
    p = _params(rng, st.shear(st.reg_case(rng, i), i))
    p["reg"] = rng.choice([0.0, 1e-3, 1.0, 10 ** rng.uniform(-3, 1)]) * p["scale"] ** 3
    p["ops"] = rng.randint(1, 3)
    return p


def _shares(c, terms):
    sp = {k: float(np.ptp(v)) for k, v in terms.items()}
    top = max(sp.values())
    for k, v in sp.items():
        if v > 1e-4 * top > 0:
            c.count(f"term_{k}")
    return top


def _samples(rng, prev, mask, scale, radius, ok):
    """prev and K admissible states that differ from it in the free positions only."""
    amp = min(0.15, 0.9 * radius / max(float(np.max(scale)), 1e-300)) if radius else 0.15
    res = [prev]
    while len(res) < K:
        a = amp * rng.choice([1.0, 1.0, 0.3])
        Y = np.where(mask, prev + a * st.noise(rng, prev.shape) * scale, prev)
        if ok(Y):
            res.append(Y)
        else:
            amp *= 0.8
    return np.array(res)


@CHECK.family("unregularized", _gen_p1, quick=48, thorough=600, weight=1,
              needs=("objective_samples", "term_elastic", "term_traction", "term_dissipation"))
def body_p1(c, p):
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    rng = c.rng
    g, h = st.p1_grid(p)
    P = np.array(mesh.pts(g))
    n = len(P)
    load = st.traction(p["seed"], p["gsize"], h)
    if p["patchy"]:
        load = st.patchy(load, h)
    rec = sv.Recorder(sv.tags(rng))
    step = mechanical_step(
        rec, g, MechanicalStepParams(p["theta0"], p["radius"], p["fps"], None), None, load
    )
    q = en.P1(g)
    prev, theta, t = P.copy(), np.full(n, float(p["theta0"])), 0
    admissible = lambda Y: ph.det(q.strain(Y[None])).min() > 0.1
    nontrivial = False
    for op in range(p["ops"] + 1):
        if op:
            what = rng.sample(["y", "theta", "load"], rng.randint(1, 3))
            for w in what:
                if w == "y":
                    prev = st.p1_state(rng, g, h, quad=q)
                    step.update_prev_y(prev.copy())
                elif w == "theta":
                    theta = st.temps(rng, n)
                    step.update_prev_theta(theta.copy())
                else:
                    t = rng.choice([0.0, 1.0, rng.uniform(0, 5), rng.uniform(2, 3.5), t + 10 ** rng.uniform(-9, -2)])
                    step.update_boundary_traction(t)
        step.solve()
        ev = rec.events[-1]
        c.eq(len(rec.events), op + 1, "number of solver calls")
        c.eq(ev.n_objectives, 1, "number of active objectives")
        slots = st.decode(c, ev, step.y(), "mechanical step")
        mask = st.free_mask(slots, (n, 2))
        Y = _samples(rng, prev, mask, np.full(2, h), p["radius"], admissible)
        e, w, d = en.mech_p1_terms(g, prev, theta, [load(t, *x) for x in P], Y)
        code = sv.objective_at(ev, st.assignments(ev, slots, Y))
        if _shares(c, {"elastic": e, "traction": w, "dissipation": p["fps"] * d}) > 0:
            nontrivial |= en.compare(c, code, e - w + p["fps"] * d, f"mechanical objective, solve {op}") is not None
            c.count("solves_compared")
    c.trivial = not nontrivial
    c.sample = {"vertices": n, "tape": len(getattr(ev.tape, "ops", []))}


def _at_rest(rng, g, h, bell, scale):
    """A state that is the identity on the Dirichlet boundary, as all states of a simulation are."""
    A, b = dirichlet_system(g)
    strength = 1.0
    while True:
        y = project(A, b, st.bell_state(rng, g, h, bell, strength=strength), scale)
        if ph.det(bell.strain(y[None])).min() > 0.25:
            return y
        strength *= 0.7


@CHECK.family("regularized", _gen_reg, quick=16, thorough=200, weight=4,
              needs=("objective_samples", "term_elastic", "term_hyper", "term_dissipation"))
def body_reg(c, p):
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    rng = c.rng
    g, rg, h = st.reg_grids(p)
    n, m = len(g.points), len(rg.points)
    rec = sv.Recorder(sv.tags(rng))
    step = mechanical_step(
        rec, g, MechanicalStepParams(p["theta0"], p["radius"], p["fps"], p["reg"]), rg,
        lambda t, x, y: [0.0, 0.0],
    )
    bell = en.Bell(g, rg)
    prev, theta = st.bell_identity(g), np.full(m, float(p["theta0"]))
    admissible = lambda Y: ph.det(bell.strain(Y[None])).min() > 0.1
    scale = st.dof_scale(h)
    nontrivial = False
    for op in range(p["ops"] + 1):
        if op:
            for w in rng.sample(["y", "theta"], rng.randint(1, 2)):
                if w == "y":
                    prev = _at_rest(rng, g, h, bell, scale)
                    step.update_prev_y(prev.copy())
                else:
                    theta = st.temps(rng, m)
                    step.update_prev_theta(theta.copy())
        step.solve()
        ev = rec.events[-1]
        c.eq(ev.n_objectives, 1, "number of active objectives")
        slots = st.decode(c, ev, step.y(), "mechanical step")
        mask = st.free_mask(slots, (n, 2, 6))
        Y = _samples(rng, prev, mask, scale, None, admissible)
        e, hyp, d = en.mech_bell_terms(bell, prev, theta, Y)
        code = sv.objective_at(ev, st.assignments(ev, slots, Y))
        ref = e + p["reg"] * hyp + p["fps"] * d
        if _shares(c, {"elastic": e, "hyper": p["reg"] * hyp, "dissipation": p["fps"] * d}) > 0:
            nontrivial |= en.compare(c, code, ref, f"regularized mechanical objective, solve {op}") is not None
            c.count("solves_compared")
    c.trivial = not nontrivial
    c.sample = {"vertices": n, "refined": m, "tape": len(getattr(ev.tape, "ops", []))}


def _gen_weight(rng, i):
    p = _params(rng, st.shear(st.reg_case(rng, i, st.REG_SHAPES[:4]), i))
    if i % 4:  # on small bodies the hyperelastic energy prevails, however small its weight
        s = 10 ** rng.uniform(-3.5, -1) / p["scale"]
        for k in ("scale", "width", "height"):
            p[k] *= s
    p["reg"] = 10 ** rng.choice([rng.uniform(-13, -6), rng.uniform(-8, 4)])
    return p


@CHECK.family("weights", _gen_weight, quick=10, thorough=120, weight=4, needs=("weights_seen", "tiny_weights"))
def body_weight(c, p):
    """Steps with and without regularization differ by the weighted hyperelastic energy, however small the weight."""
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    rng = c.rng
    g, rg, h = st.reg_grids(p)
    n, m = len(g.points), len(rg.points)
    bell = en.Bell(g, rg)
    scale = st.dof_scale(h)
    admissible = lambda Y: ph.det(bell.strain(Y[None])).min() > 0.1
    prev, theta = _at_rest(rng, g, h, bell, scale), st.temps(rng, m)
    found = []
    for reg in (0.0, p["reg"]):
        rec = sv.Recorder(sv.tags(rng))
        step = mechanical_step(
            rec, g, MechanicalStepParams(p["theta0"], p["radius"], p["fps"], reg), rg, lambda t, x, y: [0.0, 0.0]
        )
        step.update_prev_y(prev.copy())
        step.update_prev_theta(theta.copy())
        step.solve()
        found.append((rec.events[-1], st.decode(c, rec.events[-1], step.y(), "mechanical step")))
    mask = st.free_mask(found[0][1], prev.shape)
    Y = _samples(rng, prev, mask, scale, None, admissible)
    e, hyper, d = en.mech_bell_terms(bell, prev, theta, Y)
    codes = [sv.objective_at(ev, st.assignments(ev, slots, Y)) for ev, slots in found]
    a = en.compare(c, codes[0], e + p["fps"] * d, "objective without regularization", tol=1e-6)
    if a is None:
        c.trivial = True
        return
    got, want = (codes[1] - codes[0]) / a, p["reg"] * hyper
    got, want = got[1:] - got[0], want[1:] - want[0]
    tol = 1e-12 * max(float(np.abs(z).max()) for z in codes) / a + 1e-6 * float(np.abs(want).max())
    c.close(got, want, f"what regularization by {p['reg']!r} adds to the objective", atol=tol, rtol=0)
    if float(np.abs(want).max()) > 100 * tol:
        c.count("weights_seen")
        c.count("tiny_weights", p["reg"] < 1e-6)


def _gen_large(rng, i):
    p = gen.enlarge(_gen_p1(rng, i), i)
    return p | dict(ops=1, gseed=p["gseed"])


CHECK.family("large", _gen_large, quick=2, thorough=12, weight=6, timeout=300, needs=("objective_samples",))(body_p1)
CHECK.family("huge", lambda rng, i: gen.enlarge(_gen_p1(rng, i), i, gen.HUGE) | dict(ops=1), quick=1, thorough=4, weight=8, timeout=400,
             needs=("objective_samples",))(body_p1)
