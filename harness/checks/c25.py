"""C25: simulation parameters are validated and reach the steps."""

import copy
import dataclasses
import pickle
import random
from fractions import Fraction
import numpy as np
from harness import energy as en, gen, mesh, sims, solver as sv, steps as st
from harness.core import Check

CHECK = Check(
    "C25",
    "A case is a batch of parameter sets (valid, boundary and invalid values of every field, positional or"
    " by keyword) judged by the decision table of the property, or a simulation whose recorded problems"
    " are decoded and compared with the parameters it was given. Non-trivial: accepted and rejected sets"
    " occur, or a simulation ran.",
)
FIELDS = ["initial_temperature", "search_radius", "fps", "scale", "regularization", "refinement_factor"]
GOOD = {
    "initial_temperature": [0, 0.0, -0.0, 5e-324, 0.3, 1, 1e6],
    "search_radius": [5e-324, 1e-9, 0.1, 1, 1e6, float("inf"), Fraction(1, 3)],
    "fps": [5e-324, 1e-3, 0.5, 1, 30, 1e6, 1e300, Fraction(30000, 1001)],
    "scale": [5e-324, 1e-6, 0.1, 1, 100.0],
    "regularization": [None, None, 0, 0.0, -0.0, 1e-12, 1.0, 1000],
    "refinement_factor": [None, None, 1, 2, 3, 17],
}
BAD = {
    "initial_temperature": [-5e-324, -1e-9, -1, -300.0],
    "search_radius": [0, 0.0, -0.0, -5e-324, -1e-9, -1],
    "fps": [0, 0.0, -0.0, -5e-324, -1, -30.0],
    "scale": [0, 0.0, -0.0, -5e-324, -1],
    "regularization": [-5e-324, -1e-9, -1],
    "refinement_factor": [0, -1, -7],
}


def _acceptable(v):
    return (
        v["initial_temperature"] >= 0
        and v["search_radius"] > 0
        and v["fps"] > 0
        and v["scale"] > 0
        and (v["refinement_factor"] is None or v["refinement_factor"] > 0)
        and (v["regularization"] is None or v["regularization"] >= 0)
        and not (v["regularization"] is not None and v["refinement_factor"] is None)
    )


@CHECK.family("validation", lambda rng, i: {}, quick=40, thorough=400, needs=("accepted", "rejected", "dropped", "numpy_numbers", "copies"))
def body_validation(c, p):
    from tvemoves_rufbad.simulation import SimulationParams

    rng = c.rng
    for _ in range(150):
        v = {f: rng.choice(GOOD[f]) for f in FIELDS}
        for f in rng.sample(FIELDS, rng.choice([0, 0, 1, 1, 1, 2, 6])):
            v[f] = rng.choice(BAD[f])
        if rng.random() < 0.2:
            v = {f: (np.float64(x) if isinstance(x, float) else x) for f, x in v.items()}
        elif rng.random() < 0.2:
            # numbers of other types, where they represent the value exactly
            v = {f: (x if x is None else np.int64(x) if isinstance(x, int) else np.float32(x) if float(np.float32(x)) == x else x)
                 for f, x in v.items()}
            c.count("numpy_numbers")
        k = rng.randint(0, 6)
        args = [v[f] for f in FIELDS[:k]]
        kw = {f: v[f] for f in FIELDS[k:]}
        for f in ("regularization", "refinement_factor"):
            if f in kw and kw[f] is None and rng.random() < 0.5:
                del kw[f]
        make = lambda: SimulationParams(*args, **kw)
        if not _acceptable(v):
            c.raises(ValueError, make, f"SimulationParams with {v}")
            c.count("rejected")
            continue
        try:
            s = make()
        except ValueError as e:
            c.fail(f"valid parameters {v} rejected: {e}")
        want = dict(v)
        if v["regularization"] is None:
            want["refinement_factor"] = None
            c.count("dropped", v["refinement_factor"] is not None)
        for f in FIELDS:
            c.check(_is(getattr(s, f), want[f]), f"field {f} of {v}: {getattr(s, f)!r}")
        other = rng.choice([lambda: s, lambda: copy.copy(s), lambda: copy.deepcopy(s), lambda: pickle.loads(pickle.dumps(s)),
                            lambda: dataclasses.replace(s)])()
        if other is not s:
            for f in FIELDS:
                c.check(_is(getattr(other, f), want[f]), f"field {f} of a copy of {v}: {getattr(other, f)!r}")
            c.count("copies")
            s = other
        m, t = s.mechanical_step_params(), s.thermal_step_params()
        for f in ("initial_temperature", "search_radius", "fps", "regularization"):
            c.check(_is(getattr(m, f), want[f]), f"mechanical parameter {f} of {v}: {getattr(m, f)!r}")
        for f in ("search_radius", "fps", "regularization"):
            c.check(_is(getattr(t, f), want[f]), f"thermal parameter {f} of {v}: {getattr(t, f)!r}")
        # parameters are ordinary attributes: what is derived later follows them
        w = {f: rng.choice(GOOD[f]) for f in FIELDS[:4]}
        try:
            for f in FIELDS[:4]:
                setattr(s, f, w[f])
        except AttributeError:  # immutable
            w = None
        if w:
            m, t = s.mechanical_step_params(), s.thermal_step_params()
            for f in FIELDS[:3]:
                c.check(_is(getattr(m, f), w[f]), f"mechanical parameter {f} after it was changed to {w[f]}: {getattr(m, f)!r}")
            for f in FIELDS[1:3]:
                c.check(_is(getattr(t, f), w[f]), f"thermal parameter {f} after it was changed to {w[f]}: {getattr(t, f)!r}")
        c.count("accepted")


def _is(a, b):
    return a is None if b is None else (a is not None and a == b)


def _gen_sim(rng, i):
    reg = i % 2
    p = sims.reg_case(rng, i // 2, ((1, 1, 1), (1, 1, 2), (2, 1, 1))) if reg else sims.p1_case(rng, i, cells=4)
    p["fps"] = rng.choice([0.3, 1, 4.5, 30, 100.0])
    p["radius"] = rng.choice([0.05, 0.7, 2, 50.0]) * min(1.0, p["scale"])
    if reg:
        p["reg"] = rng.choice([0, 0.0, 0.02, 1, 5.0])
    else:
        p["r"] = rng.choice([None, 1, 2, 3])  # must be dropped
    return p


@CHECK.family("simulations", _gen_sim, quick=20, thorough=200, weight=3,
              needs=("radii", "objective_samples", "regularized_runs", "plain_runs", "zero_regularization"))
def body_sim(c, p):
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    rng = c.rng
    r = random.Random(p["seed"])
    amount = 0.02 * min(1.0, p["scale"])
    rec = sv.Recorder(sv.limited(r, lambda ev: np.full(len(ev.vars), min(amount, p["radius"]))))
    sv.register(rec)
    sim = Simulation(gen.domain(p), SimulationParams(p["theta0"], p["radius"], p["fps"], p["scale"], p["reg"], p["r"]))
    sims.run(sim)
    fr = sims.Frame(p if p["reg"] is not None else {**p, "r": None})
    c.count("regularized_runs" if fr.reg else "plain_runs")
    c.count("zero_regularization", p["reg"] == 0)
    hist = [fr.read(s) for s in sim.steps]
    c.close(hist[0][1], np.full(fr.m, float(p["theta0"])), "initial temperature", atol=1e-12)
    for k in (0, 1):
        (y0, t0), (y1, t1) = hist[k], hist[k + 1]
        ev = rec.events[2 * k]
        slots = sims.match(c, ev, y1, fr.scale, f"mechanical problem {k + 1}")
        live = slots >= 0
        c.check(int(live.sum()) <= y0.size, "number of unknowns")
        if not fr.reg:
            c.check(int((~ev.fixed).sum()) <= 2 * fr.n, "too many unknowns for the unregularized setting")
        else:
            c.check(len(ev.vars) > 2 * fr.n, "too few unknowns for the regularized setting")
        prev = y0.ravel()[slots[live]]
        w = 1e-8 * (1 + np.abs(prev)) * np.broadcast_to(np.maximum(fr.scale, 1), y0.shape).ravel()[slots[live]]
        c.check(bool((np.abs(ev.ub[live] - prev - p["radius"]) <= w).all()), "upper bounds do not follow the search radius")
        c.check(bool((np.abs(prev - ev.lb[live] - p["radius"]) <= w).all()), "lower bounds do not follow the search radius")
        c.count("radii", int(live.sum()))
        mask = st.free_mask(slots, fr.yshape)
        if mask.any() and fr.strain_ok(y0, y1):
            Y = [y0, y1]
            while len(Y) < 5:
                a = np.where(mask, y0 + 0.03 * st.noise(rng, y0.shape) * fr.scale, y0)
                if fr.strain_ok(a):
                    Y.append(a)
            Y = np.array(Y)
            ref = fr.mech_terms(p, y0, t0, np.zeros((fr.n, 2)), Y)
            en.compare(c, sv.objective_at(ev, st.assignments(ev, slots, Y)), ref, f"mechanical problem {k + 1}", tol=1e-6)
        ev = rec.events[2 * k + 1]
        slots = sims.match(c, ev, t1, 1.0, f"thermal problem {k + 1}")
        live = slots >= 0
        c.eq(int(live.sum()), fr.m, "number of temperatures")
        prev = t0[slots[live]]
        c.close(ev.ub[live], prev + p["radius"], "upper bounds of temperatures", atol=1e-9)
        c.close(ev.lb[live], np.maximum(prev - p["radius"], 0), "lower bounds of temperatures", atol=1e-9)
        c.count("radii", int(live.sum()))
        if fr.strain_ok(y0, y1):
            T = np.array([t0, t1] + [np.maximum(t0 + 0.3 * st.noise(rng, t0.shape), 0) for _ in range(3)])
            ref = fr.thermal_terms(p, y0, y1, t0, 0.0, T)
            en.compare(c, sv.objective_at(ev, st.assignments(ev, slots, T)), ref, f"thermal problem {k + 1}", tol=1e-6)


@CHECK.family("missing refined grid", lambda rng, i: st.reg_case(rng, i), quick=6, thorough=30)
def body_missing(c, p):
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step
    from tvemoves_rufbad.simulation import RegularizedStep
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    d = gen.domain(p)
    g = d.grid(p["scale"])
    n = len(g.points)
    rec = sv.Recorder(sv.silent)
    for reg in (0, 0.0, 0.1):
        c.raises(ValueError, lambda: mechanical_step(
            rec, g, MechanicalStepParams(0.1, 0.1, 1.0, reg), None, lambda t, x, y: [0.0, 0.0]),
            f"mechanical step with regularization {reg} and no refined grid")
        for m in (n, 2 * n):
            c.raises(ValueError, lambda: thermal_step(
                rec, g, np.zeros((n, 2, 6)), np.zeros((n, 2, 6)), np.zeros(m), ThermalStepParams(0.1, 1.0, reg),
                lambda t: 0.0), f"thermal step with regularization {reg} and no refined grid")
    c.raises(ValueError, lambda: RegularizedStep(np.zeros((n, 2, 6)), np.zeros(n), d, g, None),
             "recorded regularized step without refined grid")
    c.eq(rec.calls, 0, "solver calls")
