"""C23: the simulation alternates mechanical and thermal steps on a consistent state."""

import numpy as np
from harness import energy as en, gen, sims, solver as sv, steps as st
from harness.core import Check

CHECK = Check(
    "C23",
    "A case is a simulation driven by a recording solver that returns unique values, and a random"
    " partition of a number of steps into runs. The event log of the solver is checked offline against"
    " the recorded history: order of the problems, starting values, bounds and objectives of every"
    " problem for the state of the right steps, solutions recorded, history append-only. Non-trivial: at"
    " least one run.",
    ["the ipopt executable is not installed; the stand-in receives the same models"],
)


def _gen_p1(rng, i):
    p = sims.p1_case(rng, i)
    return _runs(rng, p, 5)


def _gen_reg(rng, i):
    return _runs(rng, sims.reg_case(rng, i), 3)


def _runs(rng, p, most):
    p["loads"] = p["reg"] is None and rng.random() < 0.6
    total, p["runs"] = rng.randint(1, most), []
    while total > 0:
        k = rng.randint(1, total)
        p["runs"].append(k)
        total -= k
    p["bad"] = rng.choice([0, -1, -5])
    return p


def _loads(p, fr):
    if not p["loads"]:
        return None, None
    return st.temperature(p["seed"]), st.traction(p["seed"], 1.0, fr.h)


def _same(c, fr, a, b, what):
    c.check(np.array_equal(a[0], b[0]), f"{what}: deformation changed")
    c.check(np.array_equal(a[1], b[1]), f"{what}: temperature changed")


def _slots(c, ev, array, scale, what, known, kind):
    """Position of every unknown: from unique values, or from an earlier problem with the same unknowns."""
    free = ev.assigned[~ev.fixed]
    key = (kind, tuple(ev.names), tuple(ev.fixed))
    gaps = np.diff(np.sort(free))
    if key in known and len(gaps) and gaps.min() <= 1e-6 * float(np.max(scale)):
        c.count("slots_reused")
        return known[key]
    known[key] = sims.match(c, ev, array, scale, what)
    return known[key]


def _log(c, p, fr, sim, rec, hist, ext, load):
    """Offline check of the complete event log against the recorded history."""
    rng = c.rng
    known = {}
    # values at vertices are reproduced up to rounding; second derivatives of the Bell triangle less well
    exact = lambda y: 1e-13 * (1 + np.abs(y)) if not fr.reg else 1e-9 * fr.scale + 1e-9 * np.abs(y)
    n = len(hist) - 1
    c.eq(len(rec.events), 2 * n, "number of problems solved")
    for k in range(n):
        (y0, t0), (y1, t1) = hist[k], hist[k + 1]
        time = k / p["fps"]
        # mechanical problem of step k + 1
        ev = rec.events[2 * k]
        what = f"mechanical problem of step {k + 1}"
        slots = _slots(c, ev, y1, fr.scale, what, known, "y")
        live = slots >= 0
        prev = y0.ravel()[slots[live]]
        w = np.broadcast_to(exact(y0), y0.shape).ravel()[slots[live]]
        got = y1.ravel()[slots[live]]
        c.check(bool((np.abs(got - ev.assigned[live]) <= np.broadcast_to(exact(y1), y1.shape).ravel()[slots[live]]).all()),
                f"{what}: the recorded deformation is not the solution")
        c.check(bool((np.abs(ev.start[live] - prev) <= w).all()), f"{what}: does not start from step {k}")
        c.check(
            bool((np.abs((ev.lb + ev.ub)[live] / 2 - prev) <= w).all()),
            f"{what}: bounds are not centered at step {k}",
        )
        mask = st.free_mask(slots, fr.yshape)
        rest = ~mask & (np.abs(y1 - y0) > 2 * np.broadcast_to(exact(y0), y0.shape))
        c.check(not rest.any(), f"{what}: recorded positions changed that are no unknowns")
        c.count("mechanical_problems")
        if fr.strain_ok(y0, y1):
            Y = [y0, y1]
            while len(Y) < 4:
                a = np.where(mask, y0 + 0.03 * st.noise(rng, y0.shape) * fr.scale, y0)
                if fr.strain_ok(a):
                    Y.append(a)
            Y = np.array(Y)
            g = [load(time, *x) for x in fr.P] if load else np.zeros((fr.n, 2))
            ref = fr.mech_terms(p, y0, t0, g, Y)
            if mask.any():
                en.compare(c, sv.objective_at(ev, st.assignments(ev, slots, Y)), ref, what, tol=1e-6)
                c.count("objectives_compared")
        # thermal problem of step k + 1
        ev = rec.events[2 * k + 1]
        what = f"thermal problem of step {k + 1}"
        slots = _slots(c, ev, t1, 1.0, what, known, "t")
        c.check(bool(st.free_mask(slots, (fr.m,)).all()), f"{what}: a recorded temperature is no solution")
        live = slots >= 0
        prev = t0[slots[live]]
        c.check(bool((np.abs(ev.start[live] - prev) <= 1e-12 * (1 + prev)).all()), f"{what}: does not start from step {k}")
        c.check(bool((np.abs(t1[slots[live]] - ev.assigned[live]) <= 1e-12 * (1 + t1[slots[live]])).all()),
                f"{what}: the recorded temperature is not the solution")
        c.count("thermal_problems")
        if fr.strain_ok(y0, y1):
            T = np.array([t0, t1] + [np.maximum(t0 + 0.3 * st.noise(rng, t0.shape), 0) for _ in range(2)])
            ref = fr.thermal_terms(p, y0, y1, t0, ext(time) if ext else 0.0, T)
            en.compare(c, sv.objective_at(ev, st.assignments(ev, slots, T)), ref, what, tol=1e-6)
            c.count("objectives_compared")


def body(c, p):
    fr = sims.Frame(p)
    ext, load = _loads(p, fr)
    sim, rec = sims.simulate(p, sims.tags(p["seed"]), ext, load)
    c.eq(len(sim.steps), 2, "number of steps of a new simulation")
    y, t = fr.read(sim.steps[0])
    c.check(bool((np.abs(y - fr.identity()) <= 1e-9 * (fr.scale + np.abs(y))).all()), "step 0 is not the undeformed domain")
    c.close(t, np.full(fr.m, float(p["theta0"])), "temperature of step 0", atol=1e-12)
    hist = [fr.read(s) for s in sim.steps]
    texts = [(str(s), repr(s)) for s in sim.steps]
    objs = list(sim.steps)
    for n in p["runs"]:
        calls, steps = rec.calls, len(sim.steps)
        c.raises(ValueError, lambda: sims.run(sim, p["bad"]), f"run({p['bad']})")
        c.eq((rec.calls, len(sim.steps)), (calls, steps), f"solver calls and steps after run({p['bad']})")
        c.count("rejected_runs")
        how = c.rng.choice(["plain", "plain", "numpy"])
        if n == 1 and c.rng.random() < 0.5:
            sims.run(sim)
        elif how == "numpy":  # a number that was computed with numpy
            sims.run(sim, c.rng.choice([np.int64, np.int32, np.uint8])(n))
            c.count("numpy_runs")
        else:
            sims.run(sim, n)
        c.eq(len(sim.steps), steps + n, f"number of steps after run({n})")
        for k, (old, txt, obj) in enumerate(zip(hist, texts, objs)):
            _same(c, fr, fr.read(sim.steps[k]), old, f"step {k} after run({n})")
            c.eq((str(sim.steps[k]), repr(sim.steps[k])), txt, f"text of step {k} after run({n})")
            _same(c, fr, fr.read(obj), old, f"step object {k} kept by the user after run({n})")
            c.count("steps_rechecked")
        hist += [fr.read(s) for s in sim.steps[len(hist):]]
        texts += [(str(s), repr(s)) for s in sim.steps[len(texts):]]
        objs += list(sim.steps[len(objs):])
    _log(c, p, fr, sim, rec, hist, ext, load)
    # the same steps one at a time
    other, rec2 = sims.simulate(p, sims.tags(p["seed"]), ext, load, objective=False)
    for _ in range(sum(p["runs"])):
        sims.run(other, 1)
    c.eq(len(other.steps), len(sim.steps), "number of steps when run one at a time")
    for k, s in enumerate(other.steps):
        _same(c, fr, fr.read(s), hist[k], f"step {k} when run one at a time")
    c.eq(other.max_temp(), sim.max_temp(), "maximal temperature when run one at a time")
    c.count("steps", len(sim.steps))


_NEEDS = ("mechanical_problems", "thermal_problems", "objectives_compared", "rejected_runs", "steps_rechecked")
CHECK.family("unregularized", _gen_p1, quick=24, thorough=300, needs=_NEEDS + ("numpy_runs",))(body)
CHECK.family("regularized", _gen_reg, quick=8, thorough=100, weight=4, timeout=300, needs=_NEEDS)(body)


def _gen_pauses(rng, i):
    p = sims.reg_case(rng, i) if i % 5 == 4 else sims.p1_case(rng, i)
    p["loads"] = False
    n = rng.randint(3, 9) if p["reg"] is None else 4
    p["runs"] = []
    while sum(p["runs"]) < n:
        p["runs"].append(rng.randint(1, 5))
    # problems in which the solver finds the starting values to be optimal already
    p["rest"] = [rng.random() < 0.6 for _ in range(2 + 2 * sum(p["runs"]))]
    if rng.random() < 0.3:
        p["rest"] = [True] * len(p["rest"])
    return p


@CHECK.family("pauses", _gen_pauses, quick=20, thorough=200, needs=("resting_steps", "moving_steps"))
def body_pauses(c, p):
    """Evolutions that rest for a while: every requested step is made and recorded all the same."""
    fr = sims.Frame(p)
    tags = sims.tags(p["seed"])
    sim, rec = sims.simulate(p, lambda ev: None if p["rest"][ev.index] else tags(ev), objective=False)
    n = 2
    for k in p["runs"]:
        sims.run(sim, k)
        n += k
        c.eq(len(sim.steps), n, f"number of steps after run({k})")
        c.eq(rec.calls, 2 * (n - 1), f"problems solved after run({k})")
    hist = [fr.read(s) for s in sim.steps]
    for k, ((y0, t0), (y1, t1)) in enumerate(zip(hist, hist[1:])):
        for j, (a, b, what) in enumerate(((y0, y1, "deformation"), (t0, t1, "temperature"))):
            ev = rec.events[2 * k + j]
            moved = not np.array_equal(ev.assigned, ev.start)
            c.check(
                np.array_equal(a, b) != moved,
                f"{what} of step {k + 1}: {'not moved though' if moved else 'moved although not'} changed by the solver",
            )
            c.count("moving_steps" if moved else "resting_steps")
    c.check(all(a is not b for a, b in zip(sim.steps, sim.steps[1:])), "one object recorded for two steps")


def _gen_extremes(rng, i):
    p = sims.reg_case(rng, i) if i % 5 == 4 else sims.p1_case(rng, i)
    p["loads"] = p["reg"] is None and rng.random() < 0.6
    p["radius"] = rng.choice([0.05, 0.5, 3.0]) * min(1.0, p["scale"])
    n = rng.randint(3, 7) if p["reg"] is None else 3
    # first problems unique, then what the solver answers: (deformation, temperature)
    p["moves"] = [(rng.choice(["rest", "creep", "creep", "some", "free", "bound", "bound", "swap", "swap"]), rng.choice(["zero", "zero", "rest", "creep", "some", "equal", "free", "swap", "swap"]))
                  for _ in range(n)]
    return p


def extreme(p, rng):
    """Answers that are special: exact zeros, no or hardly any motion, motion of a few unknowns only."""
    tags = sims.tags(p["seed"])

    def strategy(ev):
        if ev.index < 2:
            return tags(ev)
        kind = p["moves"][(ev.index - 2) // 2][ev.index % 2]
        free, x = ~ev.fixed, ev.start.copy()
        if kind == "free":
            return tags(ev)
        if kind == "zero":
            x = np.zeros_like(x)
        if kind == "swap":  # the same values at other vertices
            pairs = [(a, b) for a in range(len(x)) for b in range(a) if free[a] and free[b] and x[a] != x[b]
                     and ev.lb[a] <= x[b] <= ev.ub[a] and ev.lb[b] <= x[a] <= ev.ub[b]]
            if pairs:
                a, b = rng.choice(pairs) if ev.index % 2 else min(pairs, key=lambda q: abs(x[q[0]] - x[q[1]]))
                x[a], x[b] = x[b], x[a]
        if kind == "equal":
            x = np.full_like(x, float(np.median(x[free])) if free.any() else 0.0)
        if kind == "bound":  # at the edge of the search region, for some unknowns or all
            pick = np.array([rng.choice("lu" if ev.index % 4 < 2 else "lux") for _ in x])
            x = np.where(pick == "l", ev.lb, np.where(pick == "u", ev.ub, x))
        if kind == "creep":
            x = x + rng.choice([5e-10, -3e-8, 1e-6]) * (1 + np.arange(len(x)) / len(x)) * min(1.0, p["scale"])
        if kind == "some" and free.any():
            k = rng.choice(list(np.flatnonzero(free)))
            x[k] = x[k] + 0.4 * (ev.ub[k] - ev.start[k])
        return np.where(free, np.clip(x, ev.lb, ev.ub), ev.start)

    return strategy


@CHECK.family("extremes", _gen_extremes, quick=24, thorough=300, needs=("mechanical_problems", "thermal_problems", "objectives_compared", "slots_reused", "all_zero"))
def body_extremes(c, p):
    """Zero temperatures, rest and creeping motion are solutions like any other."""
    fr = sims.Frame(p)
    ext, load = _loads(p, fr)
    if load and c.rng.random() < 0.5:
        load = st.patchy(load, fr.h)
    sim, rec = sims.simulate(p, extreme(p, c.rng), ext, load)
    sims.run(sim, len(p["moves"]))
    hist = [fr.read(s) for s in sim.steps]
    c.count("all_zero", sum(not t.any() for _, t in hist[1:]))
    _log(c, p, fr, sim, rec, hist, ext, load)


def _gen_long(rng, i):
    p = sims.p1_case(rng, i, cells=1)
    p["loads"] = False
    p["steps"] = [130, 101, 257, 64][i % 4]
    return p


@CHECK.family("long runs", _gen_long, quick=1, thorough=4, timeout=400, needs=("steps",))
def body_long(c, p):
    """One long run makes all requested steps and equals several shorter ones."""
    fr = sims.Frame(p)
    hist = []
    for runs in ([p["steps"]], [p["steps"] // 2, 1, p["steps"] - p["steps"] // 2 - 1]):
        sim, rec = sims.simulate(p, sims.tags(p["seed"]), objective=False)
        for n in runs:
            sims.run(sim, n)
        c.eq(len(sim.steps), p["steps"] + 2, f"number of steps after the runs {runs}")
        c.eq(rec.calls, 2 * (p["steps"] + 1), f"problems solved after the runs {runs}")
        hist.append([fr.read(s) for s in sim.steps])
        c.count("steps", len(sim.steps))
    for k, (a, b) in enumerate(zip(*hist)):
        _same(c, fr, a, b, f"step {k} of one long run and of several runs")


@CHECK.family("very long runs", lambda rng, i: _gen_long(rng, i) | dict(steps=[1020, 2100][i % 2], reg=None), quick=1, thorough=2, weight=40, timeout=600, needs=("steps",))
def body_very_long(c, p):
    """A single run of more steps than anything in Python may be nested."""
    times = []
    sim, rec = sims.simulate(p, sims.tags(p["seed"]), lambda t: times.append(t) or 0.0, objective=False)
    first = sims.Frame(p).read(sim.steps[1])
    sims.run(sim, p["steps"])
    c.eq(len(sim.steps), p["steps"] + 2, f"number of steps after a run of {p['steps']}")
    c.eq(rec.calls, 2 * (p["steps"] + 1), f"problems solved after a run of {p['steps']}")
    fr = sims.Frame(p)
    _same(c, fr, fr.read(sim.steps[1]), first, f"step 1 after a run of {p['steps']}")
    last = [fr.read(s) for s in sim.steps[-20:]]
    for k, (a, b) in enumerate(zip(last, last[1:])):
        c.check(not np.array_equal(a[1], b[1]), f"step {k - 19} from the end has the temperature of the step before")
    c.count("steps", len(sim.steps))
    # the time of every step has reached the external temperature
    asked, want = np.array(sorted(map(float, times))), np.arange(p["steps"] + 1) / p["fps"]
    near = np.abs(asked[np.clip(np.searchsorted(asked, want), 0, len(asked) - 1)] - want)
    near = np.minimum(near, np.abs(asked[np.clip(np.searchsorted(asked, want) - 1, 0, len(asked) - 1)] - want))
    c.check(bool((near <= 1e-9 / p["fps"] + 1e-12 * want).all()), f"the external temperature was not asked for at time {want[near.argmax()]} (step {near.argmax()})")


CHECK.family("large", lambda rng, i: gen.enlarge(_gen_p1(rng, i), i) | dict(runs=[1, 1]), quick=1, thorough=8, weight=8, timeout=400)(body)
CHECK.family("huge", lambda rng, i: gen.enlarge(_gen_p1(rng, i), i, gen.HUGE) | dict(runs=[1]), quick=1, thorough=4, weight=10, timeout=600)(body)
