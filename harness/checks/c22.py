"""C22: step objects store and return exactly the data they are given."""

import numpy as np
from harness import gen, mesh, solver as sv, steps as st
from harness.core import Check

CHECK = Check(
    "C22",
    "A case is a random sequence of operations (updates with arrays of every memory layout, rejected"
    " arrays, solves, mutations of passed and returned arrays) on one or two step objects sharing a grid;"
    " after every operation all accessors are compared, bit by bit, with a reference state machine."
    " Non-trivial: at least one update and one solve.",
)


def _gen(rng, i):
    reg = i % 3 == 2
    if reg:
        p = st.reg_case(rng, i // 3, [(1, 1, 1), (2, 1, 1), (1, 1, 2), (1, 2, 1), (2, 2, 1)])
        p["reg"] = rng.choice([0.0, 0.5])
    else:
        p = st.p1_case(rng, i, cells=9)
        p["reg"] = None
    p["radius"] = rng.choice([0.01, 0.3, 10.0])
    p["ops"] = rng.randint(6, 14)
    p["twins"] = rng.random() < 0.6
    p["same"] = rng.random() < 0.5
    return p


def _grids(p):
    if p["reg"] is None:
        g, h = st.p1_grid(p)
        return g, None, h, (len(g.points), 2), (len(g.points),)
    g, rg, h = st.reg_grids(p)
    return g, rg, h, (len(g.points), 2, 6), (len(rg.points),)


def _values(rng, shape, nonneg):
    """Distinct numbers; some extreme."""
    n = int(np.prod(shape))
    v = [rng.uniform(-2, 2) for _ in range(n)]
    if rng.random() < 0.3:
        odd = rng.sample([0.0, 1e-300, 1e15, -3e15, 1 / 3, 123456789.123456789, 5e-324, -7.25], 3)
        for k, x in zip(rng.sample(range(n), min(n, 3)), odd):
            v[k] = x
    a = np.array(v).reshape(shape)
    return np.abs(a) if nonneg else a


def _bad_shapes(rng, shape):
    n = shape[0]
    cands = [
        (n + 1,) + shape[1:], (n - 1,) + shape[1:], (0,) + shape[1:], shape + (1,), shape[:-1], (1,) + shape,
        (int(np.prod(shape)),), (n + 1,), (), (2 * n,) + shape[1:],
    ]
    if len(shape) > 1:
        cands += [shape[::-1], shape[:-1] + (shape[-1] + 1,), shape[:-1] + (shape[-1] - 1,), shape[:-1] + (1,)]
    if len(shape) == 3:
        cands += [(shape[0], shape[2], shape[1]), (shape[0], shape[1]), (shape[0], 1, 6), (shape[0], 12)]
    return [s for s in dict.fromkeys(cands) if s != shape]


def _nearby(rng, cur, nonneg):
    """The present numbers again, or with slight changes in some or all entries."""
    a = cur.copy()
    kind = rng.choice(["same", "one", "one ulp", "all", "all"])
    if kind == "one":
        k = rng.randrange(a.size)
        a.flat[k] += rng.choice([1e-9, -1e-7, 1e-5, 0.01, -1.0]) * (1 + abs(a.flat[k]))
    elif kind == "one ulp":
        k = rng.randrange(a.size)
        a.flat[k] = np.nextafter(a.flat[k], rng.choice([np.inf, -np.inf]))
    elif kind == "all":
        e = 10 ** rng.uniform(-15, -1)
        a = a * (1 + e * np.array([rng.uniform(-1, 1) for _ in range(a.size)]).reshape(a.shape))
    return np.abs(a) if nonneg else a


def _load(t, x, y):
    return [t + x, t - y]


def _ext(t):
    return t


class Machine:
    """A real step together with its reference state."""

    def __init__(self, c, p, kind, name, like=None):
        """Same inputs (objects, not only values) as the machine `like`, if given."""
        self.c, self.p, self.kind, self.name = c, p, kind, f"{name} ({kind})"
        rng = c.rng
        g, rg, h, self.ys, self.ts = _grids(p) if "grids" not in p else p["grids"]
        self.rec = sv.Recorder(sv.tags(rng), objective=False)
        self.ref, self.passed, self.returned, self.passed_to = {}, [], [], []
        if kind == "mechanical":
            from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

            self.step = mechanical_step(
                self.rec, g, MechanicalStepParams(0.25, p["radius"], 2.0, p["reg"]), rg,
                _load if p["same"] else lambda t, x, y: [t + x, t - y],
            )
            y0 = st.bell_identity(g) if rg is not None else np.array(mesh.pts(g))
            self.ref = {"prev_y": y0, "y": y0.copy(), "prev_theta": np.full(self.ts, 0.25)}
            self.unknown, self.owner = "y", "prev_y"
            self.updates = ["prev_y", "prev_theta"]
        else:
            from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

            self.args = (
                self.rec, g, ThermalStepParams(p["radius"], 2.0, p["reg"]), rg,
            )
            # strains of arbitrary arrays are arbitrary; the model is built, never evaluated
            arrays = [_values(rng, self.ys, False), _values(rng, self.ys, False), _values(rng, self.ts, True)]
            if rng.random() < 0.4:  # (partly) at rest
                same = np.array([rng.random() < 0.7 for _ in range(arrays[0].size)]).reshape(self.ys)
                arrays[1] = np.where(same, arrays[0], arrays[1])
            passed = [st.layout(rng, a) for a in arrays]
            kept = [a.flags.writeable for a in passed]
            if like:
                arrays, passed = like.inputs
            self.inputs = [a.copy() for a in arrays], passed
            if rng.random() < 0.5:
                bad = rng.randrange(3)
                wrong = list(arrays)
                wrong[bad] = np.zeros(rng.choice(_bad_shapes(rng, arrays[bad].shape)))
                c.raises(
                    ValueError,
                    lambda: thermal_step(self.rec, g, *wrong, ThermalStepParams(p["radius"], 2.0, p["reg"]),
                                         lambda t: t, rg),
                    f"{self.name}: construction with argument {bad} of shape {wrong[bad].shape}",
                )
                c.count("rejected")
            self.step = thermal_step(
                self.rec, g, *passed, ThermalStepParams(p["radius"], 2.0, p["reg"]),
                _ext if p["same"] else lambda t: t, rg,
            )
            if not like:
                c.eq([a.flags.writeable for a in passed], kept, f"{self.name}: writability of the arguments after the construction")
            self.passed += passed
            self.passed_to += zip(("prev_y", "y", "prev_theta"), passed)
            self.ref = dict(zip(("prev_y", "y", "prev_theta"), (a.copy() for a in arrays)))
            self.ref["theta"] = arrays[2].copy()
            self.unknown, self.owner = "theta", "prev_theta"
            self.updates = ["prev_y", "y", "prev_theta"]
        self.solved = False

    def shape(self, q):
        return self.ts if "theta" in q else self.ys

    def compare(self, after):
        for q, want in self.ref.items():
            got = getattr(self.step, q)()
            self.c.check(isinstance(got, np.ndarray), f"{self.name}: {q}() is no array")
            self.c.eq(got.shape, want.shape, f"{self.name}: shape of {q}() after {after}")
            bad = np.argwhere(~(got == want))
            self.c.check(
                not len(bad),
                lambda: f"{self.name}: {q}() differs after {after} at {bad[0].tolist()}: {got[tuple(bad[0])]!r}"
                f" instead of {want[tuple(bad[0])]!r}",
                n=got.size,
            )
            self.c.count("accessors")
            self.keep(q, got)

    def keep(self, q, got):
        """Remember a returned array; a later call must not change it."""
        if self.c.rng.random() < 0.25 and len(self.returned) < 40:
            self.returned.append((q, got, got.copy()))

    def recheck(self):
        for q, got, copy in self.returned:
            self.c.check(
                np.array_equal(got, copy, equal_nan=True),
                f"{self.name}: an array returned by {q}() was changed by later operations",
            )
            self.c.count("returned_rechecked")

    def op(self):
        c, rng = self.c, self.c.rng
        k = rng.choice(["update", "update", "nearby", "nearby", "copy", "solve", "solve", "reject", "mutate passed", "mutate returned", "load", "again"])
        if k in ("update", "nearby", "copy"):
            q = rng.choice(self.updates)
            if k == "update":
                a = _values(rng, self.shape(q), "theta" in q)
            elif k == "copy":  # the values of another quantity, at all or some positions
                a = self.ref[rng.choice([o for o in self.ref if ("theta" in o) == ("theta" in q)])]
                some = np.array([rng.random() < 0.6 for _ in range(a.size)]).reshape(a.shape)
                a = np.where(some, a, self.ref[q]) if rng.random() < 0.5 else a.copy()
                c.count("copied_updates")
            else:
                a = _nearby(rng, self.ref[q], "theta" in q)
                c.count("nearby_updates")
            v = st.layout(rng, a)
            kept = (v.flags.writeable, v.shape, v.strides, v.dtype)
            getattr(self.step, f"update_{q}")(v)
            c.check(bool((v == a).all()), f"{self.name}: update_{q} changed its argument")
            c.eq((v.flags.writeable, v.shape, v.strides, v.dtype), kept, f"{self.name}: nature of the argument after update_{q}")
            self.passed.append(v)
            self.passed_to.append((q, v))
            self.ref[q] = a.copy()
            if q == self.owner:
                self.ref[self.unknown] = a.copy()
            c.count("updates")
            k = f"update_{q}"
        elif k == "solve":
            prev, guess = self.ref[self.owner], self.ref[self.unknown]
            self.step.solve()
            ev = self.rec.events[-1]
            got = getattr(self.step, self.unknown)()
            slots = st.decode(c, ev, got, self.name, None)
            free = st.free_mask(slots, got.shape)
            # where nothing was solved for, the previous guess (regularized: the boundary value) remains
            want = np.where(free, 0.0, guess)
            want.ravel()[slots[slots >= 0]] = ev.assigned[slots >= 0]
            pinned = ev.pinned.any()
            if pinned:
                want = np.where(free, want, got)
            if len(set(prev.ravel().tolist())) == prev.size and (guess == prev).all():
                # distinct previous values identify the unknowns by their starting values
                live = slots >= 0
                c.check(
                    bool((ev.start[live] == prev.ravel()[slots[live]]).all()),
                    f"{self.name}: the solution of an unknown is returned at the position of another one",
                )
                c.count("associations", int(live.sum()))
            self.ref[self.unknown] = want
            c.count("solves")
        elif k == "reject":
            q = rng.choice(self.updates)
            for shape in _bad_shapes(rng, self.shape(q)):
                c.raises(
                    ValueError, lambda: getattr(self.step, f"update_{q}")(np.full(shape, 0.125)),
                    f"{self.name}: update_{q} with shape {shape} instead of {self.shape(q)}",
                )
                c.count("rejected")
                if rng.random() < 0.3:
                    self.compare(f"update_{q} with an array of shape {shape}")
        elif k == "again":
            # an array that was passed before, with new contents
            q = rng.choice(self.updates)
            old = [v for r, v in self.passed_to if r == q and v.flags.writeable]
            if old:
                v, a = rng.choice(old[-3:]), _values(rng, self.shape(q), "theta" in q)
                v[...] = a
                getattr(self.step, f"update_{q}")(v)
                self.ref[q] = a.copy()
                if q == self.owner:
                    self.ref[self.unknown] = a.copy()
                c.count("passed_again")
                k = f"update_{q} with the array passed before"
        elif k == "mutate passed":
            for v in self.passed:
                if v.flags.writeable:
                    v[...] = 17.0
                    c.count("mutations")
        elif k == "mutate returned":
            q = rng.choice(list(self.ref))
            got = getattr(self.step, q)()
            if got.flags.writeable and not any(got is a for _, a, _ in self.returned):
                got[...] = -3.0
                c.count("mutations")
        elif self.kind == "mechanical":
            self.step.update_boundary_traction(rng.uniform(0, 3))
        else:
            if hasattr(self.step, "update_external_temperature") and self.p["reg"] is None:
                self.step.update_external_temperature(rng.uniform(0, 3))
        return k


@CHECK.family("operations", _gen, quick=60, thorough=900,
              needs=("accessors", "updates", "nearby_updates", "copied_updates", "solves", "rejected", "mutations", "associations", "returned_rechecked", "passed_again", "identical_twins"))
def body(c, p):
    p = dict(p)
    p["grids"] = _grids(p)
    kinds = ["mechanical", "thermal"]
    ms = [Machine(c, p, c.rng.choice(kinds), "first")]
    if p["twins"]:
        # another step alive at the same time, maybe with exactly the same inputs
        kind = c.rng.choice(kinds) if not p["same"] else ms[0].kind
        ms.append(Machine(c, p, kind, "second", ms[0] if p["same"] else None))
        c.count("identical_twins", int(p["same"]))
    for m in ms:
        m.compare("construction")
    for _ in range(p["ops"]):
        m = c.rng.choice(ms)
        k = m.op()
        for x in ms:
            x.compare(k + ("" if x is m else " on the other step"))
    for m in ms:
        m.recheck()
    c.trivial = not (c.counters.get("updates") and c.counters.get("solves"))


@CHECK.family("factories", _gen, quick=12, thorough=40)
def body_factories(c, p):
    """A regularized step needs a refined grid."""
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    g, rg, h, ys, ts = _grids(p)
    rec = sv.Recorder(sv.silent)
    c.raises(ValueError, lambda: mechanical_step(
        rec, g, MechanicalStepParams(0.1, 0.1, 1.0, 0.0), None, lambda t, x, y: [0.0, 0.0]), "mechanical")
    n = len(g.points)
    c.raises(ValueError, lambda: thermal_step(
        rec, g, np.zeros((n, 2, 6)), np.zeros((n, 2, 6)), np.zeros(n), ThermalStepParams(0.1, 1.0, 0.0),
        lambda t: 0.0, None), "thermal")
    c.eq(rec.calls, 0, "solver calls")


CHECK.family("large", lambda rng, i: gen.enlarge(_gen(rng, 0), i), quick=2, thorough=12, weight=6, timeout=300,
             needs=("accessors", "solves"))(body)
CHECK.family("huge", lambda rng, i: gen.enlarge(_gen(rng, 0), i, gen.HUGE), quick=1, thorough=4, weight=8, timeout=400,
             needs=("accessors", "solves"))(body)
