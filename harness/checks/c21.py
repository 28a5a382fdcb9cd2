"""C21: the search space handed to the solver is the documented one."""

import numpy as np
from harness import energy as en, gen, mesh, solver as sv, steps as st
from harness.core import Check

CHECK = Check(
    "C21",
    "A case is a grid, a search radius and a sequence of states; at every solve the recorded unknowns,"
    " bounds, starting values, fixed flags and constraints are compared with the documented search space"
    " (regularized: by rank comparison of the feasible affine space with the one of all deformations that"
    " are the identity on the Dirichlet boundary). Non-trivial: at least one free unknown.",
)
RADII = [1e-5, 0.01, 0.3, 1.0, 5.0, 1e4, float("inf")]


def _gen_p1(rng, i):
    p = st.p1_case(rng, i)
    if i % 5 == 0:
        p["fix"] = rng.choice([None, ["lower", "left"], ["lower", "upper"], ["left", "right", "upper", "lower"]])
    p["radius"] = rng.choice(RADII) * rng.choice([1.0, p["scale"]])
    p["solves"] = rng.randint(1, 4)
    return p


def _gen_reg(rng, i):
    p = st.shear(st.reg_case(rng, i, [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 1, 2)]), i)
    p["radius"] = rng.choice(RADII) * rng.choice([1.0, p["scale"]])
    p["reg"] = rng.choice([0.0, 0.1])
    p["solves"] = rng.randint(1, 3)
    return p


def _bounds(c, ev, slots, prev, radius, low, what, start=True):
    """Bounds and starts of all free unknowns against the previous values."""
    flat = np.asarray(prev, dtype=float).ravel()
    k = np.flatnonzero(slots >= 0)
    p = flat[slots[k]]
    lo = p - radius if low is None else np.maximum(p - radius, low)
    if np.isinf(radius):  # no restriction
        c.check(bool((ev.ub[k] == np.inf).all()), f"{what}: upper bounds for an infinite search radius")
        c.check(bool((ev.lb[k] == (-np.inf if low is None else low)).all()), f"{what}: lower bounds for an infinite search radius")
        lo, radius = ev.lb[k], 0.0
        lo = np.where(np.isfinite(lo), lo, 0.0)
        ev_lb, ev_ub = lo, p
        c.count("unbounded", len(k))
    else:
        ev_lb, ev_ub = ev.lb[k], ev.ub[k]
    tol = 1e-12 * (1 + np.abs(p)) + 1e-9 * radius
    c.close((ev_lb - lo) / tol, np.zeros(len(k)), f"{what}: lower bounds (scaled difference)", atol=1)
    c.close((ev_ub - (p + radius)) / tol, np.zeros(len(k)), f"{what}: upper bounds (scaled difference)", atol=1)
    if start:
        c.close(ev.start[k], p, f"{what}: starting values", atol=0, rtol=1e-14)
        c.count("starts", len(k))
    c.count("bounds", 2 * len(k))


def _no_constraints(c, ev, what):
    c.eq(ev.nonlinear, 0, f"{what}: nonlinear constraints")
    for row, lo, hi in ev.rows:
        r = np.where(ev.fixed, 0.0, row)
        c.check(not np.any(r), f"{what}: a constraint couples unknowns")


@CHECK.family("mechanical", _gen_p1, quick=60, thorough=800, needs=("bounds", "starts", "resting"))
def body_mech(c, p):
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    rng = c.rng
    g, h = st.p1_grid(p)
    P = np.array(mesh.pts(g))
    rec = sv.Recorder(sv.tags(rng))
    step = mechanical_step(
        rec, g, MechanicalStepParams(0.5, p["radius"], 2.0, None), None, lambda t, x, y: [x, y]
    )
    rest = sorted({v for e in g.dirichlet_boundary.edges for v in e})
    prev = P.copy()
    q = en.P1(g)
    for k in range(p["solves"]):
        if k:
            prev = step.y() if rng.random() < 0.5 else np.where(
                np.isin(np.arange(len(P)), rest)[:, None], P, st.p1_state(rng, g, h, quad=q))
            step.update_prev_y(prev.copy())
            if rng.random() < 0.5:
                step.update_prev_theta(st.temps(rng, len(P)))
            if rng.random() < 0.5:
                step.update_boundary_traction(rng.uniform(0, 3))
        step.solve()
        ev = rec.events[-1]
        slots = st.decode(c, ev, step.y(), "mechanical step", prev)
        free = st.free_mask(slots, P.shape)
        want = np.ones(P.shape, dtype=bool)
        want[rest] = False
        c.check(
            bool((free == want).all()),
            lambda: f"mechanical step: unknowns and non-Dirichlet positions differ at (vertex, component)"
            f" {np.argwhere(free != want)[:5].tolist()}, Dirichlet vertices {rest}",
        )
        c.check(bool((step.y()[rest] == prev[rest]).all()), "a Dirichlet vertex moved")
        c.count("resting", len(rest))
        _bounds(c, ev, slots, prev, p["radius"], None, "mechanical step")
        _no_constraints(c, ev, "mechanical step")
    c.trivial = not want.any()


@CHECK.family("thermal", _gen_p1, quick=40, thorough=500, needs=("bounds", "starts", "cut_at_zero"))
def body_thermal(c, p):
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    rng = c.rng
    g, h = st.p1_grid(p)
    n = len(g.points)
    q = en.P1(g)
    rec = sv.Recorder(sv.tags(rng), objective=False)
    y = st.p1_state(rng, g, h, quad=q)
    prev = st.temps(rng, n)
    step = thermal_step(rec, g, y, y + 0, prev + 0, ThermalStepParams(p["radius"], 2.0, None), lambda t: 1.0)
    _thermal_solves(c, p, step, rec, prev, n, lambda: st.p1_state(rng, g, h, quad=q))


def _thermal_solves(c, p, step, rec, prev, n, make):
    rng = c.rng
    for k in range(p["solves"]):
        if k:
            prev = step.theta() if rng.random() < 0.5 else st.temps(rng, n)
            step.update_prev_theta(prev.copy())
            if rng.random() < 0.5:
                step.update_prev_y(make())
            if rng.random() < 0.5:
                step.update_y(make())
        step.solve()
        ev = rec.events[-1]
        slots = st.decode(c, ev, step.theta(), "thermal step")
        c.check(bool(st.free_mask(slots, (n,)).all()), "thermal step: a temperature is no unknown")
        c.count("cut_at_zero", int((prev < p["radius"]).sum()))
        _bounds(c, ev, slots, prev, p["radius"], 0.0, "thermal step")
        _no_constraints(c, ev, "thermal step")


def _gen_creep(rng, i):
    p = st.reg_case(rng, i, [(1, 1, 1), (1, 1, 2)]) if i % 4 == 3 else st.p1_case(rng, i, cells=2)
    p["reg"] = 0.1 if i % 4 == 3 else None
    p["kind"] = ["mechanical", "thermal"][i // 2 % 2]
    p["radius"] = rng.choice([0.05, 0.3]) * (p["scale"] if p["kind"] == "mechanical" else 1.0)
    p["updates"] = rng.choice([30, 120]) if p["reg"] is None else 20
    p["pace"] = 10 ** rng.uniform(-6, -1)
    return p


@CHECK.family("creeping", _gen_creep, quick=16, thorough=160, needs=("bounds", "starts", "updates"))
def body_creep(c, p):
    """The search space follows many small changes of the previous values."""
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    rng = c.rng
    p["fix"] = None
    if p["reg"] is None:
        (g, h), rg = st.p1_grid(p), None
        fine, y = g, np.array(mesh.pts(g))
    else:
        g, rg, h = st.reg_grids(p)
        fine, y = rg, st.bell_identity(g)
    rec = sv.Recorder(sv.tags(rng), objective=False)
    if p["kind"] == "mechanical":
        step = mechanical_step(rec, g, MechanicalStepParams(0.5, p["radius"], 2.0, p["reg"]), rg, lambda t, x, y: [0.0, 0.0])
        prev, update, get, low = y, step.update_prev_y, step.y, None
    else:
        prev = np.array([rng.uniform(0.2, 1) for _ in fine.points])
        step = thermal_step(rec, g, y, y + 0, prev + 0, ThermalStepParams(p["radius"], 2.0, p["reg"]), lambda t: 1.0, rg)
        update, get, low = step.update_prev_theta, step.theta, 0.0
    drift = p["pace"] * p["radius"] * rng.choice([-1, 1]) * (np.ones(prev.shape) + 0.3 * st.noise(rng, prev.shape))
    prev = prev + 0.4 * p["radius"] * np.abs(st.noise(rng, prev.shape))
    update(prev + 0)
    for k in range(p["updates"]):
        prev = prev + drift
        if low is not None:
            prev = np.maximum(prev, 0)
        update(prev + 0)
        c.count("updates")
        if rng.random() < 2 / p["updates"] or k == p["updates"] - 1:
            step.solve()
            ev = rec.events[-1]
            _bounds(c, ev, st.decode(c, ev, get(), "step"), prev, p["radius"], low, f"after {k + 2} updates")


@CHECK.family("regularized thermal", _gen_reg, quick=8, thorough=80, weight=3, needs=("bounds", "starts"))
def body_reg_thermal(c, p):
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    rng = c.rng
    g, rg, h = st.reg_grids(p)
    rec = sv.Recorder(sv.tags(rng), objective=False)
    bell = en.Bell(g, rg)
    make = lambda: st.bell_state(rng, g, h, bell)
    prev = st.temps(rng, len(rg.points))
    step = thermal_step(rec, g, make(), make(), prev + 0, ThermalStepParams(p["radius"], 2.0, p["reg"]), lambda t: 0.0, rg)
    _thermal_solves(c, p, step, rec, prev, len(rg.points), make)


def dirichlet_system(g):
    """Rows (A, b) over the flattened (N, 2, 6) array: identity along all Dirichlet edges."""
    P = mesh.pts(g)
    n, A, b = len(P), [], []
    for i, j in (tuple(e) for e in g.dirichlet_boundary.edges):
        d = (P[j][0] - P[i][0], P[j][1] - P[i][1])
        L = np.hypot(*d)
        u = (d[0] / L, d[1] / L)
        for v in (i, j):
            for comp in (0, 1):
                for co, val in (
                    ([1, 0, 0, 0, 0, 0], P[v][comp]),
                    ([0, u[0], u[1], 0, 0, 0], u[comp]),
                    ([0, 0, 0, u[0] ** 2, 2 * u[0] * u[1], u[1] ** 2], 0.0),
                ):
                    row = np.zeros((n, 2, 6))
                    row[v, comp] = co
                    A.append(row.ravel())
                    b.append(val)
    return np.array(A).reshape(-1, n * 12), np.array(b)


def project(A, b, Y, scale):
    """Closest point of the affine space in scaled coordinates."""
    if not len(A):
        return Y
    s = np.tile(scale, Y.size // 6)
    As = A * s
    z = Y.ravel() / s
    z = z - np.linalg.pinv(As) @ (As @ z - b)
    return (z * s).reshape(Y.shape)


def _normal(A, b, s):
    A = A * s
    f = np.linalg.norm(A, axis=1)
    return A / f[:, None], b / f


@CHECK.family("regularized mechanical", _gen_reg, quick=20, thorough=240, weight=2,
              needs=("bounds", "starts", "feasible_spaces"))
def body_reg(c, p):
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    rng = c.rng
    g, rg, h = st.reg_grids(p)
    rec = sv.Recorder(sv.tags(rng), objective=False)
    step = mechanical_step(
        rec, g, MechanicalStepParams(0.5, p["radius"], 2.0, p["reg"]), rg, lambda t, x, y: [0.0, 0.0]
    )
    bell = en.Bell(g, rg)
    scale = st.dof_scale(h)
    A, b = dirichlet_system(g)
    prev = st.bell_identity(g)
    n = prev.size
    s = np.tile(scale, n // 6)
    for k in range(p["solves"]):
        if k:
            prev = project(A, b, st.bell_state(rng, g, h, bell, strength=0.3), scale)
            step.update_prev_y(prev.copy())
            if rng.random() < 0.5:
                step.update_prev_theta(st.temps(rng, len(rg.points)))
        step.solve()
        ev = rec.events[-1]
        slots = st.decode(c, ev, step.y(), "mechanical step", prev, tol=1e-9 * max(1, 1 / h))
        _bounds(c, ev, slots, prev, p["radius"], None, "regularized mechanical step")
        # feasible space of the model in slot coordinates
        c.eq(ev.nonlinear, 0, "nonlinear constraints")
        free = st.free_mask(slots, (n,))
        flat = prev.ravel()
        rows, rhs = [], []
        for j in np.flatnonzero(~free):
            e = np.zeros(n)
            e[j] = 1
            rows.append(e)
            rhs.append(step.y().ravel()[j])
        for row, lo, hi in ev.rows:
            live = np.flatnonzero(np.where(ev.fixed, 0.0, row))
            val = float(row[ev.fixed] @ ev.start[ev.fixed])
            if not len(live):
                continue
            c.eq(lo, hi, "an inequality couples unknowns; lower and upper side")
            c.check(bool((slots[live] >= 0).all()), "a constraint contains an unknown that is not returned")
            e = np.zeros(n)
            e[slots[live]] = row[live]
            rows.append(e)
            rhs.append(lo - val)
        c.count("equalities", len(rows))
        if not len(A):
            c.eq(len(rows), 0, "number of equality conditions without Dirichlet boundary")
            c.count("feasible_spaces")
            continue
        c.check(len(rows) > 0, "no condition on the Dirichlet boundary")
        M, r = _normal(np.array(rows), np.array(rhs), s)
        R, q = _normal(A, b, s)
        rank = lambda Z: int(np.linalg.matrix_rank(Z, tol=1e-8))
        kr, kc, kb = rank(R), rank(M), rank(np.vstack([R, M]))
        c.check(
            kb == kr,
            f"deformations that are the identity on the Dirichlet boundary are excluded (ranks: model {kc},"
            f" identity {kr}, both {kb})",
        )
        c.check(
            kb == kc,
            f"feasible deformations need not be the identity on the Dirichlet boundary (ranks: model {kc},"
            f" identity {kr}, both {kb})",
        )
        z = np.linalg.pinv(R) @ q  # an identity-on-Dirichlet point satisfies the model's conditions
        size = max(1.0, float(np.abs(flat / s).max()))
        c.close(M @ z, r, "right-hand sides of the conditions on the Dirichlet boundary", atol=1e-8 * size, rtol=0)
        c.check(bool(np.abs(R @ (flat / s) - q).max() < 1e-8 * size), "harness: previous state infeasible")
        c.count("feasible_spaces")
    c.trivial = not free.any()


_gen_large = lambda rng, i: gen.enlarge(_gen_p1(rng, i), i) | dict(solves=2)
CHECK.family("large mechanical", _gen_large, quick=2, thorough=12, weight=6, timeout=300, needs=("bounds",))(body_mech)
CHECK.family("large thermal", _gen_large, quick=1, thorough=12, weight=6, timeout=300, needs=("bounds",))(body_thermal)
_gen_huge = lambda rng, i: gen.enlarge(_gen_p1(rng, i), i, gen.HUGE) | dict(solves=2)
CHECK.family("huge mechanical", _gen_huge, quick=1, thorough=4, weight=8, timeout=400, needs=("bounds",))(body_mech)
CHECK.family("huge thermal", _gen_huge, quick=1, thorough=4, weight=8, timeout=400, needs=("bounds",))(body_thermal)
