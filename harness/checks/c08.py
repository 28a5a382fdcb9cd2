"""C08: misshaped data and out-of-range indices are rejected."""

from fractions import Fraction
import numpy as np
from harness import gen, geom, mesh
from harness.core import Check

CHECK = Check(
    "C08",
    "A case draws shapes or lengths that do not fit; every public operation is called with them and the"
    " exception observed, together with accepted calls of the same operation on matching data, and the"
    " state of the involved objects is compared before and after. Non-trivial: every case.",
)


def _shape(rng, k, hi=5):
    return tuple(rng.randint(1, hi) for _ in range(k))


def _other(rng, sh, same_total=False):
    for _ in range(200):
        o = list(sh)
        i = rng.randrange(len(o))
        o[i] = max(1, o[i] + rng.choice([-2, -1, 1, 2]))
        if rng.random() < 0.3:
            rng.shuffle(o)
        if tuple(o) != tuple(sh):
            return tuple(o)
    return tuple(x + 1 for x in sh)


def _mk(rng, sh):
    from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D

    def rec(s):
        return [rng.randint(-9, 9) for _ in range(s[0])] if len(s) == 1 else [rec(s[1:]) for _ in range(s[0])]

    return [None, Vector, Matrix, Tensor3D][len(sh)](rec(sh))


@CHECK.family("tensors", lambda rng, i: dict(fixed=1), 200, 4000, needs=["rejected", "accepted", "bad_index", "good_index"])
def tensors(c, p):
    from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D, BarycentricCoordinates, inverse_2x2

    rng = c.rng

    def bad(fn, what):
        c.raises(ValueError, fn, what)
        c.count("rejected")

    def good(fn, what):
        fn()
        c.count("assertions")
        c.count("accepted")

    for k in (1, 2, 3):
        for _ in range(3):
            sh = _shape(rng, k)
            o = _other(rng, sh)
            if rng.random() < 0.3 and k == 2:
                o = sh[::-1] if sh[0] != sh[1] else o
            a, b, same = _mk(rng, sh), _mk(rng, o), _mk(rng, sh)
            ops = [("+", lambda x, y: x + y), ("-", lambda x, y: x - y)]
            if k == 1:
                ops += [("dot", lambda x, y: x.dot(y)), ("stack", lambda x, y: x.stack(y))]
            if k == 2:
                ops += [("scalar_product", lambda x, y: x.scalar_product(y)), ("stack", lambda x, y: x.stack(y))]
            for name, op in ops:
                bad(lambda: op(a, b), f"{name} for shapes {sh} and {o}")
                bad(lambda: op(b, a), f"{name} for shapes {o} and {sh}")
                good(lambda: op(a, same), name)
    for _ in range(4):
        n, m, k = _shape(rng, 3)
        k2 = rng.choice([x for x in range(1, 7) if x != m])
        bad(lambda: _mk(rng, (n, m)) @ _mk(rng, (k2, k)), f"({n},{m}) @ ({k2},{k})")
        good(lambda: _mk(rng, (n, m)) @ _mk(rng, (m, k)), "@")
        bad(lambda: _mk(rng, (n, m)).dot(_mk(rng, (k2,))), f"({n},{m}) dot vector of size {k2}")
        good(lambda: _mk(rng, (n, m)).dot(_mk(rng, (m,))), "matrix dot vector")
        if n != m:
            bad(lambda: _mk(rng, (n, m)).det(), f"determinant of a {n}x{m} matrix")
        sh = _other(rng, (2, 2))
        bad(lambda: inverse_2x2(_mk(rng, sh)), f"inverse of a {sh} matrix")
        s = rng.choice([x for x in range(1, 40) if x != n * m])
        bad(lambda: _mk(rng, (s,)).reshape(n, m), f"reshape of size {s} to ({n}, {m})")
        good(lambda: _mk(rng, (n * m,)).reshape(n, m), "reshape")
        # matching sizes, impossible shapes
        if n * m > 1:
            bad(lambda: _mk(rng, (n * m,)).reshape(-n, -m), f"reshape of size {n * m} to ({-n}, {-m})")
        bad(lambda: _mk(rng, (n,)).reshape(0, m), f"reshape of size {n} to (0, {m})")
        bad(lambda: _mk(rng, (n,)).reshape(m, 0), f"reshape of size {n} to ({m}, 0)")
        # ragged data, also with differences that cancel
        if n > 1 and m > 1:
            rows = [[0] * m for _ in range(n)]
            i, j = rng.sample(range(n), 2)
            rows[i], rows[j] = [0] * (m - 1), [0] * (m + 1)
            bad(lambda: Matrix(rows), f"Matrix of rows of lengths {[len(r) for r in rows]}")
            t = [[[0] * k for _ in range(m)] for _ in range(n)]
            t[i], t[j] = t[i][:-1], t[j] + [[0] * k]
            bad(lambda: Tensor3D(t), f"Tensor3D of ragged data {[[len(r) for r in x] for x in t]}")
            t = [[[0] * (k + 1) for _ in range(m)] for _ in range(n)]
            t[i][rng.randrange(m)], t[j][rng.randrange(m)] = [0] * k, [0] * (k + 2)
            bad(lambda: Tensor3D(t), f"Tensor3D of ragged data {[[len(r) for r in x] for x in t]}")
        rows = [[0] * m for _ in range(n + 1)]
        i = rng.randrange(n + 1)
        rows[i] = [0] * rng.choice([x for x in (m - 1, m + 1, m + 2) if x != m and x >= 0])
        bad(lambda: Matrix(rows), f"Matrix of rows of lengths {[len(r) for r in rows]}")
        q = rng.randint(1, 3)
        t = [[[0] * k for _ in range(m)] for _ in range(q + 1)]
        i, j = rng.randrange(q + 1), rng.randrange(m)
        if rng.random() < 0.5 and (m > 1 or q > 0):
            t[i] = t[i] + [[0] * k] if rng.random() < 0.5 or m == 1 else t[i][:-1]
        else:
            t[i][j] = [0] * (k + 1) if rng.random() < 0.5 or k == 1 else [0] * (k - 1)
            if q == 0 and m == 1:
                continue
        bad(lambda: Tensor3D(t), f"Tensor3D of ragged data {[[len(r) for r in x] for x in t]}")
    # indices
    for k in (1, 2, 3):
        for _ in range(3):
            sh = _shape(rng, k)
            a = _mk(rng, sh)
            idx = [rng.randrange(s) for s in sh]
            good_idx = tuple(idx) if k > 1 else idx[0]
            good(lambda: a[good_idx], "index")
            c.count("good_index")
            for axis in range(k):
                for x in (-1, -sh[axis], -sh[axis] - 1, sh[axis], sh[axis] + 1, sh[axis] + 100, -100):
                    w = list(idx)
                    w[axis] = x
                    w = tuple(w) if k > 1 else w[0]
                    c.raises(IndexError, lambda: a[w], f"index {w} for shape {sh}")
                    c.count("bad_index")
            # several components out of range at once
            for x in [tuple([-1] * k), tuple(sh), tuple(-s for s in sh)] + [
                tuple(rng.choice([-s - 1, -s, -1, 0, s - 1, s, s + 1]) for s in sh) for _ in range(6)]:
                if any(w < 0 or w >= s for w, s in zip(x, sh)):
                    w = x if k > 1 else x[0]
                    c.raises(IndexError, lambda: a[w], f"index {w} for shape {sh}")
                    c.count("bad_index")
    q = BarycentricCoordinates(0.25, 0.5)
    for x in (-1, -3, -4, 3, 4, 100):
        c.raises(IndexError, lambda: q[x], f"index {x} of barycentric coordinates")


@CHECK.family("elements", lambda rng, i: geom.grid_case(rng, i, kinds=("plain", "refined")), 60, 800, needs=["rejected", "accepted"])
def elements(c, p):
    from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates
    from tvemoves_rufbad.interpolation import P1Interpolation, P1BoundaryInterpolation, C1Interpolation
    from tvemoves_rufbad import bell_finite_element as bell
    from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule

    grid, _ = geom.build(p)
    n, rng = len(grid.vertices), c.rng

    def bad(fn, what):
        c.raises(ValueError, fn, what)
        c.count("rejected")

    for m in {0, 1, n - 1, n + 1, 2 * n, n + rng.randint(1, 50)} - {n}:
        bad(lambda: P1Interpolation(grid, [0.0] * m), f"P1 interpolation of {n} vertices with {m} values")
        bad(lambda: C1Interpolation(grid, [[0.0] * 6] * m), f"C1 interpolation of {n} vertices with {m} values")
    P1Interpolation(grid, [0.0] * n)
    C1Interpolation(grid, [[0.0] * 6] * n)
    c.count("accepted", 2)
    for k in (0, 1, 3, 5, 7, 12):
        ps = [[0.0] * 6 for _ in range(n)]
        ps[rng.choice([0, n - 1, rng.randrange(n)])] = [0.0] * k
        bad(lambda: C1Interpolation(grid, ps), f"C1 interpolation with {k} parameters at a vertex")
    # wrong lengths that cancel on the whole
    if n > 1:
        for d in (1, 2, 6):
            ps = [[0.0] * 6 for _ in range(n)]
            i, j = rng.sample(range(n), 2)
            ps[i], ps[j] = [0.0] * (6 + d), [0.0] * (6 - d)
            bad(lambda: C1Interpolation(grid, ps), f"C1 interpolation with {6 + d} parameters at vertex {i} and {6 - d} at {j}")
    bad(lambda: C1Interpolation(grid, [[0.0] * 3] * (2 * n)), "C1 interpolation with twice as many parameters of half the length")
    for b in (grid.boundary, grid.dirichlet_boundary, grid.neumann_boundary):
        k = len(b.vertices)
        for m in {k - 1, k + 1, 2 * k + 1} - {k, -1}:
            vs = list(b.vertices)[:m] + [10**6 + x for x in range(m - k)]
            bad(lambda: P1BoundaryInterpolation(b, {v: 0.0 for v in vs}), f"boundary interpolation of {k} vertices with {m} values")
        P1BoundaryInterpolation(b, {v: 0.0 for v in b.vertices})
        c.count("accepted")
    tri = geom.vectors(geom.triangle(rng))
    l = BarycentricCoordinates(0.2, 0.3)
    for m in (0, 1, 6, 12, 17, 19, 36):
        v = Vector([0.5] * m)
        for f in (bell.bell_interpolation, bell.bell_interpolation_gradient, bell.bell_interpolation_hessian):
            bad(lambda: f(tri, l, v), f"{f.__name__} with {m} parameters")
        if m != 12:
            bad(lambda: bell.bell_interpolation_on_edge(tri[:2], 0.3, v), f"edge interpolation with {m} parameters")
    # quadrature rules
    for _ in range(20):
        k = rng.randint(1, 6)
        pts = [tuple(gen.bary(rng, "in")[:2]) for _ in range(k)]
        w = [rng.uniform(0.1, 1) for _ in range(k)]
        w = [x / sum(w) for x in w]
        TriangleQuadratureRule(list(w), list(pts))
        c.count("accepted")
        d = 10 ** rng.uniform(-6, 0.5)
        out = rng.choice([(-d, rng.random()), (rng.random(), -d), (0.4 + d, 0.6), (0.5, 0.5 + d), (-d, -d), (1 + d, 0.0), (0.0, 1 + d), (1 + d, -d), (-d, 1 + d), (2.0, -1.5)])
        bp = list(pts)
        bp[rng.randrange(k)] = out
        bad(lambda: TriangleQuadratureRule(list(w), bp), f"quadrature rule with point {out}")
        bw = list(w)
        bw[rng.randrange(k)] += rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 0)
        bad(lambda: TriangleQuadratureRule(bw, list(pts)), f"quadrature rule with weights of sum {sum(bw)}")
        bad(lambda: TriangleQuadratureRule([-x for x in w], list(pts)), "quadrature rule with weights of sum -1")
        bw = list(w)
        bw[rng.randrange(k)] = rng.choice([float("nan"), float("inf"), float("-inf"), 1e300])
        bad(lambda: TriangleQuadratureRule(bw, list(pts)), f"quadrature rule with weights of sum {sum(bw)}")
        bp = list(pts)
        bp[rng.randrange(k)] = rng.choice([(float("inf"), 0.1), (0.1, float("inf")), (float("-inf"), 0.3), (0.3, float("-inf")), (1e300, 0.0)])
        bad(lambda: TriangleQuadratureRule(list(w), bp), "quadrature rule with an infinite point")


class Silent:
    def solve(self, model, **kw):
        return None


def _bad_shapes(rng, sh):
    res = {(), (0,), (1,), tuple(x + 1 for x in sh), sh + (1,), (1,) + sh, (2 * sh[0],) + sh[1:], (sh[0] - 1,) + sh[1:], (sh[0] + 1,) + sh[1:]}
    if len(sh) > 1:
        res |= {sh[:-1], sh[::-1], sh[:-1] + (sh[-1] - 1,), sh[:-1] + (sh[-1] + 1,), (int(np.prod(sh)),), sh[:-1] + (1,), sh[1:] + sh[:1]}
    if len(sh) == 3:
        res |= {(sh[0], sh[2], sh[1]), (sh[0], 12), (sh[0], 1, 6), (sh[0], 3, 6), (sh[0], 2, 5), (sh[0], 2)}
    if len(sh) == 2:
        res |= {(sh[0], 2, 6), (sh[0], 2, 1)}
    return sorted(s for s in res if s != sh and all(x >= 0 for x in s))


def _gen_steps(rng, i):
    reg = i % 3 == 0
    p = gen.rect(rng, 2 if reg else 4, 1 if reg else 3, scales="unit")
    return p | dict(reg=reg, r=rng.choice([1, 2]) if reg else None, fix=gen.fix_repr(rng, gen.fix_sides(rng)))


@CHECK.family("steps", _gen_steps, 48, 500, needs=["rejected", "regularized", "plain"])
def steps(c, p):
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    from tvemoves_rufbad.simulation import Step, RegularizedStep

    d = gen.domain(p)
    grid = d.grid(p["scale"])
    fine = d.refine(grid, p["r"]) if p["reg"] else None
    reg = 0.1 if p["reg"] else None
    c.count("regularized" if p["reg"] else "plain")
    rng = np.random.default_rng(p["seed"] % 2**32)
    m = mechanical_step(Silent(), grid, MechanicalStepParams(0.25, 0.5, 3.0, reg), fine, lambda t, x, y: [0.0, 0.0])
    ysh, tsh = m.prev_y().shape, m.prev_theta().shape
    y = m.prev_y()
    th = rng.uniform(0, 1, tsh)
    m.update_prev_theta(th)
    mk = lambda yy, y2, tt: thermal_step(Silent(), grid, yy, y2, tt, ThermalStepParams(0.5, 3.0, reg), lambda t: 0.0, fine)
    t = mk(y, y + 0.125, th)

    def state():
        return [a.copy() for a in (m.prev_y(), m.y(), m.prev_theta(), t.prev_y(), t.y(), t.prev_theta(), t.theta())]

    before = state()

    def bad(fn, what):
        c.raises(ValueError, fn, what)
        c.count("rejected")
        c.check(
            all(np.array_equal(a, b) for a, b in zip(before, state())), f"{what} changed the step"
        )

    for sh in _bad_shapes(c.rng, ysh):
        z = rng.uniform(-1, 1, sh)
        bad(lambda: m.update_prev_y(z), f"mechanical update_prev_y with shape {sh} instead of {ysh}")
        bad(lambda: t.update_prev_y(z), f"thermal update_prev_y with shape {sh} instead of {ysh}")
        bad(lambda: t.update_y(z), f"thermal update_y with shape {sh} instead of {ysh}")
        bad(lambda: mk(z, y, th), f"thermal step with prev_y of shape {sh} instead of {ysh}")
        bad(lambda: mk(y, z, th), f"thermal step with y of shape {sh} instead of {ysh}")
        if p["reg"]:
            bad(lambda: RegularizedStep(z, th, d, grid, fine), f"step with y of shape {sh} instead of {ysh}")
        else:
            bad(lambda: Step(z, th, d, grid), f"step with y of shape {sh} instead of {ysh}")
    for sh in _bad_shapes(c.rng, tsh):
        z = rng.uniform(0, 1, sh)
        bad(lambda: m.update_prev_theta(z), f"mechanical update_prev_theta with shape {sh} instead of {tsh}")
        bad(lambda: t.update_prev_theta(z), f"thermal update_prev_theta with shape {sh} instead of {tsh}")
        bad(lambda: mk(y, y, z), f"thermal step with theta of shape {sh} instead of {tsh}")
        if p["reg"]:
            bad(lambda: RegularizedStep(y, z, d, grid, fine), f"step with theta of shape {sh} instead of {tsh}")
        else:
            bad(lambda: Step(y, z, d, grid), f"step with theta of shape {sh} instead of {tsh}")
    # fine and coarse vertex numbers must not be confused
    if p["reg"] and p["r"] > 1:
        n, nf = len(grid.vertices), len(fine.vertices)
        bad(lambda: m.update_prev_theta(np.zeros(n)), "temperature on the coarse grid")
        bad(lambda: m.update_prev_y(np.zeros((nf, 2, 6))), "deformation on the fine grid")
        bad(lambda: mk(np.zeros((nf, 2, 6)), y, th), "deformation on the fine grid")
