"""C12: Bell elements interpolate value, gradient and Hessian at the vertices."""

import math
import numpy as np
from harness import gen, geom
from harness.bellref import BellRef, quartic_params
from harness.core import Check

CHECK = Check(
    "C12",
    "A case is a non-degenerate triangle (any shape, orientation, size and position) and nodal"
    " parameters; values, gradients and Hessians at vertices, on edges and inside are compared with the"
    " quintic obtained from its defining conditions in 40 digit arithmetic. Non-trivial: every case.",
    ["height over diameter at least 0.08; tolerance 1e-9 of the largest term of the reference"],
)


def _gen(rng, i):
    size = 10 ** rng.choice([rng.uniform(-3, 2), rng.uniform(-9, 6)]) if i % 3 else 1.0
    if i % 6 == 5:
        size = 10 ** rng.uniform(-10, -7)
    return dict(tri=geom.triangle(rng, size=size, offset=rng.choice([0, size, 10 * size]),
                                  min_quality=rng.choice([0.08, 0.3]), orientation=[1, 1, -1][i % 3]))


def _params(rng, tri, kind):
    size = 10 ** rng.uniform(-14, 8) if rng.random() < 0.3 else 1.0
    return [size * x for x in _unit_params(rng, tri, kind)]


def _unit_params(rng, tri, kind):
    d = max(math.dist(tri[i], tri[j]) for i in range(3) for j in range(i))
    sc = [1, 1 / d, 1 / d, 1 / d**2, 1 / d**2, 1 / d**2]
    if kind == "unit":
        k = rng.randrange(18)
        return [sc[j % 6] if j == k else 0.0 for j in range(18)]
    if kind == "level":
        return [x for v in nodal(rng, 3) for x in [y * s for y, s in zip(v, sc)]]
    return [rng.uniform(-1, 1) * sc[j % 6] for j in range(18)]


def nodal(rng, n):
    """Structured nodal parameters: parts of them zero or equal in several vertices."""
    base = [rng.choice([0.0, 1.0, rng.uniform(-1, 1)]) for _ in range(6)]
    same = rng.choice([1, 3, 6])  # value / value and gradient / everything
    some = rng.random()
    keep = rng.sample(range(6), rng.randint(1, 6))
    res = []
    for _ in range(n):
        w = [rng.uniform(-1, 1) if j in keep else 0.0 for j in range(6)]
        if rng.random() < some:
            w[:same] = base[:same]
        res.append(w)
    return res


def _eval(tri, l, params):
    from tvemoves_rufbad import bell_finite_element as B
    from tvemoves_rufbad.tensors import Vector

    T, L, p = geom.vectors(tri), gen.bc(l), Vector(list(params))
    g = B.bell_interpolation_gradient(T, L, p)
    h = B.bell_interpolation_hessian(T, L, p)
    return (
        float(B.bell_interpolation(T, L, p)),
        [float(g[0]), float(g[1])],
        [[float(h[i, j]) for j in (0, 1)] for i in (0, 1)],
    ), (g, h)


def _cmp(c, got, want, mag, tol, what):
    for x, y, m, name in zip(got, want, mag, ("value", "gradient", "Hessian")):
        c.close(x, y, f"{name} {what}", atol=tol * m, rtol=0)
    c.check(got[2][0][1] == got[2][1][0] or abs(got[2][0][1] - got[2][1][0]) <= tol * mag[2], f"Hessian {what} is not symmetric")


def body(c, p):
    tri, rng = p["tri"], c.rng
    ref = BellRef(tri)
    off = max(abs(x) for q in tri for x in q) / ref.hf
    a2 = abs((tri[1][0] - tri[0][0]) * (tri[2][1] - tri[0][1]) - (tri[2][0] - tri[0][0]) * (tri[1][1] - tri[0][1])) / ref.hf**2
    tol = (1e-10 + 1e-14 * off**2) / a2**2
    for kind in ("random", "unit", "level", "random"):
        params = _params(rng, tri, kind)
        co, mag = ref.coeffs(params), ref.magnitude(params)
        for v in range(3):
            l = [float(j == v) for j in range(3)]
            got, raw = _eval(tri, l, params)
            w = params[6 * v : 6 * v + 6]
            _cmp(c, got, (w[0], w[1:3], [[w[3], w[4]], [w[4], w[5]]]), mag, tol, f"at vertex {v}")
            c.eq((raw[0].shape, raw[1].shape), ((2,), (2, 2)), "shapes of gradient and Hessian")
            c.count("vertex_values")
        for _ in range(6):
            l = gen.bary(rng)
            got, _ = _eval(tri, l, params)
            x, y = geom.euclid(tri, (0, 1, 2), l)
            _cmp(c, got, ref.eval(co, x, y), mag, tol, f"at {l} in {tri}")
            c.count("inner_values")
            r = rng.choice([1, 2])
            rp = params[6 * r :] + params[: 6 * r]
            rot, _ = _eval(tri[r:] + tri[:r], l[r:] + l[:r], rp)
            _cmp(c, rot, got, mag, tol, f"at {l} after rotating the vertices by {r}")
            c.count("rotations")
        # the normal derivative is cubic along every edge
        for i, j in ((0, 1), (1, 2), (2, 0)):
            n = (tri[i][1] - tri[j][1], tri[j][0] - tri[i][0])
            ln = math.hypot(*n)
            ts = [0.0, 0.25, 0.5, 0.75, 1.0]
            d = []
            for t in ts:
                l = [0.0] * 3
                l[i], l[j] = 1 - t, t
                g = _eval(tri, l, params)[0][1]
                d.append((g[0] * n[0] + g[1] * n[1]) / ln)
            fourth = d[0] - 4 * d[1] + 6 * d[2] - 4 * d[3] + d[4]
            c.close(fourth, 0.0, f"fourth difference of the normal derivative along side {i}-{j}", atol=64 * tol * mag[1], rtol=0)
            c.count("edges")
    # linearity
    A, B = _params(rng, tri, "random"), _params(rng, tri, "random")
    l, s = gen.bary(rng, "in"), rng.uniform(-2, 2)
    ga, gb = _eval(tri, l, A)[0], _eval(tri, l, B)[0]
    gs = _eval(tri, l, [x + s * y for x, y in zip(A, B)])[0]
    mag = ref.magnitude([abs(x) + 2 * abs(y) for x, y in zip(A, B)])
    for k, name in enumerate(("value", "gradient", "Hessian")):
        c.close(gs[k], np.array(ga[k]) + s * np.array(gb[k]), f"linearity of the {name}", atol=4 * tol * mag[k], rtol=0)
    # quartics
    h = ref.hf
    poly = {(a, b): rng.uniform(-1, 1) for a in range(5) for b in range(5 - a)}
    cx, cy = ref.cxf, ref.cyf
    params = []
    for q in tri:
        w = quartic_params(poly, (q[0] - cx) / h, (q[1] - cy) / h)
        params += [w[0], w[1] / h, w[2] / h, w[3] / h**2, w[4] / h**2, w[5] / h**2]
    mag = ref.magnitude(params)
    for _ in range(5):
        l = gen.bary(rng)
        x, y = geom.euclid(tri, (0, 1, 2), l)
        w = quartic_params(poly, (x - cx) / h, (y - cy) / h)
        want = (w[0], [w[1] / h, w[2] / h], [[w[3] / h**2, w[4] / h**2], [w[4] / h**2, w[5] / h**2]])
        _cmp(c, _eval(tri, l, params)[0], want, mag, tol, f"of a quartic at {l}")
        c.count("quartic_values")
    # the element depends on vertex differences only
    sx, sy = rng.uniform(-3, 3) * h, rng.uniform(-3, 3) * h
    moved = [[q[0] + sx, q[1] + sy] for q in tri]
    l = gen.bary(rng)
    _cmp(c, _eval(moved, l, params)[0], _eval(tri, l, params)[0], mag, 20 * tol, "after a translation")


CHECK.family("triangles", _gen, 96, 1600, needs=["vertex_values", "inner_values", "edges", "quartic_values", "rotations"])(body)




@CHECK.family("interpolation_class", lambda rng, i: geom.grid_case(rng, i, cap=16), 24, 300, needs=["vertex_values", "inner_values"])
def interpolation_class(c, p):
    """The same through C1Interpolation on a grid: every vertex of every triangle, one reference per triangle."""
    from tvemoves_rufbad.interpolation import C1Interpolation
    from harness import mesh

    grid, s = geom.build(p)
    P, rng = mesh.pts(grid), c.rng
    sc = [1, 1 / s, 1 / s, 1 / s**2, 1 / s**2, 1 / s**2]
    size = 10 ** rng.uniform(-14, 8) if rng.random() < 0.3 else 1.0
    u = [[rng.uniform(-1, 1) * k * size for k in sc] for _ in P]
    f = C1Interpolation(grid, [list(w) for w in u])
    tris = [tuple(t) for t in grid.triangles]
    off = max(max(abs(x), abs(y)) for x, y in P) / s
    for t in rng.sample(tris, min(len(tris), 12)):
        tri = [P[v] for v in t]
        params = [x for v in t for x in u[v]]
        ref = BellRef(tri)
        co, mag = ref.coeffs(params), ref.magnitude(params)
        a2 = abs(mesh.area2(P, t)) / ref.hf**2
        tol = (1e-10 + 1e-14 * off**2) / a2**2
        for l in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] + [gen.bary(rng) for _ in range(4)]:
            L = gen.bc(l)
            g, h = f.gradient(t, L), f.hessian(t, L)
            got = (float(f(t, L)), [float(g[0]), float(g[1])], [[float(h[i, j]) for j in (0, 1)] for i in (0, 1)])
            x, y = geom.euclid(P, t, l)
            _cmp(c, got, ref.eval(co, x, y), mag, tol, f"at {l} in triangle {t}")
            c.count("inner_values")
            if 1.0 in l:
                w = u[t[l.index(1.0)]]
                _cmp(c, got, (w[0], w[1:3], [[w[3], w[4]], [w[4], w[5]]]), mag, tol, f"at vertex {t[l.index(1.0)]}")
                c.count("vertex_values")
