"""C11: piecewise affine interpolation is nodal, affine and continuous."""

import numpy as np
from harness import gen, geom, mesh
from harness.core import Check

CHECK = Check(
    "C11",
    "A case is a grid and random nodal values (list, array or mapping; also affine ones); the"
    " interpolation is evaluated at vertices, inside every triangle and from both sides of and along"
    " every edge. Non-trivial: at least one inner edge.",
)


def _values(rng, n):
    """Nodal values: of mixed or common magnitude, almost equal, equal or zero but in one vertex."""
    kind = rng.choice(["mixed", "mixed", "common", "close", "one"])
    if kind == "mixed":
        return [rng.uniform(-1, 1) * 10 ** rng.uniform(-3, 3) for _ in range(n)]
    size = 10 ** rng.uniform(-14, 8)
    if kind == "common":
        return [rng.uniform(-1, 1) * size for _ in range(n)]
    if kind == "close":
        base, d = rng.uniform(-1, 1), 10 ** rng.uniform(-9, -1)
        return [(base + rng.choice([0, d, rng.uniform(-d, d)])) * size for _ in range(n)]
    base, v = rng.choice([0.0, 1.0]), rng.randrange(n)
    return [size * (base + (k == v)) for k in range(n)]


def body(c, p):
    from tvemoves_rufbad.interpolation import P1Interpolation, P1BoundaryInterpolation

    grid, s = geom.build(p)
    P = mesh.pts(grid)
    n, rng = len(P), c.rng
    u = _values(rng, n)
    big = max(map(abs, u))
    size = max(max(abs(x), abs(y)) for x, y in P)
    container = [list, np.array, lambda v: dict(rng.sample(list(enumerate(v)), n)), tuple][rng.randrange(4)](u)
    f = P1Interpolation(grid, container)
    lo = 1e-13 * big
    rel = 1e-9 + 1e-13 * (size / s) ** 2
    tris = [tuple(t) for t in grid.triangles]
    grads = {}
    for t in tris:
        rots = [t, t[1:] + t[:1], t[2:] + t[:2]]
        for k in range(3):
            c.close(f(t, gen.bc([float(j == k) for j in range(3)])), u[t[k]], f"value at vertex {t[k]}", atol=lo)
        l = gen.bary(rng)
        want = sum(l[k] * u[t[k]] for k in range(3))
        for r, tt in enumerate(rots):
            ll = l[r:] + l[:r]
            c.close(f(tt, gen.bc(ll)), want, f"value in triangle {tt}", atol=4 * lo)
        for m in gen.cluster(rng, l, 2):
            want = sum(m[k] * u[t[k]] for k in range(3))
            c.close(f(t, gen.bc(m)), want, f"value in triangle {t} near {l}", atol=4 * lo)
        g = [np.array(list(f.gradient(t, gen.bc(gen.bary(rng))))) for _ in range(2)]
        c.check(np.array_equal(g[0], g[1]), f"gradient in triangle {t} is not constant")
        c.eq(g[0].shape, (2,), "shape of the gradient")
        grads[t] = g[0]
        for a, b in ((0, 1), (1, 2), (2, 0)):
            d = np.array(P[t[b]]) - np.array(P[t[a]])
            c.close(g[0] @ d, u[t[b]] - u[t[a]], f"derivative along side {t[a]}-{t[b]} of {t}", atol=rel * big, rtol=0)
        c.count("triangles")
        for tt in rots[1:]:
            try:
                h = np.array(list(f.gradient(tt, gen.bc([0.2, 0.3, 0.5]))))
            except ValueError:
                continue
            c.close(h, g[0], f"gradient in triangle {tt}", atol=rel * big / s, rtol=0)
    for e, ts in geom.adjacency(grid).items():
        for w in (0.0, 1.0, 0.5, rng.random()):
            want = w * u[e[0]] + (1 - w) * u[e[1]]
            for t in ts:
                c.close(f(t, gen.bc(geom.edge_to_bary(t, e, w))), want, f"value of {t} on edge {e}", atol=4 * lo)
            c.close(f.on_edge(e, w), want, f"value on edge {e}", atol=4 * lo)
            c.close(f.on_edge(e[::-1], 1 - w), want, f"value on edge {e[::-1]}", atol=4 * lo)
        if len(ts) == 2:
            c.count("inner_edges")
            d = np.array(P[e[1]]) - np.array(P[e[0]])
            c.close(grads[ts[0]] @ d, grads[ts[1]] @ d, f"tangential derivative across {e}", atol=rel * big, rtol=0)
    # affine reproduction
    A = [rng.uniform(-2, 2) for _ in range(3)]
    aff = lambda x, y: A[0] + A[1] * x / s + A[2] * y / s
    top = max(abs(aff(x, y)) for x, y in P)
    f = P1Interpolation(grid, [aff(x, y) for x, y in P])
    for t in tris:
        l = gen.bary(rng)
        c.close(f(t, gen.bc(l)), aff(*geom.euclid(P, t, l)), f"affine function in {t}", atol=1e-12 * top, rtol=0)
        c.close(list(f.gradient(t, gen.bc(l))), [A[1] / s, A[2] / s], f"gradient of an affine function in {t}",
                atol=(rel * top + 1e-12 * top * size / s) / s, rtol=0)
    for t in tris[:3]:
        try:
            h = f.hessian(t, gen.bc(gen.bary(rng)))
        except Exception:
            c.count("hessians_refused")
        else:
            c.check(False, f"the hessian of a piecewise affine interpolation was returned as {h!r}")
    # boundary interpolations
    for name in ("boundary", "dirichlet_boundary", "neumann_boundary"):
        b = getattr(grid, name)
        vals = {v: u[v] for v in rng.sample(list(b.vertices), len(b.vertices))}
        g = P1BoundaryInterpolation(b, vals)
        for e in b.edges:
            for w in (0.0, 1.0, rng.random()):
                c.close(g(tuple(e), w), w * u[e[0]] + (1 - w) * u[e[1]], f"value on {name} edge {e}", atol=4 * lo)
                c.close(g((e[1], e[0]), 1 - w), w * u[e[0]] + (1 - w) * u[e[1]], f"value on reversed {name} edge {e}", atol=4 * lo)
                c.count("boundary_values")


CHECK.family("grids", lambda rng, i: geom.grid_case(rng, i, scales="any"), 120, 2000,
             needs=["inner_edges", "triangles", "boundary_values", "hessians_refused"])(body)


@CHECK.family("symbolic", lambda rng, i: geom.grid_case(rng, i, scales="unit"), 12, 150, needs=["symbolic_values"])
def symbolic(c, p):
    """Nodal values that are optimization variables: the expressions follow the variables."""
    import pyomo.environ as pyo
    from tvemoves_rufbad.interpolation import P1Interpolation

    grid, s = geom.build(p)
    P = mesh.pts(grid)
    m = pyo.ConcreteModel()
    m.v = pyo.Var(range(len(P)), initialize=0.0)
    f = P1Interpolation(grid, m.v)
    exprs = []
    for t in grid.triangles:
        l = gen.bary(c.rng)
        g = f.gradient(tuple(t), gen.bc(l))
        exprs.append((tuple(t), l, f(tuple(t), gen.bc(l)), g[0], g[1]))
    for _ in range(3):
        A = [c.rng.uniform(-1, 1) for _ in range(3)]
        u = [A[0] + A[1] * x + A[2] * y for x, y in P]
        for k, x in enumerate(u):
            m.v[k].set_value(x)
        for t, l, val, gx, gy in exprs:
            c.close(pyo.value(val), sum(l[k] * u[t[k]] for k in range(3)), f"symbolic value in {t}", atol=1e-12)
            c.close([pyo.value(gx), pyo.value(gy)], A[1:], f"symbolic gradient in {t}", atol=1e-9)
            c.count("symbolic_values")


CHECK.family("large", lambda rng, i: gen.enlarge(geom.grid_case(rng, i, scales="any"), i), 2, 20, weight=2)(body)
CHECK.family("huge", lambda rng, i: gen.enlarge(geom.grid_case(rng, i, scales="any"), i, gen.HUGE), 1, 8, weight=6, timeout=300)(body)
