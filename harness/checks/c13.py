"""C13: Bell interpolation is continuously differentiable across edges."""

import numpy as np
from harness import gen, geom, mesh
from harness.checks.c12 import nodal
from harness.core import Check

CHECK = Check(
    "C13",
    "A case is a grid (plain, refined, distorted) with random nodal parameters; along every edge the"
    " one-sided values and gradients and the edge evaluation in both directions are compared at end"
    " points and random points. Non-trivial: at least one inner edge.",
    ["tolerance 1e-9 of the natural size of values and gradients"],
)


def body(c, p):
    from tvemoves_rufbad.interpolation import C1Interpolation

    grid, s = geom.build(p)
    P, rng = mesh.pts(grid), c.rng
    sc = [1, 1 / s, 1 / s, 1 / s**2, 1 / s**2, 1 / s**2]
    size = 10 ** rng.uniform(-14, 8) if rng.random() < 0.3 else 1.0
    sc = [size * k for k in sc]
    if rng.random() < 0.4:
        u = [[10 * x * k for x, k in zip(w, sc)] for w in nodal(rng, len(P))]
    else:
        u = [[rng.uniform(-1, 1) * k * 10 for k in sc] for _ in P]
    f = C1Interpolation(grid, [list(w) for w in u])
    off = max(max(abs(x), abs(y)) for x, y in P) / s
    tol = 1e3 * (1e-12 + 1e-15 * off**2) * (30 if p["mesh"] == "distorted" else 1) * size
    adj = geom.adjacency(grid)
    listed = [tuple(e) for e in grid.edges]
    for e in listed:
        ts = adj[mesh.key(e)]
        w0 = rng.random()
        for w in (0.0, 1.0, 0.5, rng.random(), w0, w0 * (1 - 10.0 ** -rng.randint(1, 8))):
            vals = [float(f(t, gen.bc(geom.edge_to_bary(t, e, w)))) for t in ts]
            grads = [np.array([float(x) for x in f.gradient(t, gen.bc(geom.edge_to_bary(t, e, w)))]) for t in ts]
            a, b = float(f.on_edge(e, w)), float(f.on_edge(e[::-1], 1 - w))
            for t, v in zip(ts, vals):
                c.close(a, v, f"edge value on {e} at {w} and value in {t}", atol=10 * tol, rtol=0)
                c.close(b, v, f"edge value on {e[::-1]} at {1 - w} and value in {t}", atol=10 * tol, rtol=0)
            if w == 1.0:
                c.close(a, u[e[0]][0], f"edge value at the first vertex of {e}", atol=10 * tol, rtol=0)
            if w == 0.0:
                c.close(a, u[e[1]][0], f"edge value at the second vertex of {e}", atol=10 * tol, rtol=0)
            c.count("edge_values", 2)
            if len(ts) == 2:
                c.close(vals[0], vals[1], f"values from both sides of {e} at {w}", atol=10 * tol, rtol=0)
                c.close(grads[0], grads[1], f"gradients from both sides of {e} at {w}", atol=100 * tol / s, rtol=0)
                c.count("inner_edge_points")
    # values and gradients on an edge depend on its end points only
    for _ in range(4):
        e = rng.choice(listed)
        other = [list(w) if v in e else [rng.uniform(-1, 1) * k * 10 for k in sc] for v, w in enumerate(u)]
        g = C1Interpolation(grid, other)
        t = rng.choice(adj[mesh.key(e)])
        w = rng.random()
        L = gen.bc(geom.edge_to_bary(t, e, w))
        c.close(float(g.on_edge(e, w)), float(f.on_edge(e, w)), f"edge value on {e} after changing other vertices", atol=10 * tol, rtol=0)
        c.close(float(g(t, L)), float(f(t, L)), f"value on {e} after changing other vertices", atol=10 * tol, rtol=0)
        c.close([float(x) for x in g.gradient(t, L)], [float(x) for x in f.gradient(t, L)],
                f"gradient on {e} after changing other vertices", atol=100 * tol / s, rtol=0)
        c.count("dependence")


CHECK.family("grids", lambda rng, i: geom.grid_case(rng, i, cap=24, scales="wide"), 48, 700,
             needs=["edge_values", "inner_edge_points", "dependence"])(body)


CHECK.family("large", lambda rng, i: gen.enlarge(geom.grid_case(rng, i, scales="wide"), i), 2, 12, weight=4)(body)
CHECK.family("huge", lambda rng, i: gen.enlarge(geom.grid_case(rng, i, scales="wide"), i, gen.HUGE), 1, 8, weight=8, timeout=400)(body)
