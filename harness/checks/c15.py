"""C15: Cartesian evaluation agrees with the underlying interpolation."""

import numpy as np
from harness import gen, geom, mesh
from harness.core import Check

CHECK = Check(
    "C15",
    "A case is a grid with random piecewise affine, Bell or refined interpolations; Cartesian values,"
    " gradients and Hessians at points in triangles, on edges, at vertices and outside are compared with"
    " the barycentric evaluation in a containing triangle. Non-trivial: every case.",
)


def _gen(rng, i):
    p = geom.grid_case(rng, i, cap=20, scales="wide")
    p["kind"] = ["P1", "C1", "wrapped"][(i // 3) % 3]
    if p["kind"] == "wrapped":
        p["mesh"], p["r"] = "refined", 2
        p["nx"], p["ny"] = min(p["nx"], 3), min(p["ny"], 3)
        p["width"], p["height"] = p["nx"] * p["scale"], p["ny"] * p["scale"]
    return p


def body(c, p):
    from tvemoves_rufbad.interpolation import (
        P1Interpolation, C1Interpolation, RefinedInterpolation, EuclideanInterpolation, EuclideanDeformation, Deformation)

    rng = c.rng
    if p["kind"] == "wrapped":
        d = gen.domain(p)
        base = d.grid(p["scale"])
        grid, s = d.refine(base, 2), p["scale"] / 2
    else:
        grid, s = geom.build(p)
        base = grid
    sc = [1, 1 / s, 1 / s, 1 / s**2, 1 / s**2, 1 / s**2]

    def mk(base, grid):
        n = len(base.points)
        if p["kind"] == "P1" or (p["kind"] == "wrapped" and p["seed"] % 2):
            f = P1Interpolation(base, [rng.uniform(-1, 1) for _ in range(n)])
        else:
            f = C1Interpolation(base, [[rng.uniform(-1, 1) * k for k in sc] for _ in range(n)])
        return RefinedInterpolation(f, grid) if p["kind"] == "wrapped" else f

    # the second component may live on another grid object
    if p["kind"] != "wrapped" and p["seed"] % 3 == 0:
        twin = geom.rebuild(grid)
        f = [mk(base, grid), mk(twin, twin)]
        c.count("separate_grids")
    else:
        f = [mk(base, grid), mk(base, grid)]
    # another grid with as many triangles and the same numbering that covers the same region: twice
    # as large; evaluated at the same points in between
    if p["kind"] == "wrapped":
        d2 = gen.domain(p | dict(width=2 * p["width"], height=2 * p["height"]))
        base2 = d2.grid(2 * p["scale"])
        grid2 = d2.refine(base2, 2)
    else:
        P0 = mesh.pts(grid)
        cx, cy = P0[0]
        grid2 = base2 = geom.rebuild(grid, points=[(cx + 2 * (x - cx), cy + 2 * (y - cy)) for x, y in P0])
    f2 = mk(base2, grid2)
    E2 = EuclideanInterpolation(f2)
    P2 = mesh.pts(grid2)
    smooth = p["kind"] != "P1" and not (p["kind"] == "wrapped" and p["seed"] % 2)
    E = EuclideanInterpolation(f[0])
    D, B = EuclideanDeformation(*f), Deformation(*f)
    c.check(E.grid is grid, "grid of the Cartesian interpolation")
    P = mesh.pts(grid)
    tris = [tuple(t) for t in grid.triangles]
    adj = geom.adjacency(grid)
    around = {}
    for t in tris:
        for v in t:
            around.setdefault(v, []).append(t)
    off = max(max(abs(x), abs(y)) for x, y in P) / s + 1
    tol = (1e-8 + 1e-12 * off**2) * (10 if p["mesh"] == "distorted" else 1)
    vec = lambda v: [float(x) for x in v]
    m2 = lambda M: [[float(M[i, j]) for j in (0, 1)] for i in (0, 1)]
    m3 = lambda T: [[[float(T[i, j, k]) for k in (0, 1)] for j in (0, 1)] for i in (0, 1)]

    def near(got, wants, atol, what):
        got = np.array(got)
        best = min(float(np.max(np.abs(got - np.array(w)))) for w in wants)
        c.check(best <= atol, lambda: f"{what}: {got.tolist()} is off by {best:.3g} from {wants}")

    def other(x, y):
        """The same point on the other grid, compared wherever one triangle surely contains it."""
        try:
            got = float(E2(x, y))
        except ValueError:
            return
        for t in grid2.triangles:
            a2 = mesh.area2(P2, t)
            l = [mesh.area2(P2 + [(x, y)], tuple(len(P2) if k == i else v for k, v in enumerate(t))) / a2 for i in range(3)]
            if min(l) > 1e-3:
                c.close(got, float(f2(tuple(t), gen.bc(l))), f"value at {(x, y)} on a second grid", atol=tol, rtol=0)
                c.count("second_grid")

    def verify(x, y, cand, what):
        """cand: containing triangles with barycentric coordinates"""
        if rng.random() < 0.3:
            other(x, y)
        L = [(t, gen.bc(l)) for t, l in cand]
        near(float(E(x, y)), [float(f[0](t, l)) for t, l in L], tol, f"value {what}")
        near(vec(E.gradient(x, y)), [vec(f[0].gradient(t, l)) for t, l in L], 100 * tol / s, f"gradient {what}")
        got = D(x, y)
        near(vec(got), [[float(f[0](t, l)), float(f[1](t, l))] for t, l in L], tol, f"deformation {what}")
        near(m2(D.strain(x, y)), [[vec(f[0].gradient(t, l)), vec(f[1].gradient(t, l))] for t, l in L], 100 * tol / s, f"strain {what}")
        for k in (0, 1):
            near(float(D[k](x, y)), [float(f[k](t, l)) for t, l in L], tol, f"component {k} {what}")
        if smooth:
            near(m2(E.hessian(x, y)), [m2(f[0].hessian(t, l)) for t, l in L], 1e4 * tol / s**2, f"Hessian {what}")
            near(m3(D.hyper_strain(x, y)), [[m2(f[0].hessian(t, l)), m2(f[1].hessian(t, l))] for t, l in L], 1e4 * tol / s**2, f"hyper strain {what}")
            c.count("hessians")
        c.count("points")

    for t in tris:
        for kind in ("in", "centroid"):
            l = gen.bary(rng, kind)
            verify(*geom.euclid(P, t, l), [(t, l)], f"at {l} in {t}")
        if rng.random() < 0.3:
            for l in gen.cluster(rng, l):
                verify(*geom.euclid(P, t, l), [(t, l)], f"at {l} in {t} after its neighbours")
                c.count("neighbours")
        # barycentric deformation: components, rows, slices in order
        l = gen.bary(rng)
        L = gen.bc(l)
        c.close(vec(B(t, L)), [float(f[k](t, L)) for k in (0, 1)], f"deformation in {t}", atol=1e-12)
        c.close(m2(B.strain(t, L)), [vec(f[k].gradient(t, L)) for k in (0, 1)], f"strain in {t}", atol=1e-12)
        c.check(B[0] is f[0] and B[1] is f[1], "components of the deformation")
        if smooth:
            c.close(m3(B.hyper_strain(t, L)), [m2(f[k].hessian(t, L)) for k in (0, 1)], f"hyper strain in {t}", atol=1e-12)
        c.count("deformations")
    if p["kind"] != "wrapped":
        for e in rng.sample(sorted(adj), min(len(adj), 25)):
            w = rng.random()
            x, y = (w * P[e[0]][k] + (1 - w) * P[e[1]][k] for k in (0, 1))
            verify(x, y, [(t, geom.edge_to_bary(t, e, w)) for t in adj[e]], f"on edge {e}")
            c.close(vec(B.on_edge(e, w)), [float(f[k].on_edge(e, w)) for k in (0, 1)], f"deformation on edge {e}", atol=1e-12)
            c.count("edges")
    for v in rng.sample(range(len(P)), min(len(P), 15)):
        cand = [(t, [float(k == v) for k in t]) for t in around[v]]
        verify(*P[v], cand, f"at vertex {v}")
    xs, ys = [q[0] for q in P], [q[1] for q in P]
    w, h = max(xs) - min(xs), max(ys) - min(ys)
    for _ in range(6):
        out = 10 ** rng.uniform(-6, 0.3)
        x, y = max(xs) + out * w, rng.uniform(min(ys), max(ys))
        if rng.random() < 0.5:
            x, y = rng.uniform(min(xs), max(xs)), min(ys) - out * h
        for g, what in ((E, "value"), (D, "deformation"), (E.gradient, "gradient"), (D.strain, "strain"), (D[1], "component")):
            c.raises(ValueError, lambda: g(x, y), f"{what} at the outside point {(x, y)}")
        if smooth:
            c.raises(ValueError, lambda: E.hessian(x, y), "Hessian outside")
            c.raises(ValueError, lambda: D.hyper_strain(x, y), "hyper strain outside")
        c.count("outside")


CHECK.family("grids", _gen, 63, 900, needs=["neighbours", "second_grid", "separate_grids", "points", "hessians", "outside", "edges", "deformations"])(body)


CHECK.family("large", lambda rng, i: gen.enlarge(_gen(rng, i), i) | dict(kind=["P1", "C1"][i % 2]), 2, 12, weight=4)(body)


def _gen_mixed(rng, i):
    p = gen.rect(rng, 3, 3, scales="wide", kinds=["product", "integer", "fraction"])
    p["kind"] = ["P1", "C1", "both"][i % 3]
    p["other"] = ["finer", "refined", "wider", "renumbered"][i // 3 % 4]
    return p


@CHECK.family("mixed", _gen_mixed, 24, 300, needs=["mixed_points", "half_outside"])
def mixed(c, p):
    """Deformations whose components are interpolations on different grids."""
    import random
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation, C1Interpolation, EuclideanInterpolation, EuclideanDeformation

    rng, s = c.rng, p["scale"]
    d = RectangleDomain(p["width"], p["height"])
    g = d.grid(s)
    if p["other"] == "finer":
        h, sh = d.grid(s / 2), s / 2
    elif p["other"] == "refined":
        h, sh = d.refine(g, 3), s / 3
    elif p["other"] == "wider":
        h, sh = RectangleDomain(p["width"] + s, p["height"] + s).grid(s), s
    else:
        h, sh = geom.renumber(random.Random(rng.randrange(2**31)), g, shuffle_ids=False), s
    sc = lambda h: [1, 1 / h, 1 / h, 1 / h**2, 1 / h**2, 1 / h**2]

    def mk(grid, size, smooth):
        n = len(grid.points)
        if not smooth:
            return P1Interpolation(grid, [rng.uniform(-1, 1) for _ in range(n)])
        return C1Interpolation(grid, [[rng.uniform(-1, 1) * k for k in sc(size)] for _ in range(n)])

    f = [mk(g, s, p["kind"] != "P1"), mk(h, sh, p["kind"] == "C1")]
    sizes = [s, sh]
    if rng.random() < 0.5:
        f, sizes = f[::-1], sizes[::-1]
    D, E = EuclideanDeformation(*f), [EuclideanInterpolation(a) for a in f]
    tol = 1e-8
    vec = lambda v: [float(x) for x in v]
    rows = lambda M: [[float(M[i, j]) for j in (0, 1)] for i in (0, 1)]
    # the extent of the smaller of the two grids
    P = mesh.pts(g)
    W, H = max(x for x, _ in P), max(y for _, y in P)

    def reference(k, x, y):
        grid = f[k].grid
        Q = mesh.pts(grid)
        for t in grid.triangles:
            a2 = mesh.area2(Q, t)
            l = [mesh.area2(Q + [(x, y)], tuple(len(Q) if m == i else v for m, v in enumerate(t))) / a2 for i in range(3)]
            if min(l) > 1e-3:
                return tuple(t), gen.bc(l)
        return None

    for _ in range(25):
        x, y = rng.uniform(0, W), rng.uniform(0, H)
        places = [reference(k, x, y) for k in (0, 1)]
        if None in places:
            continue
        got = vec(D(x, y))
        for k in (0, 1):
            c.close(got[k], float(f[k](*places[k])), f"component {k} of the deformation at {(x, y)}", atol=tol)
            c.close(float(D[k](x, y)), float(f[k](*places[k])), f"component {k} at {(x, y)}", atol=tol)
        strain = rows(D.strain(x, y))
        for k in (0, 1):
            c.close(strain[k], vec(f[k].gradient(*places[k])), f"row {k} of the strain at {(x, y)}", atol=100 * tol / sizes[k])
        if p["kind"] == "C1":
            T = D.hyper_strain(x, y)
            for k in (0, 1):
                c.close([[float(T[k, i, j]) for j in (0, 1)] for i in (0, 1)], rows(f[k].hessian(*places[k])),
                        f"slice {k} of the hyper strain at {(x, y)}", atol=1e4 * tol / sizes[k] ** 2)
        c.count("mixed_points")
    if p["other"] == "wider":
        for _ in range(6):
            x, y = W + rng.uniform(0.01, 0.9) * s, rng.uniform(0, H)
            c.raises(ValueError, lambda: D(x, y), f"deformation at {(x, y)}, outside the grid of one component")
            c.raises(ValueError, lambda: D.strain(x, y), f"strain at {(x, y)}, outside the grid of one component")
            c.count("half_outside")


CHECK.family("huge", lambda rng, i: gen.enlarge(_gen(rng, i), i, [(18, 15), *gen.HUGE]) | dict(kind=["P1", "C1"][i % 2]), 1, 8, weight=8, timeout=400)(body)
