"""C14: evaluating on a refined grid does not change the function."""

import numpy as np
from harness import gen, geom, mesh
from harness.bellref import BellRef
from harness.core import Check

CHECK = Check(
    "C14",
    "A case is a grid, a refinement factor (also two levels) and random nodal values; for every fine"
    " triangle in all cyclic orders and every fine edge on a coarse edge, the refined interpolation is"
    " compared with the original one evaluated in the coarse triangle found geometrically. Non-trivial:"
    " factor above one.",
)


def _gen(rng, i):
    p = gen.rect(rng, 4, 4, scales="wide")
    p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng))
    p["r"] = rng.choice([1, 2, 3, 4, 5])
    p["kind"] = "C1" if i % 2 else "P1"
    while p["nx"] * p["ny"] * p["r"] ** 2 > 90:
        p["r"] -= 1
    p["two"] = p["r"] <= 2 and p["nx"] * p["ny"] <= 6 and rng.random() < 0.5
    return p


def _host(P, tris, s, t, Q):
    """Coarse triangle containing the fine triangle, and its barycentric map."""
    cx, cy = (sum(Q[v][k] for v in t) / 3 for k in (0, 1))
    return tris[int(cx // s), int(cy // s), (cx % s) > (cy % s)]


def _bary(P, t, x, y):
    (ax, ay), (bx, by), (dx, dy) = (P[v] for v in t)
    det = (bx - ax) * (dy - ay) - (dx - ax) * (by - ay)
    l2 = ((x - ax) * (dy - ay) - (dx - ax) * (y - ay)) / det
    l3 = ((bx - ax) * (y - ay) - (x - ax) * (by - ay)) / det
    return [1 - l2 - l3, l2, l3]


def body(c, p):
    from tvemoves_rufbad.interpolation import P1Interpolation, C1Interpolation, RefinedInterpolation, Deformation

    d = gen.domain(p)
    coarse, s, rng = d.grid(p["scale"]), p["scale"], c.rng
    fine = d.refine(coarse, p["r"])
    P, Q = mesh.pts(coarse), mesh.pts(fine)
    n = len(P)
    sc = [1, 1 / s, 1 / s, 1 / s**2, 1 / s**2, 1 / s**2]
    if p["kind"] == "C1":
        mk = lambda: C1Interpolation(coarse, [[rng.uniform(-1, 1) * k for k in sc] for _ in range(n)])
    else:
        mk = lambda: P1Interpolation(coarse, [rng.uniform(-1, 1) for _ in range(n)])
    f, f2 = mk(), mk()
    F, F2 = RefinedInterpolation(f, fine), RefinedInterpolation(f2, fine)
    c.check(F.grid is fine, "grid of the refined interpolation")
    D, G = Deformation(f, f2), Deformation(F, F2)
    tris = {}
    for t in map(tuple, coarse.triangles):
        cx, cy = (sum(P[v][k] for v in t) / 3 for k in (0, 1))
        tris[int(cx // s), int(cy // s), (cx % s) > (cy % s)] = t
    off = max(max(abs(x), abs(y)) for x, y in P) / s + 1
    tol = 1e-9 + 1e-13 * off**2
    vec = lambda v: [float(x) for x in v]

    def compare(F, G, t, l, host, hl, what):
        A, B = gen.bc(l), gen.bc(hl)
        c.close(float(F(t, A)), float(f(host, B)), f"value {what}", atol=tol, rtol=0)
        c.close(vec(F.gradient(t, A)), vec(f.gradient(host, B)), f"gradient {what}", atol=100 * tol / s, rtol=0)
        c.close(vec(G(t, A)), vec(D(host, B)), f"deformation {what}", atol=tol, rtol=0)
        st, rf = G.strain(t, A), D.strain(host, B)
        c.close([st[i, j] for i in (0, 1) for j in (0, 1)], [rf[i, j] for i in (0, 1) for j in (0, 1)],
                f"strain {what}", atol=100 * tol / s, rtol=0)
        c.count("values")
        if p["kind"] == "C1":
            h, r = F.hessian(t, A), f.hessian(host, B)
            c.close([h[i, j] for i in (0, 1) for j in (0, 1)], [r[i, j] for i in (0, 1) for j in (0, 1)],
                    f"Hessian {what}", atol=1e4 * tol / s**2, rtol=0)
            hs, hr = G.hyper_strain(t, A), D.hyper_strain(host, B)
            c.close([hs[i, j, k] for i in (0, 1) for j in (0, 1) for k in (0, 1)],
                    [hr[i, j, k] for i in (0, 1) for j in (0, 1) for k in (0, 1)], f"hyper strain {what}", atol=1e4 * tol / s**2, rtol=0)
            c.count("hessians")

    for t in map(tuple, fine.triangles):
        host = _host(P, tris, s, t, Q)
        r = rng.randrange(3)
        tt = t[r:] + t[:r]
        for kind in ("in", rng.choice(["edge", "vertex", "near"])):
            l = gen.bary(rng, kind)
            hl = _bary(P, host, *geom.euclid(Q, tt, l))
            compare(F, G, tt, l, host, hl, f"at {l} in fine triangle {tt} (coarse {host})")
        if rng.random() < 0.15:
            for m in gen.cluster(rng, l, 2):
                hl = _bary(P, host, *geom.euclid(Q, tt, m))
                compare(F, G, tt, m, host, hl, f"at {m} near {l} in fine triangle {tt} (coarse {host})")
    # edges
    horiz = {}
    for e in map(tuple, coarse.edges):
        (ax, ay), (bx, by) = P[e[0]], P[e[1]]
        k = "h" if abs(ay - by) < 1e-9 * s else "v" if abs(ax - bx) < 1e-9 * s else "d"
        horiz[k, round(min(ax, bx) / s), round(min(ay, by) / s)] = e
    for e in map(tuple, fine.edges):
        (ax, ay), (bx, by) = Q[e[0]], Q[e[1]]
        mx, my = (ax + bx) / 2 / s, (ay + by) / 2 / s
        if abs(ay - by) < 1e-9 * s:
            k = ("h", int(mx // 1), round(my)) if abs(my - round(my)) < 1e-6 else None
        elif abs(ax - bx) < 1e-9 * s:
            k = ("v", round(mx), int(my // 1)) if abs(mx - round(mx)) < 1e-6 else None
        else:
            k = ("d", int(mx // 1), int(my // 1)) if abs(mx - my - round(mx - my)) < 1e-6 else None
        host = horiz.get(k) if k else None
        if host is None:
            continue
        L2 = (P[host[0]][0] - P[host[1]][0]) ** 2 + (P[host[0]][1] - P[host[1]][1]) ** 2
        for w in (0.0, 1.0, rng.random()):
            x, y = w * ax + (1 - w) * bx, w * ay + (1 - w) * by
            ht = ((x - P[host[1]][0]) * (P[host[0]][0] - P[host[1]][0]) + (y - P[host[1]][1]) * (P[host[0]][1] - P[host[1]][1])) / L2
            c.close(float(F.on_edge(e, w)), float(f.on_edge(host, ht)), f"value on fine edge {e} at {w}", atol=tol, rtol=0)
            c.close(vec(G.on_edge(e, w)), vec(D.on_edge(host, ht)), f"deformation on fine edge {e} at {w}", atol=tol, rtol=0)
            c.count("edge_values")
    if p["two"]:
        finer = d.refine(fine, 2)
        R = mesh.pts(finer)
        FF, FF2 = RefinedInterpolation(F, finer), RefinedInterpolation(F2, finer)
        GG = Deformation(FF, FF2)
        for t in map(tuple, finer.triangles):
            host = _host(P, tris, s, t, R)
            l = gen.bary(rng)
            compare(FF, GG, t, l, host, _bary(P, host, *geom.euclid(R, t, l)), f"at {l} in twice refined triangle {t}")
            c.count("two_levels")
    c.trivial = p["r"] == 1


CHECK.family("grids", _gen, 72, 1200, needs=["values", "hessians", "edge_values", "two_levels"])(body)


@CHECK.family("against_reference", lambda rng, i: gen.rect(rng, 2, 2, scales="wide") | dict(r=rng.choice([2, 3])), 16, 300, needs=["values"])
def against_reference(c, p):
    """Independent of the coarse code: the refined Bell function against the quintic of the coarse triangle."""
    from tvemoves_rufbad.interpolation import C1Interpolation, RefinedInterpolation

    d = gen.domain(p)
    coarse, s, rng = d.grid(p["scale"]), p["scale"], c.rng
    fine = d.refine(coarse, p["r"])
    P, Q = mesh.pts(coarse), mesh.pts(fine)
    sc = [1, 1 / s, 1 / s, 1 / s**2, 1 / s**2, 1 / s**2]
    u = [[rng.uniform(-1, 1) * k for k in sc] for _ in P]
    F = RefinedInterpolation(C1Interpolation(coarse, u), fine)
    for ct in map(tuple, coarse.triangles):
        ref = BellRef([P[v] for v in ct])
        prm = [x for v in ct for x in u[v]]
        co, mag = ref.coeffs(prm), ref.magnitude(prm)
        for t in map(tuple, fine.triangles):
            m = geom.euclid(Q, t, [1 / 3] * 3)
            if min(_bary(P, ct, *m)) < 0:
                continue
            l = gen.bary(rng)
            v, g, h = ref.eval(co, *geom.euclid(Q, t, l))
            L = gen.bc(l)
            c.close(float(F(t, L)), v, f"value at {l} in fine triangle {t}", atol=1e-9 * mag[0], rtol=0)
            c.close([float(x) for x in F.gradient(t, L)], g, f"gradient at {l} in fine triangle {t}", atol=1e-9 * mag[1], rtol=0)
            H = F.hessian(t, L)
            c.close([[float(H[i, j]) for j in (0, 1)] for i in (0, 1)], h, f"Hessian at {l} in fine triangle {t}", atol=1e-9 * mag[2], rtol=0)
            c.count("values")


CHECK.family("large", lambda rng, i: gen.enlarge(_gen(rng, i), i) | dict(r=1 + i % 2, two=False), 2, 12, weight=4)(body)
CHECK.family("large_factors", lambda rng, i: _gen(rng, i) | dict(
    nx=1, ny=1, width=0.7, height=0.7, scale=0.7, r=[12, 11, 17][i % 3], two=False), 2, 12, weight=4)(body)
