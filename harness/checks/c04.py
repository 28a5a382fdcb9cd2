"""C04: fine-to-coarse coordinate maps preserve the physical point."""

from harness import gen, mesh
from harness.core import Check
from harness.checks.c03 import _gen as _chain_gen, _far

CHECK = Check(
    "C04",
    "A case is a rectangle with a chain of refinements; every fine triangle in all three cyclic orders"
    " and every fine edge of every level is mapped at random, edge and vertex coordinates, and the"
    " physical points are compared. Non-trivial: at least one factor above one.",
)


def euclid(P, t, l):
    return tuple(sum(l[k] * P[t[k]][a] for k in range(3)) for a in (0, 1))


def _on_coarse(Pc, coarse_edges_by_dir, e, Q, s):
    """Coarse edges (as given) that contain the fine edge, found geometrically."""
    (ax, ay), (bx, by) = Q[e[0]], Q[e[1]]
    mx, my = (ax + bx) / 2 / s, (ay + by) / 2 / s
    dx, dy = (bx - ax), (by - ay)
    if abs(dy) < 1e-9 * s:
        if abs(my - round(my)) > 1e-6:
            return None
        k = ("h", int(mx // 1), round(my))
    elif abs(dx) < 1e-9 * s:
        if abs(mx - round(mx)) > 1e-6:
            return None
        k = ("v", round(mx), int(my // 1))
    else:
        if abs((mx - my) - round(mx - my)) > 1e-6:
            return None
        k = ("d", int(mx // 1), int(my // 1))
    return coarse_edges_by_dir.get(k)


def _index_coarse(P, edges, s):
    res = {}
    for e in edges:
        (ax, ay), (bx, by) = P[e[0]], P[e[1]]
        i, j = round(min(ax, bx) / s), round(min(ay, by) / s)
        d = "h" if abs(ay - by) < 1e-9 * s else "v" if abs(ax - bx) < 1e-9 * s else "d"
        res[(d, i, j)] = tuple(e)
    return res


def body(c, p):
    from tvemoves_rufbad.domain import BarycentricPoint

    d = gen.domain(p)
    g, s = d.grid(p["scale"]), p["scale"]
    total = 1
    for r in p["chain"]:
        fine = d.refine(g, r)
        k = fine.coarse()
        c.check(
            [list(map(tuple, z)) for z in (k.triangles, k.edges)] == [list(map(tuple, z)) for z in (g.triangles, g.edges)]
            and mesh.pts(k) == mesh.pts(g),
            "the coarse grid is not the grid that was refined",
        )
        P, Q = mesh.pts(g), mesh.pts(fine)
        size = max(p["nx"], p["ny"]) * p["scale"]
        tol = 1e-12 * size + 1e-9 * s
        coarse_tris = {tuple(t) for t in g.triangles}
        tri_list = [tuple(t) for t in fine.triangles]
        for t in tri_list:
            for rot in range(3):
                tt = t[rot:] + t[:rot]
                # the next two orders are asked at a near-duplicate of the first point
                l = gen.bary(c.rng) if rot == 0 else gen.cluster(c.rng, l, 1)[0]
                res = fine.to_coarse_barycentric_point(BarycentricPoint(tt, gen.bc(l)))
                ct, q = tuple(res.triangle), list(res.coordinates)
                c.check(ct in coarse_tris, f"{ct} is no triangle of the coarse grid")
                c.check(
                    all(-1e-9 <= w <= 1 + 1e-9 for w in q) and abs(sum(q) - 1) < 1e-9,
                    lambda: f"fine triangle {tt}: invalid coarse coordinates {q}",
                )
                a, b = euclid(Q, tt, l), euclid(P, ct, q)
                c.check(
                    abs(a[0] - b[0]) < tol and abs(a[1] - b[1]) < tol,
                    lambda: f"fine triangle {tt} (rotation {rot}), coordinates {l}: point {a} is"
                    f" mapped to {b}",
                )
                c.count("triangle_points")
        # triangles that do not qualify
        known = set(tri_list) | {t[1:] + t[:1] for t in tri_list} | {t[2:] + t[:2] for t in tri_list}
        for _ in range(6):
            t = c.rng.choice(tri_list)
            bad = c.rng.choice([(t[0], t[2], t[1]), (t[0], t[1], c.rng.randrange(len(Q)))])
            if bad not in known:
                c.raises(
                    ValueError,
                    lambda: fine.to_coarse_barycentric_point(
                        BarycentricPoint(bad, gen.bc([0.2, 0.3, 0.5]))
                    ),
                    f"mapping the foreign triangle {bad}",
                )
        index = _index_coarse(P, g.edges, s)
        coarse_edges = {tuple(e) for e in g.edges}
        boundary = {tuple(e) for e in fine.boundary.edges}
        for e in [tuple(e) for e in fine.edges] + sorted(boundary):
            host = _on_coarse(P, index, e, Q, s)
            # the opposite orientation is not one of the grid, but must not yield another point
            try:
                w = c.rng.random()
                ce, ct = fine.to_coarse_edge_point(e[::-1], w)
            except ValueError:
                pass
            else:
                c.check(host is not None, f"reversed inner fine edge {e[::-1]} is mapped to {ce}")
                for k in (0, 1):
                    a = w * Q[e[1]][k] + (1 - w) * Q[e[0]][k]
                    b = ct * P[ce[0]][k] + (1 - ct) * P[ce[1]][k]
                    c.check(abs(a - b) < tol, f"reversed fine edge {e[::-1]}, t={w}: mapped to {ce}, t={ct}, a different point")
            if host is None:
                c.raises(
                    ValueError, lambda: fine.to_coarse_edge_point(e, 0.5), f"inner fine edge {e}"
                )
                c.count("inner_edges")
                continue
            for t in (0.0, 1.0, c.rng.random()):
                ce, ct = fine.to_coarse_edge_point(e, t)
                c.check(tuple(ce) in coarse_edges, f"{ce} is no edge of the coarse grid")
                c.check(
                    mesh.key(ce) == mesh.key(host), f"fine edge {e} is mapped to {ce}, lies on {host}"
                )
                c.check(-1e-9 <= ct <= 1 + 1e-9, f"fine edge {e}: coarse parameter {ct}")
                for k in (0, 1):
                    a = t * Q[e[0]][k] + (1 - t) * Q[e[1]][k]
                    b = ct * P[ce[0]][k] + (1 - ct) * P[ce[1]][k]
                    c.check(
                        abs(a - b) < tol,
                        lambda: f"fine edge {e}, t={t}: mapped to {ce}, t={ct}, a different point",
                    )
                c.count("edge_points")
        c.raises(
            ValueError, lambda: fine.to_coarse_edge_point((0, 0), 0.5), "degenerate edge (0, 0)"
        )
        g, s = fine, s / r
        total *= r
    c.trivial = total == 1


CHECK.family(
    "chains", lambda rng, i: _chain_gen(rng, i, 300), 60, 900, needs=["triangle_points", "edge_points", "inner_edges"]
)(body)
CHECK.family("far_from_origin", _far, 10, 120)(body)
CHECK.family(
    "large_factors",
    lambda rng, i: gen.rect(rng, 2, 2, scales="any", kinds=["integer", "product"])
    | dict(chain=[rng.choice([7, 8, 9, 10])], fix=gen.fix_repr(rng, gen.fix_sides(rng))),
    6,
    60,
)(body)


CHECK.family("larger_factors", lambda rng, i: _chain_gen(rng, i, 1) | dict(
    nx=1, ny=1, width=0.7, height=0.7, scale=0.7, chain=[[12], [17], [11, 2]][i % 3]), 3, 12, weight=3)(body)
CHECK.family("large", lambda rng, i: gen.enlarge(_chain_gen(rng, i, 1), i) | dict(chain=[2]), 2, 12, weight=4)(body)
