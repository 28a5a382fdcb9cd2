"""C05: point location finds a containing triangle for every point of the grid."""

from harness import gen, geom, mesh
from harness.core import Check

CHECK = Check(
    "C05",
    "A case is a grid (plain, refined or distorted, cell sizes from 1e-6 to 1e4); points are drawn in"
    " every triangle, on every edge, at every vertex, near edges from both sides and outside, located,"
    " and the answer is checked geometrically. Non-trivial: at least one triangle was hit.",
    ["points closer to the outer boundary than 1e-6 of a cell are only queried from inside"],
)


def _verify(c, grid, P, tris, s, x, y, what):
    from tvemoves_rufbad.tensors import Vector

    size = max(abs(x), abs(y))
    tol = 1e-8 * s + 1e-13 * size
    res = grid.to_barycentric_point(Vector([x, y]))
    c.check(res is not None, lambda: f"{what} ({x!r}, {y!r}) was not located")
    t, l = tuple(res.triangle), list(res.coordinates)
    c.check(t in tris, f"{what}: {t} is no triangle of the grid")
    rel = 1e-7 + 1e-12 * size / s
    c.check(
        all(-rel <= w <= 1 + rel for w in l),
        lambda: f"{what} ({x!r}, {y!r}): coordinates {l} in {t} are not in [0, 1]",
    )
    c.check(abs(sum(l) - 1) < 1e-9, lambda: f"{what}: coordinates {l} do not sum to one")
    ex, ey = geom.euclid(P, t, l)
    c.check(
        abs(ex - x) <= tol and abs(ey - y) <= tol,
        lambda: f"{what} ({x!r}, {y!r}) was located at ({ex!r}, {ey!r})",
    )
    c.count("located")
    return t


def _none(c, grid, x, y, what):
    from tvemoves_rufbad.tensors import Vector

    res = grid.to_barycentric_point(Vector([x, y]))
    c.check(
        res is None,
        lambda: f"{what} ({x!r}, {y!r}) outside the grid was located in {res.triangle} with"
        f" {list(res.coordinates)}",
    )
    c.count("outside")


def body(c, p):
    grid, s = geom.build(p)
    P = mesh.pts(grid)
    tris = {tuple(t) for t in grid.triangles}
    rng = c.rng
    for t in sorted(tris):
        for kind in ("in", "in", "centroid", "near"):
            x, y = geom.euclid(P, t, gen.bary(rng, kind))
            hit = _verify(c, grid, P, tris, s, x, y, f"point inside triangle {t}")
            if kind == "centroid":
                c.eq(sorted(hit), sorted(t), f"triangle found for the centroid of {t}")
        if rng.random() < 0.3:
            for l in gen.cluster(rng, gen.bary(rng, "in")):
                x, y = geom.euclid(P, t, l)
                _verify(c, grid, P, tris, s, x, y, f"neighbouring point inside triangle {t}")
        # slightly inside a side
        k, w, d = rng.randrange(3), rng.random(), 10 ** rng.uniform(-15, -3)
        l = [0.0, 0.0, 0.0]
        l[k], l[(k + 1) % 3], l[(k + 2) % 3] = w * (1 - d), (1 - w) * (1 - d), d
        x, y = geom.euclid(P, t, l)
        _verify(c, grid, P, tris, s, x, y, f"point close to a side of {t}")
    adj = geom.adjacency(grid)
    for e in adj:
        for w in (0.5, rng.random()):
            x, y = (w * P[e[0]][k] + (1 - w) * P[e[1]][k] for k in (0, 1))
            hit = _verify(c, grid, P, tris, s, x, y, f"point on edge {e}")
            c.count("edge_points")
            if 0.05 < w < 0.95:
                c.check(hit in adj[e], f"point on edge {e} was located in {hit}")
    for v, (x, y) in enumerate(P):
        hit = _verify(c, grid, P, tris, s, x, y, f"vertex {v}")
        c.check(v in hit, f"vertex {v} was located in triangle {hit}")
        c.count("vertex_points")
    # outside, across every boundary side, from very close to far away
    for e, ts in adj.items():
        if len(ts) != 1:
            continue
        t = ts[0]
        a, b = P[e[0]], P[e[1]]
        o = P[next(v for v in t if v not in e)]
        w = rng.uniform(0.1, 0.9)
        m = [w * a[k] + (1 - w) * b[k] for k in (0, 1)]
        nx, ny = -(b[1] - a[1]), b[0] - a[0]
        if nx * (o[0] - m[0]) + ny * (o[1] - m[1]) > 0:
            nx, ny = -nx, -ny
        for d in (1e-5, 1e-3, 0.05):
            x, y = m[0] + d * nx, m[1] + d * ny
            if p["mesh"] == "distorted" and any(_inside(P, tt, x, y) for tt in tris):
                continue
            _none(c, grid, x, y, f"point beyond boundary side {e}")
    xs, ys = [q[0] for q in P], [q[1] for q in P]
    w, h = max(xs) - min(xs), max(ys) - min(ys)
    for _ in range(12):
        x = rng.choice([min(xs) - rng.uniform(0.01, 3) * w, max(xs) + rng.uniform(0.01, 3) * w])
        y = rng.uniform(min(ys) - h, max(ys) + h)
        _none(c, grid, x, y, "far point")
        _none(c, grid, rng.uniform(min(xs) - w, max(xs) + w), max(ys) + rng.uniform(0.01, 3) * h, "far point")
    if p["mesh"] != "distorted":  # the region is the rectangle of all whole cells
        for _ in range(20):
            x, y = rng.random() * p["nx"] * p["scale"], rng.random() * p["ny"] * p["scale"]
            _verify(c, grid, P, tris, s, x, y, "point of the rectangle")
    if p["mesh"] == "plain" and len(tris) > 4:
        # the region is what the triangles cover, here with a hole
        gone = rng.choice(sorted(tris))
        holed = geom.rebuild(grid, triangles=[t for t in map(tuple, grid.triangles) if t != gone])
        x, y = geom.euclid(P, gone, [1 / 3] * 3)
        _none(c, holed, x, y, "point in a removed triangle,")
        c.count("holes")


def _inside(P, t, x, y):
    s = []
    for a, b in ((0, 1), (1, 2), (2, 0)):
        (ax, ay), (bx, by) = P[t[a]], P[t[b]]
        s.append((bx - ax) * (y - ay) - (by - ay) * (x - ax))
    return min(s) >= -1e-6 * max(map(abs, s)) or max(s) <= 1e-6 * max(map(abs, s))


CHECK.family(
    "grids", lambda rng, i: geom.grid_case(rng, i, scales="any"), 90, 1500,
    needs=["located", "outside", "edge_points", "vertex_points", "holes"],
)(body)
CHECK.family(
    "larger", lambda rng, i: gen.rect(rng, 16, 16, min_n=10, scales="any") | dict(mesh="plain"), 6, 80
)(body)


def _gen_deep(rng, i):
    p = gen.rect(rng, 2, 2, scales="any")
    return p | dict(mesh="refined", r=[11, 10, 13, 16, 12, 15][i % 6] if p["nx"] * p["ny"] < 3 else rng.choice([10, 11]))


CHECK.family("deep", _gen_deep, 3, 40, weight=3, needs=["located", "outside"])(body)
