"""Reference view of a grid: topology and geometry recomputed from points and triangles only."""

from __future__ import annotations
from collections import Counter


def pts(grid):
    return [(float(p[0]), float(p[1])) for p in grid.points]


def key(e):
    return (e[0], e[1]) if e[0] < e[1] else (e[1], e[0])


def area2(P, t):
    (ax, ay), (bx, by), (cx, cy) = P[t[0]], P[t[1]], P[t[2]]
    return (bx - ax) * (cy - ay) - (cx - ax) * (by - ay)


def side_count(triangles):
    cnt = Counter()
    for a, b, c in triangles:
        cnt[key((a, b))] += 1
        cnt[key((b, c))] += 1
        cnt[key((c, a))] += 1
    return cnt


def check_conforming(c, grid, P, total_area, size, what):
    """Ids, uniqueness, orientation, edges = sides, each shared at most twice, exact cover.

    A family of positively oriented triangles whose sides match in opposite directions inside and
    whose total area equals the area of the enclosed region tiles that region without overlap.
    """
    n = len(P)
    c.eq(list(grid.vertices), list(range(n)), f"{what}: vertex ids")
    tol = 1e-6 * size
    cells = Counter((round(x / tol), round(y / tol)) for x, y in P)
    c.check(
        len(cells) == n or _no_close_pairs(P, tol), lambda: f"{what}: two vertices share a position"
    )
    tri = [tuple(t) for t in grid.triangles]
    c.check(
        all(len(set(t)) == 3 and all(0 <= v < n for v in t) for t in tri),
        f"{what}: a triangle has invalid vertices",
    )
    c.check(len({frozenset(t) for t in tri}) == len(tri), f"{what}: a triangle occurs twice")
    directed = Counter()
    for a, b, d in tri:
        directed.update([(a, b), (b, d), (d, a)])
    c.check(
        all(v == 1 for v in directed.values()),
        lambda: f"{what}: triangles overlap or differ in orientation at side"
        f" {next(k for k, v in directed.items() if v > 1)}",
    )
    areas = [area2(P, t) / 2 for t in tri]
    c.check(all(a > 0 for a in areas), lambda: f"{what}: a triangle is not counterclockwise")
    c.close(sum(areas), total_area, f"{what}: area covered by the triangles", rtol=1e-8)
    sides = side_count(tri)
    c.check(max(sides.values()) <= 2, f"{what}: a side belongs to more than two triangles")
    edges = [tuple(e) for e in grid.edges]
    keys = [key(e) for e in edges]
    c.check(len(set(keys)) == len(keys), f"{what}: an edge occurs twice")
    c.check(
        set(keys) == set(sides),
        lambda: f"{what}: edges are not the sides of the triangles, difference"
        f" {sorted(set(keys) ^ set(sides))[:6]}",
    )
    used = {v for t in tri for v in t}
    c.eq(len(used), n, f"{what}: number of vertices used by triangles")
    # Euler characteristic of a disk
    c.eq(n - len(keys) + len(tri), 1, f"{what}: Euler characteristic")
    c.count("triangles", len(tri))
    c.count("edges", len(edges))
    return sides


def _no_close_pairs(P, tol):
    order = sorted(range(len(P)), key=lambda i: P[i])
    for a in range(len(order)):
        x, y = P[order[a]]
        b = a + 1
        while b < len(order) and P[order[b]][0] - x < tol:
            if abs(P[order[b]][1] - y) < tol:
                return False
            b += 1
    return True


def boundary_sides(sides):
    return {k for k, v in sides.items() if v == 1}


def on_side(P, e, side, W, H, tol):
    (ax, ay), (bx, by) = P[e[0]], P[e[1]]
    if side == "lower":
        return abs(ay) < tol and abs(by) < tol
    if side == "upper":
        return abs(ay - H) < tol and abs(by - H) < tol
    if side == "left":
        return abs(ax) < tol and abs(bx) < tol
    return abs(ax - W) < tol and abs(bx - W) < tol


def check_boundaries(c, grid, P, sides, fixed, W, H, size, what):
    """The three boundary parts are exactly the ones implied by geometry and fixed sides."""
    tol = 1e-6 * size
    expected = boundary_sides(sides)
    parts = {
        "boundary": expected,
        "dirichlet": {
            e for e in expected if any(on_side(P, e, s, W, H, tol) for s in fixed)
        },
    }
    parts["neumann"] = expected - parts["dirichlet"]
    for name, b in (
        ("boundary", grid.boundary),
        ("dirichlet", grid.dirichlet_boundary),
        ("neumann", grid.neumann_boundary),
    ):
        keys = [key(tuple(e)) for e in b.edges]
        c.check(len(set(keys)) == len(keys), f"{what}: a {name} edge occurs twice")
        c.check(
            set(keys) == parts[name],
            lambda: f"{what}: {name} edges differ from the expected ones by"
            f" {sorted(set(keys) ^ parts[name])[:6]}",
        )
        listed = list(b.vertices)
        c.check(len(set(listed)) == len(listed), f"{what}: a {name} vertex is listed twice")
        ends = {v for e in parts[name] for v in e}
        c.check(
            set(listed) == ends,
            lambda: f"{what}: {name} vertices differ from the end points of the {name} edges by"
            f" {sorted(set(listed) ^ ends)[:6]}",
        )
        c.count(f"{name}_edges", len(keys))


def snapshot(grid):
    """Deep value snapshot of everything public in a grid."""
    return (
        list(grid.vertices),
        [tuple(e) for e in grid.edges],
        [tuple(t) for t in grid.triangles],
        [tuple(p) for p in pts(grid)],
        tuple(
            (list(b.vertices), [tuple(e) for e in b.edges])
            for b in (grid.boundary, grid.dirichlet_boundary, grid.neumann_boundary)
        ),
    )
