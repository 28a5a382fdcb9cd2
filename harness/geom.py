"""Geometric helpers and hand-made grids (arbitrary triangulations built from the public classes)."""

from __future__ import annotations
import math
import numpy as np


def euclid(P, t, l):
    return tuple(sum(l[k] * P[t[k]][a] for k in range(3)) for a in (0, 1))


def triangle(rng, size=1.0, offset=0.0, min_quality=0.08, orientation=None):
    """Random triangle (three points) whose height over diameter is at least min_quality."""
    while True:
        p = [(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(3)]
        kind = rng.random()
        if kind < 0.15:  # axis aligned right triangle
            a, b = rng.uniform(0.2, 1), rng.uniform(0.2, 1)
            p = [(0, 0), (a, 0), (a, b)]
        elif kind < 0.25:  # equilateral
            p = [(0, 0), (1, 0), (0.5, math.sqrt(3) / 2)]
        elif kind < 0.35:  # integer coordinates
            p = [(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(3)]
        elif kind < 0.45:  # sides almost parallel to the axes
            a, b, d = rng.uniform(0.2, 1), rng.uniform(0.2, 1), 10 ** rng.uniform(-7, -2)
            p = [(x + d * rng.uniform(-1, 1), y + d * rng.uniform(-1, 1)) for x, y in [(0, 0), (a, 0), (a, b)]]
        if rng.random() < 0.5:
            s = rng.randrange(3)
            p = p[s:] + p[:s]
        a2 = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])
        d = max(math.dist(p[i], p[j]) for i in range(3) for j in range(i))
        if d == 0 or abs(a2) / d**2 < min_quality:
            continue
        if orientation is not None and (a2 > 0) != (orientation > 0):
            p = [p[0], p[2], p[1]]
        ox, oy = rng.uniform(-offset, offset), rng.uniform(-offset, offset)
        return [[x * size + ox, y * size + oy] for x, y in p]


def vectors(points):
    from tvemoves_rufbad.tensors import Vector

    return tuple(Vector([x, y]) for x, y in points)


def copy_boundary(b):
    from tvemoves_rufbad.domain import Boundary

    return Boundary(list(b.vertices), [tuple(e) for e in b.edges])


def edge_set(b):
    return {tuple(sorted(e)) for e in b.edges}


def rebuild(grid, points=None, triangles=None, edges=None, boundary=None, dirichlet=None, neumann=None):
    """Plain Grid with the given parts replaced and everything else copied."""
    from tvemoves_rufbad.domain import Grid
    from tvemoves_rufbad.tensors import Vector

    pts = points if points is not None else [(p[0], p[1]) for p in grid.points]
    return Grid(
        list(range(len(pts))),
        [tuple(e) for e in (edges if edges is not None else grid.edges)],
        [tuple(t) for t in (triangles if triangles is not None else grid.triangles)],
        boundary or copy_boundary(grid.boundary),
        dirichlet or copy_boundary(grid.dirichlet_boundary),
        neumann or copy_boundary(grid.neumann_boundary),
        [Vector([x, y]) for x, y in pts],
    )


EXACT = (
    [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]], [[1, 1], [0, 1]], [[1, -1], [0, 1]], [[1, 0], [-1, 1]],
    [[1, -1], [1, 1]], [[2, 1], [1, 1]], [[1, -2], [0, 1]], [[0.5, -0.5], [0.5, 0.5]],
)


def distorted(rng, grid, scale, inner=0.18, affine=True):
    """The same topology with an affine image of randomly perturbed vertices (orientation kept)."""
    A = np.eye(2)
    if affine and rng.random() < 0.3:  # an exact image: edges of any of eight directions, no perturbation
        A = np.array(rng.choice(EXACT), dtype=float)
        off = np.array([rng.randint(-2, 2) * scale, rng.randint(-2, 2) * scale])
        return rebuild(grid, points=[tuple(float(z) for z in A @ np.array([p[0], p[1]], dtype=float) + off) for p in grid.points])
    if affine:
        while True:
            A = np.array([[rng.uniform(-1.5, 1.5) for _ in range(2)] for _ in range(2)])
            if np.linalg.det(A) > 0.4 and np.linalg.cond(A) < 6:
                break
    off = np.array([rng.uniform(-3, 3) * scale, rng.uniform(-3, 3) * scale]) if affine else 0.0
    pts = []
    for p in grid.points:
        q = np.array([p[0], p[1]], dtype=float) + inner * scale * np.array(
            [rng.uniform(-1, 1), rng.uniform(-1, 1)]
        )
        pts.append(tuple(float(z) for z in A @ q + off))
    return rebuild(grid, points=pts)


def sheared(rng, grid, fine, scale):
    """An affine image of a grid and its refinement (weights and topology do not change)."""
    from tvemoves_rufbad.domain import BarycentricPoint, RefinedGrid
    from tvemoves_rufbad.tensors import BarycentricCoordinates as B, Vector

    while True:
        A = np.array([[rng.uniform(-1.3, 1.3) for _ in range(2)] for _ in range(2)])
        if np.linalg.det(A) > 0.4 and np.linalg.cond(A) < 4:
            break
    off = scale * np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)])
    move = lambda g: [tuple(map(float, A @ np.array([p[0], p[1]], dtype=float) + off)) for p in g.points]
    coarse = rebuild(grid, points=move(grid))
    host, coords, sides, weights = {}, {}, {}, {}
    for t in map(tuple, fine.triangles):
        q = [fine.to_coarse_barycentric_point(BarycentricPoint(t, B(*l))) for l in ((1.0, 0.0), (0.0, 1.0), (0.0, 0.0))]
        host[t], coords[t] = q[0].triangle, tuple(z.coordinates for z in q)
    for e in (d for i, j in fine.edges for d in ((i, j), (j, i))):
        try:
            (sides[e], a), (_, b) = fine.to_coarse_edge_point(e, 1.0), fine.to_coarse_edge_point(e, 0.0)
        except ValueError:
            continue
        weights[e] = (a, b)
    return coarse, RefinedGrid(
        list(fine.vertices), [tuple(e) for e in fine.edges], [tuple(t) for t in fine.triangles],
        copy_boundary(fine.boundary), copy_boundary(fine.dirichlet_boundary), copy_boundary(fine.neumann_boundary),
        [Vector([x, y]) for x, y in move(fine)], coarse, host, coords, sides, weights,
    )


def renumber(rng, grid, shuffle=True, shuffle_ids=True):
    """Random renumbering of the vertices, reordering, edge reversal and triangle rotation."""
    from tvemoves_rufbad.domain import Boundary, Grid
    from tvemoves_rufbad.tensors import Vector

    n = len(grid.points)
    perm = list(range(n))  # old id -> new id
    rng.shuffle(perm)
    inv = [0] * n
    for a, b in enumerate(perm):
        inv[b] = a

    def edge(e):
        e = (perm[e[0]], perm[e[1]])
        return e if rng.random() < 0.5 else (e[1], e[0])

    def tri(t):
        t = tuple(perm[v] for v in t)
        k = rng.randrange(3)
        return t[k:] + t[:k]

    def mix(xs):
        xs = list(xs)
        if shuffle:
            rng.shuffle(xs)
        return xs

    def bnd(b):
        return Boundary(mix(perm[v] for v in b.vertices), mix(edge(e) for e in b.edges))

    return Grid(
        mix(range(n)) if shuffle_ids else list(range(n)),
        mix(edge(e) for e in grid.edges),
        mix(tri(t) for t in grid.triangles),
        bnd(grid.boundary),
        bnd(grid.dirichlet_boundary),
        bnd(grid.neumann_boundary),
        [Vector([grid.points[inv[k]][0], grid.points[inv[k]][1]]) for k in range(n)],
    )


def grid_case(rng, i, cap=40, scales="moderate", kinds=("plain", "refined", "distorted")):
    """Parameters of a grid of one of several kinds (see build)."""
    from harness import gen

    p = gen.rect(rng, 5, 5, scales=scales)
    p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng))
    p["mesh"] = kinds[i % len(kinds)]
    if p["mesh"] == "refined":
        p["r"] = rng.choice([2, 3, 4])
        while p["nx"] * p["ny"] * p["r"] ** 2 > cap * 4 and p["r"] > 2:
            p["r"] -= 1
    p["gseed"] = rng.randrange(2**31)
    return p


def build(p):
    """(grid, cell size) for grid_case parameters; refined grids return the fine grid."""
    import random
    from harness import gen

    d = gen.domain(p)
    g = d.grid(p["scale"])
    if p["mesh"] == "refined":
        return d.refine(g, p["r"]), p["scale"] / p["r"]
    if p["mesh"] == "distorted":
        rng = random.Random(p["gseed"])
        if rng.random() < 0.3:  # sides almost but not exactly parallel to the axes
            return distorted(rng, g, p["scale"], 10 ** rng.uniform(-6, -1.5), False), p["scale"]
        if rng.random() < 0.25:  # rectangular cells with sides exactly parallel to the axes
            a, b = rng.uniform(0.4, 1.5), rng.choice([1.0, 0.5, rng.uniform(0.4, 1.5)])
            if rng.random() < 0.5:
                a, b = -a, -b
            return rebuild(g, points=[(a * float(q[0]), b * float(q[1])) for q in g.points]), p["scale"]
        return distorted(rng, g, p["scale"]), p["scale"]
    return g, p["scale"]


def adjacency(grid):
    """side key -> list of triangles having that side"""
    from harness import mesh

    res = {}
    for t in grid.triangles:
        t = tuple(t)
        for a, b in ((0, 1), (1, 2), (2, 0)):
            res.setdefault(mesh.key((t[a], t[b])), []).append(t)
    return res


def edge_to_bary(t, e, s):
    """Barycentric triple in triangle t of the point s*e[0] + (1-s)*e[1]."""
    l = [0.0, 0.0, 0.0]
    l[t.index(e[0])], l[t.index(e[1])] = s, 1 - s
    return l
