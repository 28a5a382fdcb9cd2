"""Case generators and builders shared by the checks."""

from __future__ import annotations
import math
from fractions import Fraction

SIDES = ["lower", "right", "upper", "left"]


def rect(rng, max_nx=8, max_ny=8, min_n=1, scales="any", kinds=None):
    """Parameters of a rectangle together with the number of cells that must fit by construction."""
    nx, ny = rng.randint(min_n, max_nx), rng.randint(min_n, max_ny)
    kind = rng.choice(kinds or ["product", "decimal", "fraction", "uneven", "uneven", "integer"])
    ux = uy = 0.0
    if kind == "decimal":
        d = rng.choice(["0.1", "0.2", "0.3", "0.05", "0.4", "0.7", "0.15", "0.01", "1.1", "0.025"])
        if scales == "unit":
            d = rng.choice(["0.1", "0.2", "0.3", "0.05", "0.4", "0.7", "0.15", "1.1"])
        scale = float(d)
        width, height = float(Fraction(d) * nx), float(Fraction(d) * ny)
    elif kind == "fraction":
        k = rng.choice([2, 3, 4, 5, 6, 7, 9, 11, 15, 49])
        scale = 1 / k
        width, height = nx / k, ny / k
    elif kind == "integer":
        scale = rng.choice([1, 2, 3, 1.0, 0.5, 0.25])
        width, height = nx * scale, ny * scale
    else:
        if scales == "unit":
            scale = rng.uniform(0.05, 2.0)
        elif scales == "moderate":
            scale = 10 ** rng.uniform(-2, 2)
        elif scales == "wide":
            scale = 10 ** rng.choice([rng.uniform(-2, 2), rng.uniform(-6, 4)])
        else:
            scale = 10 ** rng.choice([rng.uniform(-2, 2), rng.uniform(-9, 6)])
        if kind == "uneven":
            # what remains after the last whole cell may be tiny or almost a whole cell
            rest = lambda: rng.choice([rng.uniform(0.02, 0.97)] * 2 + [10 ** rng.uniform(-6, -2), 1 - 10 ** rng.uniform(-6, -2)])
            ux, uy = rng.choice([0.0, rest()]), rest()
            if rng.random() < 0.5:
                ux, uy = uy, ux
        width, height = (nx + ux) * scale, (ny + uy) * scale
    return dict(nx=nx, ny=ny, scale=scale, width=width, height=height, kind=kind)


LARGE = [(12, 10), (70, 1), (10, 13), (1, 66), (33, 4), (3, 45)]
HUGE = [(24, 22), (2, 180), (33, 32), (260, 2)]


def enlarge(p, i, sizes=LARGE):
    """The same kind of case on a grid of more than 128 (or 512) vertices and triangles."""
    nx, ny = sizes[i % len(sizes)]
    s = p["scale"]
    p = p | dict(nx=nx, ny=ny, width=nx * s, height=ny * s)
    if p.get("mesh") == "refined":
        p["mesh"] = "plain"
    return p


def fix_sides(rng, k=None):
    if k is None:
        k = rng.choice([0, 1, 1, 2, 2, 3, 4])
    return sorted(rng.sample(SIDES, k))


def all_side_sets():
    return [[s for b, s in enumerate(SIDES) if m >> b & 1] for m in range(16)]


def fix_repr(rng, sides):
    """One of the equivalent ways to pass a set of fixed sides (JSON-able)."""
    if not sides:
        return rng.choice([None, []])
    reps = list(sides)
    if len(reps) == 1 and rng.random() < 0.4:
        return reps[0]
    rng.shuffle(reps)
    while rng.random() < 0.3:
        reps.insert(rng.randrange(len(reps) + 1), rng.choice(sides))
    return reps


def domain(p):
    from tvemoves_rufbad.domain import RectangleDomain

    return RectangleDomain(p["width"], p["height"], p.get("fix"))


def make_grid(p):
    return domain(p).grid(p["scale"])


def bary(rng, kind=None):
    """Random barycentric coordinates as a triple: interior, on an edge, at a vertex."""
    kind = kind or rng.choice(["in", "in", "in", "edge", "vertex", "centroid", "near"])
    if kind == "vertex":
        i = rng.randrange(3)
        return [1.0 if j == i else 0.0 for j in range(3)]
    if kind == "edge":
        i, t = rng.randrange(3), rng.random()
        l = [0.0, 0.0, 0.0]
        l[i], l[(i + 1) % 3] = t, 1 - t
        return l
    if kind == "centroid":
        return [1 / 3, 1 / 3, 1 / 3]
    a, b = sorted([rng.random(), rng.random()])
    if kind == "near":
        a, b = a * 1e-3, 1 - (1 - b) * 1e-3
    l = [b - a, a, 1 - b]
    rng.shuffle(l)
    return l


def cluster(rng, l, count=3):
    """Points of the triangle at distances 10^-k from l; revisiting near-duplicates defeats memos."""
    res = []
    for _ in range(count):
        m, d = bary(rng, "in"), 10.0 ** -rng.randint(1, 9)
        res.append([(1 - d) * a + d * b for a, b in zip(l, m)])
    return res + [list(l)]


def bc(l):
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    return BarycentricCoordinates(l[0], l[1])


def rotation(phi):
    return [[math.cos(phi), -math.sin(phi)], [math.sin(phi), math.cos(phi)]]
