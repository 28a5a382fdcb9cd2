"""C01: rectangle grids are conforming triangulations of the domain."""

from harness import gen, mesh
from harness.core import Check

CHECK = Check(
    "C01",
    "A case is a rectangle and a scale, with the number of cells that must fit known by construction"
    " (product, decimal, fraction, integer and non-dividing kinds; scale 1e-6..1e4; 1..40 cells per"
    " side). Every case builds the real grid and recomputes its topology from points and triangles;"
    " all cases are non-trivial.",
    ["a scale divides a side if the quotient is an integer up to relative rounding 1e-11"],
)


def check_grid(c, p):
    grid = gen.make_grid(p)
    nx, ny, s = p["nx"], p["ny"], p["scale"]
    P = mesh.pts(grid)
    c.eq(len(P), (nx + 1) * (ny + 1), "number of points")
    sides = mesh.check_conforming(c, grid, P, nx * ny * s * s, s, "grid")
    want = {(i, j) for i in range(nx + 1) for j in range(ny + 1)}
    got = set()
    for x, y in P:
        i, j = round(x / s), round(y / s)
        c.check(
            abs(x - i * s) <= 1e-9 * s * (1 + i) and abs(y - j * s) <= 1e-9 * s * (1 + j),
            f"point {(x, y)} is no lattice point",
        )
        got.add((i, j))
    c.check(got == want, "the points are not exactly the lattice points of the rectangle")
    c.check(
        max(x for x, _ in P) <= p["width"] * (1 + 1e-9)
        and max(y for _, y in P) <= p["height"] * (1 + 1e-9),
        "the grid leaves the domain",
    )
    for t in grid.triangles:
        # right triangle with two axis-parallel legs of length scale
        q = [P[v] for v in t]
        d = [
            (abs(q[a][0] - q[b][0]) / s, abs(q[a][1] - q[b][1]) / s)
            for a, b in ((0, 1), (1, 2), (2, 0))
        ]
        legs = sorted((round(x, 6), round(y, 6)) for x, y in d)
        c.check(
            legs == [(0.0, 1.0), (1.0, 0.0), (1.0, 1.0)], f"triangle {q} has the wrong legs"
        )
    W, H = nx * s, ny * s
    b = {mesh.key(tuple(e)) for e in grid.boundary.edges}
    c.eq(len(grid.boundary.edges), 2 * (nx + ny), "number of boundary edges")
    c.check(b == mesh.boundary_sides(sides), "boundary edges are not the sides with one triangle")
    c.check(
        all(
            any(mesh.on_side(P, e, side, W, H, 1e-6 * s) for side in gen.SIDES) for e in b
        ),
        "a boundary edge does not lie on the boundary",
    )
    c.count(p["kind"])
    return grid


@CHECK.family("small", lambda rng, i: gen.rect(rng, 6, 6), 160, 3000)
def small(c, p):
    check_grid(c, p)


def _strip(rng, i):
    p = gen.rect(rng, 40, 3)
    if rng.random() < 0.5:
        p["nx"], p["ny"] = p["ny"], p["nx"]
        p["width"], p["height"] = p["height"], p["width"]
    return p


@CHECK.family("strips", _strip, 40, 800)
def strips(c, p):
    check_grid(c, p)


@CHECK.family("large", lambda rng, i: gen.rect(rng, 40, 40, 12), 12, 200)
def large(c, p):
    check_grid(c, p)


def _decimals(rng, i):
    """Exhaustive over scales of one and two decimals: k * scale as a decimal literal."""
    d = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 21, 25, 33][i % 16]
    den = [10, 100, 1000, 10][(i // 16) % 4]
    return dict(d=d, den=den, fixed=1)


@CHECK.family("decimal_literals", _decimals, 64, 64)
def decimal_literals(c, p):
    from fractions import Fraction

    from tvemoves_rufbad.domain import RectangleDomain

    scale = float(Fraction(p["d"], p["den"]))
    for n in list(range(1, 60)) + [97, 128, 193]:
        w = float(Fraction(p["d"], p["den"]) * n)
        # one row keeps this linear in n
        g = RectangleDomain(w, scale).grid(scale)
        c.eq(len(g.points), 2 * (n + 1), f"points for width {w}, scale {scale}")
        g = RectangleDomain(scale, w).grid(scale)
        c.eq(len(g.points), 2 * (n + 1), f"points for height {w}, scale {scale}")
        c.count("literals", 2)


@CHECK.family("with_fixed_sides", lambda rng, i: gen.rect(rng, 6, 6) | {"fix": gen.fix_sides(rng)}, 40, 600)
def with_fixed_sides(c, p):
    check_grid(c, p)


HUGE = [(1500, 1), (1, 1300), (40000, 1), (1, 36000), (190, 180)]


@CHECK.family("huge", lambda rng, i: dict(n=i % len(HUGE), scale=rng.choice([1.0, 0.1, 10 ** rng.uniform(-6, 4)])), 5, 25, weight=3)
def huge(c, p):
    """More than a thousand cells in a row, more than 2^15 vertices."""
    nx, ny = HUGE[p["n"]]
    s = p["scale"]
    check_grid(c, dict(nx=nx, ny=ny, scale=s, width=nx * s, height=ny * s, kind="product"))
