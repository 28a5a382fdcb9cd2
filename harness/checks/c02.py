"""C02: fixed and free boundary partition the boundary of a grid."""

from harness import gen, mesh
from harness.core import Check

CHECK = Check(
    "C02",
    "A case is a rectangle, a scale, a set of fixed sides (all 16 are enumerated) and one of its"
    " equivalent representations; expected boundary parts are recomputed from the geometry."
    " Non-trivial: at least one side fixed or free.",
)


def _check(c, p, g, sides_fixed, nx, ny, s, what):
    P = mesh.pts(g)
    mesh.check_boundaries(
        c, g, P, mesh.side_count(g.triangles), sides_fixed, nx * s, ny * s, s, what
    )


def _gen(rng, i):
    p = gen.rect(rng, 7, 7)
    if i % 5 == 0:
        p = gen.rect(rng, 25, 4)
    sides = gen.all_side_sets()[i % 16]
    return p | dict(sides=sides, fix=gen.fix_repr(rng, sides))


@CHECK.family("grids", _gen, 192, 4000)
def grids(c, p):
    d = gen.domain(p)
    before = repr((d.width, d.height, d.fix))
    g = d.grid(p["scale"])
    _check(c, p, g, p["sides"], p["nx"], p["ny"], p["scale"], "grid")
    # the domain is reusable: another scale, then the same one again
    s2 = p["scale"] / 2
    _check(c, p, d.grid(s2), p["sides"], *_cells(p, s2), s2, "second grid of the same domain")
    g3 = d.grid(p["scale"])
    c.check(g3 == g, "a second grid with the same scale differs from the first")
    _check(c, p, g3, p["sides"], p["nx"], p["ny"], p["scale"], "third grid of the same domain")
    c.eq(repr((d.width, d.height, d.fix)), before, "domain after generating grids")


def _cells(p, s):
    return int(p["width"] / s * (1 + 1e-9)), int(p["height"] / s * (1 + 1e-9))


@CHECK.family("representations", lambda rng, i: gen.rect(rng, 5, 5) | dict(sides=gen.all_side_sets()[i % 16]), 32, 400)
def representations(c, p):
    """Every order, repetition and type of the same set of sides gives the same grid."""
    from itertools import permutations

    from tvemoves_rufbad.domain import RectangleDomain

    sides = p["sides"]
    reps = [list(q) for q in permutations(sides)]
    reps += [r + r[:1] for r in reps[:3]] + [r[:1] + r for r in reps[:3]] + [r + r for r in reps[:2]]
    if len(sides) == 1:
        reps += [sides[0]]
    if not sides:
        reps += [None]
    first = None
    for r in reps:
        arg = list(r) if isinstance(r, list) else r
        g = RectangleDomain(p["width"], p["height"], arg).grid(p["scale"])
        c.eq(arg, r, "fix argument after generating a grid")
        _check(c, p, g, sides, p["nx"], p["ny"], p["scale"], f"fix={r}")
        if first is None:
            first = g
        c.check(first == g and g == first, f"grid for fix={r} differs from the one for {reps[0]}")
        c.count("representations")


def _ref(rng, i):
    p = gen.rect(rng, 3, 3, scales="any")
    sides = gen.all_side_sets()[i % 16]
    return p | dict(sides=sides, fix=gen.fix_repr(rng, sides), r=rng.randint(1, 4))


@CHECK.family("refined", _ref, 32, 600)
def refined(c, p):
    d = gen.domain(p)
    g = d.refine(d.grid(p["scale"]), p["r"])
    _check(c, p, g, p["sides"], p["nx"], p["ny"], p["scale"], "refined grid")


@CHECK.family("long strips", _gen, 6, 40)
def strips(c, p):
    n = c.rng.choice([101, 130, 257, 1100])
    p = p | (dict(nx=n, ny=1) if c.rng.random() < 0.5 else dict(nx=2, ny=n))
    p |= dict(width=p["nx"] * p["scale"], height=p["ny"] * p["scale"])
    grids(c, p)


@CHECK.family("huge", lambda rng, i: dict(n=i % 2, sides=gen.fix_sides(rng, rng.choice([1, 2, 2, 3])), scale=rng.choice([1.0, 0.1])), 2, 10, weight=3)
def huge(c, p):
    """More than 2^15 vertices; the boundary has more edges than that or far fewer."""
    nx, ny = [(33000, 1), (185, 182)][p["n"]]
    s = p["scale"]
    q = dict(nx=nx, ny=ny, scale=s, width=nx * s, height=ny * s)
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(q["width"], q["height"], list(p["sides"])).grid(s)
    _check(c, q, g, p["sides"], nx, ny, s, "huge grid")
