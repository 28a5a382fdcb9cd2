"""C03: refining a grid subdivides every triangle without losing the boundary."""

from harness import gen, mesh
from harness.core import Check

CHECK = Check(
    "C03",
    "A case is a rectangle, fixed sides and a chain of refinement factors; after every refinement the"
    " refined grid is recomputed from its points and triangles and compared with the coarse grid and"
    " with the grid generated directly. Non-trivial: at least one factor above one.",
    ["refinement is applied to grids generated by the same domain, as documented"],
)


def _gen(rng, i, cap=420):
    p = gen.rect(rng, 6, 6, scales="any")
    chain = rng.choice([[2], [3], [4], [5], [6], [7], [1], [2, 2], [2, 3], [3, 2], [1, 3], [3, 1], [2, 1, 2]])
    q = 1
    for r in chain:
        q *= r
    while p["nx"] * p["ny"] * q * q > cap and p["nx"] * p["ny"] > 1:
        k = "nx" if p["nx"] > p["ny"] else "ny"
        side = "width" if k == "nx" else "height"
        p[side] = p[side] * (p[k] - 1) / p[k] if p["kind"] != "decimal" else (p[k] - 1) * p["scale"]
        p[k] -= 1
    # make the number of cells certain again
    if p["kind"] == "uneven":
        p["width"], p["height"] = (p["nx"] + 0.4) * p["scale"], (p["ny"] + 0.7) * p["scale"]
    else:
        p["width"], p["height"] = p["nx"] * p["scale"], p["ny"] * p["scale"]
    sides = gen.all_side_sets()[i % 16]
    return p | dict(chain=chain, sides=sides, fix=gen.fix_repr(rng, sides))


def _check_one(c, p, coarse, fine, r, s, what):
    """coarse has cells of size s, fine was refined from it by r."""
    nx, ny = p["nx"], p["ny"]
    W, H = nx * p["scale"], ny * p["scale"]
    P, Q = mesh.pts(coarse), mesh.pts(fine)
    sf = s / r
    sides = mesh.check_conforming(c, fine, Q, W * H, sf, what)
    n, m = round(W / sf), round(H / sf)
    c.eq(len(Q), (n + 1) * (m + 1), f"{what}: number of points")
    for x, y in Q:
        i, j = round(x / sf), round(y / sf)
        c.check(
            abs(x - i * sf) < 1e-8 * sf * (1 + i) and abs(y - j * sf) < 1e-8 * sf * (1 + j),
            f"{what}: point {(x, y)} is no node of the subdivision",
        )
    c.eq(len(fine.triangles), r * r * len(coarse.triangles), f"{what}: number of triangles")
    for v, (a, b) in enumerate(zip(P, Q)):
        c.check(a == b, f"{what}: coarse vertex {v} moved from {a} to {b}")
    # every coarse triangle consists of r*r triangles similar to it
    owner = {}
    for t in coarse.triangles:
        cx, cy = (sum(P[v][k] for v in t) / 3 for k in (0, 1))
        owner[_half_cell(cx, cy, s)] = t
    c.eq(len(owner), len(coarse.triangles), f"{what}: coarse triangles")
    parts = {}
    for t in fine.triangles:
        cx, cy = (sum(Q[v][k] for v in t) / 3 for k in (0, 1))
        o = owner.get(_half_cell(cx, cy, s))
        c.check(o is not None, f"{what}: fine triangle {t} lies in no coarse triangle")
        parts[o] = parts.get(o, 0) + 1
        c.check(
            _side_dirs(Q, t, sf) == _side_dirs(P, o, s),
            f"{what}: fine triangle {t} is not similar to coarse triangle {o}",
        )
    c.check(
        all(parts.get(t) == r * r for t in map(tuple, coarse.triangles)),
        f"{what}: a coarse triangle is not split into {r * r} parts",
    )
    mesh.check_boundaries(c, fine, Q, sides, p["sides"], W, H, sf, what)
    for cb, fb in (
        (coarse.boundary, fine.boundary),
        (coarse.dirichlet_boundary, fine.dirichlet_boundary),
        (coarse.neumann_boundary, fine.neumann_boundary),
    ):
        c.eq(len(fb.edges), r * len(cb.edges), f"{what}: pieces of a boundary part")
        c.check(set(cb.vertices) <= set(fb.vertices), f"{what}: a coarse boundary vertex is lost")
    # boundary edges are usable as edges of the refined grid
    edges = {tuple(e) for e in fine.edges}
    for b in (fine.boundary, fine.dirichlet_boundary, fine.neumann_boundary):
        c.check(
            all(tuple(e) in edges for e in b.edges), f"{what}: a boundary edge is no edge of the grid"
        )


def _half_cell(x, y, s):
    i, j = int(x // s), int(y // s)
    return i, j, (x - i * s) > (y - j * s)


def _side_dirs(P, t, s):
    return sorted(
        (round(abs(P[t[a]][0] - P[t[b]][0]) / s, 5), round(abs(P[t[a]][1] - P[t[b]][1]) / s, 5))
        for a, b in ((0, 1), (1, 2), (2, 0))
    )


def body(c, p):
    from tvemoves_rufbad.domain import RectangleDomain

    d = gen.domain(p)
    g, s, q = d.grid(p["scale"]), p["scale"], 1
    for k, r in enumerate(p["chain"]):
        before = mesh.snapshot(g)
        fine = d.refine(g, r)
        what = f"refinement {k + 1} by {r}"
        c.check(mesh.snapshot(g) == before, f"{what}: the coarse grid changed")
        c.check(fine.coarse() is g or fine.coarse() == g, f"{what}: coarse() is another grid")
        c.check(
            mesh.snapshot(fine.coarse()) == before, f"{what}: coarse() lists other objects than the coarse grid"
        )
        _check_one(c, p, g, fine, r, s, what)
        q *= r
        direct = RectangleDomain(
            p["nx"] * p["scale"], p["ny"] * p["scale"], p["sides"] or None
        ).grid(p["scale"] / q)
        c.check(fine == direct, f"{what}: differs from the directly generated grid")
        c.check(direct == fine, f"{what}: the directly generated grid differs from it")
        again = d.refine(g, r)
        c.check(
            mesh.snapshot(again) == mesh.snapshot(fine), f"{what}: refining twice gives different grids"
        )
        g, s = fine, s / r
        c.count("refinements")
    c.trivial = q == 1


CHECK.family("chains", _gen, 80, 1200, needs=["refinements"])(body)


def _many(rng, i):
    """Larger factors on few cells."""
    p = gen.rect(rng, 2, 2, scales="any", kinds=["integer", "product"])
    sides = gen.all_side_sets()[(5 * i + 3) % 16]
    return p | dict(chain=[rng.choice([8, 9, 10, 11, 12])], sides=sides, fix=gen.fix_repr(rng, sides))


CHECK.family("large_factors", _many, 8, 80)(body)


def _dense(rng, i):
    """Many coarse triangles with large factors: more than a thousand points."""
    nx, ny, r = [(5, 5, 9), (9, 3, 6), (2, 11, 7), (4, 6, 8), (12, 12, 3), (1, 19, 8)][i % 6]
    s = rng.choice([1.0, 0.1, 10 ** rng.uniform(-6, 3)])
    sides = gen.all_side_sets()[rng.randrange(16)]
    return dict(nx=nx, ny=ny, scale=s, width=nx * s, height=ny * s, kind="product", chain=[r],
                sides=sides, fix=gen.fix_repr(rng, sides))


CHECK.family("dense", _dense, 2, 12, weight=6, timeout=300)(body)


def _far(rng, i):
    """Coordinates far from the origin, where absolute tolerances break."""
    s = rng.choice([1.0, 10.0, 100.0, 1e3, 0.37, 17.3])
    long, short = rng.randint(8, 16), 1
    nx, ny = (long, short) if i % 2 else (short, long)
    sides = gen.all_side_sets()[(3 * i + 1) % 16]
    return dict(nx=nx, ny=ny, scale=s, width=nx * s, height=ny * s, kind="product",
                chain=rng.choice([[3, 2], [5], [7], [2, 3], [3, 3] if long < 10 else [3]]),
                sides=sides, fix=gen.fix_repr(rng, sides))


CHECK.family("far_from_origin", _far, 16, 200)(body)


@CHECK.family("rejects", lambda rng, i: gen.rect(rng, 3, 3) | dict(r=[0, -1, -2, -7][i % 4]), 8, 40)
def rejects(c, p):
    d = gen.domain(p)
    g = d.grid(p["scale"])
    before = mesh.snapshot(g)
    c.raises(ValueError, lambda: d.refine(g, p["r"]), f"refinement factor {p['r']}")
    c.check(mesh.snapshot(g) == before, "a rejected refinement changed the grid")


def _gen_large(rng, i):
    p = gen.enlarge(_gen(rng, i), i)
    return p | dict(chain=[2])


CHECK.family("large", _gen_large, 2, 12, weight=4)(body)
CHECK.family("very_large_factors", lambda rng, i: _gen(rng, i) | dict(nx=1, ny=1, width=1, height=1, scale=1, chain=[[12], [17], [3, 5], [11]][i % 4]), 3, 12, weight=3)(body)
