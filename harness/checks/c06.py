"""C06: grid comparison and lookups see geometry, not numbering."""

import math
from harness import gen, geom, mesh
from harness.core import Check

CHECK = Check(
    "C06",
    "A case is a grid of one of several kinds; it is compared with itself, with random renumberings"
    " and with minimally changed copies (both argument orders), and every point, edge and triangle is"
    " looked up. Non-trivial: every case.",
    ["compared grids contain no duplicate points, edges or triangles (see C01)"],
)


def _equal(c, a, b, what):
    c.check((a == b) is True and (b == a) is True, f"{what} compares unequal")
    c.check(not (a != b), f"{what}: != contradicts ==")
    c.count("equal_pairs")


def _differ(c, a, b, what):
    c.check((a == b) is False and (b == a) is False, f"{what} compares equal")
    c.count("different_pairs")


def body(c, p):
    from tvemoves_rufbad.domain import Boundary
    from tvemoves_rufbad.tensors import Vector

    grid, s = geom.build(p)
    rng = c.rng
    P = mesh.pts(grid)
    n = len(P)
    before = mesh.snapshot(grid)
    _equal(c, grid, grid, "a grid and itself")
    _equal(c, grid, geom.rebuild(grid), "a grid and its copy")
    for _ in range(2):
        _equal(c, grid, geom.renumber(rng, grid), "a grid and its renumbering")
    other = geom.build(p)[0]
    _equal(c, grid, other, "two grids built from the same input")
    noise = [(x + 1e-10 * s * rng.uniform(-1, 1), y + 1e-10 * s * rng.uniform(-1, 1)) for x, y in P]
    _equal(c, grid, geom.rebuild(grid, points=noise), "a grid and a copy up to rounding")

    # -- minimal changes ------------------------------------------------------------------
    def changed(what, **kw):
        g = geom.rebuild(grid, **kw)
        _differ(c, grid, g, what)
        _differ(c, grid, geom.renumber(rng, g), what + " (renumbered)")

    d = 10 ** rng.uniform(-5, -0.5) * s
    v = rng.randrange(n)
    moved = list(P)
    moved[v] = (P[v][0] + rng.choice([-d, d, 0]), P[v][1] + rng.choice([-d, d]))
    changed(f"moving vertex {v} by {d / s:.1e} cells", points=moved)
    edges = [tuple(e) for e in grid.edges]
    keys = {mesh.key(e) for e in edges}
    e = rng.choice(edges)
    changed(f"removing edge {e}", edges=[f for f in edges if f != e])
    free = [(a, b) for a in range(n) for b in range(a) if mesh.key((a, b)) not in keys]
    if free:
        f = rng.choice(free)
        changed(f"replacing edge {e} by {f}", edges=[f if g == e else g for g in edges])
        changed(f"adding edge {f}", edges=edges + [f])
    tris = [tuple(t) for t in grid.triangles]
    t = rng.choice(tris)
    changed(f"removing triangle {t}", triangles=[u for u in tris if u != t])
    changed(f"reversing triangle {t}", triangles=[u[::-1] if u == t else u for u in tris])
    # the same triangles and fewer edges: the comparison of triangles must not rely on the edges
    some = rng.sample(edges, rng.randint(0, len(edges)))
    sparse = geom.rebuild(grid, edges=some)
    _equal(c, sparse, geom.renumber(rng, sparse), "a grid with few edges and its renumbering")
    for k in range(3):
        w = t[::-1]
        w = w[k:] + w[:k]
        _differ(c, sparse, geom.rebuild(sparse, triangles=[w if u == t else u for u in tris]),
                f"reversing triangle {t} to {w} in a grid with {len(some)} edges")
    if n > 3:
        known = {frozenset(u) for u in tris}
        while True:
            u = tuple(rng.sample(range(n), 3))
            if frozenset(u) not in known:
                break
            if n == 4 and len(known) == 4:
                u = None
                break
        if u:
            changed(f"replacing triangle {t} by {u}", triangles=[u if w == t else w for w in tris])

    def b(bd, drop=None, add=None):
        es = [tuple(e) for e in bd.edges if tuple(e) != drop] + ([add] if add else [])
        vs = []
        for e in es:
            for w in e:
                if w not in vs:
                    vs.append(w)
        return Boundary(vs, es)

    bes = [tuple(e) for e in grid.boundary.edges]
    e = rng.choice(bes)
    inner = [g for g in edges if mesh.key(g) not in {mesh.key(h) for h in bes}]
    if inner:
        g = rng.choice(inner)
        # keep the vertex list to make the edge the only difference
        changed(
            f"replacing boundary edge {e} by {g}",
            boundary=Boundary(list(grid.boundary.vertices), [h for h in bes if h != e] + [g]),
        )
    changed(f"removing boundary edge {e}", boundary=b(grid.boundary, drop=e))
    D = [tuple(e) for e in grid.dirichlet_boundary.edges]
    N = [tuple(e) for e in grid.neumann_boundary.edges]
    if D:
        e = rng.choice(D)
        changed(
            f"moving edge {e} from the Dirichlet to the Neumann boundary",
            dirichlet=b(grid.dirichlet_boundary, drop=e), neumann=b(grid.neumann_boundary, add=e),
        )
        vs = list(grid.dirichlet_boundary.vertices)
        changed(
            f"dropping Dirichlet vertex {vs[0]}", dirichlet=Boundary(vs[1:], list(D))
        )
        c.count("dirichlet_changes")
    if N:
        e = rng.choice(N)
        changed(
            f"moving edge {e} from the Neumann to the Dirichlet boundary",
            dirichlet=b(grid.dirichlet_boundary, add=e), neumann=b(grid.neumann_boundary, drop=e),
        )
        vs = list(grid.neumann_boundary.vertices)
        changed(f"dropping Neumann vertex {vs[-1]}", neumann=Boundary(vs[:-1], list(N)))
        c.count("neumann_changes")
    # -- grids that share their lists differ in what they do not share ---------------------------
    from tvemoves_rufbad.domain import Grid

    names = ("vertices", "edges", "triangles", "boundary", "dirichlet_boundary", "neumann_boundary", "points")
    own = [getattr(grid, k) for k in names]
    _equal(c, grid, Grid(*own), "a grid and a grid made of the same lists")
    e = rng.choice(edges)
    others = dict(
        edges=[f for f in edges if f != e], triangles=[u for u in tris if u != t], points=[Vector(list(q)) for q in moved],
        boundary=b(grid.boundary, drop=rng.choice(bes)),
    )
    if D:
        others["dirichlet_boundary"] = b(grid.dirichlet_boundary, drop=rng.choice(D))
    if N:
        others["neumann_boundary"] = b(grid.neumann_boundary, drop=rng.choice(N))
    for k, value in others.items():
        g = Grid(*[value if k == name else x for name, x in zip(names, own)])
        _differ(c, grid, g, f"a grid with other {k}, the rest shared")
        c.count("shared_lists")
    # the same boundary object in several roles
    for d_, n_ in ((own[3], own[5]), (own[4], own[3])):
        g = Grid(own[0], own[1], own[2], own[3], d_, n_, own[6])
        same = geom.edge_set(d_) == geom.edge_set(own[4]) and geom.edge_set(n_) == geom.edge_set(own[5])
        (_equal if same else _differ)(c, grid, g, "a grid whose whole boundary plays another role")
    if D and N:
        changed(
            "swapping Dirichlet and Neumann boundary",
            dirichlet=geom.copy_boundary(grid.neumann_boundary),
            neumann=geom.copy_boundary(grid.dirichlet_boundary),
        )
    changed(
        "changing the vertex list of the boundary",
        boundary=Boundary(list(grid.boundary.vertices)[:-1], bes),
    )
    for x in (None, 1, "grid", [1, 2]):
        c.check(not (grid == x), f"a grid compares equal to {x!r}")

    # -- lookups --------------------------------------------------------------------------
    for v, (x, y) in enumerate(P):
        got = grid.point_to_vertex(Vector([x, y]))
        c.eq(got, v, f"vertex located at {(x, y)}")
        nx = Vector([x + rng.uniform(-1, 1) * 1e-10 * s, y + rng.uniform(-1, 1) * 1e-10 * s])
        c.eq(grid.point_to_vertex(nx), v, f"vertex located at {nx} up to rounding")
        dx, dy = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)])
        off = 10 ** rng.uniform(-4, -1.3) * s
        q = (x + dx * off, y + dy * off)
        if all(abs(q[0] - a) + abs(q[1] - bb) > 1e-5 * s for a, bb in P):
            c.eq(grid.point_to_vertex(Vector(list(q))), None, f"vertex located at {q}")
        c.count("point_lookups")
    for e in edges:
        r = grid.edge_vertices(e)
        c.eq([tuple(q) for q in r], [P[e[0]], P[e[1]]], f"corners of edge {e}")
    for t in tris:
        r = grid.triangle_vertices(t)
        c.eq([tuple(q) for q in r], [P[i] for i in t], f"corners of triangle {t}")
        c.raises(ValueError, lambda: grid.triangle_vertices(t[::-1]), f"corners of {t[::-1]}")
    for f in free[:20] + [(0, 0), (n, 0), (0, n), (-1, 0)]:
        c.raises(ValueError, lambda: grid.edge_vertices(f), f"corners of the foreign edge {f}")
    # pairs and triples that are close to an edge or a triangle in other respects: sum, product, packed value
    known, corners = set(edges), set(tris)
    for base in (10, 100, 1000, 10**4, 10**5, 10**6, 2**8, 2**16, 2**32, n, n + 1):
        i, j = rng.choice(edges)
        for f in ((i - 1, j + base), (i + 1, j - base), (j, i + base), (i + base, j), (i, j + base)):
            if f not in known:
                c.raises(ValueError, lambda: grid.edge_vertices(f), f"corners of the foreign edge {f}")
        i, j, k = rng.choice(tris)
        for u in ((i - 1, j + base, k), (i, j - 1, k + base), (i, j, k + base), (i + base, j, k)):
            if u not in corners:
                c.raises(ValueError, lambda: grid.triangle_vertices(u), f"corners of the foreign triangle {u}")
    for _ in range(10):
        i, j, k = rng.choice(tris)
        f, u = (i + 1, j - 1), rng.choice([(i, j, k, k), (i + 1, j - 1, k), (i, i, k), (j, i, k)])
        if f not in known:
            c.raises(ValueError, lambda: grid.edge_vertices(f), f"corners of the foreign edge {f}")
        if u not in corners:
            c.raises(ValueError, lambda: grid.triangle_vertices(u), f"corners of the foreign triangle {u}")
    for u in [(0, 0, 1), (0, 1, n), (n, n + 1, n + 2)]:
        c.raises(ValueError, lambda: grid.triangle_vertices(u), f"corners of foreign triangle {u}")
    # -- append_edge ------------------------------------------------------------------------
    g = geom.rebuild(grid)
    for e in edges:
        g.append_edge(e)
        g.append_edge((e[1], e[0]))
    c.eq([tuple(e) for e in g.edges], edges, "edges after appending only present ones")
    _equal(c, g, grid, "a grid after appending only present edges")
    if free:
        f = rng.choice(free)
        g.edge_vertices(rng.choice(edges))
        if rng.random() < 0.5:
            c.raises(ValueError, lambda: g.edge_vertices(f), f"corners of {f} before appending it")
        g.append_edge(f)
        c.eq([tuple(q) for q in g.edge_vertices(f)], [P[f[0]], P[f[1]]], f"corners of the appended edge {f}")
        c.eq([tuple(e) for e in g.edges], edges + [f], f"edges after appending {f}")
        g.append_edge(f[::-1])
        g.append_edge(f)
        c.eq(len(g.edges), len(edges) + 1, f"number of edges after appending {f} repeatedly")
        for v, (x, y) in enumerate(P[:5]):
            c.eq(g.point_to_vertex(Vector([x, y])), v, "vertex lookup after appending an edge")
        c.count("appended")
    c.eq(mesh.snapshot(grid), before, "grid after comparisons and lookups")
    # -- comparisons and lookups see the current state of a grid ------------------------------
    a = geom.rebuild(grid)
    _equal(c, a, grid, "a grid and its copy")
    v = rng.randrange(n)
    step = rng.choice([0.25, 1e-3, 10.0]) * s
    new = (P[v][0] + step, P[v][1])
    a.point_to_vertex(Vector(list(P[v])))
    a.points[v] = Vector(list(new))
    if all(max(abs(new[0] - q[0]), abs(new[1] - q[1])) > 1e-5 * s for q in P):
        c.eq(a.point_to_vertex(Vector(list(P[v]))), None, f"vertex at the former position of vertex {v}")
        c.eq(a.point_to_vertex(Vector(list(new))), v, f"vertex at the new position of vertex {v}")
    _differ(c, a, grid, f"a grid in which vertex {v} was moved after a comparison")
    a.points[v] = Vector(list(P[v]))
    _equal(c, a, grid, "a grid in which a vertex was moved and put back")
    e = a.edges.pop(rng.randrange(len(a.edges)))
    c.raises(ValueError, lambda: a.edge_vertices(tuple(e)), f"corners of the removed edge {e}")
    _differ(c, a, grid, f"a grid whose edge {e} was removed after a comparison")
    a.append_edge(tuple(e))
    c.eq([tuple(q) for q in a.edge_vertices(tuple(e))], [P[e[0]], P[e[1]]], f"corners of the edge {e} appended again")
    _equal(c, a, grid, "a grid in which an edge was removed and appended again")
    k = rng.randrange(len(tris))
    a.triangles[k] = tris[k][::-1]
    c.raises(ValueError, lambda: a.triangle_vertices(tris[k]), f"corners of the replaced triangle {tris[k]}")
    c.eq([tuple(q) for q in a.triangle_vertices(tris[k][::-1])], [P[i] for i in tris[k][::-1]], "corners of the new triangle")
    _differ(c, a, grid, f"a grid whose triangle {tris[k]} was reversed after a comparison")
    a.triangles[k] = tris[k]
    if a.boundary.edges:
        e = a.boundary.edges.pop()
        _differ(c, a, grid, f"a grid whose boundary edge {e} was removed after a comparison")
        a.boundary.edges.append(e)
        _equal(c, a, grid, "a grid put back into its former state")
    c.count("changed_in_place")
    # incremental construction agrees with construction at once
    g2 = geom.rebuild(grid, edges=[])
    for e in edges:
        g2.append_edge(e)
    _equal(c, g2, grid, "a grid built edge by edge and one built at once")


CHECK.family(
    "grids", lambda rng, i: geom.grid_case(rng, i, scales="any"), 60, 900,
    needs=["changed_in_place", "shared_lists", "equal_pairs", "different_pairs", "dirichlet_changes", "neumann_changes", "appended"],
)(body)


@CHECK.family("different_inputs", lambda rng, i: gen.rect(rng, 4, 4, scales="wide", kinds=["product", "integer", "fraction"]) | dict(
    sides=gen.all_side_sets()[i % 16]), 32, 320)
def different_inputs(c, p):
    """Grids of different domains, scales and fixed sides differ."""
    from tvemoves_rufbad.domain import RectangleDomain

    W, H, s = p["width"], p["height"], p["scale"]
    ref = RectangleDomain(W, H, p["sides"]).grid(s)
    _equal(c, ref, RectangleDomain(W, H, p["sides"][::-1]).grid(s), "fixed sides in reverse order")
    for sides in gen.all_side_sets():
        g = RectangleDomain(W, H, sides).grid(s)
        if sides == p["sides"]:
            _equal(c, ref, g, f"fixed sides {sides}")
        else:
            _differ(c, ref, g, f"fixed sides {sides} and {p['sides']}")
    _differ(c, ref, RectangleDomain(W + s, H, p["sides"]).grid(s), "a wider domain")
    _differ(c, ref, RectangleDomain(W, H + s, p["sides"]).grid(s), "a higher domain")
    _differ(c, ref, RectangleDomain(W, H, p["sides"]).grid(s / 2), "a finer scale")
    _differ(c, ref, RectangleDomain(2 * W, 2 * H, p["sides"]).grid(2 * s), "a dilated grid")
    if p["nx"] != p["ny"]:
        _differ(c, ref, RectangleDomain(H, W, p["sides"]).grid(s), "a transposed domain")
    r = RectangleDomain(W, H, p["sides"])
    fine = r.refine(ref, 2)
    _equal(c, fine, r.grid(s / 2), "a refined grid and the grid of half the scale")
    _differ(c, fine, ref, "a refined grid and its coarse grid")


CHECK.family("large", lambda rng, i: gen.enlarge(geom.grid_case(rng, i, scales="any"), i), 2, 12, weight=4)(body)


@CHECK.family("graded", lambda rng, i: dict(n=rng.randint(4, 9), short=rng.randint(1, 3), small=10 ** rng.uniform(-12, -4),
                                            size=10 ** rng.uniform(-3, 4)), 24, 300, needs=["lookups"])
def graded(c, p):
    """Far points of a graded grid are found up to rounding, whether its edges were given or appended one by one."""
    from tvemoves_rufbad.domain import Grid, Boundary
    from tvemoves_rufbad.tensors import Vector

    rng, s = c.rng, p["size"]
    P = [(0.0, 0.0)]
    for _ in range(p["short"]):
        P.append((s * p["small"] * rng.uniform(0.5, 1), s * p["small"] * rng.uniform(-1, 1)))
    near = len(P)
    for k in range(p["n"]):
        P.append((s * (k + rng.uniform(0.3, 0.6)), s * rng.uniform(-3, 3)))
    edges = [(0, k) for k in range(1, near)]
    far = [(rng.randrange(k), k) for k in range(near, len(P))]
    rng.shuffle(far)
    edges += [rng.choice([e, e[::-1]]) for e in far]
    none = lambda: Boundary([], [])
    make = lambda es: Grid(list(range(len(P))), list(es), [], none(), none(), none(), [Vector(list(q)) for q in P])
    appended = make([])
    for e in edges:
        appended.append_edge(e)
    c.eq([tuple(e) for e in appended.edges], edges, "appended edges")
    start = rng.randint(1, len(edges) - 1)
    mixed = make(edges[:start])
    for e in edges[start:]:
        mixed.append_edge(e)
    for what, g in (("given at once", make(edges)), ("appended", appended), (f"appended from number {start} on", mixed)):
        for v in range(near, len(P)):
            for _ in range(3):
                q = [x + rng.choice([-1, 0, 1]) * 4 * math.ulp(max(map(abs, P[v]))) for x in P[v]]
                c.eq(g.point_to_vertex(Vector(q)), v, f"vertex at {q}, edges {what}")
                c.count("lookups")
            c.eq(g.point_to_vertex(Vector([P[v][0] + 0.1 * s, P[v][1]])), None, f"vertex next to {P[v]}, edges {what}")
