"""C10: integrators sum quadrature over the mesh, weighted by area or length."""

import math
from harness import gen, geom, mesh
from harness.core import Check

CHECK = Check(
    "C10",
    "A case is a grid and a quadrature rule (listed, or random with unsymmetric weights); a recording"
    " integrand logs every call, and totals over random sub-lists are compared with an independent sum."
    " Non-trivial: every case.",
)


def _rule(rng, k):
    from tvemoves_rufbad import quadrature_rules as q

    if k % 2:
        return (q.DUNAVANT_QUADRATURE_RULES + [q.VERTEX])[k // 2 % 6]
    n = rng.randint(1, 7)
    w = [rng.uniform(0.05, 1) for _ in range(n)]
    s = sum(w)
    return q.TriangleQuadratureRule([x / s for x in w], [tuple(gen.bary(rng, "in")[:2]) for _ in range(n)])


def _gen(rng, i):
    return geom.grid_case(rng, i, scales="any") | dict(rule=i)


def body(c, p):
    from tvemoves_rufbad.integrators import Integrator, BoundaryIntegrator
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule
    import pyomo.environ as pyo
    import sympy

    grid, s = geom.build(p)
    rng = c.rng
    P = mesh.pts(grid)
    rule = _rule(rng, p["rule"])
    wts, pts = list(rule.weights), [tuple(q) for q in rule.points]
    tris = [tuple(t) for t in grid.triangles]
    sub = rng.sample(tris, rng.randint(1, len(tris)))
    sub = [rng.choice([t, t[1:] + t[:1], t[::-1]]) for t in sub]
    area = lambda t: abs(mesh.area2(P, t)) / 2
    size = max(max(abs(x), abs(y)) for x, y in P)
    rt = 1e-10 + 1e-14 * (size / s) ** 2

    # values that identify triangle and point
    table = {}
    for t in sub:
        for q in pts:
            # with exact zeros, whole numbers and repetitions
            table[t, q] = rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0, 0, 1, -1, 0.5])
    log = []

    def f(t, l):
        log.append((tuple(t), tuple(l)))
        return table[tuple(t), tuple(l)]

    I = Integrator(rule, sub, grid.points)
    want = sum(area(t) * sum(w * table[t, q] for w, q in zip(wts, pts)) for t in sub)
    tot = sum(area(t) for t in sub)
    first = I(f)
    c.close(first, want, "integral over random triangles", atol=rt * tot, rtol=0)
    c.check(set(log) == set(table), "integrand was not called with exactly the listed triangles and points")
    c.count("calls", len(log))
    c.close(I(lambda t, l: 1.0), tot, "integral of one", rtol=rt)
    c.eq(I(f), first, "second use of the integrator")
    c.close(I(lambda t, l: -3.5), -3.5 * tot, "integral of a constant", rtol=rt)
    # an integrand that fails part of the way, and one that integrates itself
    left = [rng.randint(0, len(table) - 1)]

    def fails(t, l):
        left[0] -= 1
        if left[0] < 0:
            raise ArithmeticError("no value")
        return table[tuple(t), tuple(l)]

    c.raises(ArithmeticError, lambda: I(fails), "integral of a failing integrand")
    c.eq(I(f), first, "integral after one that failed")
    if len(table) <= 60:
        c.close(I(lambda t, l: table[tuple(t), tuple(l)] * I(f)), want * first, "double integral", atol=2 * rt * tot * tot, rtol=0)
        c.eq(I(f), first, "integral after a double integral")
        c.count("double_integrals")
    c.count("failed_integrals")
    # empty and additive
    c.eq(Integrator(rule, [], grid.points)(f), 0, "integral over no triangles")
    k = rng.randint(0, len(sub))
    a, b = Integrator(rule, sub[:k], grid.points)(f), Integrator(rule, sub[k:], grid.points)(f)
    c.close(a + b, first, "sum over two parts", atol=rt * tot, rtol=0)
    c.close(Integrator(rule, sub + sub[:1], grid.points)(f) - first,
            area(sub[0]) * sum(w * table[sub[0], q] for w, q in zip(wts, pts)), "contribution of a repeated triangle", atol=rt * tot, rtol=0)
    # the integrator keeps its own list
    mine = list(sub)
    J = Integrator(rule, mine, grid.points)
    mine.append(tris[0])
    mine[0] = tris[-1]
    c.close(J(f), want, "integral after the caller changed its list", atol=rt * tot, rtol=0)
    # orientation does not matter for integrands symmetric in the vertices
    g = lambda t, l: math.cos(sum(l[i] * l[j] for i in range(3) for j in range(i))) + min(t)
    if p["rule"] % 2:
        ref = Integrator(rule, sub, grid.points)(g)
        flip = Integrator(rule, [t[::-1] for t in sub], grid.points)(g)
        c.close(flip, ref, "integral over reversed triangles", rtol=1e-9)
    whole = Integrator(rule, grid.triangles, grid.points)(lambda t, l: 1)
    c.close(whole, sum(area(t) for t in tris), "area of the grid", rtol=rt)
    # symbolic integrands
    m = pyo.ConcreteModel()
    m.x = pyo.Var(initialize=rng.uniform(0.5, 2))
    ex = I(lambda t, l: table[tuple(t), tuple(l)] * m.x**2)
    c.close(pyo.value(ex), want * m.x.value**2, "symbolic integral (pyomo)", atol=4 * rt * tot, rtol=0)
    m.x.set_value(3.0)
    c.close(pyo.value(ex), want * 9.0, "symbolic integral after a change of the variable", atol=9 * rt * tot, rtol=0)
    X = sympy.Symbol("x")
    few = sub[:3]
    ex = Integrator(rule, few, grid.points)(lambda t, l: table[tuple(t), tuple(l)] * X)
    w3 = sum(area(t) * sum(w * table[t, q] for w, q in zip(wts, pts)) for t in few)
    c.close(float(ex.subs(X, 1.0)), w3, "symbolic integral (sympy)", atol=rt * tot, rtol=0)

    # ---- edges ---------------------------------------------------------------------------------
    n = rng.randint(1, 5)
    es = [tuple(e) for e in grid.edges]
    esub = [rng.choice([e, e[::-1]]) for e in rng.sample(es, rng.randint(1, len(es)))]
    gw, gt = list(GaussQuadratureRule(n).weights), [float(t) for t in GaussQuadratureRule(n).points]
    et = {(e, i): rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0, 0, 1, -1, 0.5]) for e in esub for i in range(n)}
    log = []

    def h(e, t):
        i = min(range(n), key=lambda j: abs(gt[j] - t))
        c.check(abs(gt[i] - t) < 1e-14, f"edge integrand was called at {t}")
        log.append((tuple(e), i))
        return et[tuple(e), i]

    length = lambda e: math.dist(P[e[0]], P[e[1]])
    B = BoundaryIntegrator(n, esub, grid.points)
    want = sum(length(e) * sum(w * et[e, i] for i, w in enumerate(gw)) for e in esub)
    tot = sum(map(length, esub))
    c.close(B(h), want, "integral over random edges", atol=rt * tot, rtol=0)
    c.check(set(log) == set(et), "edge integrand was not called with exactly the listed edges and points")
    c.count("edge_calls", len(log))
    c.close(B(h), want, "second use of the edge integrator", atol=rt * tot, rtol=0)
    left[0] = rng.randint(0, len(et) - 1)

    def fails_too(e, t):
        left[0] -= 1
        if left[0] < 0:
            raise ArithmeticError("no value")
        return h(e, t)

    c.raises(ArithmeticError, lambda: B(fails_too), "edge integral of a failing integrand")
    c.close(B(h), want, "edge integral after one that failed", atol=rt * tot, rtol=0)
    if len(et) <= 60:
        c.close(B(lambda e, t: h(e, t) * B(h)), want * want, "double edge integral", atol=2 * rt * tot * tot, rtol=0)
        c.close(B(h), want, "edge integral after a double integral", atol=rt * tot, rtol=0)
    c.close(B(lambda e, t: 1), tot, "total length", rtol=rt)
    c.eq(BoundaryIntegrator(n, [], grid.points)(h), 0, "integral over no edges")
    k = rng.randint(0, len(esub))
    c.close(BoundaryIntegrator(n, esub[:k], grid.points)(h) + BoundaryIntegrator(n, esub[k:], grid.points)(h), want,
            "sum over two parts of the edges", atol=rt * tot, rtol=0)
    twice = esub + rng.sample(esub, rng.randint(1, len(esub)))
    rng.shuffle(twice)
    c.close(BoundaryIntegrator(n, twice, grid.points)(h), sum(length(e) * sum(w * et[e, i] for i, w in enumerate(gw)) for e in twice),
            "integral over a list with repeated edges", atol=2 * rt * tot, rtol=0)
    q = lambda e, t: (t * (1 - t)) ** 2 + min(e)
    c.close(BoundaryIntegrator(n, [e[::-1] for e in esub], grid.points)(q), B(q), "integral over reversed edges", rtol=1e-9)
    # affine functions are integrated exactly in either direction
    lin = lambda e, t: 3 * (t * P[e[0]][0] + (1 - t) * P[e[1]][0]) - (t * P[e[0]][1] + (1 - t) * P[e[1]][1])
    exact = sum(length(e) * (3 * (P[e[0]][0] + P[e[1]][0]) - P[e[0]][1] - P[e[1]][1]) / 2 for e in esub)
    c.close(B(lin), exact, "integral of an affine function over edges", atol=1e-9 * tot * size, rtol=0)
    ex = B(lambda e, t: et[tuple(e), min(range(n), key=lambda j: abs(gt[j] - t))] * m.x)
    c.close(pyo.value(ex), 3.0 * want, "symbolic edge integral", atol=9 * rt * tot, rtol=0)


CHECK.family("grids", _gen, 90, 1500, needs=["calls", "edge_calls", "failed_integrals", "double_integrals"])(body)


CHECK.family("large", lambda rng, i: gen.enlarge(_gen(rng, i), i), 3, 40, weight=2)(body)


def _gen_many(rng, i):
    """More than 500 triangles and edges; the number of them varies from case to case."""
    p = gen.enlarge(_gen(rng, i), i)
    nx, ny = rng.choice([(rng.randint(16, 26), rng.randint(16, 24)), (rng.randint(130, 400), 2), (3, rng.randint(90, 250))])
    return p | dict(nx=nx, ny=ny, width=nx * p["scale"], height=ny * p["scale"], mesh="plain")


CHECK.family("many", _gen_many, 3, 20, weight=3, timeout=300)(body)
