"""C09: quadrature rules are exact for their degree."""

import math
from fractions import Fraction
from harness import geom
from harness.core import Check

CHECK = Check(
    "C09",
    "A case is a random triangle or edge (or the reference element) and a random polynomial of the"
    " claimed degree in barycentric or Cartesian form; the rule is applied in all vertex orders and"
    " compared with the exact rational integral. Non-trivial: every case.",
    ["the published Dunavant constants have 15 digits, so errors up to 2e-14 of the largest value count as rounding"],
)
TOL = 2e-14


def _rules():
    from tvemoves_rufbad import quadrature_rules as q

    return [("CENTROID", q.CENTROID, 1), ("VERTEX", q.VERTEX, 1)] + [
        (f"DUNAVANT_QUADRATURE_RULES[{i}]", r, i + 1) for i, r in enumerate(q.DUNAVANT_QUADRATURE_RULES)
    ] + [("DUNAVANT2", q.DUNAVANT2, 2), ("DUNAVANT3", q.DUNAVANT3, 3), ("DUNAVANT4", q.DUNAVANT4, 4), ("DUNAVANT5", q.DUNAVANT5, 5)]


@CHECK.family("reference", lambda rng, i: dict(fixed=1), 1, 1, needs=["monomials", "points"])
def reference(c, p):
    """All barycentric monomials up to the degree: mean is a! b! e! 2 / (a+b+e+2)!."""
    for name, rule, deg in _rules():
        ws, ps = list(rule.weights), list(rule.points)
        c.eq(len(ws), len(ps), f"{name}: number of weights")
        c.check([w for w, _ in rule] == ws and [q for _, q in rule] == ps, f"{name}: iteration differs")
        c.check(abs(sum(ws) - 1) < 1e-14, f"{name}: weights sum to {sum(ws)!r}")
        for q in ps:
            c.check(all(0 <= l <= 1 for l in q) and abs(sum(q) - 1) < 1e-15, f"{name}: point {q} outside the triangle")
            c.count("points")
        for a in range(deg + 1):
            for b in range(deg + 1 - a):
                for e in range(deg + 1 - a - b):
                    f = math.factorial
                    want = Fraction(2 * f(a) * f(b) * f(e), f(a + b + e + 2))
                    got = sum(w * q[0] ** a * q[1] ** b * q[2] ** e for w, q in zip(ws, ps))
                    c.check(abs(got - float(want)) < TOL, lambda: f"{name}: mean of l1^{a} l2^{b} l3^{e} is {got!r}, not {float(want)!r}")
                    c.count("monomials")
        # symmetric under all vertex orders
        for order in ((0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
            for i, (w, q) in enumerate(zip(ws, ps)):
                r = [q[k] for k in order]
                c.check(
                    any(abs(w - w2) < 1e-13 and max(abs(x - y) for x, y in zip(r, q2)) < 1e-13 for w2, q2 in zip(ws, ps)),
                    f"{name}: point {i} has no counterpart in vertex order {order}",
                )


def _poly(rng, deg):
    return {(a, b): rng.uniform(-1, 1) for a in range(deg + 1) for b in range(deg + 1 - a)}


def _exact(poly, tri):
    """Exact integral mean of a Cartesian polynomial over a triangle (rational arithmetic)."""
    T = [[Fraction(x) for x in q] for q in tri]

    def mul(p, q):
        r = {}
        for (i, j), x in p.items():
            for (k, l), y in q.items():
                r[(i + k, j + l)] = r.get((i + k, j + l), 0) + x * y
        return r

    # x = x3 + (x1-x3) l1 + (x2-x3) l2
    X = {(0, 0): T[2][0], (1, 0): T[0][0] - T[2][0], (0, 1): T[1][0] - T[2][0]}
    Y = {(0, 0): T[2][1], (1, 0): T[0][1] - T[2][1], (0, 1): T[1][1] - T[2][1]}
    deg = max(a + b for a, b in poly)
    Xp, Yp = [{(0, 0): Fraction(1)}], [{(0, 0): Fraction(1)}]
    for _ in range(deg):
        Xp.append(mul(Xp[-1], X))
        Yp.append(mul(Yp[-1], Y))
    f = math.factorial
    tot = Fraction(0)
    for (a, b), co in poly.items():
        for (i, j), v in mul(Xp[a], Yp[b]).items():
            tot += Fraction(co) * v * Fraction(2 * f(i) * f(j), f(i + j + 2))
    return tot


@CHECK.family("triangles", lambda rng, i: dict(tri=geom.triangle(rng, size=10 ** rng.uniform(-2, 1), offset=rng.choice([0, 1, 3])), rule=i % 11), 330, 6000, needs=["integrals"])
def triangles(c, p):
    from itertools import permutations
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.tensors import Vector

    name, rule, deg = _rules()[p["rule"]]
    tri = p["tri"]
    poly = _poly(c.rng, deg)
    area = abs((tri[1][0] - tri[0][0]) * (tri[2][1] - tri[0][1]) - (tri[2][0] - tri[0][0]) * (tri[1][1] - tri[0][1])) / 2
    want = float(_exact(poly, tri)) * area
    big = sum(abs(co) * max(abs(q[0]) for q in tri) ** a * max(abs(q[1]) for q in tri) ** b for (a, b), co in poly.items()) * area
    pts = [Vector(q) for q in tri]
    for t in permutations(range(3)):
        def f(tt, l):
            x, y = geom.euclid(tri, tt, list(l))
            return sum(co * x**a * y**b for (a, b), co in poly.items())
        got = Integrator(rule, [t], pts)(f)
        c.close(got, want, f"{name}: integral of a polynomial of degree {deg} over {tri} in order {t}", atol=20 * TOL * big, rtol=0)
        c.count("integrals")


@CHECK.family("edges", lambda rng, i: dict(n=i % 24 + 1 if i % 4 or i < 24 else rng.randint(25, 100)), 84, 1000, needs=["integrals", "points", "many_points"])
def edges(c, p):
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule
    from tvemoves_rufbad.integrators import BoundaryIntegrator
    from tvemoves_rufbad.tensors import Vector

    n = p["n"]
    rule = GaussQuadratureRule(n)
    ws, ts = list(rule.weights), list(rule.points)
    c.eq((len(ws), len(ts)), (n, n), f"number of weights and points of the {n} point rule")
    c.check([w for w, _ in rule] == ws and [t for _, t in rule] == ts, "iteration differs")
    c.check(abs(sum(ws) - 1) < 1e-13, f"{n} points: weights sum to {sum(ws)!r}")
    c.check(all(0 < t < 1 for t in ts) and len({round(t, 9) for t in ts}) == n, f"{n} points: {ts}")
    c.count("points", n)
    c.count("many_points", n > 24)
    for k in range(2 * n):
        got = sum(w * t**k for w, t in zip(ws, ts))
        c.check(abs(got - 1 / (k + 1)) < 1e-13, lambda: f"{n} points: integral of t^{k} is {got!r}")
        c.count("integrals")
    size = 10 ** c.rng.uniform(-3, 3)
    a, b = ([c.rng.uniform(-1, 1) * size for _ in range(2)] for _ in range(2))
    deg = 2 * n - 1
    co = [c.rng.uniform(-1, 1) for _ in range(deg + 1)]
    L = math.dist(a, b)
    for e, pts in (((0, 1), [a, b]), ((1, 0), [a, b])):
        def f(edge, t):
            s = t if edge == (0, 1) else 1 - t
            return sum(x * s**k for k, x in enumerate(co))
        got = BoundaryIntegrator(n, [e], [Vector(q) for q in pts])(f)
        c.close(got, L * sum(x / (k + 1) for k, x in enumerate(co)), f"{n} points: integral over edge {a}, {b}", atol=1e-13 * L * (deg + 1), rtol=0)
