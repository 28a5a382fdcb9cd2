"""C17: thermal functions are thermodynamically consistent."""

import math
import numpy as np
from harness import physics as ph
from harness.checks.c16 import fdiff, mat, strain
from harness.core import Check

CHECK = Check(
    "C17",
    "A case is a strain and a temperature (zero, tiny, moderate, large); all thermal functions are"
    " observed there and on difference stencils in temperature and strain and related to the coupling"
    " energy built from the observed percentage and potentials. Non-trivial: every case.",
    ["differences are extrapolated, agreement up to 1e-7 of the natural size"],
)


def tdiff(f, t, h0):
    rows = []
    for k in range(5):
        h = h0 / 2**k
        r = [(f(t + h) - f(t - h)) / (2 * h)]
        for q in range(1, k + 1):
            r.append(r[-1] + (r[-1] - rows[-1][q - 1]) / (4**q - 1))
        rows.append(r)
    return rows[-1][-1]


def _theta(rng, i):
    return [0.0, 1e-9, 0.2, 0.5][i % 4] if i % 5 == 0 else 10 ** rng.choice([rng.uniform(-5, 1.7), rng.uniform(1, 4.5)])


@CHECK.family("states", lambda rng, i: dict(F=strain(rng, rng.choice(["random", "near", "tiny", "well", "shear", "diag", "special", "special"])).tolist(), theta=_theta(rng, i)), 500, 10000,
              needs=["relations", "temperature_derivatives", "stresses"])
def states(c, p):
    from tvemoves_rufbad import helpers as h

    F, th = np.array(p["F"]), p["theta"]
    S = mat(F)
    a = lambda t: float(h.austenite_percentage(t))
    W = float(h.austenite_potential(S)) - float(h.martensite_potential(S))
    Mp = float(h.martensite_potential(S))
    big = abs(W) + 1e-3
    c.close(a(th), -math.expm1(-5 * th), f"austenite percentage at {th}", atol=1e-15, rtol=1e-13)
    # internal energy without entropy: a W - theta a' W
    da = tdiff(a, th, 0.05)
    E = float(h.internal_energy_no_entropy(S, th))
    c.close(E, (a(th) - th * da) * W, f"internal energy without entropy at {th}", atol=1e-7 * big * (1 + th), rtol=0)
    exact = -math.expm1(-5 * th) - 5 * th * math.exp(-5 * th)
    c.close(E, exact * W, f"internal energy without entropy at {th}", atol=1e-13 * big, rtol=1e-11)
    c.close(float(h.internal_energy(S, th)), E + h.ENTROPY_CONSTANT * th, "internal energy", atol=1e-12 * big, rtol=1e-13)
    c.eq(float(h.ENTROPY_CONSTANT), 10.0, "entropy constant")
    c.count("relations", 4)
    # antiderivative in temperature
    Ad = lambda t: float(h.temp_antrider_internal_energy_no_entropy(S, t))
    c.close(Ad(0.0), 0.0, "antiderivative at zero temperature", atol=1e-13 * big)
    c.close(tdiff(Ad, th, 0.05), E, f"temperature derivative of the antiderivative at {th}", atol=1e-7 * big * (1 + th), rtol=0)
    c.close(Ad(th), float(ph.antider_weight(th)) * W, f"antiderivative at {th}", atol=1e-12 * big * (1 + th), rtol=1e-11)
    # Simpson over a few intervals from zero, independent of differences
    n = 64
    ts = np.linspace(0.0, th, 2 * n + 1)
    ws = np.ones(2 * n + 1)
    ws[1:-1:2], ws[2:-1:2] = 4, 2
    integral = th / (6 * n) * sum(w * float(h.internal_energy_no_entropy(S, t)) for w, t in zip(ws, ts))
    if th <= 5:
        c.close(Ad(th), integral, f"antiderivative at {th} by quadrature", atol=1e-5 * big * (1 + th), rtol=0)
    c.count("temperature_derivatives")
    # total elastic potential = martensite + coupling
    c.close(float(h.total_elastic_potential(S, th)), Mp + a(th) * W, "total elastic potential", atol=1e-12 * (abs(Mp) + big), rtol=0)
    # coupling stress
    if ph.det(F) > 0.02:
        G, err = fdiff(lambda X: a(th) * (float(h.austenite_potential(mat(X))) - float(h.martensite_potential(mat(X)))), F)
        D = h.strain_derivative_coupling_potential(S, th)
        got = np.array([[float(D[i, j]) for j in (0, 1)] for i in (0, 1)])
        m = max(1.0, np.abs(G).max())
        if err < 1e-7 * m:
            c.close(got, G, f"coupling stress at {F.tolist()}, {th}", atol=1e-6 * m, rtol=0)
            c.count("stresses")
        w = a(th) * (ph.d_austenite(F) - ph.d_martensite(F))
        c.close(got, w, f"coupling stress at {F.tolist()}, {th}", atol=1e-10 * max(1e-3, np.abs(w).max()), rtol=0)


@CHECK.family("percentage", lambda rng, i: dict(ts=sorted([0.0] + [10 ** rng.uniform(-6, 0.7) for _ in range(30)])), 40, 800, needs=["monotone"])
def percentage(c, p):
    from tvemoves_rufbad import helpers as h

    prev = None
    for t in p["ts"]:
        x = float(h.austenite_percentage(t))
        if t == 0:
            c.eq(x, 0.0, "percentage at zero temperature")
        c.check(0 <= x < 1, f"percentage {x} at {t}")
        if prev is not None and t - prev[0] > 1e-9:
            c.check(x > prev[1], f"percentage does not increase from {prev} to {(t, x)}")
            c.count("monotone")
        prev = (t, x)
    c.check(float(h.austenite_percentage(7.0)) < 1 and float(h.austenite_percentage(7.0)) > 1 - 1e-12, "percentage at large temperature")


@CHECK.family("symbolic", lambda rng, i: dict(fixed=i), 20, 300, needs=["symbolic"])
def symbolic(c, p):
    """Expressions in optimization variables have the values of the plain functions."""
    import pyomo.environ as pyo
    from tvemoves_rufbad import helpers as h

    m = pyo.ConcreteModel()
    m.t = pyo.Var(initialize=0.5)
    F = strain(c.rng, "random")
    S = mat(F)
    D = h.strain_derivative_coupling_potential(S, m.t)
    ex = [h.austenite_percentage(m.t), h.internal_energy_no_entropy(S, m.t), h.internal_energy(S, m.t),
          h.temp_antrider_internal_energy_no_entropy(S, m.t), h.total_elastic_potential(S, m.t), D[0, 1], D[1, 1]]
    for _ in range(3):
        t = c.rng.choice([0.0, c.rng.uniform(0, 3)])
        m.t.set_value(t)
        E = h.strain_derivative_coupling_potential(S, t)
        want = [h.austenite_percentage(t), h.internal_energy_no_entropy(S, t), h.internal_energy(S, t),
                h.temp_antrider_internal_energy_no_entropy(S, t), h.total_elastic_potential(S, t), E[0, 1], E[1, 1]]
        for e, w in zip(ex, want):
            c.close(pyo.value(e), float(w), "symbolic thermal function", rtol=1e-10, atol=1e-10)
        c.count("symbolic")
