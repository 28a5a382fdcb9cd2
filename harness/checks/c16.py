"""C16: elastic potentials are frame indifferent with the documented wells."""

import math
import numpy as np
from harness import gen, physics as ph
from harness.core import Check

CHECK = Check(
    "C16",
    "A case is a strain with positive determinant (random, near a well, sheared, nearly singular, large)"
    " and a temperature; the potentials are observed at the strain, at rotated strains and along"
    " difference stencils. Non-trivial: every case.",
    ["strains have positive determinant, temperatures are nonnegative",
     "derivatives are compared with extrapolated central differences up to 1e-6"],
)


def structured(rng, E):
    """Deviations of special form: diagonal, isotropic, symmetric, skew, shears, a single entry, equal entries."""
    a, b = E[0, 0], E[0, 1]
    return np.array(rng.choice([
        [[a, 0], [0, b]], [[a, 0], [0, a]], [[a, 0], [0, -a]], [[a, b], [b, E[1, 1]]], [[0, a], [-a, 0]], [[a, b], [-b, a]],
        [[0, a], [0, 0]], [[0, 0], [a, 0]], [[0, a], [a, 0]], [[0, a], [b, 0]], [[a, 0], [0, 0]], [[0, 0], [0, a]],
        [[a, a], [a, a]], [[a, b], [0, E[1, 1]]], [[a, 0], [b, E[1, 1]]],
    ]))


def strain(rng, kind=None):
    kind = kind or rng.choice(["random", "random", "near", "tiny", "tiny", "well", "thin", "large", "huge", "huge", "diag", "shear", "special"])
    R = lambda: np.array(gen.rotation(rng.uniform(-math.pi, math.pi)))
    a, b = 10 ** rng.uniform(-0.5, 0.5), 10 ** rng.uniform(-0.5, 0.5)
    if kind == "near":
        a, b = 1 + rng.uniform(-0.05, 0.05), 1 + rng.uniform(-0.05, 0.05)
    if kind == "tiny":  # very close to one of the wells
        E = np.array([[rng.uniform(-1, 1) for _ in range(2)] for _ in range(2)])
        if rng.random() < 0.6:
            E = structured(rng, E)
            F = np.eye(2) + 10 ** rng.uniform(-7, -2) * E
            if rng.random() < 0.7:
                return F
        F = (np.eye(2) + 10 ** rng.uniform(-7, -2) * E) @ np.array([[1.0, rng.choice([0.0, 0.0, -0.5, 0.5])], [0.0, 1.0]])
        return F if rng.random() < 0.5 else R() @ F
    if kind == "special":
        while True:
            F = np.eye(2) * rng.choice([0.0, 1.0, 1.0, 10 ** rng.uniform(-1, 1)]) + 10 ** rng.uniform(-2, 0.5) * structured(rng, np.array([[rng.uniform(-1, 1) for _ in range(2)] for _ in range(2)]))
            if ph.det(F) > 0.05:
                return F
    if kind == "thin":
        a = 10 ** rng.uniform(-3, -1)
    if kind == "large":
        a, b = 10 ** rng.uniform(0.5, 1.5), 10 ** rng.uniform(0.5, 1.5)
    if kind == "huge":
        a, b = 10 ** rng.uniform(-3.5, 1.5), 10 ** rng.uniform(1.5, 4)
    if kind == "sliver":
        a, b = 10 ** rng.uniform(-8, -1), 10 ** rng.uniform(-4, 0.5)
    if kind == "well":
        return R() @ np.array([[1.0, rng.choice([-0.5, 0.5])], [0.0, 1.0]])
    if kind == "shear":
        return R() @ np.array([[1.0, rng.uniform(-2, 2)], [0.0, 1.0]])
    if kind == "diag":
        return np.diag([a, b])
    return R() @ np.diag([a, b]) @ R()


def mat(F):
    from tvemoves_rufbad.tensors import Matrix

    return Matrix([[float(x) for x in row] for row in F])


def fdiff(f, F, size=1e-2):
    """Derivative by extrapolated central differences, with an error estimate."""
    G, err = np.zeros((2, 2)), 0.0
    h0 = size * min(abs(ph.det(F)) / max(1.0, np.abs(F).max()), 1.0)
    for i in (0, 1):
        for j in (0, 1):
            rows = []
            for k in range(5):
                h = h0 / 2**k
                E = np.zeros((2, 2))
                E[i, j] = h
                r = [(f(F + E) - f(F - E)) / (2 * h)]
                for q in range(1, k + 1):
                    r.append(r[-1] + (r[-1] - rows[-1][q - 1]) / (4**q - 1))
                rows.append(r)
            G[i, j] = rows[-1][-1]
            err = max(err, abs(rows[-1][-1] - rows[-2][-1]))
    return G, err


@CHECK.family("strains", lambda rng, i: dict(F=strain(rng).tolist(), theta=[0.0, 0.1, 1.0, 10.0][i % 4] if i % 3 else rng.choice([10 ** rng.uniform(-4, 2), 10 ** rng.uniform(-12, 0), rng.uniform(0, 6)])), 600, 12000,
              needs=["rotations", "derivatives", "lower_bounds"])
def strains(c, p):
    from tvemoves_rufbad import helpers as h

    F, th, rng = np.array(p["F"]), p["theta"], c.rng
    A, M, T = (float(x) for x in (h.austenite_potential(mat(F)), h.martensite_potential(mat(F)), h.total_elastic_potential(mat(F), th)))
    J = ph.det(F)
    scale = max(1.0, np.abs(F).max()) ** 2
    cond = scale / J
    eA = 1e-13 * (scale**2 + abs(A)) * max(1, cond)
    eM = 1e-12 * (1 + abs(M)) * max(1, cond)
    for _ in range(4):
        Q = np.array(gen.rotation(rng.uniform(-math.pi, math.pi)))
        c.close(float(h.austenite_potential(mat(Q @ F))), A, f"austenite potential of rotated {F.tolist()}", atol=eA, rtol=1e-12)
        c.close(float(h.martensite_potential(mat(Q @ F))), M, f"martensite potential of rotated {F.tolist()}", atol=eM, rtol=1e-11)
        c.close(float(h.total_elastic_potential(mat(Q @ F), th)), T, f"total elastic potential of rotated {F.tolist()}", atol=eA + eM, rtol=1e-11)
        c.count("rotations")
    # lower bounds; dist is the distance to the rotations
    s = np.linalg.svd(F, compute_uv=False)
    dist2 = (s[0] - 1) ** 2 + (s[1] - 1) ** 2
    c.check(A >= -eA, f"austenite potential of {F.tolist()} is negative: {A}")
    c.check(M >= -eM, f"martensite potential of {F.tolist()} is negative: {M}")
    c.check(A >= 0.2 * dist2 - eA, f"austenite potential of {F.tolist()} is {A}, squared distance to the rotations {dist2}")
    c.check(A <= eA + 40 * dist2 * max(1, 1 / s[1]) ** 2 * max(1, s[0]) ** 4, f"austenite potential of {F.tolist()} is {A} at squared distance {dist2} from the rotations")
    c.count("lower_bounds", 4)
    a = 1 - math.exp(-5 * th)
    c.close(T, a * A + (1 - a) * M, "temperature-weighted sum", atol=1e-13 * (1 + abs(A) + abs(M)), rtol=0)
    c.close(float(h.total_elastic_potential(mat(F), th)), T, "the same evaluation once more", atol=0, rtol=0)
    # derivatives
    for f, df, name in ((h.austenite_potential, h.derivative_austenite_potential, "austenite"),
                        (h.martensite_potential, h.derivative_martensite_potential, "martensite")):
        if J < 1e-2:
            continue
        G, err = fdiff(lambda E: float(f(mat(E))), F)
        D = df(mat(F))
        got = np.array([[float(D[i, j]) for j in (0, 1)] for i in (0, 1)])
        big = max(1.0, np.abs(G).max())
        # cancellation in the determinant of large strains limits the accuracy of the differences
        noise = lambda: 2e-14 * (abs(float(f(mat(F)))) + big * np.abs(F).max()) / (1e-2 / 16 * min(J / max(1.0, np.abs(F).max()), 1.0))
        for size in (1e-3, 1e-4):
            if err > 1e-7 * big + noise():
                G, err = fdiff(lambda E: float(f(mat(E))), F, size)
                big = max(1.0, np.abs(G).max())
                c.count("smaller_stencils")
        c.check(err <= 1e-7 * big + noise(), f"the {name} potential is not smooth around {F.tolist()}: difference quotients differ by {err}")
        c.close(got, G, f"derivative of the {name} potential at {F.tolist()}", atol=1e-6 * big + noise(), rtol=0)
        c.count("derivatives")


@CHECK.family("wells", lambda rng, i: dict(phi=rng.uniform(-math.pi, math.pi) if i else 0.0), 60, 1000, needs=["wells"])
def wells(c, p):
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix, inverse_2x2

    Q = np.array(gen.rotation(p["phi"]))
    c.close(float(h.austenite_potential(mat(Q))), 0.0, "austenite potential of a rotation", atol=1e-13)
    D = h.derivative_austenite_potential(mat(Q))
    c.close([float(D[i, j]) for i in (0, 1) for j in (0, 1)], [0] * 4, "austenite stress at a rotation", atol=1e-13)
    for name in ("FIRST_MARTENSITE_WELL_INVERSE", "SECOND_MARTENSITE_WELL_INVERSE"):
        W = inverse_2x2(getattr(h, name))
        U = np.array([[float(W[i, j]) for j in (0, 1)] for i in (0, 1)])
        F = Q @ U
        c.close(float(h.martensite_potential(mat(F))), 0.0, f"martensite potential at the well {name}", atol=1e-13)
        D = h.derivative_martensite_potential(mat(F))
        c.close([float(D[i, j]) for i in (0, 1) for j in (0, 1)], [0] * 4, f"martensite stress at the well {name}", atol=1e-12)
        c.check(abs(U[0, 1]) > 0.1, "the martensite wells differ from the austenite well")
        c.check(float(h.austenite_potential(mat(F))) > 0.01, "austenite potential at a martensite well")
        c.count("wells")
    c.check(float(h.martensite_potential(mat(Q))) > 0.01, "martensite potential at a rotation")


@CHECK.family("blow_up", lambda rng, i: dict(fixed=i), 60, 600, needs=["limits"])
def blow_up(c, p):
    """Both potentials exceed every bound as the determinant goes to zero."""
    from tvemoves_rufbad import helpers as h

    Q, R = (np.array(gen.rotation(c.rng.uniform(-3, 3))) for _ in range(2))
    kind = c.rng.choice(["one", "both"])
    pa, pm = -1.0, -1.0
    for k in range(1, 9):
        e = 10.0**-k
        F = np.diag([e, e] if kind == "both" else [c.rng.choice([1.0, 1.0, 0.7]), e])
        if k <= 5:
            F = Q @ F @ (R if k <= 4 else np.eye(2))
        A, M = float(h.austenite_potential(mat(F))), float(h.martensite_potential(mat(F)))
        J = ph.det(F)
        c.check(A >= -2 * math.log(J) - 2 - 1e-6, f"austenite potential {A} at determinant {J}")
        c.check(M >= 0.5 / J, f"martensite potential {M} at determinant {J}")
        c.check(M > pm, f"martensite potential does not grow: {M} after {pm}")
        pa, pm = A, M
        c.count("limits")
    c.check(pa > 20, f"austenite potential only reaches {pa}")


@CHECK.family("hyper_elastic", lambda rng, i: dict(scale=0.0 if i % 10 == 9 else 10 ** rng.uniform(-4, 3)), 100, 2000, needs=["hyper"])
def hyper(c, p):
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Tensor3D

    H = [[[c.rng.uniform(-1, 1) * p["scale"] * c.rng.choice([0, 1, 1]) for _ in range(2)] for _ in range(2)] for _ in range(2)]
    want = math.sqrt(sum(x * x for M in H for r in M for x in r)) ** 3
    c.close(float(h.hyper_elastic_potential(Tensor3D(H))), want, f"hyper elastic potential of {H}", atol=0, rtol=1e-13)
    c.close(float(h.hyper_elastic_potential(Tensor3D(H).map(lambda x: -2 * x))), 8 * want, "homogeneity", atol=0, rtol=1e-13)
    c.count("hyper")


@CHECK.family("symbolic", lambda rng, i: dict(F=strain(rng, "random").tolist(), theta=rng.uniform(0, 2)), 20, 300, needs=["symbolic"])
def symbolic(c, p):
    """The expressions built from optimization variables have the values of the plain functions."""
    import pyomo.environ as pyo
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    m = pyo.ConcreteModel()
    m.F = pyo.Var([0, 1], [0, 1], initialize=1.0)
    m.t = pyo.Var(initialize=0.5)
    S = Matrix([[m.F[0, 0], m.F[0, 1]], [m.F[1, 0], m.F[1, 1]]])
    ex = [h.austenite_potential(S), h.martensite_potential(S), h.total_elastic_potential(S, m.t)]
    D = [h.derivative_austenite_potential(S), h.derivative_martensite_potential(S)]
    for _ in range(3):
        F, th = strain(c.rng, "random"), c.rng.uniform(0, 2)
        for i in (0, 1):
            for j in (0, 1):
                m.F[i, j].set_value(F[i, j])
        m.t.set_value(th)
        want = [h.austenite_potential(mat(F)), h.martensite_potential(mat(F)), h.total_elastic_potential(mat(F), th)]
        for e, w in zip(ex, want):
            c.close(pyo.value(e), float(w), "symbolic potential", rtol=1e-10)
        for e, f in zip(D, (h.derivative_austenite_potential, h.derivative_martensite_potential)):
            w = f(mat(F))
            c.close([pyo.value(e[i, j]) for i in (0, 1) for j in (0, 1)], [float(w[i, j]) for i in (0, 1) for j in (0, 1)], "symbolic stress", rtol=1e-9, atol=1e-9)
        c.count("symbolic")
