"""C18: dissipation and heat conduction have the right invariances."""

import math
import numpy as np
from harness import gen, physics as ph
from harness.checks.c16 import mat, strain, structured
from harness.core import Check

CHECK = Check(
    "C18",
    "A case is a pair of strains and a frame rate; dissipation, dissipation rate and pulled-back"
    " conductivity are observed for them, for scaled increments and for rotated strains. Non-trivial:"
    " every case.",
)


def increment(rng):
    size = rng.choice([1.0, 1.0, 10 ** rng.uniform(-6, 3)])
    D = np.array([[rng.uniform(-1, 1) * size * 10 ** rng.uniform(-3, 0.5) for _ in range(2)] for _ in range(2)])
    return (structured(rng, D) if rng.random() < 0.4 else D).tolist()


@CHECK.family("pairs", lambda rng, i: dict(F=strain(rng, rng.choice(["random", "near", "tiny", "well", "shear", "diag", "special", "special", "large", "huge", "thin", "sliver"])).tolist(),
              D=increment(rng),
              fps=rng.choice([1, 2, 3, 10, 60, 0.5, rng.uniform(0.1, 50)])), 600, 12000, needs=["dissipations", "conductivities"])
def pairs(c, p):
    from tvemoves_rufbad import helpers as h

    F, D, fps, rng = np.array(p["F"]), np.array(p["D"]), p["fps"], c.rng
    R = lambda a, b: float(h.dissipation_potential(mat(a), mat(b)))
    S = D.T @ F + F.T @ D
    want = float(np.sum(S * S)) / 2
    big = float(np.sum(F * F) * np.sum(D * D)) + 1e-30
    got = R(F, F + D)
    c.close(got, want, f"dissipation potential of {F.tolist()} and increment {D.tolist()}", atol=1e-12 * big + 1e-14 * np.sum(F * F) ** 2 * (np.abs(D).max() / np.abs(F).max()), rtol=1e-9)
    c.check(got >= 0, f"dissipation potential {got} is negative")
    c.eq(R(F, F), 0.0, "dissipation potential of equal strains")
    s = rng.choice([-1.0, 2.0, -0.5, 3.0])
    c.close(R(F, F + s * D), s * s * want, f"dissipation potential of the {s}-fold increment", atol=1e-10 * big + 1e-13 * np.sum(F * F) ** 2 * (np.abs(D).max() / np.abs(F).max()), rtol=1e-9)
    Q = np.array(gen.rotation(rng.uniform(-math.pi, math.pi)))
    c.close(R(Q @ F, Q @ (F + D)), want, "dissipation potential of rotated strains", atol=1e-11 * big + 1e-13 * np.sum(F * F) ** 2 * (np.abs(D).max() / np.abs(F).max()), rtol=1e-9)
    rate = float(h.dissipation_rate(mat(F), mat(F + D), fps))
    c.close(rate, 2 * fps**2 * got, "dissipation rate", atol=0, rtol=1e-12)
    # infinitesimal rotations do not dissipate
    w = rng.uniform(-1, 1)
    W = np.array([[0.0, -w], [w, 0.0]])
    c.close(R(F, F + W @ F), 0.0, "dissipation potential of an infinitesimal rotation", atol=1e-13 * float(np.sum(F * F)) ** 2 * (1 + w * w))
    c.count("dissipations", 4)
    K = h.heat_conductivity_reference(mat(F))
    k = np.array([[float(K[i, j]) for j in (0, 1)] for i in (0, 1)])
    H = h.HEAT_CONDUCTIVITY
    K0 = np.array([[float(H[i, j]) for j in (0, 1)] for i in (0, 1)])
    Fi = np.linalg.inv(F)
    want = ph.det(F) * Fi @ K0 @ Fi.T
    m = np.abs(want).max() * np.linalg.cond(F)
    c.close(k, want, f"pulled-back conductivity at {F.tolist()}", atol=1e-13 * m, rtol=0)
    c.close(k, k.T, "symmetry of the conductivity", atol=1e-13 * m, rtol=0)
    c.check(k[0, 0] > 0 and k[0, 0] * k[1, 1] - k[0, 1] * k[1, 0] > 0, f"conductivity {k.tolist()} is not positive definite")
    K2 = h.heat_conductivity_reference(mat(Q @ F))
    k2 = np.array([[float(K2[i, j]) for j in (0, 1)] for i in (0, 1)])
    c.close(k2, k, "conductivity of a rotated strain", atol=1e-12 * m, rtol=0)
    c.check(np.allclose(K0, K0.T) and np.all(np.linalg.eigvalsh(K0) > 0), "conductivity matrix is not symmetric positive definite")
    c.count("conductivities")


@CHECK.family("symbolic", lambda rng, i: dict(fixed=i), 20, 300, needs=["symbolic"])
def symbolic(c, p):
    import pyomo.environ as pyo
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    m = pyo.ConcreteModel()
    m.F = pyo.Var([0, 1], [0, 1], initialize=1.0)
    m.G = pyo.Var([0, 1], [0, 1], initialize=1.0)
    A = Matrix([[m.F[i, j] for j in (0, 1)] for i in (0, 1)])
    B = Matrix([[m.G[i, j] for j in (0, 1)] for i in (0, 1)])
    ex = [h.dissipation_potential(A, B), h.dissipation_rate(A, B, 4)]
    K = h.heat_conductivity_reference(A)
    for _ in range(3):
        F, G = strain(c.rng, "random"), strain(c.rng, "random")
        for i in (0, 1):
            for j in (0, 1):
                m.F[i, j].set_value(F[i, j])
                m.G[i, j].set_value(G[i, j])
        want = [h.dissipation_potential(mat(F), mat(G)), h.dissipation_rate(mat(F), mat(G), 4)]
        for e, w in zip(ex, want):
            c.close(pyo.value(e), float(w), "symbolic dissipation", rtol=1e-10, atol=1e-12)
        W = h.heat_conductivity_reference(mat(F))
        c.close([pyo.value(K[i, j]) for i in (0, 1) for j in (0, 1)], [float(W[i, j]) for i in (0, 1) for j in (0, 1)], "symbolic conductivity", rtol=1e-9, atol=1e-9)
        c.count("symbolic")
