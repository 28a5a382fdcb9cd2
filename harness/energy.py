"""Reference functionals of the two steps, integrated independently of the code under test.

Everything is vectorized over K samples of the unknowns. Only points, triangles and edges of the
(monitored) grids are taken from the code.
"""

from __future__ import annotations
import numpy as np
from harness import mesh, physics as ph
from harness.bellref import BellRef, DERIVS, EXP, _mono

# degree 2 and degree 5 rules of Dunavant: barycentric points and weights
_D2 = ([(2 / 3, 1 / 6, 1 / 6), (1 / 6, 2 / 3, 1 / 6), (1 / 6, 1 / 6, 2 / 3)], [1 / 3] * 3)


def _d5():
    s = np.sqrt(15.0)
    a, b = (6 - s) / 21, (6 + s) / 21
    wa, wb = (155 - s) / 1200, (155 + s) / 1200
    pts = [(1 / 3, 1 / 3, 1 / 3)]
    for x in (a, b):
        pts += [(1 - 2 * x, x, x), (x, 1 - 2 * x, x), (x, x, 1 - 2 * x)]
    return pts, [9 / 40, wa, wa, wa, wb, wb, wb]


_D5 = _d5()


class P1:
    """Degree 2 rule on the triangles of a grid; barycentric data per quadrature point."""

    def __init__(self, grid):
        self.P = np.array(mesh.pts(grid))
        self.T = np.array([tuple(t) for t in grid.triangles])
        a, b, c = (self.P[self.T[:, k]] for k in range(3))
        d1, d2 = b - a, c - a
        det = d1[:, 0] * d2[:, 1] - d1[:, 1] * d2[:, 0]
        self.area = np.abs(det) / 2
        # gradients of the barycentric coordinates (triangles, 3, 2)
        g = np.empty((len(self.T), 3, 2))
        g[:, 1, 0], g[:, 1, 1] = d2[:, 1] / det, -d2[:, 0] / det
        g[:, 2, 0], g[:, 2, 1] = -d1[:, 1] / det, d1[:, 0] / det
        g[:, 0] = -g[:, 1] - g[:, 2]
        self.grad = g
        self.B = np.array(_D2[0])
        self.w = self.area[:, None] * np.array(_D2[1])[None, :]

    def strain(self, Y):
        """(K, N, 2) -> (K, triangles, 2, 2), rows: components"""
        return np.einsum("ktvc,tvd->ktcd", Y[:, self.T], self.grad)

    def at(self, Z):
        """scalar (K, N) -> (K, triangles, quadrature points)"""
        return np.einsum("ktv,qv->ktq", Z[:, self.T], self.B)

    def gradient(self, Z):
        return np.einsum("ktv,tvd->ktd", Z[:, self.T], self.grad)


def edge_midpoint(P, edges, f, Y):
    """sum over edges of length * f(midpoint value of the nodal data Y (K, N[, c]))"""
    total = 0.0
    for i, j in edges:
        total = total + np.hypot(*(P[i] - P[j])) * f((Y[:, i] + Y[:, j]) / 2, i, j)
    return total


def mech_p1_terms(grid, prev_y, prev_theta, g, Y):
    """Elastic energy, traction work and dissipation, each (K,). g: dict vertex -> (g1, g2)."""
    q = P1(grid)
    F, F0 = q.strain(Y), q.strain(prev_y[None])
    t = q.at(prev_theta[None])
    W = ph.total(F[:, :, None], t)
    elastic = np.einsum("ktq,tq->k", W, q.w)
    diss = np.einsum("kt,t->k", ph.dissipation(np.broadcast_to(F0, F.shape), F), q.area)
    edges = [tuple(e) for e in grid.neumann_boundary.edges]
    work = np.zeros(len(Y))
    if edges:
        work = work + edge_midpoint(
            q.P, edges, lambda y, i, j: y @ ((np.asarray(g[i]) + np.asarray(g[j])) / 2), Y
        )
    return elastic, work, diss


def thermal_terms(F, F0, theta0, theta, gtheta, fps):
    """Integrands of conduction, source (without the factor theta applied), storage."""
    A = ph.conductivity(F0)
    cond = np.einsum("...i,...ij,...j->...", gtheta, A, gtheta)
    rate = 2 * fps**2 * ph.dissipation(F0, F)
    S = ph.coupling_stress(F0, theta0)
    power = np.sum(S * (F - F0) * fps, axis=(-2, -1))
    source = -(rate + power) * theta
    jump = lambda G: ph.austenite(G) - ph.martensite(G)
    storage = (
        ph.ENTROPY / 2 * (theta - theta0) ** 2
        + ph.antider_weight(theta) * jump(F)
        - ph.weight(theta0) * jump(F0) * theta
    )
    return cond, source, storage


def thermal_p1_terms(grid, prev_y, y, prev_theta, ext, fps, Theta):
    q = P1(grid)
    F0, F = q.strain(prev_y[None])[:, :, None], q.strain(y[None])[:, :, None]
    t0, t = q.at(prev_theta[None]), q.at(Theta)
    g = q.gradient(Theta)[:, :, None]
    sh = np.broadcast_shapes(F0.shape[:-2], t.shape)
    F0, F = (np.broadcast_to(G, sh + (2, 2)) for G in (F0, F))
    cond, source, storage = thermal_terms(F, F0, t0, t, np.broadcast_to(g, sh + (2,)), fps)
    I = lambda z: np.einsum("ktq,tq->k", np.broadcast_to(z, sh), q.w)
    edges = [tuple(e) for e in grid.boundary.edges]
    bnd = edge_midpoint(q.P, edges, lambda th, i, j: ph.HEAT_TRANSFER / 2 * (th - ext) ** 2, Theta)
    return I(cond), I(source), I(storage), bnd


class Bell:
    """Degree 5 rule on a refined grid with Bell basis values on the coarse grid."""

    def __init__(self, grid, refined, cache={}):
        P, Q = np.array(mesh.pts(grid)), np.array(mesh.pts(refined))
        T = [tuple(t) for t in grid.triangles]
        R = np.array([tuple(t) for t in refined.triangles])
        self.R, self.n = R, len(P)
        d1, d2 = Q[R[:, 1]] - Q[R[:, 0]], Q[R[:, 2]] - Q[R[:, 0]]
        det = d1[:, 0] * d2[:, 1] - d1[:, 1] * d2[:, 0]
        area = np.abs(det) / 2
        g = np.empty((len(R), 3, 2))
        g[:, 1, 0], g[:, 1, 1] = d2[:, 1] / det, -d2[:, 0] / det
        g[:, 2, 0], g[:, 2, 1] = -d1[:, 1] / det, d1[:, 0] / det
        g[:, 0] = -g[:, 1] - g[:, 2]
        self.rgrad, self.B = g, np.array(_D5[0])
        self.w = (area[:, None] * np.array(_D5[1])[None, :]).ravel()
        nq = len(_D5[1])
        # basis[m] of shape (refined triangles * nq, 18): derivative m as linear map of the parameters
        M = len(R) * nq
        self.basis = np.empty((6, M, 18))
        self.host = np.empty((M, 3), dtype=int)
        for r, t in enumerate(R):
            cen = Q[t].mean(axis=0)
            host = next(h for h in T if _inside(P, h, cen))
            key = _shape(P, host)
            if key not in cache:
                cache[key] = BellRef([tuple(map(float, P[v] - P[host[0]])) for v in host])
            ref = cache[key]
            for k, l in enumerate(_D5[0]):
                x, y = sum(l[a] * Q[t[a]] for a in range(3)) - P[host[0]]
                X, Y = (x - ref.cxf) / ref.hf, (y - ref.cyf) / ref.hf
                for m, (dx, dy) in enumerate(DERIVS):
                    self.basis[m, r * nq + k] = np.array(_mono(X, Y, dx, dy), float) @ ref.C / ref.hf ** (dx + dy)
                self.host[r * nq + k] = host
        self.nq = nq

    def derivs(self, Y):
        """(K, N, 2, 6) -> list over derivatives of (K, points, 2)"""
        Z = Y[:, self.host]  # (K, points, 3, 2, 6)
        Z = np.moveaxis(Z, 3, 2).reshape(Y.shape[0], self.host.shape[0], 2, 18)
        return [np.einsum("kpcj,pj->kpc", Z, self.basis[m]) for m in range(6)]

    def strain(self, Y):
        d = self.derivs(Y)
        return np.stack([d[1], d[2]], axis=-1)

    def temp(self, Z):
        """(K, refined vertices) -> values (K, points), gradients (K, points, 2)"""
        v = np.einsum("krv,qv->krq", Z[:, self.R], self.B).reshape(Z.shape[0], -1)
        g = np.einsum("krv,rvd->krd", Z[:, self.R], self.rgrad)
        return v, np.repeat(g, self.nq, axis=1)


def _shape(P, t):
    return tuple(float(x) for v in t for x in (P[v] - P[t[0]]))


def _inside(P, t, x):
    a = [np.cross(P[t[(k + 1) % 3]] - P[t[k]], x - P[t[k]]) for k in range(3)]
    return min(a) > 0 or max(a) < 0


def mech_bell_terms(bell, prev_y, prev_theta, Y):
    d = bell.derivs(Y)
    F = np.stack([d[1], d[2]], axis=-1)
    F0 = np.broadcast_to(bell.strain(prev_y[None]), F.shape)
    t, _ = bell.temp(prev_theta[None])
    hyper = np.sum(d[3] ** 2 + 2 * d[4] ** 2 + d[5] ** 2, axis=-1)
    I = lambda z: z @ bell.w
    return I(ph.total(F, t)), I(hyper**1.5), I(ph.dissipation(F0, F))


def thermal_bell_terms(bell, prev_y, y, prev_theta, fps, Theta):
    t, g = bell.temp(Theta)
    F0 = np.broadcast_to(bell.strain(prev_y[None]), t.shape + (2, 2))
    F = np.broadcast_to(bell.strain(y[None]), t.shape + (2, 2))
    t0 = np.broadcast_to(bell.temp(prev_theta[None])[0], t.shape)
    return tuple(z @ bell.w for z in thermal_terms(F, F0, t0, t, g, fps))


def compare(c, code, ref, what, tol=1e-8):
    """code = a * ref + b with a > 0 on all samples. Returns a."""
    code, ref = np.asarray(code), np.asarray(ref)
    c.check(bool(np.all(np.isfinite(ref))), "reference not finite (harness)")
    c.check(bool(np.all(np.isfinite(code))), f"{what}: objective not finite at a feasible point")
    d, r = code[1:] - code[0], ref[1:] - ref[0]
    n = float(r @ r)
    mag = max(np.abs(ref).max(), 1e-300)
    spread = float(np.abs(r).max())
    if spread <= 1e-9 * mag:
        return None  # nothing varies: no statement
    a = float(d @ r) / n
    c.check(a > 0, f"{what}: objective decreases where the reference increases (factor {a:.3g})")
    err = float(np.abs(d - a * r).max()) / a
    bound = tol * spread + 1e-11 * mag
    k = int(np.abs(d - a * r).argmax())
    c.check(
        err <= bound,
        f"{what}: objective differs from the reference functional: increment {d[k] / a:.12g} (rescaled)"
        f" instead of {r[k]:.12g}, error {err:.3g} > {bound:.3g}",
    )
    c.count("objective_samples", len(code))
    return a
