"""Independent reference for Bell elements.

The quintic polynomial is determined in Cartesian monomials from its 18 nodal values and the three
conditions that the normal derivative along each side has no fourth degree part, solved with extended
precision; no shape functions are involved.
"""

from __future__ import annotations
import mpmath
import numpy as np

EXP = [(a, d - a) for d in range(6) for a in range(d, -1, -1)]  # 21 exponents


def _fall(a, k):
    r = 1
    for i in range(k):
        r *= a - i
    return r


def _mono(x, y, dx, dy):
    """The (dx, dy)-th derivative of all monomials at (x, y)."""
    res = []
    for a, b in EXP:
        if a < dx or b < dy:
            res.append(0)
        else:
            res.append(_fall(a, dx) * _fall(b, dy) * x ** (a - dx) * y ** (b - dy))
    return res


DERIVS = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]


class BellRef:
    """Coefficients as linear functions of the 18 parameters, in normalized coordinates."""

    def __init__(self, tri, dps=40):
        with mpmath.workdps(dps):
            T = [[mpmath.mpf(x) for x in q] for q in tri]
            self.cx = sum(q[0] for q in T) / 3
            self.cy = sum(q[1] for q in T) / 3
            self.h = max(mpmath.hypot(T[i][0] - T[j][0], T[i][1] - T[j][1]) for i in range(3) for j in range(i))
            N = [((q[0] - self.cx) / self.h, (q[1] - self.cy) / self.h) for q in T]
            M = mpmath.matrix(21, 21)
            R = mpmath.matrix(21, 18)
            row = 0
            for v in range(3):
                for dx, dy in DERIVS:
                    for k, z in enumerate(_mono(N[v][0], N[v][1], dx, dy)):
                        M[row, k] = z
                    R[row, row] = self.h ** (dx + dy)
                    row += 1
            for i, j in ((0, 1), (1, 2), (2, 0)):
                dx, dy = N[j][0] - N[i][0], N[j][1] - N[i][1]
                nx, ny = -dy, dx
                for k, (a, b) in enumerate(EXP):
                    if a + b == 5:
                        M[row, k] = (a * dx ** (a - 1) * dy**b * nx if a else 0) + (b * dx**a * dy ** (b - 1) * ny if b else 0)
                row += 1
            sol = _solve(M, R)
            self.C = np.array([[float(sol[i, j]) for j in range(18)] for i in range(21)])
            self.cxf, self.cyf, self.hf = float(self.cx), float(self.cy), float(self.h)

    def coeffs(self, params):
        return self.C @ np.asarray(params, dtype=float)

    def eval(self, co, x, y):
        """value, gradient, Hessian at a Cartesian point"""
        X, Y, h = (x - self.cxf) / self.hf, (y - self.cyf) / self.hf, self.hf
        v = [float(np.dot(co, _mono(X, Y, dx, dy))) / h ** (dx + dy) for dx, dy in DERIVS]
        return v[0], [v[1], v[2]], [[v[3], v[4]], [v[4], v[5]]]

    def magnitude(self, params):
        """Bound for the sizes of value, gradient and Hessian terms (for tolerances)."""
        co = np.abs(self.C) @ np.abs(np.asarray(params, dtype=float))
        m = float(co.sum())
        return m, m / self.hf, m / self.hf**2


def _solve(M, R):
    """Gaussian elimination with pivoting for several right-hand sides (mpmath matrices)."""
    n, k = M.rows, R.cols
    A = [[M[i, j] for j in range(n)] + [R[i, j] for j in range(k)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(A[i][c]))
        A[c], A[p] = A[p], A[c]
        inv = 1 / A[c][c]
        A[c] = [x * inv for x in A[c]]
        for i in range(n):
            if i != c and A[i][c] != 0:
                f = A[i][c]
                rc = A[c]
                A[i] = [x - f * y if y else x for x, y in zip(A[i], rc)]
    res = mpmath.matrix(n, k)
    for i in range(n):
        for j in range(k):
            res[i, j] = A[i][n + j]
    return res


def quartic_params(poly, x, y):
    """The six nodal parameters of the polynomial {(a, b): coefficient} at a point."""
    out = []
    for dx, dy in DERIVS:
        out.append(sum(co * _fall(a, dx) * _fall(b, dy) * x ** (a - dx) * y ** (b - dy)
                       for (a, b), co in poly.items() if a >= dx and b >= dy))
    return out
