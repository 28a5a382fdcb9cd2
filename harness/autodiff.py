"""Derivatives of recorded objectives and the optimizer that stands in for the real solver."""

from __future__ import annotations
import ctypes
import hashlib
import os
import subprocess
import tempfile
from pathlib import Path
import numpy as np
from harness import solver as sv
from harness.core import Inconclusive

HERE = Path(__file__).resolve().parent
BUILD = HERE.parent / "build"
_lib = None


def build() -> Path:
    src = HERE / "tape.cpp"
    key = hashlib.sha256(src.read_bytes()).hexdigest()[:12]
    out = BUILD / f"tape-{key}.so"
    if not out.exists():
        BUILD.mkdir(exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".so", dir=BUILD)
        os.close(fd)
        subprocess.run(
            ["g++", "-O2", "-fPIC", "-shared", "-std=c++17", "-o", tmp, str(src)], check=True
        )
        os.replace(tmp, out)
    return out


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(str(build()))
    return _lib


KIND = {sv.CONST: 0, sv.LEAF: 1, sv.SUM: 2, sv.PROD: 3, sv.DIV: 4, sv.POW: 5, sv.NEG: 6}
FUN = {"exp": 7, "log": 8, "sqrt": 9, "sin": 10, "cos": 11, "abs": 12}


def _p(a):
    return a.ctypes.data_as(ctypes.c_void_p)


class Program:
    """A tape prepared for differentiation with respect to some of its leaves."""

    def __init__(self, tape, free_leaves):
        n = len(tape.ops)
        if tape.root != n - 1:  # the last operation has to be the result
            raise ValueError("root is not last")
        self.n = n
        self.kind = np.zeros(n, dtype=np.int32)
        self.a = np.zeros(n, dtype=np.int64)
        self.b = np.zeros(n, dtype=np.int64)
        self.cst = np.zeros(n)
        self.live = np.zeros(n, dtype=np.uint8)
        args: list[int] = []
        free = set(free_leaves)
        where = {}
        live = self.live
        for i, op in enumerate(tape.ops):
            k = op[0]
            if k == sv.FUN:
                self.kind[i], self.a[i] = FUN[op[1]], op[2]
                live[i] = live[op[2]]
                continue
            self.kind[i] = KIND[k]
            if k == sv.CONST:
                self.cst[i] = op[1]
            elif k == sv.LEAF:
                self.a[i] = op[1]
                live[i] = op[1] in free
                where[op[1]] = i
            elif k == sv.SUM:
                self.a[i], self.b[i] = len(args), len(op[1])
                args += op[1]
                live[i] = any(live[j] for j in op[1])
            elif k == sv.NEG:
                self.a[i] = op[1]
                live[i] = live[op[1]]
            else:
                self.a[i], self.b[i] = op[1], op[2]
                live[i] = live[op[1]] or live[op[2]]
                if k == sv.POW and live[op[2]]:
                    raise ValueError("variable exponent")
        self.args = np.array(args, dtype=np.int64)
        self.slots = np.array([where[l] for l in free_leaves], dtype=np.int64)
        self.v, self.adj = np.zeros(n), np.zeros(n)

    def _common(self):
        return ctypes.c_int64(self.n), _p(self.kind), _p(self.a), _p(self.b), _p(self.args)

    def value(self, leaf):
        leaf = np.ascontiguousarray(leaf)
        lib().tape_eval(*self._common(), _p(self.cst), _p(leaf), _p(self.v))
        return float(self.v[-1])

    def gradient(self):
        """At the point of the last value()."""
        lib().tape_grad(*self._common(), _p(self.v), _p(self.live), _p(self.adj))
        return self.adj[self.slots].copy()

    def hessian(self):
        """After gradient()."""
        m = len(self.slots)
        H = np.zeros((m, m))
        lib().tape_hess(
            *self._common(), _p(self.v), _p(self.live), _p(self.adj), ctypes.c_int64(m), _p(self.slots), _p(H)
        )
        return (H + H.T) / 2


class Optimizer:
    """Strategy for a Recorder: damped Newton with bounds and linear equality constraints.

    Monotone: never returns a point with a larger objective than the starting point. The outcome of
    every solve is kept in `reports` (converged, active bounds, iterations, stationarity).
    """

    def __init__(self, max_iter=200, tol=1e-11):
        self.max_iter, self.tol = max_iter, tol
        self.reports: list[dict] = []
        self._programs: dict[int, tuple] = {}

    def __call__(self, ev):
        leaf_of = [ev.tape.leaf_slot.get(id(v)) for v in ev.vars]
        free = [k for k in range(len(ev.vars)) if not ev.fixed[k] and leaf_of[k] is not None]
        key = (id(ev.tape), tuple(free))
        if not hasattr(ev.tape, "ops"):
            raise Inconclusive("the objective contains nodes the optimizer cannot differentiate")
        if key not in self._programs:
            self._programs[key] = Program(ev.tape, [leaf_of[k] for k in free])
        prog = self._programs[key]
        leaves = ev.leaves.copy()
        for k, l in enumerate(leaf_of):
            if l is not None and ev.fixed[k]:
                leaves[l] = ev.start[k]
        idx = np.array([leaf_of[k] for k in free], dtype=int)
        free = np.array(free, dtype=int)
        lb, ub, x = ev.lb[free], ev.ub[free], np.clip(ev.start[free], ev.lb[free], ev.ub[free])
        # equality constraints on the free unknowns
        Z = None
        eq = [(r, lo) for r, lo, hi in ev.rows if lo == hi and np.any(r[free])]
        if eq:
            A = np.array([r[free] for r, _ in eq])
            _, s, Vt = np.linalg.svd(A)
            Z = Vt[(s > 1e-10 * s[0]).sum():].T
            held = np.where(ev.fixed, ev.start, 0.0)
            miss = np.array([lo - r @ held for r, lo in eq]) - A @ x
            if np.abs(miss).max() > 1e-12 * (1 + np.abs(A).sum(axis=1).max() * np.abs(x).max()):
                x = x + np.linalg.pinv(A, rcond=1e-10) @ miss

        def f(z):
            leaves[idx] = z
            v = ev.sign * prog.value(leaves)
            return v if np.isfinite(v) else np.inf

        fx = f(x)
        rep = {"iterations": 0, "converged": False, "start": fx}
        for it in range(self.max_iter if len(free) else 0):
            f(x)
            g = ev.sign * prog.gradient()
            H = ev.sign * prog.hessian()
            if not (np.all(np.isfinite(g)) and np.all(np.isfinite(H))):
                break
            if Z is None:
                hold = ((x <= lb) & (g > 0)) | ((x >= ub) & (g < 0))
                act = np.flatnonzero(~hold)
                gr, Hr = g[act], H[np.ix_(act, act)]
            else:
                gr, Hr = Z.T @ g, Z.T @ H @ Z
            rep.update(iterations=it, stationarity=float(np.abs(gr).max(initial=0)))
            if not len(gr):
                rep["converged"] = True
                break
            w, V = np.linalg.eigh(Hr)
            wm = np.maximum(np.abs(w), 1e-10 * max(np.abs(w).max(), 1e-300))
            s = -V @ ((V.T @ gr) / wm)
            decrement = float(-gr @ s)
            if decrement <= self.tol**2 * (1 + abs(fx)) and np.abs(gr).max() <= 1e-8 * (1 + np.abs(g).max()):
                rep["converged"] = True
                break
            if Z is None:
                d = np.zeros(len(x))
                d[act] = s
            else:
                d = Z @ s
            t, done = 1.0, False
            while t > 1e-14:
                xn = x + t * d
                if Z is None:
                    xn = np.clip(xn, lb, ub)
                elif np.any(xn < lb) or np.any(xn > ub):
                    t *= 0.5
                    continue
                fn = f(xn)
                if fn < fx and fn <= fx - 1e-4 * max(0.0, float(-g @ (xn - x))):
                    done = True
                    break
                t *= 0.5
            if not done:
                # no decrease representable in floating point
                rep["converged"] = decrement <= 1e-12 * (1 + abs(fx))
                if rep["converged"] and np.abs(d).max() < 1e-5:
                    # polish stationarity although the value cannot show it
                    xn = np.clip(x + d, lb, ub)
                    fn = f(xn)
                    if np.isfinite(fn) and fn <= fx + 1e-14 * (1 + abs(fx)):
                        prog.gradient()
                        g2 = ev.sign * prog.adj[prog.slots]
                        r2 = Z.T @ g2 if Z is not None else g2[act]
                        if np.abs(r2).max(initial=0) < np.abs(gr).max(initial=0):
                            x, fx = xn, fn
                            rep["stationarity"] = float(np.abs(r2).max(initial=0))
                break
            x, fx = xn, fn
        else:
            rep["converged"] = not len(free)
        width = np.where(np.isfinite(ub - lb), ub - lb, 1.0)
        rep.update(
            value=fx, kind="mechanical" if ev.index % 2 == 0 else "thermal",
            at_lower=int((x <= lb + 1e-7 * width).sum()), at_upper=int((x >= ub - 1e-7 * width).sum()),
        )
        self.reports.append(rep)
        out = ev.start.copy()
        out[free] = x
        return out

    def kick(self, ev, rng, amount, few=False):
        """A feasible point near the starting values (instead of a solution)."""
        free = np.flatnonzero(~ev.fixed)
        d = np.array([rng.uniform(-1, 1) for _ in free])
        if few and len(d):  # one unknown only
            k = rng.randrange(len(d))
            d[:k] = d[k + 1:] = 0.0
        eq = [r[free] for r, lo, hi in ev.rows if lo == hi and np.any(r[free])]
        if eq:
            _, s, Vt = np.linalg.svd(np.array(eq))
            Z = Vt[(s > 1e-10 * s[0]).sum():].T
            d = Z @ (Z.T @ d)
        base = sv.objective_at(ev, ev.start[None])[0]
        for _ in range(20):
            x = ev.start.copy()
            x[free] = np.clip(x[free] + amount * d, ev.lb[free], ev.ub[free]) if not eq else x[free] + amount * d
            v = sv.objective_at(ev, x[None])[0]
            if np.isfinite(v) and np.all(x >= ev.lb) and np.all(x <= ev.ub) and np.isfinite(base):
                return x
            amount *= 0.6
        return ev.start.copy()
