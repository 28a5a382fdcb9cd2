"""Shared machinery of the simulation checks: cases, recording runs, public read-out of histories."""

from __future__ import annotations
import contextlib
import io
import random
import numpy as np
from harness import energy as en, gen, mesh, solver as sv, steps as st


def p1_case(rng, i, cells=6):
    p = gen.rect(rng, 3, 3, scales="unit")
    while p["nx"] * p["ny"] > cells:
        p = gen.rect(rng, 3, 3, scales="unit")
    p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng))
    p["reg"] = p["r"] = None
    return _common(rng, p)


def reg_case(rng, i, shapes=((1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1))):
    p = st.reg_case(rng, i, list(shapes))
    p["reg"] = rng.choice([0.0, 1e-3, 0.1])
    return _common(rng, p)


def _common(rng, p):
    p["fps"] = rng.choice([1.0, 2.0, 3, 10.0, 30, 0.5, 7.3, 240])
    p["theta0"] = rng.choice([0.0, 0.3, 1.0, rng.uniform(0.05, 2), rng.uniform(0.05, 2), 10 ** rng.uniform(0.5, 3)])
    p["radius"] = rng.choice([0.03, 0.05]) * min(1.0, p["scale"])
    return p


def params(p):
    from tvemoves_rufbad.simulation import SimulationParams

    return SimulationParams(
        initial_temperature=p["theta0"], search_radius=p["radius"], fps=p["fps"], scale=p["scale"],
        regularization=p.get("reg"), refinement_factor=p.get("r") if p.get("reg") is not None else None,
    )


def tags(seed):
    return sv.tags(random.Random(seed), 0.9)


def simulate(p, strategy, ext=None, load=None, domain=None, objective=True):
    """(simulation, recorder); the construction already solves two problems."""
    from tvemoves_rufbad.simulation import Simulation

    rec = strategy if isinstance(strategy, sv.Recorder) else sv.Recorder(strategy, objective=objective)
    sv.register(rec)
    kw = {}
    if ext is not None:
        kw["external_temperature"] = ext
    if load is not None:
        kw["boundary_traction"] = load
    sim = Simulation(domain or gen.domain(p), params(p), **kw)
    return sim, rec


def run(sim, *a):
    """run() without the progress bar."""
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return sim.run(*a)


class Frame:
    """Reference view of the discretization of a case."""

    def __init__(self, p):
        d = gen.domain(p)
        self.grid, self.h = d.grid(p["scale"]), p["scale"]
        self.reg = p.get("reg") is not None
        self.fine = d.refine(self.grid, p["r"]) if self.reg else self.grid
        self.P, self.Q = np.array(mesh.pts(self.grid)), np.array(mesh.pts(self.fine))
        self.n, self.m = len(self.P), len(self.Q)
        self.yshape = (self.n, 2, 6) if self.reg else (self.n, 2)
        self.scale = st.dof_scale(self.h) if self.reg else np.full(2, self.h)
        self._bell = None

    @property
    def bell(self):
        if self._bell is None:
            self._bell = en.Bell(self.grid, self.fine)
        return self._bell

    def identity(self):
        return st.bell_identity(self.grid) if self.reg else self.P.copy()

    def read(self, step):
        """Nodal data of a recorded step through its public evaluation."""
        if not self.reg:
            y = np.array([[float(z) for z in step.y(*map(float, x))] for x in self.P])
        else:
            y = np.empty(self.yshape)
            for v, x in enumerate(self.P):
                x = tuple(map(float, x))
                val = step.y(*x)
                for k in (0, 1):
                    g, H = step.y[k].gradient(*x), step.y[k].hessian(*x)
                    y[v, k] = [val[k], g[0], g[1], H[0, 0], H[0, 1], H[1, 1]]
        t = np.array([float(step.theta(*map(float, x))) for x in self.Q])
        return y, t

    def strain_ok(self, *ys):
        q = self.bell if self.reg else en.P1(self.grid)
        from harness import physics as ph

        return all(ph.det(q.strain(y[None])).min() > 0.1 for y in ys)

    def mech_terms(self, p, prev_y, theta, g, Y):
        if self.reg:
            e, hy, d = en.mech_bell_terms(self.bell, prev_y, theta, Y)
            return e + p["reg"] * hy + p["fps"] * d
        e, w, d = en.mech_p1_terms(self.grid, prev_y, theta, g, Y)
        return e - w + p["fps"] * d

    def thermal_terms(self, p, prev_y, y, theta, ext, Theta):
        if self.reg:
            a, b, s = en.thermal_bell_terms(self.bell, prev_y, y, theta, p["fps"], Theta)
            return a + b + p["fps"] * s
        a, b, s, bd = en.thermal_p1_terms(self.grid, prev_y, y, theta, ext, p["fps"], Theta)
        return a + b + p["fps"] * s + bd


def match(c, ev, array, scale, what, rtol=1e-7):
    """Unknown -> flat slot by comparing assigned values with an evaluated array (rounding allowed)."""
    flat = np.asarray(array, dtype=float).ravel()
    tol = rtol * np.broadcast_to(scale, array.shape).ravel()
    res = np.full(len(ev.vars), -1)
    taken = set()
    for k in range(len(ev.vars)):
        if ev.fixed[k]:
            continue
        s = np.flatnonzero(np.abs(flat - ev.assigned[k]) <= tol)
        if len(s) == 0:
            c.check(
                ev.in_tape is not None and not ev.in_tape[k],
                f"{what}: the solution {ev.assigned[k]!r} of unknown {ev.names[k]} is not recorded",
            )
            continue
        if len(s) > 1:  # coincidence of tags: take the closest
            s = s[np.argsort(np.abs(flat[s] - ev.assigned[k]))]
        res[k] = s[0]
        c.check(int(s[0]) not in taken, f"{what}: solutions of two unknowns at one position")
        taken.add(int(s[0]))
    c.count("unknowns_decoded", len(taken))
    return res
