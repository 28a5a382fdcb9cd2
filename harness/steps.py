"""Shared machinery of the step checks: states, loads, decoding of unknowns."""

from __future__ import annotations
import math
import random
import numpy as np
from harness import energy as en, gen, geom, mesh, physics as ph, solver as sv


# ---- grids ----------------------------------------------------------------------------------
def p1_case(rng, i, cells=12):
    p = gen.rect(rng, 4, 4, scales="moderate")
    while p["nx"] * p["ny"] > cells:
        p = gen.rect(rng, 4, 4, scales="moderate")
    p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng))
    p["mesh"] = ["plain", "distorted", "renumbered", "refined"][i % 4]
    p["r"] = 2
    if p["mesh"] == "refined" and p["nx"] * p["ny"] > 4:
        p["mesh"] = "plain"
    p["gseed"] = rng.randrange(2**31)
    return p


def p1_grid(p):
    """(grid, cell size)"""
    rng = random.Random(p["gseed"])
    d = gen.domain(p)
    g, h = d.grid(p["scale"]), p["scale"]
    if p["mesh"] == "distorted":
        return geom.distorted(rng, g, h), h
    if p["mesh"] == "renumbered":
        # a plain permutation of the vertex numbers, lists in any order
        return geom.renumber(rng, g, shuffle_ids=False), h
    if p["mesh"] == "refined":
        return d.refine(g, p["r"]), h / p["r"]
    return g, h


REG_SHAPES = [(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (1, 2, 2)]


def reg_case(rng, i, shapes=REG_SHAPES):
    nx, ny, r = shapes[i % len(shapes)]
    s = rng.choice([1.0, 0.5, 10 ** rng.uniform(-1, 1), rng.uniform(0.2, 3)])
    ux, uy = (rng.choice([0.0, 0.0, rng.uniform(0.05, 0.9)]) for _ in range(2))
    return dict(nx=nx, ny=ny, r=r, scale=s, width=(nx + ux) * s, height=(ny + uy) * s,
                fix=gen.fix_repr(rng, gen.fix_sides(rng)), mesh="plain", gseed=rng.randrange(2**31))


def reg_grids(p):
    """(coarse, refined, cell size)"""
    d = gen.domain(p)
    g = d.grid(p["scale"])
    r = d.refine(g, p["r"])
    if p["mesh"] == "sheared":
        return *geom.sheared(random.Random(p["gseed"]), g, r, p["scale"]), p["scale"]
    return g, r, p["scale"]


def shear(p, i):
    """Every third case lives on an affine image of the grids (sides in general directions)."""
    if i % 3 == 1:
        p["mesh"] = "sheared"
    return p


# ---- loads ----------------------------------------------------------------------------------
def traction(seed, size=1.0, h=1.0):
    """A time dependent traction without symmetries, determined by a seed."""
    r = random.Random(seed)
    a = [[r.uniform(-1, 1) for _ in range(6)] for _ in range(2)]
    w = [r.uniform(0.5, 3) for _ in range(4)]

    def g(t, x, y, /):  # the documented types are positional
        x, y = float(x) / h, float(y) / h
        return [
            size * (k[0] + k[1] * x + k[2] * y + k[3] * math.sin(w[0] * t + w[1] * x) + k[4] * math.cos(w[2] * t - w[3] * y)
                    + k[5] * t)
            for k in a
        ]

    return g


def patchy(load, h, pulse=True):
    """The load switched off (exactly) on parts of space and time."""

    def g(t, x, y, /):
        on = math.sin(11 * t * pulse + 5 * float(x) / h + 7 * float(y) / h) < 0.3 and not (pulse and 2 < t < 3.5)
        return load(t, x, y) if on else [0.0, 0.0]

    return g


def temperature(seed, size=1.0):
    r = random.Random(seed)
    a, b, w = r.uniform(0.2, 1), r.uniform(0, 1), r.uniform(0.5, 3)

    def ext(t, /):
        return size * (a + b * (1 + math.sin(w * t + a)) / 2)

    return ext


# ---- states ---------------------------------------------------------------------------------
def affine(rng, strength=1.0):
    while True:
        A = np.array(gen.rotation(rng.uniform(-0.6, 0.6) * strength)) @ (
            np.eye(2) + strength * np.array([[rng.uniform(-0.25, 0.25) for _ in range(2)] for _ in range(2)])
        )
        if np.linalg.det(A) > 0.4:
            return A


def noise(rng, shape):
    n = int(np.prod(shape))
    return np.array([rng.uniform(-1, 1) for _ in range(n)]).reshape(shape)


def p1_state(rng, grid, h, strength=1.0, quad=None, amp=0.12):
    """Random admissible deformation (positive determinants) as (N, 2) array."""
    P = np.array(mesh.pts(grid))
    q = quad or en.P1(grid)
    while True:
        A = affine(rng, strength)
        off = noise(rng, 2) * h * rng.choice([0.0, 1.0, 3.0])
        Y = P @ A.T + off + amp * h * noise(rng, P.shape)
        if ph.det(q.strain(Y[None])).min() > 0.25:
            return Y
        amp *= 0.9


def dof_scale(h):
    return np.array([h, 1.0, 1.0, 1 / h, 1 / h, 1 / h])


def bell_identity(grid):
    P = mesh.pts(grid)
    return np.array([[[x, 1, 0, 0, 0, 0], [y, 0, 1, 0, 0, 0]] for x, y in P], dtype=float)


def bell_state(rng, grid, h, bell, amp=0.08, strength=1.0):
    """Random admissible C1 deformation as (N, 2, 6) array."""
    P = np.array(mesh.pts(grid))
    while True:
        A, off = affine(rng, strength), noise(rng, 2) * h * rng.choice([0.0, 1.0, 3.0])
        Y = np.zeros((len(P), 2, 6))
        Y[:, :, 0] = P @ A.T + off
        Y[:, :, 1], Y[:, :, 2] = A[:, 0], A[:, 1]
        Y += amp * noise(rng, Y.shape) * dof_scale(h)
        if ph.det(bell.strain(Y[None])).min() > 0.25:
            return Y
        amp *= 0.85


def temps(rng, n):
    kind = rng.choice(["random", "random", "zero", "constant", "some zero"])
    if kind == "zero":
        return np.zeros(n)
    if kind == "constant":
        return np.full(n, rng.choice([0.1, 1.0, rng.uniform(0, 2)]))
    t = np.array([rng.uniform(0, 2) for _ in range(n)])
    if kind == "some zero":
        t[np.array([rng.random() < 0.4 for _ in range(n)])] = 0.0
    return t


# ---- decoding -------------------------------------------------------------------------------
def decode(c, ev, array, what, prev=None, tol=0.0):
    """Unknown -> flat slot of the array in which its value was returned.

    Needs an event whose assigned values are unique. Slots showing no assigned value are those of
    fixed unknowns (and have to show the previous value when that is given).
    """
    flat = np.asarray(array, dtype=float).ravel()
    slots = {}
    for s, x in enumerate(flat):
        slots.setdefault(float(x), []).append(s)
    res = np.full(len(ev.vars), -1)
    hit = set()
    for k in range(len(ev.vars)):
        if ev.fixed[k]:
            continue
        s = slots.get(float(ev.assigned[k]), [])
        c.check(len(s) <= 1, f"{what}: the value of one unknown is returned at several positions")
        if s:
            res[k] = s[0]
            c.check(s[0] not in hit, f"{what}: two unknowns at one position")
            hit.add(s[0])
        else:
            c.check(
                ev.in_tape is None or not ev.in_tape[k],
                f"{what}: the solution of unknown {ev.names[k]} is not returned anywhere",
            )
    if prev is not None:
        p = np.asarray(prev, dtype=float).ravel()
        for s in range(len(flat)):
            if s not in hit:
                c.check(
                    abs(flat[s] - p[s]) <= tol * (1 + abs(p[s])),
                    lambda: f"{what}: position {s} shows {flat[s]!r}, neither a solution value nor the"
                    f" previous value {p[s]!r}",
                )
    c.count("unknowns_decoded", len(hit))
    return res


def assignments(ev, slots, arrays):
    """Samples of the slot array -> assignments of the unknowns (fixed ones keep their values)."""
    X = np.repeat(ev.start[None], len(arrays), axis=0)
    flat = np.asarray(arrays, dtype=float).reshape(len(arrays), -1)
    for k, s in enumerate(slots):
        if s >= 0:
            X[:, k] = flat[:, s]
    return X


def free_mask(slots, shape):
    m = np.zeros(int(np.prod(shape)), dtype=bool)
    m[[s for s in slots if s >= 0]] = True
    return m.reshape(shape)


def layout(rng, a):
    """The same numbers in another memory layout."""
    k = rng.choice(["c", "f", "strided", "reversed", "readonly", "offset"])
    if k == "f":
        return np.asfortranarray(a)
    if k == "strided":
        b = np.full(tuple(2 * n for n in a.shape), np.nan)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == "offset":
        b = np.full((a.shape[0] + 2,) + a.shape[1:], np.nan)
        b[1:-1] = a
        return b[1:-1]
    a = a.copy()
    if k == "readonly":
        a.setflags(write=False)
    return a
