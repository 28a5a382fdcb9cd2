"""C07: tensor operations obey exact linear algebra."""

import math
from itertools import permutations
from fractions import Fraction
from harness.core import Check

CHECK = Check(
    "C07",
    "A case fixes shapes and an entry type (int, Fraction, float with exact arithmetic, complex, sympy"
    " symbol, pyomo expression, mpmath number); every public operation is executed on fresh random"
    " operands, the result compared entry by entry with an index-wise reference, and the operands with"
    " a deep copy taken before. Non-trivial: every case.",
    ["floating point entries are small integers or dyadic so that every operation is exact, or compared with the"
     " exact result up to the rounding of the terms of each entry"],
)

KINDS = ["fraction", "int", "float", "complex", "sympy", "mpmath", "pyomo", "bigint", "scaled", "numpy"]


def _entry(kind, rng, env):
    if kind == "fraction":
        return Fraction(rng.randint(-30, 30), rng.randint(1, 12))
    if kind == "int":
        return rng.randint(-9, 9)
    if kind == "bigint":
        return rng.randint(-(10**30), 10**30)
    if kind == "float":
        return rng.randint(-64, 64) / 8
    if kind == "numpy":
        import numpy as np

        return np.float64(rng.randint(-64, 64) / 8)
    if kind == "scaled":  # all entries tiny or all huge, every operation still exact
        e = env.setdefault("e", rng.choice([rng.randint(-80, -10), rng.randint(10, 40)]))
        return math.ldexp(float(rng.randint(-64, 64)), e)
    if kind == "complex":
        return complex(rng.randint(-8, 8), rng.randint(-8, 8))
    if kind == "mpmath":
        import mpmath

        return mpmath.mpf(rng.randint(-64, 64)) / 8
    if kind == "sympy":
        import sympy

        return sympy.Symbol(f"x{rng.randrange(6)}") * rng.randint(1, 3) + rng.randint(-2, 2)
    import pyomo.environ as pyo

    if "m" not in env:
        env["m"] = pyo.ConcreteModel()
        env["m"].x = pyo.Var(range(6), initialize=lambda _, i: [0.5, -1.25, 2.0, 3.0, -0.75, 1.5][i])
    return env["m"].x[rng.randrange(6)] * rng.randint(1, 3) + rng.randint(-2, 2)


def _num(kind, x):
    """Plain comparable value of an entry."""
    if kind == "sympy":
        import sympy

        return sympy.expand(x)
    if kind == "pyomo":
        import pyomo.environ as pyo

        return float(pyo.value(x))
    return x


def _same(c, kind, got, want, what):
    a, b = _num(kind, got), _num(kind, want)
    c.check(a == b or (kind == "pyomo" and math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-12)),
            lambda: f"{what} ({kind}): got {a!r}, expected {b!r}")


def _cmp(c, kind, got, cls, shape, want, what):
    """got is a tensor of the given class and shape with entries want(index)."""
    c.check(type(got) is cls, lambda: f"{what}: result is a {type(got).__name__}, not {cls.__name__}")
    c.eq(tuple(got.shape), tuple(shape), f"{what}: shape")
    if len(shape) == 1:
        c.eq(got.size, shape[0], f"{what}: size")
        c.eq(len(got), shape[0], f"{what}: length")
        for i in range(shape[0]):
            _same(c, kind, got[i], want(i), f"{what}[{i}]")
    elif len(shape) == 2:
        for i in range(shape[0]):
            for j in range(shape[1]):
                _same(c, kind, got[i, j], want(i, j), f"{what}[{i},{j}]")
    else:
        for i in range(shape[0]):
            for j in range(shape[1]):
                for k in range(shape[2]):
                    _same(c, kind, got[i, j, k], want(i, j, k), f"{what}[{i},{j},{k}]")
    c.count("tensor_results")


def _det(A):
    """Determinant by expansion along the first row (division free)."""
    if len(A) == 1:
        return A[0][0]
    return sum(
        (-1) ** j * A[0][j] * _det([row[:j] + row[j + 1 :] for row in A[1:]]) for j in range(len(A))
    )


def _sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def _gen(rng, i):
    return dict(
        kind=KINDS[i % len(KINDS)] if i < 64 else rng.choice(KINDS[:4] + ["scaled", "numpy"]),
        n=rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), m=rng.choice([1, 2, 3, 4, 6]),
        k=rng.choice([1, 2, 3, 5]), q=rng.choice([1, 2, 3, 4]),
    )


def body(c, p):
    from tvemoves_rufbad.tensors import Vector, Matrix, Tensor3D, inverse_2x2

    kind, n, m, k, q = p["kind"], p["n"], p["m"], p["k"], p["q"]
    if kind in ("sympy", "pyomo"):
        n, m = min(n, 3), min(m, 3)
    env = {}
    E = lambda: _entry(kind, c.rng, env)
    same = lambda got, want, what: _same(c, kind, got, want, what)
    lst = lambda a: [E() for _ in range(a)]
    lst2 = lambda a, b: [lst(b) for _ in range(a)]
    a, b = lst(n), lst(n)
    A, B, C = lst2(n, m), lst2(n, m), lst2(m, k)
    S = [lst2(q, m) for _ in range(2)]
    T, U = [lst2(m, k) for _ in range(q)], [lst2(m, k) for _ in range(q)]
    s = E()
    while kind != "sympy" and kind != "pyomo" and s == 0:
        s = E()
    if kind in ("float", "scaled", "numpy"):
        s = c.rng.choice([0.5, -2.0, 4.0, -0.25])
    if kind == "numpy":
        import numpy as np

        s = np.float64(s) if c.rng.random() < 0.7 else np.int64(c.rng.choice([-2, 4, 8]))
    if kind == "mpmath":
        import mpmath

        s = mpmath.mpf(c.rng.choice([0.5, -2.0, 4.0]))
    cp = lambda x: [cp(y) for y in x] if isinstance(x, list) else x
    v, w = Vector(cp(a)), Vector(cp(b))
    X, Y, Z = Matrix(cp(A)), Matrix(cp(B)), Matrix(cp(C))
    P, Q = Tensor3D(cp(T)), Tensor3D(cp(U))
    div = kind not in ("int", "bigint", "pyomo")
    cmp = lambda got, cls, shape, want, what: _cmp(c, kind, got, cls, shape, want, what)

    # -- vectors ------------------------------------------------------------------------------
    cmp(v, Vector, (n,), lambda i: a[i], "vector")
    cmp(v + w, Vector, (n,), lambda i: a[i] + b[i], "sum")
    cmp(v - w, Vector, (n,), lambda i: a[i] - b[i], "difference")
    cmp(-v, Vector, (n,), lambda i: -a[i], "negation")
    cmp(v * s, Vector, (n,), lambda i: a[i] * s, "vector * scalar")
    if kind not in ("sympy",):
        cmp(s * v, Vector, (n,), lambda i: a[i] * s, "scalar * vector")
    if div:
        cmp(v / s, Vector, (n,), lambda i: a[i] / s, "vector / scalar")
        cmp(X / s, Matrix, (n, m), lambda i, j: A[i][j] / s, "matrix / scalar")
    same(v.dot(w), _sum(x * y for x, y in zip(a, b)), "dot product")
    same(v.normsqr(), _sum(x * x for x in a), "squared norm of a vector")
    cmp(v.stack(w), Matrix, (2, n), lambda i, j: (a, b)[i][j], "stacked vectors")
    cmp(v.extend(Vector(cp(A[0]))), Vector, (n + m,), lambda i: (a + A[0])[i], "extension")
    cmp(v.transpose(), Matrix, (1, n), lambda i, j: a[j], "transposed vector")
    cmp(Vector([x for r in A for x in r]).reshape(n, m), Matrix, (n, m), lambda i, j: A[i][j], "reshape")
    cmp(X.flatten().reshape(m, n), Matrix, (m, n), lambda i, j: A[(i * n + j) // m][(i * n + j) % m], "reshape after flatten")
    f = lambda x: x * x - 3 * x + 1
    cmp(v.map(f), Vector, (n,), lambda i: f(a[i]), "map over a vector")
    got = list(iter(v))
    c.eq(len(got), n, "number of iterated entries")
    for i in range(n):
        same(got[i], a[i], f"iterated entry {i}")
    pairs = [(x, y) for x in v for y in v]
    c.eq(len(pairs), n * n, "number of pairs in a nested iteration")
    for i in range(n):
        for j in range(n):
            same(pairs[i * n + j][0], a[i], f"entry {i} of a nested iteration")
            same(pairs[i * n + j][1], a[j], f"entry {j} of a nested iteration")
    first = iter(v)
    next(first)
    c.eq(len(list(zip(v, v))), n, "length of a vector zipped with itself")
    c.eq(len(list(first)), n - 1, "entries left in an iteration after others")
    c.count("nested_iterations")
    for _ in range(4):
        lo, hi, st = c.rng.randint(0, n), c.rng.randint(0, n), c.rng.choice([None, 1, 2, -1])
        sl = slice(lo, hi, st)
        want = a[sl]
        cmp(v[sl], Vector, (len(want),), lambda i: want[i], f"slice {sl}")
    want = a[:]
    cmp(v[:], Vector, (n,), lambda i: want[i], "full slice")

    # -- matrices -------------------------------------------------------------------------------
    cmp(X, Matrix, (n, m), lambda i, j: A[i][j], "matrix")
    cmp(X + Y, Matrix, (n, m), lambda i, j: A[i][j] + B[i][j], "matrix sum")
    cmp(X - Y, Matrix, (n, m), lambda i, j: A[i][j] - B[i][j], "matrix difference")
    cmp(-X, Matrix, (n, m), lambda i, j: -A[i][j], "matrix negation")
    cmp(X * s, Matrix, (n, m), lambda i, j: A[i][j] * s, "matrix * scalar")
    if kind not in ("sympy",):
        cmp(s * X, Matrix, (n, m), lambda i, j: A[i][j] * s, "scalar * matrix")
    cmp(X @ Z, Matrix, (n, k), lambda i, j: _sum(A[i][l] * C[l][j] for l in range(m)), "matrix product")
    cmp(X.transpose(), Matrix, (m, n), lambda i, j: A[j][i], "transpose")
    cmp(X.transpose().transpose(), Matrix, (n, m), lambda i, j: A[i][j], "double transpose")
    u = C[0][:0] + [E() for _ in range(m)]
    cmp(X.dot(Vector(cp(u))), Vector, (n,), lambda i: _sum(A[i][j] * u[j] for j in range(m)), "matrix times vector")
    same(X.scalar_product(Y), _sum(A[i][j] * B[i][j] for i in range(n) for j in range(m)), "Frobenius product")
    same(X.normsqr(), _sum(x * x for r in A for x in r), "squared Frobenius norm")
    cmp(X.flatten(), Vector, (n * m,), lambda i: A[i // m][i % m], "flatten")
    cmp(X.map(f), Matrix, (n, m), lambda i, j: f(A[i][j]), "map over a matrix")
    cmp(X.stack(Y), Tensor3D, (2, n, m), lambda i, j, l: (A, B)[i][j][l], "stacked matrices")
    M = Matrix(cp(S[0]))
    N = Matrix(cp(S[1]))
    cmp(M.stack(N), Tensor3D, (2, q, m), lambda i, j, l: S[i][j][l], "stacked matrices")
    d = min(n, 4 if kind in ("sympy", "pyomo") else 5)
    D = lst2(d, d)
    if d >= 2 and c.rng.random() < 0.2:
        D[1] = cp(D[0])  # singular
    Dm = Matrix(cp(D))
    same(Dm.det(), _det(D), f"{d}x{d} determinant")
    same(Dm.trace(), _sum(D[i][i] for i in range(d)), "trace")
    same(Dm.transpose().det(), _det(D), "determinant of the transpose")
    c.count("determinants")
    if div:
        for _ in range(3):
            I = lst2(2, 2)
            det = I[0][0] * I[1][1] - I[0][1] * I[1][0]
            if kind in ("float", "scaled", "numpy"):
                I = [[2.0, c.rng.randint(-8, 8) / 4], [0.0, -4.0]]
                c.rng.shuffle(I)
                if kind == "scaled":
                    e = env["e"] // 2
                    I = [[math.ldexp(x, e) for x in row] for row in I]
            if kind in ("float", "scaled", "mpmath", "numpy"):
                det = I[0][0] * I[1][1] - I[0][1] * I[1][0]
            if det == 0 or kind in ("mpmath", "complex"):
                continue
            R = inverse_2x2(Matrix(cp(I)))
            if kind == "sympy":
                import sympy

                prod = sympy.Matrix(I) * sympy.Matrix([[R[0, 0], R[0, 1]], [R[1, 0], R[1, 1]]])
                c.check(sympy.simplify(prod - sympy.eye(2)) == sympy.zeros(2), "inverse of a symbolic matrix")
            else:
                cmp(Matrix(cp(I)) @ R, Matrix, (2, 2), lambda i, j: int(i == j), "matrix times inverse")
                cmp(R @ Matrix(cp(I)), Matrix, (2, 2), lambda i, j: int(i == j), "inverse times matrix")
            c.count("inverses")

    # -- 3-d tensors -----------------------------------------------------------------------------
    sh = (q, m, k)
    cmp(P, Tensor3D, sh, lambda i, j, l: T[i][j][l], "tensor")
    cmp(P + Q, Tensor3D, sh, lambda i, j, l: T[i][j][l] + U[i][j][l], "tensor sum")
    cmp(P - Q, Tensor3D, sh, lambda i, j, l: T[i][j][l] - U[i][j][l], "tensor difference")
    cmp(-P, Tensor3D, sh, lambda i, j, l: -T[i][j][l], "tensor negation")
    cmp(P.map(f), Tensor3D, sh, lambda i, j, l: f(T[i][j][l]), "map over a tensor")
    same(P.normsqr(), _sum(x * x for M_ in T for r in M_ for x in r), "squared norm of a tensor")

    # -- norms, conversion, comparison ------------------------------------------------------------
    if kind not in ("complex", "sympy", "mpmath"):
        for t, what in ((v, "vector"), (X, "matrix"), (P, "tensor")):
            nn = float(_num(kind, t.normsqr()))
            c.close(float(_num(kind, t.norm())), math.sqrt(nn), f"norm of a {what}", rtol=1e-14)
    if kind in ("int", "float", "fraction", "complex", "scaled"):
        for t, raw, shape in ((v, a, (n,)), (X, A, (n, m)), (P, T, sh)):
            arr = t.numpy()
            c.eq(tuple(arr.shape), tuple(shape), "shape of the numpy array")
            c.check(arr.tolist() == raw, "entries of the numpy array differ")
            arr.flat[0] = 77
            arr.flat[-1] = 77
            c.check(t.numpy().tolist() == raw, "writing to the numpy array changes the tensor")
    if kind not in ("pyomo",):
        for cls, raw in ((Vector, a), (Matrix, A), (Tensor3D, T)):
            one, two = cls(cp(raw)), cls(cp(raw))
            c.check((one == two) is True and not (one != two), f"equal {cls.__name__}s compare unequal")
            bad = cp(raw)
            row = bad
            while isinstance(row[0], list):
                row = row[c.rng.randrange(len(row))]
            at = c.rng.randrange(len(row))
            row[at] = row[at] + 1 if row[at] + 1 != row[at] else 2 * row[at]
            c.check((one == cls(bad)) is False, f"different {cls.__name__}s compare equal")
            c.check(not (one == raw) and not (one == 3), f"{cls.__name__} equals a list or number")
        c.check(not (Vector(cp(a)) == Vector(cp(a) + [a[0]])), "vectors of different size compare equal")
        if n != m:
            flat = [x for r in A for x in r]
            c.check(not (X == Vector(flat).reshape(m, n)), "matrices of different shape compare equal")

    # -- operands unchanged -------------------------------------------------------------------------
    for t, raw, what in (
        (v, a, "vector"), (w, b, "vector"), (X, A, "matrix"), (Y, B, "matrix"), (Z, C, "matrix"),
        (Dm, D, "matrix"), (P, T, "tensor"), (Q, U, "tensor"), (M, S[0], "matrix"), (N, S[1], "matrix"),
    ):
        c.check(_ident(t, raw), f"an operation changed its operand, a {what}")
    c.sample = {"shapes": [n, m, k, q], "kind": kind}


def _ident(t, raw):
    """Entries are still the very same objects (values for plain numbers)."""
    def flat(x):
        return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]

    shape = t.shape
    if len(shape) == 1:
        cur = [t[i] for i in range(shape[0])]
    elif len(shape) == 2:
        cur = [t[i, j] for i in range(shape[0]) for j in range(shape[1])]
    else:
        cur = [t[i, j, k] for i in range(shape[0]) for j in range(shape[1]) for k in range(shape[2])]
    want = flat(raw)
    return len(cur) == len(want) and all(x is y or (type(x) is type(y) and not hasattr(x, "is_expression_type") and x == y) for x, y in zip(cur, want))


CHECK.family("operations", _gen, 400, 6000, needs=["tensor_results", "determinants", "inverses"])(body)


@CHECK.family(
    "barycentric", lambda rng, i: dict(kind=["fraction", "float", "any"][i % 3]), 60, 1000, needs=["clamped", "kept"]
)
def barycentric(c, p):
    from tvemoves_rufbad.tensors import BarycentricCoordinates as BC

    for _ in range(60):
        if p["kind"] == "fraction":
            e = lambda: Fraction(c.rng.randint(-6, 12), 6)
        elif p["kind"] == "float":
            e = lambda: c.rng.choice([0.0, 1.0, 0.5, 0.25, -0.25, 1.25, -1e-12, 1 + 1e-12, c.rng.random()])
        else:
            e = lambda: c.rng.uniform(-2, 3)
        l1, l2 = e(), e()
        q = BC(l1, l2)
        want = [l1, l2, 1 - l1 - l2]
        c.eq(list(q), want, "weights")
        c.eq([q[0], q[1], q[2]], want, "indexed weights")
        c.eq([q.l1, q.l2, q.l3], want, "named weights")
        c.eq((len(q), q.size), (3, 3), "number of weights")
        lo, hi = c.rng.choice([(None, None), (0, 1), (0.25, 0.5), (-1, 2), (0.0, 0.75)])
        if lo is None:
            q.assert_bounds()
            lo, hi = 0.0, 1.0
        elif c.rng.random() < 0.5:
            q.assert_bounds(lo, hi)
        else:
            q.assert_bounds(lower=lo, upper=hi)
        for x, y in zip(q, want):
            c.eq(x, min(max(y, lo), hi), f"weight {y} clamped to [{lo}, {hi}]")
            c.count("kept" if lo <= y <= hi else "clamped")
        q2 = BC(l1, l2)
        c.eq(list(q2), want, "weights of a second object after clamping the first")


@CHECK.family("permutation_matrices", lambda rng, i: dict(n=i % 6 + 1), 6, 6, needs=["permutations"])
def signs(c, p):
    """Determinants of all permutation matrices."""
    from itertools import permutations
    from tvemoves_rufbad.tensors import Matrix

    perms = list(permutations(range(p["n"])))
    for a in perms if p["n"] <= 5 else c.rng.sample(perms, 40):
        seen, s = set(), 1
        for i in range(p["n"]):
            j, ln = i, 0
            while j not in seen:
                seen.add(j)
                j, ln = a[j], ln + 1
            if ln:
                s *= (-1) ** (ln - 1)
        M = Matrix([[int(a[i] == j) for j in range(p["n"])] for i in range(p["n"])])
        c.eq(M.det(), s, f"determinant of the permutation matrix of {a}")
        c.count("permutations")


@CHECK.family("near_equality", lambda rng, i: dict(kind=["ulp", "tiny", "relative", "size", "int"][i % 5]), 50, 500, needs=["different", "equal"])
def near_equality(c, p):
    """Equality is exact: however close entries are, different data differ."""
    from tvemoves_rufbad.tensors import Matrix, Tensor3D, Vector

    rng = c.rng
    for _ in range(12):
        shape = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
        size = math.prod(shape)
        a = [rng.uniform(-1, 1) for _ in range(size)]
        if p["kind"] == "tiny":
            a = [x * 10.0 ** -rng.randint(8, 300) for x in a]
        elif p["kind"] == "size":
            a = [x * 10.0 ** rng.randint(6, 300) for x in a]
        elif p["kind"] == "int":
            a = [rng.randint(-9, 9) * 10 ** rng.randint(16, 30) + 1 for x in a]
        b = list(a)
        k = rng.randrange(size)
        if p["kind"] == "int":
            b[k] += rng.choice([-1, 1])
        elif p["kind"] == "relative":
            b[k] *= 1 + 10.0 ** -rng.randint(5, 15)
        else:
            b[k] = math.nextafter(b[k], math.inf) if rng.random() < 0.5 else 2 * b[k]

        def build(v):
            v = list(v)
            if len(shape) == 1:
                return Vector(v)
            if len(shape) == 2:
                return Matrix([v[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])])
            m = shape[1] * shape[2]
            return Tensor3D([[v[i * m + j * shape[2]:i * m + (j + 1) * shape[2]] for j in range(shape[1])] for i in range(shape[0])])

        c.check(a != b, "harness: no difference")
        c.check(not (build(a) == build(b)) and not (build(b) == build(a)) and build(a) != build(b),
                lambda: f"different data compare equal: {a} and {b}")
        c.count("different")
        c.check(build(a) == build(a) and not build(a) != build(a), lambda: f"equal data differ: {a}")
        c.count("equal")


@CHECK.family("graded", lambda rng, i: dict(span=[3, 12, 40][i % 3]), 60, 900, needs=["bounded", "typed"])
def graded(c, p):
    """Floats of very different sizes: every entry is correct up to the rounding of its own terms."""
    from tvemoves_rufbad.tensors import Matrix, Tensor3D, Vector, inverse_2x2

    rng = c.rng
    eps = 2.0**-52

    def num():
        k = rng.random()
        if k < 0.1:
            return rng.choice([0.0, -0.0, 1.0, 1, 2, -3])
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-p["span"], p["span"])

    def near(got, terms, what, factor=4):
        """got is the sum of the (exact) terms up to their rounding."""
        want, size = sum(terms, Fraction(0)), sum((abs(t) for t in terms), Fraction(0))
        c.check(math.isfinite(got) and abs(Fraction(got) - want) <= factor * len(terms) * Fraction(eps) * size + Fraction(1, 10**300),
                lambda: f"{what}: got {got!r}, expected {float(want)!r} up to {float(factor * len(terms) * eps * size)!r}")
        c.count("bounded")

    F = Fraction
    for _ in range(4):
        n, m, k = (rng.choice([1, 2, 2, 3, 4]) for _ in range(3))
        A, B, C = ([[num() for _ in range(b)] for _ in range(a)] for a, b in ((n, m), (n, m), (m, k)))
        X, Y, Z = Matrix(A), Matrix(B), Matrix(C)
        R = X @ Z
        for i in range(n):
            for j in range(k):
                near(R[i, j], [F(A[i][l]) * F(C[l][j]) for l in range(m)], f"entry {i, j} of {A} @ {C}")
            near(X.dot(Vector([r[0] for r in C]))[i], [F(A[i][l]) * F(C[l][0]) for l in range(m)], f"entry {i} of {A} times the first column of {C}")
            near(Vector(A[i]).dot(Vector(B[i])), [F(x) * F(y) for x, y in zip(A[i], B[i])], f"dot product of {A[i]} and {B[i]}")
            near(Vector(A[i]).normsqr(), [F(x) ** 2 for x in A[i]], f"squared norm of {A[i]}")
            for j in range(m):
                near((X + Y)[i, j], [F(A[i][j]), F(B[i][j])], "sum")
                near((X - Y)[i, j], [F(A[i][j]), -F(B[i][j])], "difference")
                near((X * B[0][0])[i, j], [F(A[i][j]) * F(B[0][0])], "scaled")
                if B[0][0]:
                    near((X / B[0][0])[i, j], [F(A[i][j]) / F(B[0][0])], "divided")
        near(X.scalar_product(Y), [F(x) * F(y) for r, q in zip(A, B) for x, y in zip(r, q)], "Frobenius product")
        near(X.normsqr(), [F(x) ** 2 for r in A for x in r], "squared Frobenius norm")
        near(Tensor3D([A, B]).normsqr(), [F(x) ** 2 for M in (A, B) for r in M for x in r], "squared norm of a tensor")
        nn = sum((F(x) ** 2 for r in A for x in r), F(0))
        near(float(X.norm()), [F(math.sqrt(nn))], f"norm of {A}", 16)
        d = rng.choice([1, 2, 2, 3, 4])
        D = [[num() for _ in range(d)] for _ in range(d)]
        terms = []
        for a in permutations(range(d)):
            t = F(1)
            for i in range(d):
                t *= F(D[i][a[i]])
            inv = sum(a[j] < a[i] for i in range(d) for j in range(i + 1, d))
            terms.append(-t if inv % 2 else t)
        if p["span"] * d < 250:
            near(Matrix(D).det(), terms, f"determinant of {D}", 4 * d)
        near(Matrix(D).trace(), [F(D[i][i]) for i in range(d)], f"trace of {D}")
        if d == 2 and p["span"] < 40:
            a, b, c_, e = (F(x) for r in D for x in r)
            det, size = a * e - b * c_, abs(a * e) + abs(b * c_)
            if abs(det) > size / 1000:
                V = inverse_2x2(Matrix(D))
                for (i, j), w in {(0, 0): e, (0, 1): -b, (1, 0): -c_, (1, 1): a}.items():
                    near(V[i, j], [w / det], f"entry {i, j} of the inverse of {D}", 16000)
        # equal but not the same: the sign of zero and the type of numbers are kept
        G = [[rng.choice([0.0, -0.0, 1, 1.0, True, 0, False, 2, 2.0, F(2), F(1), 1 + 0j]) for _ in range(m)] for _ in range(n)]
        f = lambda x: (type(x).__name__, repr(x))
        M = Matrix(G).map(f)
        c.eq([[M[i, j] for j in range(m)] for i in range(n)], [[f(x) for x in r] for r in G], f"map over {G}")
        c.eq(list(Vector(G[0]).map(f)), [f(x) for x in G[0]], f"map over {G[0]}")
        T = Tensor3D([G, G[::-1]]).map(f)
        c.eq([[[T[h, i, j] for j in range(m)] for i in range(n)] for h in range(2)], [[[f(x) for x in r] for r in M] for M in (G, G[::-1])], "map over a tensor")
        V, tr = Matrix(G), Matrix(G).transpose()
        c.eq([f(x) for x in V.flatten()], [f(x) for r in G for x in r], f"flattened {G}")
        c.eq([[f(tr[j, i]) for j in range(m)] for i in range(n)], [[f(x) for x in r] for r in G], f"transposed {G}")
        c.count("typed")
