"""Stand-in for the external solver, recording everything it is handed (event log of the monitors).

A Recorder offers solve(model, ...) and can be registered as the solver factory "ipopt". Every call
yields an Event: the objective (flattened to a tape), the unknowns with effective bounds, starting
values and fixed flags, the constraints, and the values assigned. What is assigned is decided by a
strategy: nothing, unique tags, perturbations, values computed by a real optimizer, or a failure.
"""

from __future__ import annotations
import math
import numpy as np
import pyomo.environ as pyo
from pyomo.core.expr import numeric_expr as ne
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
from pyomo.repn import generate_standard_repn

CONST, LEAF, SUM, PROD, DIV, POW, NEG, FUN, MIN2, MAX2 = range(10)
FUNS = {
    "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "tan": np.tan,
    "abs": np.abs, "log10": np.log10, "tanh": np.tanh, "sinh": np.sinh, "cosh": np.cosh,
    "atan": np.arctan, "asin": np.arcsin, "acos": np.arccos,
}


class Unsupported(Exception):
    pass


class Tape:
    """Straight-line program of an expression; shared subexpressions are evaluated once."""

    def __init__(self, expr):
        self.keep = expr
        self.ops: list[tuple] = []  # (kind, payload)
        self.leaves: list = []  # variable and parameter data objects
        self.leaf_slot: dict[int, int] = {}
        self._memo: dict[int, int] = {}
        self._const: dict[float, int] = {}
        self._kept: list = []
        self.root = self._flatten(expr)
        self._memo = {}

    def _emit(self, *op):
        self.ops.append(op)
        return len(self.ops) - 1

    def _constant(self, v):
        v = float(v)
        k = self._const.get(v)
        if k is None or math.isnan(v):
            k = self._const[v] = self._emit(CONST, v)
        return k

    def _flatten(self, root):
        memo, stack = self._memo, [root]
        while stack:
            e = stack[-1]
            if id(e) in memo:
                stack.pop()
                continue
            if isinstance(e, (int, float, np.number)) or e.__class__ in pyo_native():
                memo[id(e)] = self._constant(e)
                self._kept.append(e)
                stack.pop()
                continue
            if not e.is_expression_type():
                if e.is_variable_type() or (e.is_parameter_type() and not e.is_constant()):
                    if hasattr(e, "is_indexed") and e.is_indexed():
                        raise Unsupported("indexed component inside an expression")
                    key = id(e)
                    self.leaf_slot[key] = len(self.leaves)
                    self.leaves.append(e)
                    memo[key] = self._emit(LEAF, len(self.leaves) - 1)
                else:
                    memo[id(e)] = self._constant(pyo.value(e))
                    self._kept.append(e)
                stack.pop()
                continue
            args = tuple(e.args)
            todo = [a for a in args if id(a) not in memo]
            if todo:
                self._kept.extend(args)
                stack.extend(todo)
                continue
            memo[id(e)] = self._node(e, [memo[id(a)] for a in args])
            self._kept.append(e)
            stack.pop()
        return memo[id(root)]

    def _node(self, e, a):
        if e.is_named_expression_type():
            return a[0]
        if isinstance(e, (ne.SumExpressionBase, ne.LinearExpression, ne.SumExpression)):
            return self._emit(SUM, tuple(a)) if len(a) != 1 else a[0]
        if isinstance(e, ne.NegationExpression):
            return self._emit(NEG, a[0])
        if isinstance(e, ne.PowExpression):
            return self._emit(POW, a[0], a[1])
        if isinstance(e, ne.DivisionExpression):
            return self._emit(DIV, a[0], a[1])
        if isinstance(e, (ne.ProductExpression, ne.MonomialTermExpression)):
            return self._emit(PROD, a[0], a[1])
        if isinstance(e, ne.AbsExpression):
            return self._emit(FUN, "abs", a[0])
        if isinstance(e, ne.UnaryFunctionExpression):
            name = e.getname()
            if name in FUNS:
                return self._emit(FUN, name, a[0])
        raise Unsupported(f"expression node {type(e).__name__}")

    def leaf_values(self):
        return np.array([np.nan if l.value is None else float(l.value) for l in self.leaves])

    def eval(self, L):
        """L: array (number of leaves, K) -> values (K,). Invalid operations give nan."""
        vals = [None] * len(self.ops)
        with np.errstate(all="ignore"):
            for k, op in enumerate(self.ops):
                kind = op[0]
                if kind == CONST:
                    v = op[1]
                elif kind == LEAF:
                    v = L[op[1]]
                elif kind == SUM:
                    v = vals[op[1][0]]
                    for j in op[1][1:]:
                        v = v + vals[j]
                elif kind == PROD:
                    v = vals[op[1]] * vals[op[2]]
                elif kind == NEG:
                    v = -vals[op[1]]
                elif kind == DIV:
                    v = np.divide(vals[op[1]], vals[op[2]])
                elif kind == POW:
                    b, x = vals[op[1]], vals[op[2]]
                    if isinstance(x, float) and x == 2.0:
                        v = b * b
                    else:
                        v = np.power(np.asarray(b, dtype=float), x)
                else:
                    v = FUNS[op[1]](vals[op[2]])
                vals[k] = v
        return np.broadcast_to(np.asarray(vals[self.root], dtype=float), (L.shape[1],)).copy()


class _Slow:
    """Same interface as Tape for expressions with unusual nodes, through Pyomo's evaluator."""

    def __init__(self, expr):
        from pyomo.core.expr.visitor import identify_mutable_parameters, identify_variables

        self.keep = expr
        self.leaves = list(identify_variables(expr, include_fixed=True)) + list(
            identify_mutable_parameters(expr)
        )
        self.leaf_slot = {id(l): k for k, l in enumerate(self.leaves)}

    leaf_values = Tape.leaf_values

    def eval(self, L):
        old = self.leaf_values()
        res = []
        try:
            for k in range(L.shape[1]):
                for l, v in zip(self.leaves, L[:, k]):
                    _put(l, v)
                try:
                    res.append(float(pyo.value(self.keep)))
                except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                    res.append(float("nan"))
        finally:
            for l, v in zip(self.leaves, old):
                _put(l, v)
        return np.array(res)


def _put(leaf, v):
    if leaf.is_variable_type():
        leaf.set_value(float(v), skip_validation=True)
    else:
        leaf._value = float(v)


def pyo_native():
    from pyomo.common.numeric_types import native_numeric_types

    return native_numeric_types


def make_tape(expr):
    try:
        return Tape(expr)
    except Unsupported:
        return _Slow(expr)


class Event:
    """What one call of the solver saw and did. All arrays follow the order of `vars`."""

    __slots__ = ("index", "model", "tape", "leaves", "sign", "n_objectives", "vars", "names",
                 "start", "lb", "ub", "fixed", "pinned", "rows", "nonlinear", "assigned", "error", "in_tape", "args")


class Recorder:
    """The stand-in solver. strategy(event) -> array of values for event.vars (or raises)."""

    def __init__(self, strategy, objective=True):
        self.strategy = strategy
        self.objective = objective
        self.events: list[Event] = []
        self.calls = 0
        self._tapes: dict[int, object] = {}

    # -- the interface of a Pyomo solver ----------------------------------------------------
    options: dict = {}

    def available(self, *_a, **_k):
        return True

    def license_is_valid(self):
        return True

    def version(self):
        return (3, 14, 0)

    def set_options(self, *_a, **_k):
        pass

    def set_instance(self, *_a, **_k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        pass

    def solve(self, model, *args, **kwargs):
        ev = self._observe(model)
        ev.args = (args, kwargs)
        self.events.append(ev)
        self.calls += 1
        values = self.strategy(ev)
        if values is None:
            values = ev.start
        ev.assigned = np.where(ev.fixed, ev.start, np.asarray(values, dtype=float))
        for v, x, f in zip(ev.vars, ev.assigned, ev.fixed):
            if not v.fixed:
                v.set_value(float(x), skip_validation=True)
                v.stale = False
        res = SolverResults()
        res.solver.status = SolverStatus.ok
        res.solver.termination_condition = TerminationCondition.optimal
        return res

    # -- observation ------------------------------------------------------------------------
    def _observe(self, m):
        ev = Event()
        ev.index, ev.model, ev.error = len(self.events), m, None
        objs = list(m.component_data_objects(pyo.Objective, active=True))
        ev.n_objectives = len(objs)
        ev.tape, ev.leaves, ev.sign = None, None, 1.0
        vs = list(m.component_data_objects(pyo.Var, active=True, descend_into=True))
        if self.objective and objs:
            ex = objs[0].expr
            if id(ex) not in self._tapes:
                self._tapes[id(ex)] = make_tape(ex)
            ev.tape = self._tapes[id(ex)]
            ev.leaves = ev.tape.leaf_values()
            ev.sign = 1.0 if objs[0].sense == pyo.minimize else -1.0
            ids = {id(v) for v in vs}
            vs += [l for l in ev.tape.leaves if l.is_variable_type() and id(l) not in ids]
        ev.vars = vs
        ev.names = [v.name for v in vs]
        ev.start = np.array([np.nan if v.value is None else float(v.value) for v in vs])
        ev.lb = np.array([-np.inf if v.lb is None else float(v.lb) for v in vs])
        ev.ub = np.array([np.inf if v.ub is None else float(v.ub) for v in vs])
        ev.fixed = np.array([bool(v.fixed) for v in vs], dtype=bool)
        ev.in_tape = (
            np.array([id(v) in ev.tape.leaf_slot for v in vs], dtype=bool) if ev.tape else None
        )
        pos = {id(v): k for k, v in enumerate(vs)}
        ev.rows, ev.nonlinear = [], 0  # rows: (coefficients over vars, lower, upper)
        for con in m.component_data_objects(pyo.Constraint, active=True, descend_into=True):
            rep = generate_standard_repn(con.body, compute_values=True)
            if not rep.is_linear():
                ev.nonlinear += 1
                continue
            row = np.zeros(len(vs))
            for co, v in zip(rep.linear_coefs, rep.linear_vars):
                row[pos[id(v)]] += float(co)
            k = float(rep.constant or 0.0)
            lo = -np.inf if con.lower is None else float(pyo.value(con.lower)) - k
            hi = np.inf if con.upper is None else float(pyo.value(con.upper)) - k
            live = np.flatnonzero(row)
            if len(live) == 1 and lo != hi:  # a bound in disguise
                j, a = live[0], row[live[0]]
                b = sorted((lo / a, hi / a))
                ev.lb[j], ev.ub[j] = max(ev.lb[j], b[0]), min(ev.ub[j], b[1])
            elif len(live) == 1:  # an assignment in disguise
                j = live[0]
                ev.lb[j] = ev.ub[j] = lo / row[j]
            else:
                ev.rows.append((row, lo, hi))
        pinned = ~ev.fixed & (ev.lb == ev.ub)
        ev.start = np.where(pinned, ev.lb, ev.start)
        ev.fixed = ev.fixed | pinned
        ev.pinned = pinned
        ev.assigned = None
        return ev


def objective_at(ev, X):
    """Objective of an event at assignments X of shape (K, number of vars); minimization sense."""
    L = np.repeat(ev.leaves[:, None], X.shape[0], axis=1)
    for k, v in enumerate(ev.vars):
        j = ev.tape.leaf_slot.get(id(v))
        if j is not None:
            L[j] = X[:, k]
    return ev.sign * ev.tape.eval(L)


def register(recorder):
    """Make the code under test obtain the recorder as its "ipopt" solver."""

    class Standin:
        def __init__(self, *_a, **_k):
            self.options = {}
            self.config = self

        def __getattr__(self, name):
            return getattr(recorder, name)

        def __enter__(self):
            return self

        def __exit__(self, *_a):
            pass

    pyo.SolverFactory.register("ipopt", doc="stand-in")(Standin)


# ---- strategies ---------------------------------------------------------------------------
def silent(ev):
    return None


def tags(rng, fraction=0.8):
    """Unique values strictly inside the bounds for every free variable."""

    def strategy(ev):
        n = len(ev.vars)
        lo = np.where(np.isfinite(ev.lb), ev.lb, ev.start - 1)
        hi = np.where(np.isfinite(ev.ub), ev.ub, ev.start + 1)
        u = np.array([rng.uniform(-fraction, fraction) for _ in range(n)])
        up, down = hi - ev.start, ev.start - lo
        u = np.where((u > 0) & (up <= 1e-9) | (u < 0) & (down <= 1e-9), -u, u)
        return ev.start + np.where(u > 0, u * up, u * down)

    return strategy


def limited(rng, amounts):
    """Perturbations of at most `amounts(ev)` (array per variable), within the bounds."""

    def strategy(ev):
        a = np.asarray(amounts(ev), dtype=float)
        u = np.array([rng.uniform(-1, 1) for _ in ev.vars])
        x = ev.start + u * a
        lo, hi = ev.lb, ev.ub
        # reflect at the bounds so that values stay unique
        x = np.where(x > hi, np.maximum(hi - (x - hi) * 0.5, ev.start), x)
        return np.where(x < lo, np.minimum(lo + (lo - x) * 0.5, hi), x)

    return strategy
