"""Stand-in for the external solver: fn(model, call number) may assign the unknowns or raise."""
import pyomo.environ as pyo


def install(fn=None):
    calls = []

    class Solver:
        def __init__(self, *_a, **_k):
            self.options = {}

        def available(self, *_a, **_k):
            return True

        def solve(self, model, *_a, **_k):
            calls.append(model)
            if fn is not None:
                fn(model, len(calls) - 1)

    pyo.SolverFactory.register("ipopt", doc="stand-in")(Solver)
    return calls


def unknowns(model):
    return [v for v in model.component_data_objects(pyo.Var, active=True) if not v.fixed]


def objective(model):
    return pyo.value(next(model.component_data_objects(pyo.Objective, active=True)))


def nudge(amount, model, seed):
    """Move every unknown by a reproducible amount inside its bounds."""
    import random

    rng = random.Random(seed)
    for v in unknowns(model):
        x = v.value + rng.uniform(-amount, amount)
        if v.lb is not None:
            x = max(x, v.lb)
        if v.ub is not None:
            x = min(x, v.ub)
        v.set_value(x)
