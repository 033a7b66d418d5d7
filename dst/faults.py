"""Simulated outcomes of the convex solver, by index of the solve call."""

import contextlib

SOLVER_KINDS = ("error", "arpack", "infeasible", "unbounded", "infeasible_inaccurate",
                "inaccurate", "user_limit")
FAILING = ("error", "arpack", "infeasible", "unbounded", "infeasible_inaccurate")


class Solver:
    """``outcomes``: {call index (str or int): kind}; counts calls and fired faults."""

    def __init__(self, outcomes=None):
        self.outcomes = {int(k): v for k, v in (outcomes or {}).items()}
        self.calls = 0
        self.fired = []

    @contextlib.contextmanager
    def active(self):
        import cvxpy as cp

        real = cp.Problem.solve
        me = self

        def solve(problem, *args, **kwargs):
            i = me.calls
            me.calls += 1
            kind = me.outcomes.get(i)
            if kind is None:
                return real(problem, *args, **kwargs)
            me.fired.append([i, kind])
            if kind == "error":
                raise cp.SolverError("simulated solver failure")
            if kind == "arpack":
                import numpy as np
                from scipy.sparse.linalg import ArpackNoConvergence

                raise ArpackNoConvergence("simulated: no convergence", np.array([]), np.array([[]]))
            out = real(problem, *args, **kwargs)
            if kind in ("infeasible", "unbounded", "infeasible_inaccurate"):
                for v in problem.variables():
                    v.save_value(None)
                problem._status = {"infeasible": cp.INFEASIBLE, "unbounded": cp.UNBOUNDED,
                                   "infeasible_inaccurate": cp.INFEASIBLE_INACCURATE}[kind]
                problem._value = float("-inf") if kind == "unbounded" else float("inf")
                return problem._value
            problem._status = cp.OPTIMAL_INACCURATE if kind == "inaccurate" else cp.USER_LIMIT
            return out

        cp.Problem.solve = solve
        try:
            yield self
        finally:
            cp.Problem.solve = real


def gen_outcomes(rng, n=None, failing=None):
    kinds = FAILING if failing else SOLVER_KINDS
    out = {}
    for i in range(n or 1):
        if n is None or rng.random() < 0.6:
            out[str(i)] = rng.choice(kinds)
    return out
