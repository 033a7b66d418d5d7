"""A failed optimisation is never presented as a solution."""

import json
import warnings

import numpy as np

from dst import canon, catalog, faults, monitor, parrun, simrun, work
from dst.runner import Violation

ID = "P10"
RUNS = {"quick": 2500, "thorough": 20000}
LEVEL = "fault_enumeration"
RULE = ("a case is one fit (alone, inside cross-validation, stacking or nested clusters) with a drawn outcome for each of its "
        "solves; two cases are the same if estimator, data and the outcomes that took effect are the same; non-trivial if at "
        "least one simulated outcome took effect")
REAL = work.REAL
STUB = ["outcome of the solves chosen by the plan (all other solves run for real)", "OS entropy"]
ASSUMPTIONS = ["solver outcomes are simulated at the call of the modelling library: raised errors keep the previous values, "
               "infeasible and unbounded outcomes clear them, inaccurate and limit outcomes keep a solution",
               "when one of the two auxiliary solves that fix the ends of an efficient frontier fails, raising is accepted also "
               "with errors disabled"]
SHRINK = ("solver_list",)

CONVEX = ("MeanRisk", "RiskBudgeting", "MaximumDiversification", "DistributionallyRobustCVaR")


def gen(rng, tier):
    ds = catalog.gen_data(rng, n_obs=rng.choice([40, 48]))
    env = catalog.env_of(ds)
    where = catalog.weighted(rng, [("alone", 7), ("cvp", 1.2), ("stack", 1.2), ("nco", 1.2), ("search", 0.5)])
    if where == "alone":
        r = rng.random()
        if r < 0.35:
            spec = catalog.gen_mean_risk(rng, env, frontier=True)
        elif r < 0.6:
            spec = catalog.gen_mean_risk(rng, env)
        elif r < 0.75:
            spec = catalog.gen_risk_budgeting(rng, env)
        elif r < 0.92:
            spec = catalog.gen_max_div(rng, env)
        else:
            spec = catalog.gen_dr_cvar(rng, env)
        if rng.random() < 0.2:
            spec["p"]["save_problem"] = True
    else:
        spec = catalog.est("MeanRisk", risk_measure=catalog.E("RiskMeasure." + rng.choice(catalog.RISKS)),
                           objective_function=catalog.E("ObjectiveFunction." + rng.choice(["MINIMIZE_RISK", "MAXIMIZE_RATIO"])))
        if rng.random() < 0.3:
            spec = catalog.est(rng.choice(["RiskBudgeting", "MaximumDiversification"]))
    silent = rng.random() < 0.5
    if silent:
        spec["p"]["raise_on_failure"] = False
    plan = {"data": ds, "where": where, "silent": silent}
    if where == "cvp":
        plan["cv"] = parrun.gen_cv(rng, env, ds)
    elif where == "stack":
        subs = [spec, catalog.est("EqualWeighted")]
        rng.shuffle(subs)
        spec = catalog.est("StackingOptimization", estimators=[{"@": "tuple", "v": [f"m{i}", s]} for i, s in enumerate(subs)],
                           final_estimator=rng.choice([catalog.est("EqualWeighted"), catalog.est("RiskBudgeting")]))
        if rng.random() < 0.5:
            spec["p"]["cv"] = rng.choice(["ignore", 2])
    elif where == "nco":
        ds["n_assets"] = rng.choice([5, 6, 7])
        spec = catalog.est("NestedClustersOptimization", inner_estimator=spec, outer_estimator=catalog.est("EqualWeighted"),
                           clustering_estimator=catalog.est("HierarchicalClustering", max_clusters=2))
        if rng.random() < 0.5:
            spec["p"]["cv"] = rng.choice(["ignore", 2])
    elif where == "search":
        spec = catalog.est("GridSearchCV", estimator=spec, param_grid={"@": "dict", "v": {"l2_coef": [0.0, 0.01]}},
                           cv=catalog.est("KFold", n_splits=2), error_score="raise") \
            if spec["cls"] == "MeanRisk" else spec
        if spec["cls"] != "GridSearchCV":
            plan["where"] = "alone"
    plan["spec"] = spec
    n = rng.choice([1, 1, 1, 2, 3])
    # positions are fractions of the number of solves the fault-free run makes
    plan["solver_list"] = [[round(rng.random(), 4), rng.choice(faults.SOLVER_KINDS)] for _ in range(n)]
    if rng.random() < 0.15:
        plan["solver_list"] = [["all", rng.choice(faults.FAILING)]]
    plan["before"] = rng.choice([None, None, {**ds, "seed": rng.randrange(1, 10_000)}])
    plan["entropy"] = rng.randrange(1, 10**6)
    return plan


def _do(plan, e, data):
    """Run the call; value = what was published."""
    y = data.y if catalog.uses(plan["spec"], "FactorModel") else None
    if plan["where"] == "cvp":
        from skfolio.model_selection import cross_val_predict

        pred = cross_val_predict(e, data.X, y, cv=catalog.build(plan["cv"]))
        ps = pred if isinstance(pred, list) else [pred]
        return [np.asarray(p.returns) for p in ps]
    catalog.fit("opt", plan["spec"], e, data)
    if plan["where"] == "search":
        return {"w": np.asarray(e.best_estimator_.weights_), "scores": np.asarray(e.cv_results_["mean_test_score"])}
    w = e.weights_
    return w if w is None else np.array(w)


def _run(plan, outcomes, entropy):
    simrun.pin_entropy(entropy)
    data = catalog.Data(plan["data"])
    e = catalog.build(plan["spec"])
    if outcomes is not None and plan["before"] and plan["where"] not in ("cvp",):
        d0 = catalog.Data(plan["before"])
        work.guarded(lambda: catalog.fit("opt", plan["spec"], e, d0))
    sol = faults.Solver(outcomes)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        ctx = monitor.LineContext()
        try:
            with sol.active(), monitor.watching(ctx):
                r = ["ok", _do(plan, e, data)]
        except Exception as exc:  # noqa: BLE001
            r = ["exc", type(exc).__name__, str(exc)[:200]]
    pred = None
    if r[0] == "ok" and plan["where"] == "alone" and outcomes is not None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                p = e.predict(data.X)
                ps = p if isinstance(p, list) else [p]
                pred = [np.asarray(q.weights) for q in ps]
            except Exception as exc:  # noqa: BLE001
                pred = type(exc).__name__
    n_warn = [w.category.__name__ for w in caught if issubclass(w.category, UserWarning)]
    return {"r": r, "warnings": n_warn, "fired": sol.fired, "solves": sol.calls, "pred": pred}


def _finite(w):
    return w is not None and np.size(w) > 0 and bool(np.any(np.isfinite(np.asarray(w, dtype=float))))


def _missing(v):
    """Whether a published result says that part of it is missing."""
    if v is None:
        return True
    if isinstance(v, dict):
        return any(_missing(x) for x in v.values())
    if isinstance(v, list):
        return any(_missing(x) for x in v)
    return np.size(v) == 0 or bool(np.any(np.isnan(np.asarray(v, dtype=float))))


def execute(plan, ctx):
    ref = ctx.fork(_run, plan, None, 3)
    ctx.count("where:" + plan["where"])
    ctx.count("class:" + plan["spec"]["cls"])
    S = ref["solves"]
    if ref["r"][0] != "ok" or ref["r"][1] is None or S == 0:
        ctx.count("reference failed")
        ctx.record("reference failed", ref["r"][1] if ref["r"][0] == "exc" else "no solve")
        return
    outcomes = {}
    for pos, kind in plan["solver_list"]:
        if pos == "all":
            outcomes = {str(i): kind for i in range(4 * S + 8)}
        else:
            outcomes[str(min(S - 1, int(pos * S)))] = kind
    got = ctx.fork(_run, plan, outcomes, plan["entropy"])
    for kind in outcomes.values():
        ctx.fault_planned("solver:" + kind)
    for _, kind in got["fired"]:
        ctx.fault("solver:" + kind)
    ctx.record(json.dumps([plan["spec"], plan["data"]], sort_keys=True), got["fired"], got["r"][0])
    ctx.notes = {"fired": got["fired"], "outcome": canon.short(got["r"], 200), "warnings": got["warnings"][:5]}
    ctx.comparisons += 1
    failed = [i for i, k in got["fired"] if k in faults.FAILING]
    soft = [i for i, k in got["fired"] if k not in faults.FAILING]
    r = got["r"]
    tol = {"rtol": 1e-4, "atol": 1e-5}
    what = f"{plan['where']} {json.dumps(plan['spec'])[:300]} with solve outcomes {got['fired'][:5]}"
    if not failed:
        if r[0] != "ok":
            raise Violation("rejected-solution", f"{what}: {r[1]} although a solution was found ({r[2]})")
        # a search may settle on another of two equally good candidates
        if plan["where"] != "search":
            d = canon.diff(canon.describe(r[1]), canon.describe(ref["r"][1]), **tol)
            if d:
                raise Violation("solution-changed", f"{what}: {d}")
        if soft and not got["warnings"]:
            raise Violation("inaccurate-not-reported", f"{what}: no warning was issued")
        return
    if not plan["silent"] or plan["where"] != "alone":
        # a part with errors disabled may mark its share as missing
        if r[0] == "ok" and not (plan["silent"] and _missing(r[1])):
            raise Violation("failure-presented-as-solution", f"{what}: no error, published {canon.short(r[1], 200)}")
        return
    n = ref["r"][1].shape[0] if ref["r"][1].ndim == 2 else 1
    if ref["r"][1].ndim == 2 and ref["warnings"]:
        ctx.count("fault-free frontier already warned")
        return
    first = S - n
    if any(i < first for i in failed):
        if r[0] == "ok" and _finite(r[1]):
            raise Violation("failure-presented-as-solution", f"{what}: published {canon.short(r[1], 200)}")
        return
    if r[0] != "ok":
        raise Violation("disabled-error-raised", f"{what}: raised {r[1]}: {r[2]} with errors disabled")
    if not got["warnings"]:
        raise Violation("failure-not-reported", f"{what}: no warning was issued")
    if n == 1:
        if _finite(r[1]):
            raise Violation("failure-presented-as-solution", f"{what}: published {canon.short(r[1], 200)}")
        if isinstance(got["pred"], list) and any(_finite(w) for w in got["pred"]):
            raise Violation("failure-presented-as-solution", f"{what}: predicted {canon.short(got['pred'], 200)}")
        return
    good = [ref["r"][1][i] for i in range(n) if i + first not in failed]
    w = r[1]
    rows = [x for x in (np.atleast_2d(w) if _finite(w) else []) if np.any(np.isfinite(x))]
    d = canon.diff([np.asarray(x) for x in rows], [np.asarray(x) for x in good], **tol)
    if d:
        raise Violation("frontier-disturbed", f"{what}: the points that were solved are not those of the fault-free frontier: {d}")
