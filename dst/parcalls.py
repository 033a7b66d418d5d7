"""Calls that run tasks in parallel: fits, searches, cross-validated prediction and scoring."""

import numpy as np

from dst import canon, catalog, parrun, simrun, work


def strip_jobs(spec):
    """Worker counts come from the simulated backend, not from the description."""
    for e in catalog.walk(spec):
        e["p"].pop("n_jobs", None)
    return spec


def gen(rng):
    """{"api", "kind", "spec", "data", ...} of one parallel call."""
    api = catalog.weighted(rng, [("nco", 3), ("stack", 3), ("vine", 2), ("factor", 1), ("glasso", 0.5),
                                 ("search", 3), ("cvp", 2), ("cvs", 1)])
    factors = 2 if api == "factor" else None
    ds = catalog.gen_data(rng, n_obs=rng.choice([42, 48, 60]), factors=factors)
    env = catalog.env_of(ds)
    out = {"api": api, "kind": "opt", "data": ds}
    allow = ("iv",) if rng.random() < 0.15 else ("plain",)
    if api == "nco":
        ds["n_assets"] = rng.choice([5, 6, 7, 8])
        env = catalog.env_of(ds)
        spec = catalog.gen_nco(rng, env, jobs=False, allow=allow)
        if ds["factors"] and rng.random() < 0.3:
            spec["p"]["inner_estimator"] = catalog.est("MeanRisk", prior_estimator=catalog.est("FactorModel"))
    elif api == "stack":
        spec = catalog.gen_stacking(rng, env, jobs=False, allow=allow)
        if rng.random() < 0.2:
            spec["p"]["estimators"].append({"@": "tuple", "v": ["nco", catalog.gen_nco(rng, env, jobs=False)]})
        if ds["factors"] and rng.random() < 0.3:
            spec["p"]["estimators"].append({"@": "tuple", "v": ["fm", catalog.est(
                "MeanRisk", prior_estimator=catalog.est("FactorModel"))]})
    elif api == "vine":
        if rng.random() < 0.6:
            out["kind"], spec = "vine", catalog.gen_vine(rng, env)
        else:
            out["kind"], spec = "prior", catalog.gen_synthetic(rng, env)
    elif api == "factor":
        spec = catalog.gen_factor_model(rng, env)
        spec["p"].setdefault("loading_matrix_estimator", catalog.est("LoadingMatrixRegression"))
        out["kind"] = "prior"
        if rng.random() < 0.5:
            out["kind"] = "opt"
            spec = catalog.est("MeanRisk", prior_estimator=spec)
    elif api == "glasso":
        spec = catalog.est("GraphicalLassoCV", alphas=2, n_refinements=2, cv=3)
        out["kind"] = "cov"
    elif api == "search":
        spec = catalog.gen_search(rng, env)
    else:
        spec = catalog.gen_inner(rng, env, allow=allow if api == "cvp" else ("plain",)) if rng.random() < 0.6 else catalog.gen_opt(rng, env, ("plain",), False)
        spec["p"].pop("efficient_frontier_size", None)
        if isinstance(spec["p"].get("min_return"), dict):
            spec["p"].pop("min_return")
        out["cv"] = parrun.gen_cv(rng, env, ds) if api == "cvp" else rng.choice(
            [2, 3, catalog.est("WalkForward", train_size=20, test_size=8)])
    out["spec"] = strip_jobs(spec)
    return out


class Call:
    """The call of a plan: its objects, and ``run()`` giving an observation."""

    def __init__(self, plan):
        self.plan = plan
        self.data = catalog.Data(plan["data"])
        self.est = catalog.build(plan["spec"])
        self.cv = catalog.build(plan["cv"]) if "cv" in plan else None

    def run(self):
        p, api = self.plan, self.plan["api"]
        y = self.data.y if catalog.uses(p["spec"], "FactorModel") else None
        if api == "cvp":
            from skfolio.model_selection import cross_val_predict

            params = {"implied_vol": self.data.iv} if catalog.needs_routing(p["spec"]) else None
            with catalog.routing(p["spec"]):
                pred = cross_val_predict(self.est, self.data.X, y, cv=self.cv, params=params)
            return nameless(canon.describe(pred))
        if api == "cvs":
            from sklearn.model_selection import cross_val_score

            return cross_val_score(self.est, self.data.X, y, cv=self.cv, error_score="raise")
        catalog.fit(p["kind"], p["spec"], self.est, self.data)
        if api == "search":
            return observe_search(self.est, self.data)
        return catalog.observe(p["kind"], p["spec"], self.est, self.data)


def nameless(d):
    """Default portfolio names are object identities."""
    if isinstance(d, dict):
        return {k: nameless(v) for k, v in d.items() if not (k == "name" and isinstance(v, str) and v.isdigit())}
    if isinstance(d, list):
        return [nameless(x) for x in d]
    return d


def observe_search(s, data):
    res = s.cv_results_
    out = {"n_splits": s.n_splits_, "params": canon.describe(list(res["params"])),
           "scores": {k: np.asarray(v) for k, v in res.items()
                      if "score" in k and "time" not in k and not k.startswith("rank")}}
    m = np.asarray(res["mean_test_score"])
    top = np.sort(m)[::-1]
    gap = abs(top[0] - top[1]) if len(top) > 1 else 1.0
    # with (nearly) tied candidates the winner is decided by rounding
    if gap > 1e-3 * max(abs(top[0]), 1e-12):
        out["best"] = {"index": int(s.best_index_), "params": canon.describe(s.best_params_),
                       "model": canon.describe(s.best_estimator_), "predict": nameless(canon.describe(s.predict(data.X))),
                       "best_score": float(s.best_score_)}
    return out


def reference(plan):
    """One worker, one thread, no faults, in this (forked) process."""
    simrun.pin_entropy(23)
    call = Call(plan)
    return work.guarded(call.run)


def compare(a, b, spec):
    if a[0] == "ok" and b[0] == "ok":
        return canon.diff(nameless(a[1]), nameless(b[1]), **tolerance(spec))
    if a[0] != b[0]:
        return f"{canon.short(a, 500)} instead of {canon.short(b, 300)}"
    return None if a[1] == b[1] else f"{a[1]} ({a[3]}) instead of {b[1]} ({b[3]})"


def tolerance(spec):
    # ensembles and searches chain several solves
    t = catalog.tolerance(spec)
    if t["rtol"] > 1e-6:
        return {"rtol": max(1e-4, t["rtol"]), "atol": max(1e-5, t["atol"])}
    return t
