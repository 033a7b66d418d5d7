"""cross_val_predict gives the fold-by-fold result under any parallel schedule."""

import copy
import json

import numpy as np

from dst import canon, catalog, parrun, simrun, work
from dst.runner import Violation

ID = "P04"
RUNS = {"quick": 2500, "thorough": 15000}
LEVEL = "exploration"
RULE = ("a case is one execution of cross-validated prediction: estimator, splitter, data, workers, isolation, order of "
        "task starts and context switches; two cases are the same if the recorded task order, completion order and "
        "context switches are the same; non-trivial if tasks were interleaved, reordered or ran in other processes")
REAL = [*work.REAL, "joblib dispatch and result collection"]
STUB = ["worker pool (simulated joblib backend)", "thread scheduling", "OS entropy"]
ASSUMPTIONS = ["preemption points are skfolio source lines", "reference: folds fitted one after another by the harness "
               "with the public estimator and splitter interfaces, in another process"]
SHRINK = ("switches", "picks")


def gen(rng, tier):
    allow = ("iv",) if rng.random() < 0.25 else ("plain",)
    ds = catalog.gen_data(rng, n_obs=rng.choice([42, 48, 60, 72]) if "plain" in allow else 84)
    env = catalog.env_of(ds)
    cols = None
    if rng.random() < 0.3 and ds["n_assets"] > 3:
        cols = sorted(rng.sample(range(ds["n_assets"]), ds["n_assets"] - 1))
        if rng.random() < 0.2:
            rng.shuffle(cols)
    env2 = dict(env)
    if cols is not None:
        env2["n"] = len(cols)
        env2["names"] = [env["names"][i] for i in cols]
    r = rng.random()
    if r < 0.15:
        kind, spec = "pipe", catalog.gen_any(rng, env2, kinds=["pipe"], allow=allow)[1]
    else:
        kind = "opt"
        for _ in range(12):
            spec = catalog.gen_opt(rng, env2, allow, ensembles=rng.random() < 0.15)
            if "iv" not in allow or catalog.needs_routing(spec):
                break
        spec["p"].pop("efficient_frontier_size", None)
        if isinstance(spec["p"].get("min_return"), dict):
            spec["p"].pop("min_return")
    cv = parrun.gen_cv(rng, env, ds)
    if catalog.uses(spec, "ImpliedCovariance"):
        cv = rng.choice([2, 3, catalog.est("KFold", n_splits=4), catalog.est("WalkForward", train_size=45, test_size=9),
                         catalog.est("CombinatorialPurgedCV", n_folds=5, n_test_folds=2, purged_size=1, embargo_size=1)])
    pp = None
    if rng.random() < 0.4:
        pp = {"name": "cv", "annualized_factor": 12, "cvar_beta": 0.9}
        if rng.random() < 0.5:
            pp = {"tag": "t", "risk_free_rate": 0.0001}
    return {"data": ds, "kind": kind, "spec": spec, "cv": cv, "cols": cols, "ppar": pp,
            "y": bool(ds["factors"]) and (catalog.uses(spec, "FactorModel") or rng.random() < 0.3),
            "par": parrun.gen(rng), "entropy": rng.randrange(1, 10**6)}


def _args(plan):
    data = catalog.Data(plan["data"])
    e = catalog.build(plan["spec"])
    cv = catalog.build(plan["cv"])
    y = data.y if plan["y"] or catalog.uses(plan["spec"], "FactorModel") else None
    params = {"implied_vol": data.iv} if catalog.needs_routing(plan["spec"]) else None
    cols = None if plan["cols"] is None else np.array(plan["cols"])
    return data, e, cv, y, params, cols


def _reference(plan):
    """Fold by fold, from the public interfaces only."""
    from sklearn.base import clone
    from sklearn.model_selection import check_cv

    from skfolio.portfolio import MultiPeriodPortfolio

    simrun.pin_entropy(17)
    data, e, cv, y, params, cols = _args(plan)
    X = data.X
    frame = hasattr(X, "iloc")

    def rows(a, idx):
        return a.iloc[idx] if hasattr(a, "iloc") else a[idx]

    def body():
        Xc = X
        if cols is not None:
            Xc = X.iloc[:, cols] if frame else X[:, cols]
        splitter = check_cv(cv)
        folds = []
        errors = []
        for train, test in splitter.split(Xc, y):
            parts = test if isinstance(test, list) else [test]
            m = clone(e)
            kw = {k: rows(v, train) for k, v in (params or {}).items()}
            try:
                if y is None:
                    m.fit(rows(Xc, train), **kw)
                else:
                    m.fit(rows(Xc, train), rows(y, train), **kw)
                folds.append([(t, m.predict(rows(Xc, t))) for t in parts])
            except Exception as exc:  # noqa: BLE001
                errors.append(type(exc).__name__)
        if errors:
            # several folds fail: any of them may be the one reported
            return errors
        pp = dict(plan["ppar"] or {})
        if isinstance(plan["cv"], dict) and plan["cv"].get("cls") == "CombinatorialPurgedCV":
            # the k-th time a test block occurs (in split order) belongs to path k
            blocks = {}
            for parts in folds:
                for t, p in parts:
                    blocks.setdefault(int(t[0]), []).append(p)
            name = pp.pop("name", "path")
            n_paths = len(next(iter(blocks.values())))
            out = []
            for k in range(n_paths):
                out.append(MultiPeriodPortfolio(
                    name=f"{name}_{k}", portfolios=[blocks[b][k] for b in sorted(blocks)], **pp))
            tests = sorted(int(i) for parts in folds for t, _ in parts for i in t)
            return [_desc(p) for p in out], tests
        flat = sorted(((t, p) for parts in folds for t, p in parts), key=lambda tp: int(tp[0][0]))
        mpp = MultiPeriodPortfolio(portfolios=[p for _, p in flat], check_observations_order=False, **pp)
        return [_desc(mpp)], sorted(int(i) for t, _ in flat for i in t)

    with catalog.routing(plan["spec"]):
        return work.guarded(body)


def _desc(p):
    d = canon.describe(p)
    if "name" in d:
        for q in d.get("portfolios", []):
            q.pop("name", None)
    return d


def _run(plan):
    from skfolio.model_selection import cross_val_predict
    from skfolio.population import Population

    simrun.pin_entropy(plan["entropy"])
    data, e, cv, y, params, cols = _args(plan)
    before = canon.describe([e, cv, data.X, y, params, cols, plan["ppar"]])

    def body():
        with catalog.routing(plan["spec"]):
            pred = cross_val_predict(e, data.X, y, cv=cv, n_jobs=plan["par"]["n_jobs"], params=params,
                                     column_indices=cols, portfolio_params=plan["ppar"])
        ptfs = list(pred) if isinstance(pred, Population) else [pred]
        return [_desc(p) for p in ptfs]

    out = parrun.run(body, plan["par"])
    after = canon.describe([e, cv, data.X, y, params, cols, plan["ppar"]])
    out["untouched"] = canon.diff(before, after)
    return out


def execute(plan, ctx):
    ref = ctx.fork(_reference, copy.deepcopy(plan))
    out = ctx.fork(_run, plan)
    parrun.record(ctx, out, plan["par"])
    ctx.count("cv:" + (plan["cv"].get("cls", "explicit folds") if isinstance(plan["cv"], dict) else "int"))
    ctx.count("class:" + plan["spec"].get("cls", "Pipeline"))
    ctx.count("outcome:" + ("exc" if isinstance(ref[1], list) else ref[0]))
    ctx.notes = [out["order"], out["completed"], out["trace"]]
    r = out["r"]
    ctx.comparisons += 1
    what = f"{plan['spec'].get('cls', 'pipeline')} cv={json.dumps(plan['cv'])[:200]} {plan['par']['mode']} " \
           f"n_jobs={plan['par']['n_jobs']} order={out['order']}"
    if ref[0] == "ok" and isinstance(ref[1], list):
        ref = ["exc", *(e for e in ref[1] if e == r[1]), *ref[1]]
    if r[0] == "ok" and ref[0] == "ok":
        d = canon.diff(_strip(r[1], plan), _strip(ref[1][0], plan), **catalog.tolerance(plan["spec"]))
    elif r[0] == ref[0] and r[1] == ref[1]:
        d = None
    else:
        d = f"{canon.short(r, 400)} instead of {canon.short(ref, 300)}"
    if d:
        raise Violation("cv-differs", f"{what}: differs from fold-by-fold result: {d}")
    if out["untouched"]:
        raise Violation("cv-touched-input", f"{what}: input changed: {out['untouched']}")


def _strip(descs, plan):
    """Default names are object identities; compare names only where the caller gave one."""
    out = []
    for d in descs:
        d = dict(d)
        if not (plan["ppar"] or {}).get("name") and not (isinstance(plan["cv"], dict)
                                                         and plan["cv"].get("cls") == "CombinatorialPurgedCV"):
            d.pop("name", None)
        out.append(d)
    return out
