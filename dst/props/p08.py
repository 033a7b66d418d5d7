"""A fit depends only on parameters and data, never on earlier or aborted fits."""

import copy
import json

from dst import catalog, faults, simrun, work
from dst.runner import Violation

ID = "P08"
RUNS = {"quick": 2500, "thorough": 15000}
LEVEL = "fault_enumeration"
RULE = ("a case is one history of fits, parameter changes, uses, copies and aborted or solver-failed fits over 1-3 "
        "estimators; two cases are the same if the recorded sequence (operation, estimator, data, outcome, abort "
        "site) is the same; it is non-trivial if at least one earlier operation precedes a compared fit")
REAL = work.REAL
STUB = ["solver outcome when a solver fault is planned", "interrupts (raised at a source line)", "OS entropy"]
ASSUMPTIONS = ["abort points are the starts of executed skfolio source lines, and solver calls",
               "reference = the same code in a pristine process"]
SHRINK = ("ops", "tweak")


def _gen_nested(rng):
    """Fit, change an estimator inside the estimator, fit again on data of the same shape."""
    ds0 = catalog.gen_data(rng)
    ds0["n_obs"] = max(ds0["n_obs"], 60)
    data = [ds0, {**work.variant_data(rng, ds0), **{k: ds0[k] for k in ("n_obs", "n_assets", "factors", "form", "prefix")}}]
    est = catalog.est
    regressors = [est("Ridge", alpha=0.1), est("Ridge", alpha=2.0), est("LinearRegression", fit_intercept=False), est("LinearRegression")]
    covs = [est("EmpiricalCovariance"), est("EWCovariance", alpha=0.3), est("GerberCovariance"), est("ShrunkCovariance", shrinkage=0.4)]
    mus = [est("EmpiricalMu"), est("ShrunkMu"), est("EWMu", alpha=0.3)]
    kind, cls, name, values, fixed = rng.choice([
        ("cov", "ImpliedCovariance", "linear_regressor", regressors, {"window_size": 10}),
        ("cov", "ImpliedCovariance", "prior_covariance_estimator", covs, {"window_size": 10}),
        ("cov", "DenoiseCovariance", "covariance_estimator", covs, {}),
        ("cov", "DetoneCovariance", "covariance_estimator", covs, {}),
        ("mu", "ShrunkMu", "covariance_estimator", covs, {}),
        ("mu", "EquilibriumMu", "covariance_estimator", covs, {}),
        ("prior", "EmpiricalPrior", "covariance_estimator", covs, {}),
        ("prior", "EmpiricalPrior", "mu_estimator", mus, {}),
    ])
    a, b = rng.sample(values, 2)
    spec = est(cls, **{name: a}, **fixed)
    change = {"op": "deep", "e": 0, "name": name, "v": b}
    if rng.random() < 0.4:
        new, inner, value = catalog.tweak(spec, rng)
        if inner:
            change = {"op": "deep", "e": 0, "name": inner, "v": value}
    ops = [{"op": "fit", "e": 0, "d": 0}, change]
    if rng.random() < 0.5:
        ops.append({"op": "fit", "e": 0, "d": 1})
        if rng.random() < 0.5:
            ops[-1]["abort"] = work.Abort.gen(rng)
    return {"data": data, "ests": [{"kind": kind, "spec": spec}], "ops": ops, "final": {"e": 0, "d": rng.choice([0, 1])},
            "keep": rng.random() < 0.8, "entropy": rng.randrange(1, 10**6)}


def gen(rng, tier):
    if rng.random() < 0.1:
        return _gen_nested(rng)
    allow = ("iv",) if rng.random() < 0.2 else ("plain",)
    ds0 = catalog.gen_data(rng)
    if "iv" in allow:
        ds0["n_obs"] = max(ds0["n_obs"], 60)
    env = catalog.env_of(ds0)
    data = [ds0] + [work.variant_data(rng, ds0) for _ in range(rng.choice([1, 2]))]
    for d in data:
        if "iv" in allow:
            d["n_obs"] = max(d["n_obs"], 60)
    for _ in range(12):
        kind, spec = catalog.gen_any(rng, env, allow=allow)
        if "iv" not in allow or catalog.needs_routing(spec):
            break
    if ds0["form"] == "frame" and rng.random() < (0.6 if catalog.named(spec) else 0.1):
        # the same assets in another order
        data[1] = {**rng.choice([ds0, data[1]]), "n_assets": ds0["n_assets"],
                   "tweak": [["names", rng.randrange(1, ds0["n_assets"])]]}
    ests = [{"kind": kind, "spec": spec}]
    for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < 0.6:
            ests.append({"kind": kind, "spec": work.set_param(spec, rng, env, kind, allow)})
        else:
            k, s = catalog.gen_any(rng, env, allow=allow)
            ests.append({"kind": k, "spec": s})
    ops = []
    cur = [e["spec"] for e in ests]
    same = [i for i, d in enumerate(data) if catalog.same_layout(d, ds0)]

    def change(e):
        if rng.random() < 0.6 or ests[e]["spec"]["@"] != "est":
            new, name, value = catalog.tweak(cur[e], rng)
            if name:
                cur[e] = new
                return {"op": "deep", "e": e, "name": name, "v": value}
        if ests[e]["spec"]["@"] == "est":
            cur[e] = work.set_param(ests[e]["spec"], rng, env, ests[e]["kind"], allow)
            return {"op": "params", "e": e, "spec": cur[e]}
        return {"op": "clone", "e": e}

    if rng.random() < 0.4:
        # fit, change, fit again
        ops.append({"op": "fit", "e": 0, "d": rng.choice(same)})
        ops += [change(0) for _ in range(rng.choice([1, 1, 2]))]
    for _ in range(rng.randint(0 if ops else 1, 5 - len(ops))):
        e = 0 if rng.random() < 0.65 else rng.randrange(len(ests))
        r = rng.random()
        if r < 0.62:
            op = {"op": "fit", "e": e, "d": rng.randrange(len(data))}
            q = rng.random()
            if q < 0.5:
                op["abort"] = work.Abort.gen(rng)
            elif q < 0.65:
                op["solver"] = {str(rng.choice([0, 0, 0, 1, 2, 3])): rng.choice(faults.SOLVER_KINDS)}
        elif r < 0.76:
            op = change(e)
        elif r < 0.82:
            op = {"op": "overwrite", "e": e, "d": 0, "with": rng.choice(same)}
        elif r < 0.92:
            op = {"op": "use", "e": e, "d": rng.randrange(len(data))}
            if rng.random() < 0.4:
                op["abort"] = work.Abort.gen(rng)
        else:
            op = {"op": rng.choice(["clone", "deepcopy"]), "e": e}
        ops.append(op)
    return {"data": data, "ests": ests, "ops": ops, "final": {"e": 0, "d": 0}, "keep": rng.random() < 0.6,
            "entropy": rng.randrange(1, 10**6)}


def _fits(plan):
    """(estimator, parameters, data) of every fit of the plan."""
    specs, data = [e["spec"] for e in plan["ests"]], list(plan["data"])
    for op in plan["ops"]:
        e = op["e"]
        if op["op"] == "params":
            specs[e] = op["spec"]
        elif op["op"] == "deep":
            specs[e] = catalog.apply(specs[e], op["name"], op["v"]) or specs[e]
        elif op["op"] == "overwrite":
            data[op["d"]] = data[op["with"]]
        elif op["op"] == "fit":
            yield e, specs[e], data[op["d"]]
    f = plan["final"]
    yield f["e"], specs[f["e"]] if plan.get("keep") else plan["ests"][f["e"]]["spec"], data[f["d"]]


def _key(spec, d):
    return json.dumps([spec, d], sort_keys=True)


def _history(plan, lines):
    simrun.pin_entropy(plan["entropy"])
    from sklearn.base import clone

    data = [catalog.Data(d) for d in plan["data"]]
    objs = [catalog.build(e["spec"]) for e in plan["ests"]]
    specs = [e["spec"] for e in plan["ests"]]
    kinds = [e["kind"] for e in plan["ests"]]
    fitted = [False] * len(objs)
    ds = list(plan["data"])
    log, compared = [], []

    def do_fit(op, check):
        e, d = op["e"], op["d"]
        ctx = work.Abort.context(op.get("abort"), lines[_key(specs[e], ds[d])])
        sol = faults.Solver(op.get("solver"))
        with sol.active():
            r = work.guarded(lambda: catalog.fit(kinds[e], specs[e], objs[e], data[d]), ctx)
        fitted[e] = r[0] == "ok" or fitted[e]
        faulty = bool(ctx.fired or sol.fired)
        log.append(["fit", e, d, r[0] if r[0] == "ok" else r[1], ctx.fired, sol.fired])
        if not faulty:
            if r[0] == "ok":
                r = work.guarded(lambda: catalog.observe(kinds[e], specs[e], objs[e], data[d]))
                if r[0] == "exc":
                    r[0] = "obs_exc"
            compared.append([len(log) - 1, e, _key(specs[e], ds[d]), specs[e], r])

    for op in plan["ops"]:
        e = op["e"]
        if op["op"] == "fit":
            do_fit(op, True)
        elif op["op"] == "params":
            new = catalog.build(op["spec"])
            r = work.guarded(lambda: objs[e].set_params(**new.get_params(deep=False)))
            specs[e] = op["spec"]
            log.append(["params", e, r[0]])
        elif op["op"] == "deep":
            new = catalog.apply(specs[e], op["name"], op["v"])
            r = ["skipped"]
            if new is not None:
                r = work.guarded(lambda: objs[e].set_params(**{op["name"]: catalog.build(op["v"])}))
                specs[e] = new
            log.append(["deep", e, op["name"], r[0]])
        elif op["op"] == "overwrite":
            d, w = op["d"], op["with"]
            data[d].overwrite(catalog.Data(ds[w]))
            ds[d] = ds[w]
            log.append(["overwrite", d, w])
        elif op["op"] == "use":
            ctx = work.Abort.context(op.get("abort"), 300)
            r = work.guarded(lambda: catalog.observe(kinds[e], specs[e], objs[e], data[op["d"]]), ctx)
            log.append(["use", e, op["d"], r[0] if r[0] == "ok" else r[1], ctx.fired])
        elif op["op"] == "clone":
            objs[e] = clone(objs[e])
            log.append(["clone", e])
        else:
            objs[e] = copy.deepcopy(objs[e])
            log.append(["deepcopy", e])
    # the original parameters may be restored before the final fit
    f = plan["final"]
    e = f["e"]
    if not plan.get("keep") and specs[e] != plan["ests"][e]["spec"]:
        specs[e] = plan["ests"][e]["spec"]
        new = catalog.build(specs[e])
        objs[e].set_params(**new.get_params(deep=False))
    do_fit({"op": "fit", **f}, True)
    return log, compared


def execute(plan, ctx):
    refs = {}
    for e, spec, d in _fits(plan):
        k = _key(spec, d)
        if k not in refs:
            refs[k] = ctx.fork(work.fresh, plan["ests"][e]["kind"], spec, d, 11)
    log, compared = ctx.fork(_history, plan, {k: v["lines"] for k, v in refs.items()})
    for op in plan["ops"]:
        if op.get("abort"):
            ctx.fault_planned("abort:" + op["abort"]["exc"])
        for v in op.get("solver", {}).values():
            ctx.fault_planned("solver:" + v)
    for i, entry in enumerate(log):
        ctx.count("op:" + entry[0])
        if entry[0] in ("fit", "use") and entry[4]:
            ctx.fault("abort:" + plan["ops"][i]["abort"]["exc"])
            ctx.sites.add(entry[4])
        if entry[0] == "fit":
            for _, kind in entry[5]:
                ctx.fault("solver:" + kind)
    ctx.notes = log
    ctx.record(log)
    ctx.nontrivial = len(log) > 1
    for e in plan["ests"]:
        ctx.count("class:" + e["spec"].get("cls", "Pipeline"))
    for pos, e, key, spec, r in compared:
        if pos == 0:
            continue
        ctx.comparisons += 1
        ref = refs[key]["r"]
        d = work.compare(r, ref, spec)
        if d:
            raise Violation("history-dependent-fit",
                            f"fit at step {pos} of {json.dumps(log)[:600]} differs from a fresh fit of "
                            f"{spec.get('cls', 'pipeline')}: {d}")
