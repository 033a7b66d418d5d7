"""Results already returned never change afterwards."""

import copy
import json
import warnings

from dst import canon, catalog, distops, faults, monitor, parrun, ptf, simrun, work
from dst.runner import Violation

ID = "P18"
RUNS = {"quick": 2500, "thorough": 20000}
LEVEL = "fault_enumeration"
RULE = ("a case is one history in which results are obtained from a source and the source is used further (refits, parameter and "
        "setting changes, further results, aborted or solver-failed operations, changes of sibling results); two cases are the "
        "same if source, operations, outcomes and abort sites are the same; non-trivial if an operation followed a result")
REAL = work.REAL
STUB = ["solver outcome when a solver fault is planned", "interrupts (raised at a source line)", "OS entropy"]
ASSUMPTIONS = ["writing into a returned array or table in place is not among the operations"]
SHRINK = ("ops",)


def gen(rng, tier):
    plan = {"family": "est" if rng.random() < 0.65 else "ptf"}
    ops = []
    if plan["family"] == "est":
        ds = catalog.gen_data(rng, n_obs=rng.choice([40, 48, 60]))
        env = catalog.env_of(ds)
        plan["data"] = [ds, work.variant_data(rng, ds), dict(ds, seed=rng.randrange(1, 10_000))]
        if rng.random() < 0.1:
            plan["kind"], plan["spec"] = "search", catalog.gen_search(rng, env)
        else:
            plan["kind"], plan["spec"] = catalog.gen_any(rng, env)
        kind = plan["kind"]
        for e in catalog.walk(plan["spec"]):
            e["p"].pop("n_jobs", None)
        plan["cv"] = parrun.gen_cv(rng, env, ds)
        ops.append({"op": "fit", "d": 0})
        ops.append({"op": "get", "d": 0})
        fits = 0
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if r < 0.4 and fits < 3:
                op = {"op": "fit", "d": rng.randrange(3)}
                fits += 1
                q = rng.random()
                if q < 0.3:
                    op["abort"] = work.Abort.gen(rng)
                elif q < 0.4:
                    op["solver"] = {str(rng.choice([0, 0, 1, 2])): rng.choice(faults.SOLVER_KINDS)}
            elif r < 0.5 and plan["spec"]["@"] == "est" and kind != "search":
                op = {"op": "params", "spec": work.set_param(plan["spec"], rng, env, kind)}
            elif r < 0.65 and kind in ("vine", "cop", "uni"):
                op = {"op": "query", "q": distops.gen(rng, kind, env, bad=0.1)}
                if rng.random() < 0.3:
                    op["abort"] = work.Abort.gen(rng)
            elif r < 0.75:
                op = {"op": "get", "d": rng.randrange(3)}
                if rng.random() < 0.3 and ops and ops[-1]["op"] == "get":
                    op["d"] = ops[-1]["d"]
            elif r < 0.8 and kind == "opt" and not catalog.uses(plan["spec"], "FactorModel", "ImpliedCovariance"):
                op = {"op": "cvp"}
            else:
                op = {"op": "change", "pick": rng.randrange(100), "k": rng.choice(list(ptf.SETTINGS)), "how": rng.choice(
                    ["set", "set", "warm", "append", "pop", "del"])}
                op["v"] = ptf.gen_value(rng, op["k"])
            ops.append(op)
    else:
        r = rng.random()
        plan["obj"] = (ptf.gen_portfolio(rng, "p") if r < 0.5 else ptf.gen_mpp(rng, "m") if r < 0.75 else
                       {"@": "pop", "items": [ptf.gen_object(rng, f"o{i}") for i in range(rng.choice([2, 3]))]})
        kind = plan["obj"]["@"]
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            if r < 0.4:
                op = {"op": "get", "f": [ptf.gen_figure(rng, kind) for _ in range(rng.choice([1, 3, 5]))]}
            elif r < 0.55:
                op = {"op": "derive", "how": rng.choice(["copy", "deepcopy", "neg", "mul", "add", "sub", "round", "div"])}
            elif r < 0.8:
                k = rng.choice(list(ptf.SETTINGS))
                op = {"op": "set", "k": k, "v": ptf.gen_value(rng, k)}
            elif r < 0.88:
                op = {"op": "interrupt", "f": [ptf.gen_figure(rng, kind) for _ in range(2)], "at": rng.choice([3, 10, 40, 120])}
            elif r < 0.94 and kind != "ptf":
                x = ptf.gen_portfolio(rng, f"x{rng.randrange(100)}")
                x["data"]["n_obs"], x["rows"] = 60, [45, 55]
                op = {"op": rng.choice(["append", "setitem"]), "spec": x}
            else:
                op = {"op": "change", "pick": rng.randrange(100), "k": rng.choice(list(ptf.SETTINGS)),
                      "how": rng.choice(["set", "warm"])}
                op["v"] = ptf.gen_value(rng, op["k"])
            ops.append(op)
    plan["ops"] = ops
    plan["entropy"] = rng.randrange(1, 10**6)
    return plan


def _value(k, v):
    return [ptf.measure(m) for m in v] if k == "fitness_measures" else v


def _describe(x):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return canon.describe(x)


def _results(plan, e, spec, data):
    """[(label, result)] a user can obtain from a fitted estimator."""
    kind = plan["kind"]
    out = []
    X = catalog.fit_args(kind, spec, data)[0][0] if kind != "search" else data.X
    if kind != "pipe":
        for k, v in sorted(vars(e).items()):
            if k.endswith("_") and not k.startswith("_") and not type(v).__module__.startswith("cvxpy"):
                out.append((k, canon.vine_trees(v) if k == "trees_" else v))
        pm = getattr(getattr(e, "prior_estimator_", None), "prior_model_", None)
        if pm is not None:
            out.append(("prior_model", pm))
            out += [("prior_model." + k, getattr(pm, k)) for k in ("mu", "covariance", "returns")]
    calls = []
    if kind in ("opt", "pipe", "search"):
        calls = [("predict", lambda: e.predict(X))]
    elif kind == "presel":
        calls = [("support", e.get_support), ("transform", lambda: e.transform(X)), ("names", e.get_feature_names_out)]
    elif kind in ("vine", "cop", "uni"):
        calls = [("sample", lambda: e.sample(6)), ("score_samples", lambda: e.score_samples(X)), ("repr", lambda: e.fitted_repr)]
    for label, fn in calls:
        r = work.guarded(fn)
        if r[0] == "ok":
            out.append((label, r[1]))
    return out


def _change(o, op):
    """Change settings or components of a result."""
    from skfolio import Population
    from skfolio.portfolio import BasePortfolio, MultiPeriodPortfolio

    if isinstance(o, Population):
        if op["how"] == "append":
            o.append(o[0].copy())
        elif op["how"] == "pop":
            o.pop()
        elif op["how"] == "set":
            o.set_portfolio_params(**{op["k"]: _value(op["k"], op["v"])})
        else:
            o.summary()
    elif isinstance(o, BasePortfolio):
        if op["how"] == "warm":
            for f in ptf.all_figures("mpp" if isinstance(o, MultiPeriodPortfolio) else "ptf"):
                ptf.get(o, f)
        elif op["how"] in ("append", "pop", "del") and isinstance(o, MultiPeriodPortfolio):
            if op["how"] == "append":
                o.append(o.portfolios[-1].copy())
            else:
                del o[0]
        else:
            setattr(o, op["k"], _value(op["k"], op["v"]))
    else:
        return False
    return True


def _history(plan):
    simrun.pin_entropy(plan["entropy"])
    log, held, skip = [], [], set()

    def hold(label, o):
        held.append([len(log), label, o, copy.deepcopy(_describe(o))])

    def change(op):
        from skfolio import Population
        from skfolio.portfolio import BasePortfolio

        cands = [i for i, h in enumerate(held) if isinstance(h[2], BasePortfolio | Population) and h[1] != "member"]
        if not cands:
            return log.append(["change", "nothing"])
        i = cands[op["pick"] % len(cands)]
        r = work.guarded(lambda: _change(held[i][2], op))
        # each call that computes a result must give a result of its own
        skip.update(j for j, h in enumerate(held) if j == i or (h[2] is held[i][2] and not h[1].startswith(
            ("predict", "cross_val_predict", "derived"))))
        log.append(["change", held[i][1], op["how"], r[0]])

    if plan["family"] == "est":
        data = [catalog.Data(d) for d in plan["data"]]
        spec, kind = plan["spec"], plan["kind"]
        e = catalog.build(spec)
        lines = 1500
        for op in plan["ops"]:
            if op["op"] == "fit":
                ctx = work.Abort.context(op.get("abort"), lines)
                sol = faults.Solver(op.get("solver"))
                with sol.active():
                    r = work.guarded(lambda: e.fit(data[op["d"]].X) if kind == "search" else
                                     catalog.fit(kind, spec, e, data[op["d"]]), ctx)
                if r[0] == "ok":
                    lines = ctx.lines
                log.append(["fit", op["d"], r[0] if r[0] == "ok" else r[1], ctx.fired, sol.fired])
            elif op["op"] == "get":
                got = _results(plan, e, spec, data[op["d"]])
                for label, o in got:
                    hold(label, o)
                log.append(["get", len(got)])
            elif op["op"] == "params":
                spec = op["spec"]
                new = catalog.build(spec)
                work.guarded(lambda: e.set_params(**new.get_params(deep=False)))
                log.append(["params"])
            elif op["op"] == "query":
                ctx = work.Abort.context(op.get("abort"), 400)
                r = work.guarded(lambda: distops.run(kind, spec, e, op["q"], data), ctx)
                log.append(["query", op["q"]["op"], r[0] if r[0] == "ok" else r[1], ctx.fired])
            elif op["op"] == "cvp":
                from skfolio.model_selection import cross_val_predict

                r = work.guarded(lambda: cross_val_predict(e, data[0].X, cv=catalog.build(plan["cv"])))
                if r[0] == "ok":
                    hold("cross_val_predict", r[1])
                log.append(["cvp", r[0]])
            else:
                change(op)
    else:
        o = ptf.build(plan["obj"])
        for op in plan["ops"]:
            if op["op"] == "get":
                for f in op["f"]:
                    if f.startswith(("pop:sort", "pop:filter", "fitness_measures")):
                        continue
                    r = work.guarded(lambda f=f: ptf._figure(o, f))
                    if r[0] == "ok":
                        hold(f, r[1])
                log.append(["get", op["f"]])
            elif op["op"] == "derive":
                fn = {"copy": lambda: copy.copy(o) if not hasattr(o, "copy") else o.copy(), "deepcopy": lambda: copy.deepcopy(o),
                      "neg": lambda: -o, "mul": lambda: o * 0.5, "add": lambda: o + o, "sub": lambda: o - o,
                      "round": lambda: round(o, 2), "div": lambda: o / 2}[op["how"]]
                if plan["obj"]["@"] == "pop" and op["how"] != "deepcopy":
                    log.append(["derive", "skip"])
                    continue
                r = work.guarded(fn)
                # copies of multi-period portfolios hold the same components
                if r[0] == "ok":
                    hold("derived:" + op["how"], r[1])
                log.append(["derive", op["how"], r[0]])
            elif op["op"] == "set":
                v = _value(op["k"], op["v"])
                r = work.guarded(lambda: o.set_portfolio_params(**{op["k"]: v}) if plan["obj"]["@"] == "pop" else
                                 setattr(o, op["k"], v))
                log.append(["set", op["k"], r[0]])
            elif op["op"] == "interrupt":
                ctx = monitor.LineContext(at=op["at"], exc="interrupt")
                r = work.guarded(lambda: [ptf._figure(o, f) for f in op["f"]], ctx)
                log.append(["interrupt", r[0] if r[0] == "ok" else r[1], None, ctx.fired])
            elif op["op"] in ("append", "setitem"):
                x = ptf.build(op["spec"])
                r = work.guarded(lambda: o.append(x) if op["op"] == "append" else o.__setitem__(0, x))
                log.append([op["op"], r[0]])
            else:
                change(op)
    bad = []
    n = 0
    for i, (step, label, o, before) in enumerate(held):
        if i in skip or step >= len(log) - 1:
            continue
        n += 1
        d = canon.diff(_describe(o), before)
        if d:
            bad.append([step, label, d])
    return {"log": log, "bad": bad, "n": n}


def execute(plan, ctx):
    out = ctx.fork(_history, plan)
    log = out["log"]
    ctx.record(json.dumps(plan.get("spec", plan.get("obj")), sort_keys=True), log)
    ctx.notes = log
    for e in log:
        ctx.count("op:" + e[0])
        if e[0] in ("fit", "query", "interrupt") and e[3]:
            ctx.fault("abort")
            ctx.sites.add(e[3])
        if e[0] == "fit":
            for _, k in e[4]:
                ctx.fault("solver:" + k)
    ctx.count("source:" + (plan["spec"].get("cls", "Pipeline") if plan["family"] == "est" else plan["obj"]["@"]))
    ctx.nontrivial = out["n"] > 0
    ctx.comparisons += out["n"]
    if out["bad"]:
        step, label, d = out["bad"][0]
        raise Violation("result-changed", f"{label} obtained at step {step} of {json.dumps(log)[:600]} from "
                        f"{json.dumps(plan.get('spec', plan.get('obj')))[:250]} changed afterwards: {d}")
