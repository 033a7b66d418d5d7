"""Estimators fitted concurrently in threads give the same results as fitted alone."""

import copy
import json
import warnings

from dst import canon, catalog, distops, monitor, parcalls, parrun, ptf, simrun, work
from dst.runner import Violation
from dst.sched import Deadlock, Scheduler, gen_switches

ID = "P17"
RUNS = {"quick": 1500, "thorough": 15000}
LEVEL = "exploration"
RULE = ("a case is one interleaving of 2-4 threads, each using an estimator of its own while sharing data, splitters, parameter "
        "objects and unfitted sub-estimators, one of them possibly failing; two cases are the same if the work of the threads and "
        "the context switches are the same; non-trivial if a thread was preempted inside an operation")
REAL = work.REAL
STUB = ["thread scheduling", "failure of a thread (raised at a source line, or unusable data)", "OS entropy"]
ASSUMPTIONS = ["preemption points are executed skfolio source lines; code of other libraries runs without preemption between two "
               "skfolio lines", "estimators that draw random numbers have an integer random state"]
SHRINK = ("switches", "t0", "t1", "t2", "t3")


def share(spec, rng):
    """Mark parameter objects so that equal ones become one object for all threads."""
    if isinstance(spec, list):
        return [share(x, rng) for x in spec]
    if not isinstance(spec, dict):
        return spec
    if spec.get("@") == "pipe":
        return {**spec, "steps": [[n, share(s, rng)] for n, s in spec["steps"]]}
    if spec.get("@") == "tuple":
        return {**spec, "v": share(spec["v"], rng)}
    if spec.get("@") != "est":
        return spec
    p = {}
    for k, v in spec["p"].items():
        key = json.dumps(v, sort_keys=True)
        v = share(v, rng)
        # sub-estimators, arrays, mappings and lists of estimators
        if isinstance(v, list) or isinstance(v, dict) and v.get("@") in ("est", "arr", "dict", "tuple", "splits", "scorer"):
            if rng.random() < 0.8:
                v = {"@": "shared", "k": key, "v": v}
        p[k] = v
    return {**spec, "p": p}


def _gen_figures(rng):
    return {"op": "figures", "d": rng.randrange(2), "f": [ptf.gen_figure(rng, "ptf") for _ in range(rng.choice([2, 4, 6]))]}


def _gen_op(rng, kind, env):
    r = rng.random()
    if kind == "opt" and r > 0.7:
        return _gen_figures(rng)
    if r < 0.5:
        return {"op": "fit", "d": rng.randrange(2)}
    if kind in ("vine", "cop", "uni") and r < 0.95:
        q = distops.gen(rng, kind, env, bad=0.05)
        while q["op"] in ("scatter", "marginals", "plot_pdf", "qq", "plot2d", "plot_tail"):
            q = distops.gen(rng, kind, env, bad=0.05)
        return {"op": "query", "q": q}
    return {"op": "use", "d": rng.randrange(2)}


def gen(rng, tier):
    ds = catalog.gen_data(rng, n_obs=rng.choice([40, 48, 60]))
    allow = ("iv",) if rng.random() < 0.1 else ("plain",)
    if "iv" in allow:
        ds["n_obs"] = 60
    env = catalog.env_of(ds)
    other = dict(ds, seed=rng.randrange(1, 10_000))
    plan = {"data": [ds, other], "threads": {}}
    kind, spec = catalog.gen_any(rng, env, allow=allow)
    n = rng.choice([2, 2, 3, 4])
    cv = parrun.gen_cv(rng, env, ds)
    for i in range(n):
        r = rng.random()
        if r < 0.4:
            k, s = kind, copy.deepcopy(spec)
        elif r < 0.75:
            k, s = kind, work.set_param(spec, rng, env, kind, allow)
        else:
            k, s = catalog.gen_any(rng, env, allow=allow)
        if k == "opt" and not catalog.uses(s, "FactorModel", "ImpliedCovariance") and rng.random() < 0.2:
            s = copy.deepcopy(s)
            s["p"].pop("efficient_frontier_size", None)
            if isinstance(s["p"].get("min_return"), dict):
                s["p"].pop("min_return")
            ops = [{"op": "cvp"}]
        else:
            ops = [{"op": "fit", "d": rng.randrange(2)}] + [_gen_op(rng, k, env) for _ in range(rng.choice([0, 1, 1, 2]))]
            if ops[-1]["op"] != "use":
                ops.append({"op": "use", "d": ops[0]["d"]})
        for e in catalog.walk(s):
            e["p"].pop("n_jobs", None)
        plan["threads"][f"t{i}"] = {"kind": k, "spec": s, "ops": ops}
    if rng.random() < 0.12:
        s = catalog.gen_search(rng, env)
        plan["threads"]["t0"] = {"kind": "search", "spec": s, "ops": [{"op": "fit", "d": 0}, {"op": "use", "d": 0}]}
    if rng.random() < 0.15:
        t = plan["threads"][rng.choice(sorted(plan["threads"]))]
        t["ops"].insert(rng.randrange(len(t["ops"])), {"op": "badfit", "how": rng.choice(["nan", "text", "narrow"])})
    for t in plan["threads"].values():
        t["spec"] = share(t["spec"], rng)
        # for the minimiser
    plan["cv"] = cv
    plan.update({k: t.pop("ops") for k, t in plan["threads"].items()})
    short = rng.random() < 0.25
    if short:
        # short operations of the same kind, switched between often
        k = rng.choice(["opt", "opt", "opt", "uni", "cop", "cov", "mu"])
        same = _gen_figures(rng)["f"] if rng.random() < 0.7 else None
        for i, name in enumerate(plan["threads"]):
            s = catalog.est(rng.choice(["EqualWeighted", "InverseVolatility"])) if k == "opt" else catalog.gen_any(rng, env, kinds=[k])[1]
            s = plan["threads"]["t0"]["spec"] if i and k != "opt" and rng.random() < 0.6 else s
            plan["threads"][name] = {"kind": k, "spec": s}
            plan[name] = [{"op": "fit", "d": rng.randrange(2)}] + [_gen_figures(rng) if k == "opt" else _gen_op(rng, k, env)
                                                                  for _ in range(rng.choice([1, 2, 3]))]
            for op in plan[name][1:]:
                if same and op["op"] == "figures":
                    op["f"] = same
    plan["kill"] = None
    if rng.random() < 0.3:
        plan["kill"] = {"thread": rng.choice(sorted(plan["threads"])), "abort": work.Abort.gen(rng)}
    plan["switches"] = gen_switches(rng, horizon=rng.choice([20, 60, 200]) if short else rng.choice([100, 400, 1500]))
    if not plan["switches"]:
        plan["switches"] = gen_switches(rng, horizon=300)
    plan["entropy"] = rng.randrange(1, 10**6)
    return plan


def _bad(data, how):
    d = copy.copy(data)
    d.X = d.X.copy()
    if how == "narrow":
        d.X = d.X.iloc[:, :1] if hasattr(d.X, "iloc") else d.X[:, :1]
    elif how == "nan":
        if hasattr(d.X, "iloc"):
            d.X.iloc[2, 0] = float("nan")
        else:
            d.X[2, 0] = float("nan")
    else:
        d.X = "text"
    return d


def _figure(p, f):
    try:
        return ["ok", ptf.figure(p, f)]
    except Exception as e:
        if monitor.is_injected(e):
            raise
        return ["exc", type(e).__name__]


def _op(t, e, op, data, cv):
    kind, spec = t["kind"], t["spec"]
    if op["op"] == "cvp":
        from skfolio.model_selection import cross_val_predict

        return parcalls.nameless(canon.describe(cross_val_predict(e, data[0].X, cv=cv)))
    if op["op"] == "query":
        return distops.run(kind, spec, e, op["q"], data)
    d = _bad(data[0], op["how"]) if op["op"] == "badfit" else data[op["d"]]
    if op["op"] in ("fit", "badfit"):
        if kind == "search":
            e.fit(d.X)
        else:
            catalog.fit(kind, spec, e, d)
        return None
    if op["op"] == "figures":
        p = e.predict(d.X)
        p = p[0] if hasattr(p, "non_denominated_sort") else p
        return [_figure(p, f) for f in op["f"]]
    if kind == "search":
        return parcalls.observe_search(e, d)
    return catalog.observe(kind, spec, e, d)


def _work(t, ops, e, data, cv, out):
    for op in ops:
        r = parrun.call(lambda op=op: _op(t, e, op, data, cv))
        out.append(r)
        if r[0] == "exc" and r[2]:
            raise KeyboardInterrupt(r[3])


def _alone(plan, name):
    simrun.pin_entropy(29)
    warnings.simplefilter("ignore")
    data = [catalog.Data(d) for d in plan["data"]]
    t = plan["threads"][name]
    out = []
    ctx = monitor.LineContext(record=True)
    with monitor.watching(ctx):
        _work(t, plan[name], catalog.build(t["spec"], {}), data, catalog.build(plan["cv"]), out)
    return {"out": out, "lines": ctx.extent}


def _together(plan, lines):
    simrun.pin_entropy(plan["entropy"])
    warnings.simplefilter("ignore")
    data = [catalog.Data(d) for d in plan["data"]]
    cv = catalog.build(plan["cv"])
    shared = {}
    sched = Scheduler(plan["switches"])
    outs = {}
    killed = None
    for name, t in plan["threads"].items():
        outs[name] = []
        e = catalog.build(t["spec"], shared)
        th = sched.spawn(lambda t=t, name=name, e=e: _work(t, plan[name], e, data, cv, outs[name]), name)
        if plan["kill"] and plan["kill"]["thread"] == name:
            killed = th
            c = work.Abort.context(plan["kill"]["abort"], lines[name])
            th.ctx.at, th.ctx.exc = c.at, c.exc
    dead = None
    try:
        sched.run()
    except Deadlock as e:
        dead = str(e)
    return {"outs": outs, "sched": sched.info(), "trace": sched.trace[:60], "fired": killed and killed.ctx.fired, "dead": dead}


def execute(plan, ctx):
    refs = {name: ctx.fork(_alone, plan, name) for name in plan["threads"]}
    out = ctx.fork(_together, plan, {n: r["lines"] for n, r in refs.items()})
    ctx.sched(out["sched"])
    ctx.record(json.dumps([plan["threads"], plan["data"], [plan[n] for n in plan["threads"]]], sort_keys=True))
    ctx.notes = out["trace"]
    if plan["kill"]:
        ctx.fault_planned("thread killed:" + plan["kill"]["abort"]["exc"])
    if out["fired"]:
        ctx.fault("thread killed:" + plan["kill"]["abort"]["exc"])
        ctx.sites.add(out["fired"])
    for name in plan["threads"]:
        for op in plan[name]:
            ctx.count("op:" + op["op"])
            if op["op"] == "badfit":
                ctx.fault("thread given unusable data")
    for t in plan["threads"].values():
        ctx.count("class:" + t["spec"].get("cls", "Pipeline"))
    if out["dead"]:
        raise Violation("deadlock", f"{out['dead']}; trace {out['trace'][-10:]}")
    for name, t in plan["threads"].items():
        ref = refs[name]["out"]
        for i, r in enumerate(out["outs"][name]):
            if r[0] == "exc" and r[2]:
                break
            ctx.comparisons += 1
            if t["kind"] == "search" or plan[name][i]["op"] == "cvp":
                d = parcalls.compare(r, ref[i], t["spec"])
            elif plan[name][i]["op"] == "figures" and r[0] == ref[i][0] == "ok":
                # as read from the portfolio of the same weights
                d = next((f"{f}: {x}" for f, a, b in zip(plan[name][i]["f"], r[1], ref[i][1], strict=True)
                          if (x := ptf.same(a, b, f) and canon.diff(a, b, **catalog.tolerance(t["spec"])))), None)
            else:
                d = work.compare(r, ref[i], t["spec"])
            if d:
                raise Violation("thread-interference", f"operation {i} ({plan[name][i]['op']}) of thread {name} "
                                f"({t['spec'].get('cls', 'pipeline')}) differs from the same alone: {d}; threads "
                                f"{json.dumps({n: [x['spec'].get('cls', 'pipeline'), plan[n]] for n, x in plan['threads'].items()})[:400]}")
