"""Vine copula queries do not depend on earlier, aborted or failed queries."""

import copy
import json

from dst import canon, catalog, distops, monitor, simrun, work
from dst.runner import Violation

ID = "P14"
RUNS = {"quick": 1500, "thorough": 15000}
LEVEL = "fault_enumeration"
RULE = ("a case is one history of 2-7 queries on a fitted distribution, some with rejected arguments, some aborted; two "
        "cases are the same if the recorded sequence (query, outcome, abort site) is the same; non-trivial if a compared "
        "query has a predecessor")
REAL = work.REAL
STUB = ["interrupts (raised at a source line)", "OS entropy"]
ASSUMPTIONS = ["abort points are the starts of executed skfolio source lines",
               "reference: the same query on an identically fitted unused object in another process; queries that draw "
               "random numbers use an integer random state"]
SHRINK = ("ops",)


def gen(rng, tier):
    ds = catalog.gen_data(rng, n_obs=rng.choice([40, 48]), n_assets=rng.choice([3, 4, 5, 6]), factors=0)
    env = catalog.env_of(ds)
    kind = "vine" if rng.random() < 0.85 else rng.choice(["cop", "uni"])
    spec = catalog.gen_any(rng, env, kinds=[kind])[1]
    spec["p"].pop("n_jobs", None)
    data = [ds]
    for _ in range(2):
        d = dict(ds)
        d["seed"] = rng.randrange(1, 10_000)
        if rng.random() < 0.6:
            d["n_obs"] = rng.choice([40, 55, 12])
        data.append(d)
    ops = []
    for _ in range(rng.randint(1, 6)):
        q = distops.gen(rng, kind, env)
        if rng.random() < 0.55:
            q["abort"] = work.Abort.gen(rng)
        elif kind == "vine" and rng.random() < 0.15:
            q = {"op": rng.choice(["deepcopy", "pickle"])}
        ops.append(q)
    final = distops.gen(rng, kind, env, bad=0.0)
    reuse = rng.random() < 0.5
    if kind == "vine" and rng.random() < 0.3:
        # the same scenario variable again, with other content
        cond = [q for q in ops if q["op"] == "cond" and "bad" not in q]
        if cond:
            final = copy.deepcopy(rng.choice(cond))
            final.pop("abort", None)
            for c in final["cond"]:
                c[3] = round(rng.uniform(-0.02, 0.02), 5)
    return {"reuse": reuse, "data": data, "kind": kind, "spec": spec, "ops": ops, "final": final, "entropy": rng.randrange(1, 10**6)}


def _fitted(plan):
    data = [catalog.Data(d) for d in plan["data"]]
    e = catalog.build(plan["spec"])
    r = work.guarded(lambda: catalog.fit(plan["kind"], plan["spec"], e, data[0]))
    return data, e, r


def _lone(plan, queries):
    """Each query on an unused copy of the fitted object."""
    simrun.pin_entropy(31)
    data, e, r = _fitted(plan)
    if r[0] != "ok":
        return None
    out = []
    for q in queries:
        e2 = copy.deepcopy(e)
        ctx = monitor.LineContext(record=True)
        r = work.guarded(lambda e2=e2, q=q: distops.run(plan["kind"], plan["spec"], e2, q, data), ctx)
        out.append([r, ctx.extent])
    return out


def _history(plan, lines):
    import pickle

    simrun.pin_entropy(plan["entropy"])
    data, e, _ = _fitted(plan)
    log, compared = [], []
    held = {} if plan.get("reuse") else None
    for i, q in enumerate([*plan["ops"], plan["final"]]):
        if q["op"] in ("deepcopy", "pickle"):
            e = copy.deepcopy(e) if q["op"] == "deepcopy" else pickle.loads(pickle.dumps(e))
            log.append([q["op"], "ok", None])
            continue
        ctx = work.Abort.context(q.get("abort"), lines[i])
        r = work.guarded(lambda q=q: distops.run(plan["kind"], plan["spec"], e, q, data, held), ctx)
        log.append([q["op"], "ok" if r[0] == "ok" else r[1], ctx.fired])
        if not ctx.fired:
            compared.append([i, r])
    return log, compared


def execute(plan, ctx):
    queries = [*plan["ops"], plan["final"]]
    real = [i for i, q in enumerate(queries) if q["op"] not in ("deepcopy", "pickle")]
    lone = ctx.fork(_lone, plan, [queries[i] for i in real])
    if lone is None:
        ctx.count("fit failed")
        ctx.record("fit failed")
        return
    refs = dict(zip(real, lone, strict=True))
    log, compared = ctx.fork(_history, plan, {i: v[1] for i, v in refs.items()})
    ctx.record(log)
    ctx.notes = log
    ctx.count("class:" + plan["spec"]["cls"])
    for i, (op, out, fired) in enumerate(log):
        ctx.count("query:" + op)
        if queries[i].get("abort"):
            ctx.fault_planned("abort:" + queries[i]["abort"]["exc"])
        if fired:
            ctx.fault("abort:" + queries[i]["abort"]["exc"])
            ctx.sites.add(fired)
        elif out != "ok":
            ctx.fault("rejected")
    ctx.nontrivial = len(log) > 1
    if plan.get("reuse"):
        ctx.count("caller overwrites its arrays between queries")
    for i, r in compared:
        ref = refs[i][0]
        ctx.comparisons += 1
        if r[0] == "ok" and ref[0] == "ok":
            d = canon.diff(r[1], ref[1], rtol=1e-9, atol=1e-11)
        elif r[0] == ref[0] and r[1] == ref[1]:
            d = None
        else:
            d = f"{canon.short(r, 300)} instead of {canon.short(ref, 300)}"
        if d:
            raise Violation("history-dependent-query", f"{plan['spec']['cls']} query {i} ({queries[i]['op']}) of "
                            f"{json.dumps(log)[:600]} differs from the same query on an unused copy: {d}")
