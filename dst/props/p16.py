"""Estimators, portfolios and populations survive the trip to another process."""

import copy
import io
import json
import pickle

from dst import catalog, distops, ptf, simrun, work
from dst.runner import Violation

ID = "P16"
RUNS = {"quick": 2500, "thorough": 15000}
LEVEL = "exploration"
RULE = ("a case is one history of uses of 1-2 objects with serialised copies in flight: sent at any point, delivered late, out "
        "of order, twice or never, in the same or in another process; two cases are the same if objects, operations, "
        "outcomes and deliveries are the same; non-trivial if a delivered copy was used or its original used after sending")
REAL = work.REAL + ["pickle, cloudpickle, joblib and deepcopy", "process boundaries (forked processes)"]
STUB = ["the network between processes (messages delayed, duplicated, reordered, lost by the plan)", "OS entropy"]
ASSUMPTIONS = ["receiving processes run the same library versions and the same interpreter hash seed",
               "estimators told to keep the native solver problem (save_problem) are not transferred"]
SHRINK = ("ops",)

HOW = ["pickle", "pickle", "pickle2", "cloudpickle", "joblib", "deepcopy", "pickle+deepcopy"]


def _gen_do(rng, family, env, start, data):
    if family == "est":
        kind = start["kind"]
        r = rng.random()
        if r < 0.4:
            return {"do": "fit", "d": rng.randrange(len(data))}
        if r < 0.55 and start["spec"]["@"] == "est" and kind != "search":
            return {"do": "params", "spec": work.set_param(start["spec"], rng, env, kind)}
        if kind in ("vine", "cop", "uni"):
            q = distops.gen(rng, kind, env, bad=0.1)
            return {"do": "query", "q": q}
        return {"do": "use", "d": rng.randrange(len(data))}
    r = rng.random()
    k = start["@"]
    if r < 0.5:
        return {"do": "read", "f": [ptf.gen_figure(rng, k) for _ in range(rng.choice([1, 2, 4]))]}
    if r < 0.85 and k != "pop":
        key = rng.choice(list(ptf.SETTINGS))
        return {"do": "set", "k": key, "v": ptf.gen_value(rng, key)}
    if k == "pop":
        q = rng.random()
        if q < 0.3:
            key = rng.choice([x for x in ptf.SETTINGS if x not in ("name",)])
            return {"do": "popset", "k": key, "v": ptf.gen_value(rng, key)}
        if q < 0.6:
            key = rng.choice([x for x in ptf.SETTINGS if x not in ("name", "fitness_measures")])
            return {"do": "memberset", "i": rng.randrange(2), "k": key, "v": ptf.gen_value(rng, key)}
        return {"do": "append", "spec": ptf.gen_portfolio(rng, f"x{rng.randrange(100)}")}
    if k == "mpp":
        if rng.random() < 0.3:
            return {"do": "memberset", "i": 0, "k": "cvar_beta", "v": 0.8}
        p = ptf.gen_portfolio(rng, f"x{rng.randrange(100)}", frame=start["items"][0]["data"]["form"] == "frame")
        p["data"]["n_obs"] = 60
        p["rows"] = [45, 45 + rng.choice([8, 15])]
        return {"do": "append", "spec": p}
    return {"do": "bad", "k": "returns"}


def gen(rng, tier):
    family = "est" if rng.random() < 0.6 else "ptf"
    ds = catalog.gen_data(rng, n_obs=rng.choice([40, 48, 60]))
    env = catalog.env_of(ds)
    plan = {"family": family, "data": [], "start": []}
    if family == "est":
        plan["data"] = [ds, work.variant_data(rng, ds)]
        plan["data"][1]["form"] = ds["form"]
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.12:
                spec = catalog.gen_search(rng, env)
                spec["p"].setdefault("cv", 2)
                plan["start"].append({"kind": "search", "spec": spec})
                continue
            kind, spec = catalog.gen_any(rng, env)
            for e in catalog.walk(spec):
                e["p"].pop("n_jobs", None)
            plan["start"].append({"kind": kind, "spec": spec})
    else:
        for i in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.3:
                plan["start"].append({"@": "pop", "items": [ptf.gen_object(rng, f"o{i}{j}") for j in range(rng.choice([2, 3]))]})
            else:
                plan["start"].append(ptf.gen_object(rng, f"o{i}"))
    owner = list(range(len(plan["start"])))
    blobs = []
    ops = []
    fits = 0
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.5:
            h = rng.randrange(len(owner))
            do = _gen_do(rng, family, env, plan["start"][owner[h]], plan["data"])
            if do["do"] == "fit":
                fits += 1
                if fits > 4:
                    continue
            ops.append({"op": "do", "h": h, "what": do})
        elif r < 0.72:
            h = rng.randrange(len(owner))
            ops.append({"op": "send", "h": h, "how": rng.choice(HOW)})
            blobs.append(owner[h])
            if rng.random() < 0.4:
                ops.append({"op": "deliver", "b": len(blobs) - 1})
                owner.append(owner[h])
        elif r < 0.9 and blobs:
            b = rng.randrange(len(blobs))
            ops.append({"op": "deliver", "b": b})
            owner.append(blobs[b])
        else:
            ops.append({"op": "move", "how": rng.choice(["pickle", "cloudpickle"])})
    if not blobs:
        ops.append({"op": "send", "h": 0, "how": rng.choice(HOW)})
        ops.append({"op": "deliver", "b": 0})
        owner.append(owner[0])
    plan["ops"] = ops
    # the same last use for every object
    plan["last"] = {}
    for i, s in enumerate(plan["start"]):
        if family == "est":
            plan["last"][str(i)] = [{"do": "look"}, {"do": "use", "d": 0}]
        else:
            figs = [ptf.gen_figure(rng, "pop") for _ in range(4)] if s["@"] == "pop" else ["settings", "fitness", *rng.sample(ptf.all_figures(s["@"]), 8)]
            plan["last"][str(i)] = [{"do": "read", "f": figs}]
    plan["entropy"] = rng.randrange(1, 10**6)
    return plan


# ------------------------------------------------------------------- one object
def _make(plan, i):
    s = plan["start"][i]
    o = catalog.build(s["spec"]) if plan["family"] == "est" else ptf.build(s)
    return {"o": o, "start": i, "spec": s.get("spec"), "hist": [], "outs": []}


def _apply(plan, h, what, data):
    h["hist"].append(what)
    h["outs"].append(_do(plan, h, what, data))


def _value(k, v):
    return [ptf.measure(m) for m in v] if k == "fitness_measures" else v


def _do(plan, h, what, data):
    o, do = h["o"], what["do"]
    if plan["family"] == "est":
        kind = plan["start"][h["start"]]["kind"]
        if do == "fit":
            if kind == "search":
                return work.guarded(lambda: o.fit(data[what["d"]].X) and None)
            return work.guarded(lambda: catalog.fit(kind, h["spec"], o, data[what["d"]]) and None)
        if do == "params":
            new = catalog.build(what["spec"])
            h["spec"] = what["spec"]
            return work.guarded(lambda: o.set_params(**new.get_params(deep=False)) and None)
        if do == "query":
            return work.guarded(lambda: distops.run(kind, h["spec"], o, what["q"], data))
        if kind == "search":
            from dst import parcalls

            return work.guarded(lambda: parcalls.observe_search(o, data[what.get("d", 0)]))
        if do == "use":
            return work.guarded(lambda: catalog.observe(kind, h["spec"], o, data[what["d"]]))
        return work.guarded(lambda: catalog.observe(kind, h["spec"], o, data[0], light=True))
    if do == "read":
        return ["figs", [ptf.get(o, f) for f in what["f"]]]
    if do == "set":
        r = work.guarded(lambda: setattr(o, what["k"], _value(what["k"], what["v"])))
    elif do == "bad":
        r = work.guarded(lambda: setattr(o, what["k"], 1))
    elif do == "popset":
        r = work.guarded(lambda: o.set_portfolio_params(**{what["k"]: _value(what["k"], what["v"])}) and None)
    elif do == "memberset":
        r = work.guarded(lambda: setattr(o[what["i"]], what["k"], _value(what["k"], what["v"])))
    else:
        new = ptf.build(what["spec"])
        r = work.guarded(lambda: o.append(new))
    return r


def _dumps(o, how):
    if how == "cloudpickle":
        import cloudpickle

        return cloudpickle.dumps(o)
    if how == "joblib":
        import joblib

        f = io.BytesIO()
        joblib.dump(o, f)
        return f.getvalue()
    if how == "pickle2":
        return pickle.dumps(o, protocol=2)
    return pickle.dumps(o, protocol=5)


def _loads(b, how):
    if how == "joblib":
        import joblib

        return joblib.load(io.BytesIO(b))
    return pickle.loads(b)


def _segment(plan, at, state):
    """Run operations from ``at`` up to the next change of process."""
    simrun.pin_entropy(plan["entropy"] + at)
    data = [catalog.Data(d) for d in plan["data"]]
    log = []
    kept = []
    if state is None:
        holders = [_make(plan, i) for i in range(len(plan["start"]))]
        blobs = []
    else:
        holders = pickle.loads(state["holders"])
        objs = pickle.loads(state["objs"])
        for h, o in zip(holders, objs, strict=True):
            h["o"] = o
        blobs = state["blobs"]
    for n in range(at, len(plan["ops"])):
        op = plan["ops"][n]
        if op["op"] == "do":
            if op["h"] < len(holders):
                h = holders[op["h"]]
                _apply(plan, h, op["what"], data)
                out = h["outs"][-1]
                log.append(["do", op["h"], op["what"]["do"], out[0] if out[0] in ("ok", "figs") else out[1]])
        elif op["op"] == "send":
            if op["h"] < len(holders):
                h = holders[op["h"]]
                meta = {k: copy.deepcopy(h[k]) for k in ("start", "spec", "hist", "outs")}
                how = op["how"]
                try:
                    if how == "deepcopy":
                        blob = copy.deepcopy(h["o"])
                        kept.append(len(blobs))
                    elif how == "pickle+deepcopy":
                        blob = _dumps(copy.deepcopy(h["o"]), "pickle")
                    else:
                        blob = _dumps(h["o"], how)
                except Exception as e:  # noqa: BLE001
                    return {"error": ["send", n, type(e).__name__, str(e)[:300], h["hist"]], "log": log}
                blobs.append([meta, how, blob])
                log.append(["send", op["h"], how])
        elif op["op"] == "deliver":
            if op["b"] < len(blobs):
                meta, how, blob = blobs[op["b"]]
                try:
                    o = copy.deepcopy(blob) if how == "deepcopy" else _loads(blob, how)
                except Exception as e:  # noqa: BLE001
                    return {"error": ["deliver", n, type(e).__name__, str(e)[:300], meta["hist"]], "log": log}
                holders.append({**copy.deepcopy(meta), "o": o})
                log.append(["deliver", op["b"]])
        else:
            # every object and message moves to a new process
            try:
                objs = _dumps([h["o"] for h in holders], op["how"])
                bl = [[m, how, b] if how != "deepcopy" else [m, "pickle", _dumps(b, "pickle")] for m, how, b in blobs]
            except Exception as e:  # noqa: BLE001
                return {"error": ["send", n, type(e).__name__, str(e)[:300], [h["hist"] for h in holders]], "log": log}
            meta = pickle.dumps([{k: v for k, v in h.items() if k != "o"} for h in holders])
            log.append(["move"])
            return {"next": n + 1, "state": {"holders": meta, "objs": objs, "blobs": bl}, "log": log}
    for h in holders:
        for what in plan["last"][str(h["start"])]:
            _apply(plan, h, what, data)
    return {"done": [{k: v for k, v in h.items() if k != "o"} for h in holders], "log": log}


def _alone(plan, start, hist):
    """The same operations on an object that never travelled."""
    simrun.pin_entropy(41)
    data = [catalog.Data(d) for d in plan["data"]]
    h = _make(plan, start)
    for what in hist:
        _apply(plan, h, what, data)
    return h["outs"]


def execute(plan, ctx):
    at, state, log = 0, None, []
    while True:
        out = ctx.fork(_segment, plan, at, state)
        log += out["log"]
        if "error" in out:
            kind, n, exc, msg, hist = out["error"]
            ctx.record(log)
            what = "serialised" if kind == "send" else "restored"
            raise Violation("not-transferable", f"could not be {what} at step {n}: {exc}: {msg}; history {json.dumps(hist)[:400]} of "
                            f"{json.dumps(plan['start'])[:300]}")
        if "done" in out:
            break
        at, state = out["next"], out["state"]
    ctx.record(json.dumps(plan["start"]), log)
    ctx.notes = log
    for e in log:
        ctx.count("op:" + e[0] + (":" + e[2] if e[0] in ("do", "send") else ""))
    delivered = [e[1] for e in log if e[0] == "deliver"]
    sent = sum(e[0] == "send" for e in log)
    for _ in range(len(delivered) - len(set(delivered))):
        ctx.fault("message delivered again")
    for _ in range(sent - len(set(delivered))):
        ctx.fault("message lost")
    for b in set(delivered):
        k = [i for i, e in enumerate(log) if e[0] == "send"][b]
        d = next(i for i, e in enumerate(log) if e[0] == "deliver" and e[1] == b)
        if any(e[0] == "do" for e in log[k:d]):
            ctx.fault("message delayed past later operations")
        if any(e[0] == "move" for e in log[k:d]):
            ctx.fault("message delivered in another process")
    ctx.nontrivial = bool(delivered) or any(e[0] == "move" for e in log)
    ctx.count("family:" + plan["family"])
    refs = {}
    for h in out["done"]:
        key = json.dumps([h["start"], h["hist"]])
        if key not in refs:
            refs[key] = ctx.fork(_alone, plan, h["start"], h["hist"])
        for n, (what, a, b) in enumerate(zip(h["hist"], h["outs"], refs[key], strict=True)):
            ctx.comparisons += 1
            d = None
            if a[0] == "figs":
                for f, x, y in zip(what["f"], a[1], b[1], strict=True):
                    d = ptf.same(x, y, f)
                    if d:
                        d = f"{f}: {d}"
                        break
            elif plan["start"][h["start"]].get("kind") == "search" and a[0] == b[0] == "ok":
                from dst import parcalls

                d = parcalls.compare(a, b, h["spec"])
            else:
                d = work.compare(a, b, h["spec"])
            if d:
                raise Violation("transfer-changed-behaviour", f"{json.dumps(plan['start'][h['start']])[:300]} after "
                                f"{json.dumps(h['hist'][:n + 1])[:400]} (with transfers {json.dumps(log)[:400]}): {d}")
