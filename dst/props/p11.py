"""Portfolio figures always match the portfolio's current settings."""

import copy
import json
import pickle

import numpy as np

from dst import monitor, ptf, simrun, work
from dst.runner import Violation

ID = "P11"
RUNS = {"quick": 2500, "thorough": 25000}
LEVEL = "fault_enumeration"
RULE = ("a case is one history of reads, setting changes, rejected operations, interrupted reads, copies and population-wide "
        "changes over 1-3 portfolios; two cases are the same if operations, outcomes and interrupt sites are the same; "
        "non-trivial if a figure was read after a change, a rejection, an interrupt or a copy")
REAL = ["skfolio portfolios, populations and measures", "numpy", "scipy", "pandas"]
STUB = ["interrupts (raised at a source line of a read)", "OS entropy"]
ASSUMPTIONS = ["only reads are interrupted at source lines, not the assignments themselves",
               "an ordinary exception inside a measure is documented to give NaN with a warning, so reads are interrupted "
               "by KeyboardInterrupt only"]
SHRINK = ("ops", "final")

READONLY = ["returns", "observations", "cumulative_returns", "drawdowns", "fitness", "n_observations", "composition"]
READONLY_PTF = ["weights", "assets", "X", "previous_weights", "transaction_costs", "management_fees", "n_assets",
                "nonzero_assets", "total_cost"]
BADFIT = ["empty", "tuple", "string", "mixed", "none"]


def gen(rng, tier):
    objs = [ptf.gen_object(rng, f"o{i}") for i in range(rng.choice([1, 2, 3]))]
    ops = []
    n = len(objs)
    kinds = [o["@"] for o in objs]
    for i in range(n):
        r = rng.random()
        if r < 0.4:
            ops.append({"op": "warm", "o": i})
        elif r < 0.7:
            ops.append({"op": "read", "o": i, "f": ["fitness", *[ptf.gen_figure(rng, kinds[i]) for _ in range(3)]]})
    for _ in range(rng.randint(2, 9)):
        i = rng.randrange(n)
        r = rng.random()
        if r < 0.1:
            ops.append({"op": "warm", "o": i})
        elif r < 0.3:
            ops.append({"op": "read", "o": i, "f": [ptf.gen_figure(rng, kinds[i]) for _ in range(rng.choice([1, 2, 4]))]})
        elif r < 0.4:
            ops.append({"op": "interrupt", "o": i, "f": [ptf.gen_figure(rng, kinds[i]) for _ in range(rng.choice([1, 2]))],
                        "frac": round(rng.random(), 5)})
        elif r < 0.65:
            k = rng.choice(list(ptf.SETTINGS))
            ops.append({"op": "set", "o": i, "k": k, "v": ptf.gen_value(rng, k)})
        elif r < 0.7:
            k, v = rng.choice(ptf.ODD)
            ops.append({"op": "set", "o": i, "k": k, "v": v})
        elif r < 0.8:
            q = rng.random()
            if q < 0.4:
                ops.append({"op": "bad", "o": i, "k": rng.choice(READONLY + (READONLY_PTF if kinds[i] == "ptf" else []))})
            elif q < 0.8:
                ops.append({"op": "badfit", "o": i, "v": rng.choice(BADFIT)})
            else:
                ops.append({"op": "bad", "o": i, "k": rng.choice(["foo", "bar_"])})
        elif r < 0.84:
            if n < 5:
                ops.append({"op": "derive", "o": i, "how": rng.choice(["neg", "mul", "div", "abs", "round", "add", "sub"])})
                kinds.append(kinds[i])
                n += 1
        elif r < 0.89:
            if n < 5:
                ops.append({"op": "copy", "o": i, "how": rng.choice(["copy", "copy", "copy.copy", "deepcopy", "pickle"])})
                kinds.append(kinds[i])
                n += 1
        elif r < 0.97:
            params = {}
            for k in rng.sample([k for k in ptf.SETTINGS if k != "name"], rng.choice([1, 2, 3])):
                params[k] = ptf.gen_value(rng, k)
            op = {"op": "pop", "params": params, "members": rng.sample(range(n), rng.randint(1, n))}
            q = rng.random()
            if q < 0.4:
                op["bad"] = rng.choice(["readonly", "unknown", "fitness"])
            ops.append(op)
        elif r < 0.98:
            k = rng.choice([k for k in ptf.SETTINGS if k != "fitness_measures"])
            ops.append({"op": "member", "o": i, "j": rng.randrange(3), "k": k, "v": ptf.gen_value(rng, k)})
        else:
            ops.append({"op": "popread", "members": sorted(rng.sample(range(n), rng.randint(1, n))),
                        "f": [ptf.gen_figure(rng, "pop") for _ in range(2)]})
    final = []
    for i in range(n):
        figs = ptf.all_figures(kinds[i])
        figs = figs if rng.random() < 0.3 else ["fitness", "settings", *rng.sample(figs, 8)]
        final += [[i, f] for f in figs]
    return {"objs": objs, "ops": ops, "final": final, "entropy": rng.randrange(1, 10**6)}


def _badfit(v):
    from skfolio.measures import PerfMeasure

    return {"empty": [], "tuple": (PerfMeasure.MEAN,), "string": ["mean"], "mixed": [PerfMeasure.MEAN, 3], "none": None}[v]


def _value(k, v):
    return [ptf.measure(m) for m in v] if k == "fitness_measures" else v


def _derive(o, spec, how):
    """``o`` after an arithmetic operation, and its description."""
    f = {"neg": lambda o: -o, "mul": lambda o: 0.5 * o, "div": lambda o: o / 4, "abs": abs, "round": lambda o: round(o, 2),
         "add": lambda o: o + o, "sub": lambda o: o - 0.25 * o if spec["@"] == "ptf" else o - o}[how]
    g = {"neg": lambda w: -w, "mul": lambda w: 0.5 * w, "div": lambda w: w / 4, "abs": abs,
         "round": lambda w: float(np.round(w, 2)), "add": lambda w: w + w,
         "sub": lambda w: w - 0.25 * w if spec["@"] == "ptf" else w - w}[how]
    for p in spec["items"] if spec["@"] == "mpp" else [spec]:
        p["w"] = [g(w) for w in p["w"]]
    return f(o), spec


def _history(plan):
    """[(step, model, figure, value)] and the log."""
    import skfolio

    simrun.pin_entropy(plan["entropy"])
    objs = [ptf.build(s) for s in plan["objs"]]
    model = copy.deepcopy(plan["objs"])
    log, seen = [], []

    def look(i, figures):
        for f in figures:
            seen.append([len(log), copy.deepcopy(model[i]), f, ptf.get(objs[i], f)])

    def settings(i):
        look(i, ["settings"])

    for op in plan["ops"]:
        i = op.get("o", 0)
        if i >= len(objs) or any(m >= len(objs) for m in op.get("members", [])):
            log.append(["skip"])
            continue
        if op["op"] == "warm":
            for f in ptf.all_figures(model[i]["@"]):
                ptf.get(objs[i], f)
            log.append(["warm", i])
        elif op["op"] == "read":
            look(i, op["f"])
            log.append(["read", i])
        elif op["op"] == "interrupt":
            probe = monitor.LineContext()
            other = ptf.build(model[i])

            def reads(o, op=op):
                for f in op["f"]:
                    ptf._figure(o, f)

            work.guarded(lambda: reads(other), probe)
            ctx = monitor.LineContext(at=1 + int(op["frac"] * max(probe.lines, 1)), exc="interrupt")
            r = work.guarded(lambda: reads(objs[i]), ctx)
            log.append(["interrupt", i, r[0] if r[0] == "ok" else r[1], ctx.fired])
        elif op["op"] == "set":
            r = work.guarded(lambda: setattr(objs[i], op["k"], _value(op["k"], op["v"])))
            if r[0] == "ok":
                model[i]["s"][op["k"]] = op["v"]
            log.append(["set", i, op["k"], r[0]])
        elif op["op"] in ("bad", "badfit"):
            k = op.get("k", "fitness_measures")
            r = work.guarded(lambda: setattr(objs[i], k, 1 if op["op"] == "bad" else _badfit(op["v"])))
            log.append([op["op"], i, k, r[0]])
            settings(i)
        elif op["op"] == "copy":
            o = objs[i]
            new = {"copy": lambda o=o: o.copy(), "copy.copy": lambda o=o: copy.copy(o),
                   "deepcopy": lambda o=o: copy.deepcopy(o),
                   "pickle": lambda o=o: pickle.loads(pickle.dumps(o))}[op["how"]]()
            objs.append(new)
            model.append(copy.deepcopy(model[i]))
            log.append(["copy", i, op["how"]])
        elif op["op"] == "derive":
            new, spec = _derive(objs[i], copy.deepcopy(model[i]), op["how"])
            if spec["@"] == "mpp":
                # keeps the tag and the fitness measures only
                new.name = "derived"
                spec["s"] = {k: v for k, v in spec["s"].items() if k in ("tag", "fitness_measures")} | {"name": "derived"}
            objs.append(new)
            model.append(spec)
            log.append(["derive", i, op["how"]])
        elif op["op"] == "member":
            # components are shared by copies
            if model[i]["@"] != "mpp" or op["j"] >= len(model[i]["items"]) or any(e[0] == "copy" for e in log):
                log.append(["skip"])
                continue
            setattr(objs[i].portfolios[op["j"]], op["k"], op["v"])
            model[i]["items"][op["j"]]["s"][op["k"]] = op["v"]
            log.append(["member", i, op["k"]])
            look(i, ["composition", "contribution:RiskMeasure.CVAR:0"])
        elif op["op"] == "pop":
            members = op["members"]
            params = {k: _value(k, v) for k, v in op["params"].items()}
            bad = op.get("bad")
            if bad == "readonly":
                params["returns"] = [1.0]
            elif bad == "unknown":
                params["foo"] = 1
            elif bad == "fitness":
                params.pop("fitness_measures", None)
                params["fitness_measures"] = []
            p = skfolio.Population([objs[m] for m in members])
            r = work.guarded(lambda p=p, params=params: p.set_portfolio_params(**params))
            if r[0] == "ok":
                for m in members:
                    model[m]["s"].update({k: v for k, v in op["params"].items()})
            log.append(["pop", members, sorted(op["params"]), bad, r[0]])
            for m in members:
                settings(m)
        elif op["op"] == "popread":
            p = skfolio.Population([objs[m] for m in op["members"]])
            spec = {"@": "pop", "items": [copy.deepcopy(model[m]) for m in op["members"]]}
            for f in op["f"]:
                seen.append([len(log), spec, f, ptf.get(p, f)])
            log.append(["popread", op["members"]])
    for i, f in plan["final"]:
        if i < len(objs):
            look(i, [f])
    return log, seen


def execute(plan, ctx):
    log, seen = ctx.fork(_history, plan)
    refs = ctx.fork(ptf.fresh, [(s, f) for _, s, f, _ in seen])
    ctx.record(log)
    ctx.notes = log
    for e in log:
        ctx.count("op:" + e[0])
        if e[0] == "interrupt" and e[3]:
            ctx.fault("interrupted read")
            ctx.sites.add(e[3])
        elif e[0] in ("bad", "badfit") and e[3] == "exc":
            ctx.fault("rejected assignment")
        elif e[0] == "pop" and e[4] == "exc":
            ctx.fault("rejected population-wide change")
    ctx.nontrivial = any(e[0] not in ("read", "warm", "popread", "skip") for e in log)
    for (step, spec, f, v), ref in zip(seen, refs, strict=True):
        if f == "pop:fronts" and any(e[0] == "copy" for e in log):
            # a portfolio and its copy tie: rounding decides
            continue
        ctx.comparisons += 1
        d = ptf.same(v, ref, f)
        if d:
            raise Violation("stale-figure", f"{f} read after step {step} of {json.dumps(log)[:600]} differs from a new "
                            f"{'population' if spec['@'] == 'pop' else 'portfolio'} with settings "
                            f"{json.dumps(spec.get('s'))[:300]}: {d}")
