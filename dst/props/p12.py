"""A multi-period portfolio always equals the sequence of its components."""

import contextlib
import copy
import json
import pickle

import numpy as np

from dst import monitor, ptf, simrun, work
from dst.runner import Violation

ID = "P12"
RUNS = {"quick": 3000, "thorough": 30000}
LEVEL = "fault_enumeration"
RULE = ("a case is one history of structural operations on multi-period portfolios, their copies and the lists they were "
        "built from; two cases are the same if operations and outcomes are the same; non-trivial if at least one structural "
        "operation, failed operation or copy precedes a compared read")
REAL = ["skfolio portfolios and measures", "numpy", "scipy", "pandas"]
STUB = ["allocation failure in array concatenation", "components whose data cannot be read", "interrupts (raised at a source "
        "line of a read)", "OS entropy"]
ASSUMPTIONS = ["structural operations fail by rejected arguments, unreadable components and allocation failures; they are not "
               "interrupted between two assignments"]
SHRINK = ("ops", "final")

BAD = ["none", "string", "int", "list", "dtype", "unreadable"]


def gen(rng, tier):
    frame = rng.random() < 0.8
    pool = []
    for i in range(6):
        p = ptf.gen_portfolio(rng, f"c{i}", frame=frame, n_assets=rng.choice([2, 3]))
        p["data"]["n_obs"] = 90
        a = 15 * i - rng.choice([0, 0, 0, 5]) if i else 0
        p["rows"] = [a, 15 * i + rng.choice([10, 15])]
        p["data"]["prefix"] = rng.choice(["A", "A", "B"])
        pool.append(p)
    for i in rng.sample(range(6), 2):
        # much like another component, yet not the same
        q = copy.deepcopy(pool[i])
        q["s"]["name"] = f"c{len(pool)}"
        r = rng.random()
        if r < 0.3:
            q["flip"] = True
        elif r < 0.5:
            q["s"]["cvar_beta"] = 0.85
        elif r < 0.7:
            q["data"]["prefix"] = "C"
        pool.append(q)
    ordered = rng.random() < 0.5
    start = [[i for i in range(rng.choice([0, 1, 2, 3]))]]
    if rng.random() < 0.3:
        start.append(rng.sample(range(8), rng.choice([1, 2])))
    n = len(start)
    ops = []
    for _ in range(rng.randint(2, 9)):
        i = rng.randrange(n)
        r = rng.random()
        c = rng.randrange(8)
        fault = None
        if rng.random() < 0.12:
            fault = {"alloc": rng.choice([0, 0, 1])}
        if r < 0.22:
            op = {"op": "append", "o": i, "c": c, "fault": fault}
        elif r < 0.32:
            op = {"op": "append", "o": i, "bad": rng.choice(BAD)}
        elif r < 0.42:
            op = {"op": "set", "o": i, "k": rng.choice([0, 0, 1, -1, 7, "slice"]), "c": c, "fault": fault,
                  "twin": rng.random() < 0.4}
        elif r < 0.48:
            op = {"op": "set", "o": i, "k": 0, "bad": rng.choice(BAD)}
        elif r < 0.54:
            op = {"op": "del", "o": i, "k": rng.choice([0, 0, -1, 1, 9]), "fault": fault}
        elif r < 0.62:
            op = {"op": "replace", "o": i, "cs": rng.sample(range(8), rng.choice([0, 1, 2, 3])), "fault": fault}
        elif r < 0.67:
            op = {"op": "replace", "o": i, "cs": rng.sample(range(8), 2), "bad": rng.choice(BAD)}
        elif r < 0.77 and n < 5:
            op = {"op": "copy", "o": i, "how": rng.choice(["copy", "copy", "copy.copy", "deepcopy", "pickle", "list"])}
            n += 1
        elif r < 0.84:
            op = {"op": "mutate_list", "o": i, "how": rng.choice(["append", "clear", "pop", "reverse"]), "c": c}
        elif r < 0.9:
            op = {"op": "interrupt", "o": i, "f": [ptf.gen_figure(rng, "mpp")], "frac": round(rng.random(), 5)}
        elif r < 0.94:
            k = rng.choice(["compounded", "risk_free_rate", "cvar_beta", "annualized_factor"])
            op = {"op": "setting", "o": i, "k": k, "v": ptf.gen_value(rng, k)}
        else:
            op = {"op": "warm", "o": i}
        ops.append(op)
        if rng.random() < 0.4:
            ops.append({"op": "read", "o": rng.randrange(n), "f": [ptf.gen_figure(rng, "mpp") for _ in range(2)]})
    final = []
    for i in range(n):
        final += [[i, f] for f in ["len", "names", "returns", "observations", "composition", "settings", "fitness"]]
        final += [[i, f] for f in rng.sample(ptf.all_figures("mpp"), 7)]
    return {"pool": pool, "start": start, "ordered": ordered, "settings": ptf.gen_settings(rng, "m"),
            "ops": ops, "final": final, "entropy": rng.randrange(1, 10**6)}


class _Alloc:
    """The n-th array concatenation from now on runs out of memory."""

    def __init__(self, fault):
        self.left = fault["alloc"] if fault else None
        self.fired = False

    @contextlib.contextmanager
    def active(self):
        if self.left is None:
            yield self
            return
        real = np.concatenate

        def concatenate(*a, **k):
            if self.left == 0 and not self.fired:
                self.fired = True
                raise MemoryError("simulated allocation failure")
            self.left -= 1
            return real(*a, **k)

        np.concatenate = concatenate
        try:
            yield self
        finally:
            np.concatenate = real


def _bad(kind, pool, frame):
    from skfolio.portfolio import Portfolio

    if kind == "none":
        return None
    if kind == "string":
        return "portfolio"
    if kind == "int":
        return 3
    if kind == "list":
        return [1, 2]
    if kind == "dtype":
        # dates and integers cannot be put in one sequence
        spec = copy.deepcopy(pool[5])
        spec["data"]["form"] = "array" if frame else "frame"
        spec.pop("wform", None)
        return ptf.build(spec)

    class Unreadable(Portfolio):
        """Its returns cannot be read."""

        __slots__ = {"broken"}

        def __getattribute__(self, name):
            if name == "returns" and object.__getattribute__(self, "broken"):
                raise OSError("simulated: returns cannot be read")
            return super().__getattribute__(name)

    spec = pool[5]
    Unreadable.broken.__set__(u := Unreadable.__new__(Unreadable), False)
    good = ptf.build(spec)
    u.__init__(X=good.X, weights=good.weights)
    object.__setattr__(u, "broken", True)
    return u


def _twin(pool, c):
    same = [k for k, p in enumerate(pool) if k != c and p["data"]["seed"] == pool[c]["data"]["seed"]]
    return same[0] if same else (c + 1) % len(pool)


def _history(plan):
    from skfolio.portfolio import MultiPeriodPortfolio

    simrun.pin_entropy(plan["entropy"])
    pool = plan["pool"]
    frame = pool[0]["data"]["form"] == "frame"
    real = [ptf.build(p) for p in pool]
    objs, model, lists, log, seen = [], [], [], [], []

    def item(i):
        return {"@": "mpp", "items": [pool[c] for c in model[i]["cs"]], "s": dict(model[i]["s"])}

    def look(i, figures):
        for f in figures:
            seen.append([len(log), item(i), f, ptf.get(objs[i], f)])

    for cs in plan["start"]:
        lst = [real[c] for c in cs]
        args = ptf._settings(plan["settings"])
        r = work.guarded(lambda lst=lst, args=args: MultiPeriodPortfolio(lst, **args,
                                                                         check_observations_order=plan["ordered"]))
        if r[0] != "ok":
            lst, cs = [], []
            r = ["ok", MultiPeriodPortfolio(lst, **args, check_observations_order=plan["ordered"])]
        objs.append(r[1])
        model.append({"cs": list(cs), "s": dict(plan["settings"])})
        lists.append(lst)
    for op in plan["ops"]:
        i = op["o"]
        if i >= len(objs):
            log.append(["skip"])
            continue
        o, kind = objs[i], op["op"]
        al = _Alloc(op.get("fault"))
        bad = op.get("bad")
        if op.get("twin") and isinstance(op["k"], int) and -1 <= op["k"] < len(model[i]["cs"]) and model[i]["cs"]:
            # replaced by the component most like it
            op = {**op, "c": _twin(pool, model[i]["cs"][op["k"]])}
        x = _bad(bad, pool, frame) if bad else real[op["c"]] if "c" in op else None
        if kind == "read":
            look(i, op["f"])
            log.append(["read", i])
        elif kind == "warm":
            for f in ptf.all_figures("mpp"):
                ptf.get(o, f)
            log.append(["warm", i])
        elif kind == "interrupt":
            probe = monitor.LineContext()
            try:
                other = ptf.build(item(i))
            except Exception:  # noqa: BLE001
                log.append(["skip"])
                continue
            work.guarded(lambda: ptf._figure(other, op["f"][0]), probe)
            ctx = monitor.LineContext(at=1 + int(op["frac"] * max(probe.lines, 1)), exc="interrupt")
            r = work.guarded(lambda: ptf._figure(o, op["f"][0]), ctx)
            log.append(["interrupt", i, r[0] if r[0] == "ok" else r[1], ctx.fired])
        elif kind == "setting":
            setattr(o, op["k"], op["v"])
            model[i]["s"][op["k"]] = op["v"]
            log.append(["setting", i, op["k"]])
        elif kind == "copy":
            if op["how"] == "list":
                # built from the list another one exposes
                args = ptf._settings(model[i]["s"])
                lst = o.portfolios
                new = MultiPeriodPortfolio(lst, **args)
            else:
                lst = []
                new = {"copy": lambda: o.copy(), "copy.copy": lambda: copy.copy(o),
                       "deepcopy": lambda: copy.deepcopy(o), "pickle": lambda: pickle.loads(pickle.dumps(o))}[op["how"]]()
            objs.append(new)
            model.append(copy.deepcopy(model[i]))
            lists.append([] if op["how"] == "list" else lst)
            log.append(["copy", i, op["how"]])
        elif kind == "mutate_list":
            lst = lists[i]
            if op["how"] == "append":
                lst.append(x)
            elif op["how"] == "clear":
                lst.clear()
            elif op["how"] == "pop" and lst:
                lst.pop()
            else:
                lst.reverse()
            log.append(["mutate_list", i, op["how"]])
            look(i, ["len", "names", "returns"])
        else:
            cs = list(model[i]["cs"])
            lst = None
            if kind == "append":
                fn = lambda o=o, x=x: o.append(x)  # noqa: E731
                if not bad:
                    cs.append(op["c"])
            elif kind == "set":
                key = slice(0, 1) if op["k"] == "slice" else op["k"]
                fn = lambda o=o, x=x, key=key: o.__setitem__(key, x)  # noqa: E731
                with contextlib.suppress(IndexError, TypeError):
                    cs[key] = op.get("c")
            elif kind == "del":
                fn = lambda o=o, op=op: o.__delitem__(op["k"])  # noqa: E731
                with contextlib.suppress(IndexError):
                    del cs[op["k"]]
            else:
                lst = [real[c] for c in op["cs"]] + ([x] if bad else [])
                fn = lambda o=o, lst=lst: setattr(o, "portfolios", lst)  # noqa: E731
                cs = list(op["cs"])
            with al.active():
                r = work.guarded(fn)
            log.append([kind, i, bad or op.get("c", op.get("cs")), r[0] if r[0] == "ok" else r[1],
                        "alloc" if al.fired else None])
            if r[0] == "ok":
                if bad and bad != "dtype" or None in cs:
                    log[-1].append("accepted")
                    break
                if bad == "dtype":
                    # legal for an empty sequence only: continue without it
                    log[-1].append("mixed")
                    break
                model[i]["cs"] = cs
                if lst is not None:
                    lists[i] = lst
            look(i, ["len", "names", "returns"])
            # a failed operation must leave the object usable and its attributes protected
            if r[0] != "ok":
                p = work.guarded(lambda o=o: setattr(o, "returns", np.zeros(3)))
                seen.append([len(log), None, "assigning the returns", ["ok", p[0]]])
    for i, f in plan["final"]:
        if i < len(objs) and not (log and log[-1][-1] in ("accepted", "mixed")):
            look(i, [f])
    return log, seen


def execute(plan, ctx):
    log, seen = ctx.fork(_history, plan)
    refs = ctx.fork(_fresh, seen)
    ctx.record(log)
    ctx.notes = log
    for e in log:
        ctx.count("op:" + e[0])
        if e[0] == "interrupt" and e[3]:
            ctx.fault("interrupted read")
            ctx.sites.add(e[3])
        elif e[0] in ("append", "set", "del", "replace") and e[3] != "ok":
            ctx.fault("allocation failure" if e[4] else "rejected:" + e[0])
    ctx.nontrivial = any(e[0] not in ("read", "warm", "skip") for e in log)
    for (step, spec, f, v), ref in zip(seen, refs, strict=True):
        ctx.comparisons += 1
        d = ptf.same(v, ref, f)
        if d:
            raise Violation("components-mismatch", f"{f} after step {step} of {json.dumps(log)[:600]} differs from a new "
                            f"multi-period portfolio of the components {[p['s']['name'] for p in spec['items']] if spec else ''}"
                            f": {d}")


def _fresh(seen):
    vals = iter(ptf.fresh([(s, f) for _, s, f, _ in seen if s is not None]))
    return [["ok", "exc"] if s is None else next(vals) for _, s, f, _ in seen]
