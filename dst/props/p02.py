"""Concurrent dataset fetches never corrupt or cross-contaminate each other."""

from dst import datasim, simio
from dst.runner import Violation
from dst.sched import Deadlock, Scheduler, gen_switches

ID = "P02"
RUNS = {"quick": 3000, "thorough": 60000}
LEVEL = "exploration"
RULE = ("a case is one interleaving of 2-4 client processes fetching from or clearing one data folder; two cases are "
        "the same if client programs, faults, context switches and outcomes are the same; non-trivial if at least one "
        "context switch happened inside an operation or a client was killed")
REAL = datasim.REAL
STUB = [*datasim.STUB, "operating-system scheduling of the client processes"]
ASSUMPTIONS = ["clients are threads of one simulated process with separate identities; preemption at file and network "
               "operations and at skfolio source lines", "crash model: process death, not power loss"]
SHRINK = ("clients", "ops", "disk", "switches")
setup = datasim.setup


def gen(rng, tier):
    clearing = rng.random() < 0.3
    one = rng.random() < 0.6
    ds0 = rng.choice(list(datasim.NAMES))
    clients = []
    for i in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            if clearing and (i == 0 or rng.random() < 0.2):
                ops.append({"op": "clear"})
            else:
                ops.append({"op": "fetch", "ds": ds0 if one else rng.choice(list(datasim.NAMES)),
                            "allow": rng.random() < 0.9})
        c = {"ops": ops, "disk": []}
        if rng.random() < 0.35:
            f = datasim.gen_disk(rng, 50)
            f["kind"] = rng.choice(["kill", "kill", "kill", "enospc", "eio"])
            c["disk"] = [f]
        clients.append(c)
    return {"clients": clients, "switches": gen_switches(rng, horizon=90), "folder": rng.choice(["a", "b", "default"]),
            "warm": [ds0] if rng.random() < 0.2 else [], "length": rng.random() < 0.8, "entropy": rng.randrange(10**6)}


def valid(plan):
    return bool(plan["clients"])


def _run(plan, root):
    datasim.world(root, plan["entropy"])
    sched = Scheduler(plan["switches"])
    hist = []
    clients = []

    def program(i, spec):
        c = simio.Client(f"c{i}", root, simio.Network(datasim.FILES, length_header=plan["length"]),
                         faults=spec["disk"], pid=7000 + i)
        clients.append(c)

        def main():
            for op in spec["ops"]:
                if c.dead:
                    break
                n = len(c.fired)
                t0 = sched.steps
                if op["op"] == "clear":
                    out = datasim.clear(c, root, plan["folder"])
                else:
                    out = datasim.fetch(c, root, op["ds"], plan["folder"], allow=op["allow"])
                hist.append({"c": i, "op": op, "out": out, "t0": t0, "t1": sched.steps, "fired": c.fired[n:]})

        return main

    for i, spec in enumerate(plan["clients"]):
        sched.spawn(program(i, spec), f"c{i}")
    try:
        sched.run()
    except Deadlock as e:
        hist.append({"deadlock": str(e)})
    errs = [repr(t.error) for t in sched.threads if t.error is not None]
    return {"hist": hist, "errs": errs, "sched": {**sched.info(),
                                                  "digest": sched.digest()},
            "fired": [c.fired for c in clients], "trace": sched.trace[:60]}


def _fetch(plan, root, ds, i):
    datasim.world(root, plan["entropy"] + 1 + i)
    c = simio.Client("after", root, simio.Network(datasim.FILES), pid=8000 + i)
    return datasim.fetch(c, root, ds, plan["folder"])


def execute(plan, ctx):
    with simio.Scratch() as root:
        for i, ds in enumerate(plan["warm"]):
            ctx.fork(_fetch, plan, root, ds, 50 + i)
        r = ctx.fork(_run, plan, root)
        ctx.sched(r["sched"])
        for c in plan["clients"]:
            for f in c["disk"]:
                ctx.fault_planned(f["kind"])
        for fired in r["fired"]:
            for f in fired:
                ctx.fault(f)
        hist = r["hist"]
        short = [[h.get("c"), h.get("op"), h["out"][:4] if "out" in h else h, h.get("t0"), h.get("t1"),
                  h.get("fired")] for h in hist]
        ctx.notes = [short, r["trace"]]
        ctx.record([[s[0], str(s[1]), s[2][0] if isinstance(s[2], list) else "", s[5]] for s in short])
        if r["errs"]:
            raise RuntimeError(f"harness: {r['errs']}")
        clears = [h for h in hist if "op" in h and h["op"]["op"] == "clear"]
        for h in hist:
            if "deadlock" in h:
                raise Violation("deadlock", h["deadlock"])
            out = h["out"]
            ctx.count("op:" + h["op"]["op"] + ":" + out[0])
            ctx.comparisons += 1
            if out[0] == "escape":
                raise Violation("escape", f"changed a path outside the data folder: {out[1]}")
            if h["op"]["op"] == "clear":
                if out[0] == "exc" and not out[2]:
                    raise Violation("clear-failed", f"clearing failed with {out}; history {short}")
                continue
            if out[0] == "ok":
                if out[1]:
                    raise Violation("wrong-data", f"client {h['c']} got wrong data for {h['op']['ds']}: {out[1]}; "
                                    f"history {short}")
                continue
            if out[0] == "killed" or h["fired"]:
                continue
            overlaps = any(k["t0"] <= h["t1"] and h["t0"] <= k["t1"] for k in clears)
            if out[2] and (overlaps or not h["op"]["allow"]):
                continue
            raise Violation("fetch-failed", f"client {h['c']} hit by no fault failed fetching {h['op']['ds']}: "
                            f"{out[1]}: {out[3]} {out[4]}; history {short}")
        keys = sorted({o["ds"] for c in plan["clients"] for o in c["ops"] if o["op"] == "fetch"})
        for i, k in enumerate(keys):
            out = ctx.fork(_fetch, plan, root, k, i)
            ctx.comparisons += 1
            if out[0] != "ok" or out[1]:
                raise Violation("later-fetch", f"after all clients ended, fetching {k} gave {out}; history {short}")
