"""Concurrent readers of portfolios see the same figures as a lone reader."""

import json
import warnings

from dst import ptf, simrun
from dst.runner import Violation
from dst.sched import Scheduler, gen_switches

ID = "P13"
RUNS = {"quick": 3000, "thorough": 40000}
LEVEL = "exploration"
RULE = ("a case is one interleaving of 2-4 reader threads on a shared object, one of them possibly interrupted; two cases are the same if object, reads and "
        "context switches are the same; non-trivial if at least one context switch happened inside a read")
REAL = ["skfolio portfolios, populations and measures", "numpy", "scipy", "pandas"]
STUB = ["thread scheduling", "interrupt of one reader (raised at a source line)", "OS entropy"]
ASSUMPTIONS = ["preemption points are executed skfolio source lines"]
SHRINK = ("switches", "r0", "r1", "r2", "r3", "warm")


def gen(rng, tier):
    r = rng.random()
    if r < 0.45:
        obj = ptf.gen_portfolio(rng, "p")
    elif r < 0.75:
        obj = ptf.gen_mpp(rng, "m")
    else:
        obj = {"@": "pop", "items": [ptf.gen_object(rng, f"o{i}") for i in range(rng.choice([2, 3]))]}
        for p in obj["items"][1:]:
            p["s"]["fitness_measures"] = obj["items"][0]["s"].setdefault("fitness_measures", ptf.DEFAULTS["fitness_measures"])
    kind = obj["@"]
    readers = []
    # several threads going for the same figures at once, and for figures that build on one another
    common = [ptf.gen_figure(rng, kind) for _ in range(rng.choice([1, 2, 3]))]
    for _ in range(rng.choice([2, 2, 3, 4])):
        fs = [ptf.gen_figure(rng, kind) for _ in range(rng.choice([0, 1, 2, 3]))]
        fs += common if rng.random() < 0.7 else []
        rng.shuffle(fs)
        readers.append(fs or list(common))
    readers = {f"r{i}": fs for i, fs in enumerate(readers)}
    kill = None
    if rng.random() < 0.25:
        kill = {"reader": rng.choice(list(readers)), "at": rng.choice([3, 10, 30, 80, 200]) + rng.randrange(10)}
    warm = [ptf.gen_figure(rng, kind) for _ in range(rng.choice([0, 0, 2, 5]))]
    return {"obj": obj, "readers": readers, "warm": warm, "kill": kill,
            "switches": gen_switches(rng, horizon=rng.choice([30, 120, 400])),
            "entropy": rng.randrange(1, 10**6)}


def _run(plan):
    simrun.pin_entropy(plan["entropy"])
    o = ptf.build(plan["obj"])
    warnings.simplefilter("ignore")
    for f in plan["warm"]:
        ptf.get(o, f)
    sched = Scheduler(plan["switches"])
    seen = []

    def reader(i, figures):
        for f in figures:
            try:
                v = ["ok", ptf.figure(o, f)]
            except Exception as e:  # noqa: BLE001
                v = ["exc", type(e).__name__, str(e)[:200]]
            seen.append([i, f, v])

    killed = None
    for i, figures in plan["readers"].items():
        if figures:
            t = sched.spawn(lambda i=i, figures=figures: reader(i, figures), i)
            if plan["kill"] and plan["kill"]["reader"] == i:
                t.ctx.at, killed = plan["kill"]["at"], t
    sched.run()
    after = list(dict.fromkeys(f for fs in plan["readers"].values() for f in fs))
    for f in after:
        seen.append(["after", f, ptf.get(o, f)])
    return {"seen": seen, "sched": sched.info(),
            "trace": sched.trace[:60], "fired": killed and killed.ctx.fired}


def execute(plan, ctx):
    out = ctx.fork(_run, plan)
    refs = ctx.fork(ptf.fresh, [(plan["obj"], f) for _, f, _ in out["seen"]])
    ctx.sched(out["sched"])
    ctx.record([[i, f] for i, f, _ in out["seen"]])
    ctx.notes = out["trace"]
    ctx.count("object:" + plan["obj"]["@"])
    if plan["kill"]:
        ctx.fault_planned("interrupted reader")
    if out["fired"]:
        ctx.fault("interrupted reader")
        ctx.sites.add(out["fired"])
    for (i, f, v), ref in zip(out["seen"], refs, strict=True):
        ctx.comparisons += 1
        d = ptf.same(v, ref, f)
        if d:
            who = "after all readers had ended" if i == "after" else f"in reader {i}"
            raise Violation("reader-saw-other-value", f"{f} read {who} (readers {json.dumps(plan['readers'])[:300]}): {d}")
