"""An interrupted dataset download never poisons the local data folder."""

from dst import datasim, simio
from dst.runner import Violation

ID = "P01"
RUNS = {"quick": 2500, "thorough": 40000}
LEVEL = "fault_enumeration"
RULE = ("a case is a sequence of 1-4 fetches, each in its own simulated process, cut by at most one fault each, "
        "followed by a clean fetch; two cases are the same if datasets, folders, faults and the recorded file and "
        "network operations are the same; non-trivial if at least one fault fired")
REAL = datasim.REAL
STUB = datasim.STUB
ASSUMPTIONS = ["crash model: process death between or inside file operations, not power loss",
               "the published file itself is valid"]
SHRINK = ("attempts", "disk", "net")
setup = datasim.setup


def gen(rng, tier):
    attempts = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        a = {"ds": rng.choice(list(datasim.NAMES)), "disk": [], "net": []}
        if rng.random() < 0.7:
            a["disk"] = [datasim.gen_disk(rng)]
        else:
            a["net"] = [datasim.gen_net(rng)]
        attempts.append(a)
    if rng.random() < 0.7:
        for a in attempts:
            a["ds"] = attempts[0]["ds"]
    return {"attempts": attempts, "folder": rng.choice(["a", "a", "b", "home", "default", "env"]),
            "length": rng.random() < 0.7, "path": rng.random() < 0.3, "entropy": rng.randrange(10**6)}


def _process(plan, root, i, a):
    datasim.world(root, plan["entropy"] + i)
    c = simio.Client(f"p{i}", root, simio.Network(datasim.FILES, length_header=plan["length"]),
                     faults=a["disk"], net=a["net"], pid=5000 + i)
    out = datasim.fetch(c, root, a["ds"], plan["folder"], as_path=plan["path"])
    return out, c.fired, c.ops, c.requests, c.log


def execute(plan, ctx):
    keys = sorted({a["ds"] for a in plan["attempts"]})
    todo = [*plan["attempts"], *[{"ds": k, "disk": [], "net": []} for k in keys]]
    with simio.Scratch() as root:
        for i, a in enumerate(todo):
            out, fired, ops, requests, log = ctx.fork(_process, plan, root, i, a)
            ctx.count("fetch")
            ctx.count("outcome:" + out[0])
            ctx.steps += ops
            for f in [*a["disk"], *a["net"]]:
                ctx.fault_planned(f["kind"])
            for f in fired:
                ctx.fault(f)
                ctx.sites.add(f"{f}#{ops}")
            ctx.record(a["ds"], out[0], out[1] if out[0] == "exc" else "", fired, ops, requests)
            ctx.notes.append([a["ds"], out[0], out[1] if len(out) > 1 else None, fired, log[-12:]])
            ctx.comparisons += 1
            if out[0] == "escape":
                raise Violation("escape", f"fetch changed a path outside the data folder: {out[1]}")
            if out[0] == "ok" and out[1]:
                raise Violation("wrong-data", f"fetch {i} of {a['ds']} (faults {fired}) returned wrong data: {out[1]}; "
                                f"history {ctx.notes}")
            if out[0] == "exc" and not fired:
                raise Violation("poisoned", f"fetch {i} of {a['ds']} without any fault failed: {out[1]} {out[3]} "
                                f"{out[4]}; history {ctx.notes}")
