"""A fetched dataset stays available without any network."""

from dst import datasim, simio
from dst.runner import Violation

ID = "P03"
RUNS = {"quick": 2000, "thorough": 30000}
LEVEL = "fault_enumeration"
RULE = ("a case is a history of fetches (download allowed or not), clearings and interrupted fetches over up to two "
        "data folders and several process lifetimes, with network outages; two cases are the same if operations, "
        "outcomes, request counts and faults are the same; non-trivial if a fault fired or the network was down")
REAL = datasim.REAL
STUB = datasim.STUB
ASSUMPTIONS = ["crash model: process death, not power loss"]
SHRINK = ("procs", "ops", "disk", "net")
setup = datasim.setup


def gen(rng, tier):
    folders = rng.sample(["a", "b", "home", "default", "env"], 2)
    keys = rng.sample(list(datasim.NAMES), rng.choice([1, 2]))
    procs = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            if rng.random() < 0.12:
                ops.append({"op": "clear", "folder": rng.choice(folders), "disk": [], "net": [], "up": True})
                continue
            o = {"op": "fetch", "ds": rng.choice(keys), "folder": folders[0] if rng.random() < 0.7 else folders[1],
                 "allow": rng.random() < 0.65, "up": rng.random() < 0.7, "disk": [], "net": []}
            r = rng.random()
            if r < 0.2:
                o["disk"] = [datasim.gen_disk(rng)]
            elif r < 0.3:
                o["net"] = [datasim.gen_net(rng)]
            ops.append(o)
        procs.append({"ops": ops, "mutate": rng.random() < 0.3})
    return {"procs": procs, "length": rng.random() < 0.7, "entropy": rng.randrange(10**6)}


def _process(plan, root, i, proc):
    """One process lifetime; ends early if it is killed."""
    datasim.world(root, plan["entropy"] + i)
    out = []
    for j, o in enumerate(proc["ops"]):
        net = simio.Network(datasim.FILES, up=o["up"], length_header=plan["length"])
        c = simio.Client(f"p{i}", root, net, faults=o["disk"], net=o["net"], pid=5000 + i)
        if o["op"] == "clear":
            r = datasim.clear(c, root, o["folder"])
        else:
            r = _fetch(c, root, o, proc["mutate"])
        out.append({"o": o, "r": r, "fired": c.fired, "requests": c.requests, "ops": c.ops})
        if r[0] == "killed":
            break
    return out


def _fetch(c, root, o, mutate):
    if not mutate:
        return datasim.fetch(c, root, o["ds"], o["folder"], allow=o["allow"])
    # the caller changes the frame it was given; later fetches must not notice
    real = datasim.same
    box = {}

    def same(df, key):
        box["df"] = df
        return real(df, key)

    datasim.same = same
    try:
        r = datasim.fetch(c, root, o["ds"], o["folder"], allow=o["allow"])
    finally:
        datasim.same = real
    if r == ["ok", None]:
        box["df"].iloc[:, :] = -1.0
        box["df"].drop(columns=box["df"].columns[0], inplace=True)
    return r


def execute(plan, ctx):
    stored = set()  # reference model: (folder, dataset) whose fetch completed
    maybe = set()   # fetch cut by a fault: stored or not
    hist = []
    with simio.Scratch() as root:
        for i, proc in enumerate(plan["procs"]):
            for e in ctx.fork(_process, plan, root, i, proc):
                o, r, fired = e["o"], e["r"], e["fired"]
                hist.append([i, o["op"], o.get("ds"), o["folder"], o.get("allow"), o["up"], r[0],
                             r[1] if len(r) > 1 else None, fired, e["requests"]])
                ctx.steps += e["ops"]
                ctx.count(f"op:{o['op']}:{r[0]}")
                for f in [*o["disk"], *o["net"]]:
                    ctx.fault_planned(f["kind"])
                for f in fired:
                    ctx.fault(f)
                if not o["up"]:
                    ctx.fault("network down")
                ctx.comparisons += 1
                ctx.notes = hist
                if r[0] == "escape":
                    raise Violation("escape", f"changed a path outside the data folder: {r[1]}")
                if o["op"] == "clear":
                    if r[0] == "exc" and not fired:
                        raise Violation("clear-failed", f"clearing failed: {r}; history {hist}")
                    gone = {k for k in stored | maybe if k[0] == o["folder"]}
                    stored -= gone
                    maybe -= gone
                    if r[0] != "ok":
                        maybe |= gone
                    continue
                k = (o["folder"], o["ds"])
                if r[0] == "ok" and r[1]:
                    raise Violation("wrong-data", f"{k}: {r[1]}; history {hist}")
                if not o["allow"] and e["requests"]:
                    raise Violation("network-used", f"a fetch that forbids downloading used the network; history {hist}")
                if k in stored and not fired:
                    if e["requests"]:
                        raise Violation("network-used", f"{k} was stored, yet the network was used; history {hist}")
                    if r[0] != "ok":
                        raise Violation("lost", f"{k} was stored, yet the fetch failed: {r}; history {hist}")
                elif not fired:
                    if not o["allow"]:
                        if r[0] == "exc" and not r[2]:
                            raise Violation("wrong-error", f"forbidden download raised {r[1]}: {r[3]}; history {hist}")
                        if r[0] == "ok" and k not in maybe:
                            raise Violation("unexpected", f"{k} was never stored, yet returned; history {hist}")
                    elif r[0] != "ok" and o["up"]:
                        raise Violation("fetch-failed", f"{k}: {r}; history {hist}")
                    elif r[0] == "ok" and not o["up"] and k not in maybe:
                        raise Violation("unexpected", f"{k} returned without network or store; history {hist}")
                if r[0] == "ok":
                    stored.add(k)
                    maybe.discard(k)
                elif k not in stored:
                    maybe.add(k)
    ctx.record(hist)
