"""Data, settings and template objects passed in are never modified."""

import json

from dst import canon, monitor, opsuite, simrun, work
from dst.runner import Violation

ID = "P09"
RUNS = {"quick": 2000, "thorough": 15000}
LEVEL = "fault_enumeration"
RULE = ("a case is one public operation run once to its end and up to four times aborted at a drawn source line on the same "
        "inputs; two cases are the same if operation, inputs and abort sites are the same; non-trivial if the operation "
        "completed or at least one abort happened")
REAL = work.REAL
STUB = ["interrupts (raised at a source line)", "solver outcome when a solver fault is planned", "OS entropy"]
ASSUMPTIONS = ["abort points are the starts of executed skfolio source lines outside clean-up code"]
SHRINK = ("aborts", "figures", "then", "queries", "which", "items")


def gen(rng, tier):
    op = opsuite.gen(rng)
    return {"o": op, "aborts": [work.Abort.gen(rng) for _ in range(rng.choice([0, 1, 2, 4]))],
            "entropy": rng.randrange(1, 10**6)}


def _run(plan):
    simrun.pin_entropy(plan["entropy"])
    op = opsuite.Op(plan["o"])
    before = op.snapshot()
    ctx = monitor.LineContext(record=True)
    log, bad = [], None

    def look(what):
        after = op.snapshot()
        for k in before:
            d = canon.diff(after[k], before[k])
            if d:
                return f"{what}: {k.lstrip('*')} changed: {d}"
        return None

    r = work.guarded(op.run, ctx)
    log.append(["complete", r[0] if r[0] == "ok" else r[1], None])
    if r[0] == "exc" and r[1] == "AssertionError":
        bad = r[3]
    bad = bad or look("operation completed" if r[0] == "ok" else f"operation failed with {r[1]}")
    for a in plan["aborts"]:
        if bad:
            break
        c = work.Abort.context(a, ctx.extent)
        r = work.guarded(op.run, c)
        log.append(["abort", r[0] if r[0] == "ok" else r[1], c.fired])
        bad = look(f"operation aborted at {c.fired}" if c.fired else "operation completed")
    return log, bad, r[3] if r[0] == "exc" else ""


def execute(plan, ctx):
    log, bad, text = ctx.fork(_run, plan)
    ctx.record(json.dumps(plan["o"], sort_keys=True), log)
    ctx.notes = log
    ctx.count("op:" + plan["o"]["op"])
    if "spec" in plan["o"]:
        ctx.count("class:" + plan["o"]["spec"].get("cls", "Pipeline"))
    ctx.count("first run:" + log[0][1])
    ctx.nontrivial = log[0][1] == "ok"
    ctx.comparisons += len(log)
    for a in plan["aborts"]:
        ctx.fault_planned("abort:" + a["exc"])
    for (_, _, fired), a in zip(log[1:], plan["aborts"], strict=False):
        if fired:
            ctx.fault("abort:" + a["exc"])
            ctx.sites.add(fired)
    if plan["o"].get("solver"):
        for v in plan["o"]["solver"].values():
            ctx.fault_planned("solver:" + v)
    if bad:
        raise Violation("input-modified", f"{plan['o']['op']} {json.dumps(plan['o'].get('spec', ''))[:300]}: {bad}")
