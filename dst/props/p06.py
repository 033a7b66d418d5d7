"""A failed or killed parallel task is always reported, never papered over."""

import copy

from dst import parcalls, parrun, simrun, work
from dst.runner import Violation

ID = "P06"
RUNS = {"quick": 1600, "thorough": 12000}
LEVEL = "fault_enumeration"
RULE = ("a case is one parallel call with failing tasks and its repetition without: model, data, schedule, failing task, "
        "point and kind of failure; two cases are the same if the recorded task order, context switches and fired faults "
        "are the same; non-trivial if a planned task fault actually happened")
REAL = [*work.REAL, "joblib dispatch, error propagation and result collection"]
STUB = ["worker pool (simulated joblib backend), its worker deaths and lost results", "thread scheduling", "OS entropy"]
ASSUMPTIONS = ["tasks fail at skfolio source lines, at their start (worker death) or after completion (lost result)",
               "searches are told to raise on failing fits", "a dead worker surfaces as joblib's TerminatedWorkerError"]
SHRINK = ("switches", "picks", "faults")


def gen(rng, tier):
    plan = parcalls.gen(rng)
    par = parrun.gen(rng)
    for _ in range(rng.choice([1, 1, 1, 2])):
        task = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8])
        kind = rng.choice(["exc", "exc", "exc", "die", "late"])
        f = {"task": task, "kind": kind}
        if kind == "exc":
            f["exc"] = rng.choice(["error", "error", "memory", "interrupt", "value"])
            if plan["api"] not in ("cvp", "nco", "stack") and f["exc"] == "value":
                f["exc"] = "error"
        if kind != "late":
            f["line"] = int(rng.choice([5, 40, 200, 800, 2500]) * rng.random())
        par["faults"].append(f)
    plan["par"] = par
    plan["entropy"] = rng.randrange(1, 10**6)
    return plan


def _run(plan):
    simrun.pin_entropy(plan["entropy"])
    call = parcalls.Call(plan)
    out = parrun.run(call.run, plan["par"])
    # the fault is gone: the same objects are used again
    out["again"] = work.guarded(call.run)
    return out


def execute(plan, ctx):
    ref = ctx.fork(parcalls.reference, copy.deepcopy(plan))
    out = ctx.fork(_run, plan)
    parrun.record(ctx, out, plan["par"])
    for f in plan["par"]["faults"]:
        ctx.fault_planned(f["kind"] if f["kind"] != "exc" else f["exc"])
    for _, what in out["fired"]:
        ctx.fault(what.split(" at ")[0])
        if " at " in what:
            ctx.sites.add(what.split(" at ")[1])
    ctx.count("api:" + plan["api"])
    ctx.nontrivial = bool(out["fired"])
    ctx.notes = [out["order"], out["completed"], out["fired"], out["trace"]]
    what = f"{plan['api']} {plan['spec']['cls']} {plan['par']['mode']} n_jobs={plan['par']['n_jobs']} " \
           f"faults {out['fired']}"
    ctx.comparisons += 1
    r = out["r"]
    if out["fired"] and r[0] == "ok":
        raise Violation("fault-swallowed", f"{what}: the call returned a result")
    if not out["fired"]:
        d = parcalls.compare(r, ref, plan["spec"])
        if d:
            raise Violation("schedule-dependent", f"{what}: {d}")
    elif r[1] == "Deadlock" or r[1] == "Runaway":
        raise Violation("hang", f"{what}: {r[3]}")
    ctx.comparisons += 1
    d = parcalls.compare(out["again"], ref, plan["spec"])
    if d:
        raise Violation("retry-differs", f"{what}: repeated call differs: {d}")
