"""Worker count and schedule never change a fitted model or a grid search."""

import copy

from dst import parcalls, parrun, simrun, work
from dst.runner import Violation

ID = "P05"
RUNS = {"quick": 1600, "thorough": 12000}
LEVEL = "exploration"
RULE = ("a case is one execution of a parallel fit or search: model, data, workers, isolation, order of task starts and "
        "context switches; two cases are the same if the recorded task order, completion order and context switches are "
        "the same; non-trivial if tasks were interleaved, reordered or ran in other processes")
REAL = [*work.REAL, "joblib dispatch and result collection"]
STUB = ["worker pool (simulated joblib backend)", "thread scheduling", "OS entropy"]
ASSUMPTIONS = ["preemption points are skfolio source lines", "reference: the same call with one worker in another process",
               "the winner of a search is compared only where the two best scores differ by more than rounding"]
SHRINK = ("switches", "picks")


def gen(rng, tier):
    plan = parcalls.gen(rng)
    while plan["api"] in ("cvp", "cvs"):
        plan = parcalls.gen(rng)
    plan["par"] = parrun.gen(rng)
    plan["entropy"] = rng.randrange(1, 10**6)
    return plan


def _run(plan):
    simrun.pin_entropy(plan["entropy"])
    call = parcalls.Call(plan)
    return parrun.run(call.run, plan["par"])


def execute(plan, ctx):
    ref = ctx.fork(parcalls.reference, copy.deepcopy(plan))
    out = ctx.fork(_run, plan)
    parrun.record(ctx, out, plan["par"])
    ctx.count("api:" + plan["api"])
    ctx.count("outcome:" + ref[0])
    ctx.notes = [out["order"], out["completed"], out["trace"]]
    ctx.comparisons += 1
    d = parcalls.compare(out["r"], ref, plan["spec"])
    if d:
        raise Violation("schedule-dependent", f"{plan['spec']['cls']} {plan['par']['mode']} n_jobs={plan['par']['n_jobs']} "
                        f"tasks started {out['order']} completed {out['completed']}: {d}")
