"""Run a call with its parallel tasks under the simulated backend and scheduler."""

import warnings

from dst import monitor, work
from dst.parallel import SimParallel
from dst.sched import Deadlock, Scheduler, gen_switches


def gen(rng, horizon=1500, tasks=6):
    mode = rng.choice(["thread", "thread", "process"])
    return {
        "mode": mode,
        "n_jobs": rng.choice([2, 2, 3, 4, 8, -1]),
        "picks": [rng.randrange(6) for _ in range(rng.choice([0, tasks, 2 * tasks]))],
        "switches": gen_switches(rng, horizon=horizon) if mode == "thread" else [],
        "batch": rng.choice([1, 1, 1, 2, 3]),
        "nested": rng.choice(["seq", "sim"]) if mode == "thread" else "seq",
        "readonly": rng.random() < 0.7,
        "faults": [],
    }


def run(fn, par):
    """Outcome of ``fn()`` as in work.guarded, plus what the simulator did."""
    sim = SimParallel(mode=par["mode"], n_jobs=par["n_jobs"], picks=par["picks"], faults=par["faults"],
                      nested=par["nested"], readonly=par["readonly"], batch=par["batch"])
    warnings.simplefilter("ignore")
    if par["mode"] == "thread":
        sched = Scheduler(par["switches"])
        box = {}

        def main():
            with sim.active():
                box["r"] = call(fn)

        t = sched.spawn(main, "main")
        dead = None
        try:
            sched.run()
        except Deadlock as e:
            dead = str(e)
        if t.error is not None and dead is None:
            raise t.error
        info = sched.info()
        r = box.get("r", ["exc", "Deadlock", False, str(dead)])
        trace = sched.trace[:80]
    else:
        ctx = monitor.LineContext()
        with monitor.watching(ctx), sim.active():
            r = call(fn)
        info = {"steps": ctx.lines + sum(sim.max_lines.values()), "switched": 0, "digest": ""}
        trace = []
    return {"r": r, "sched": info, "order": sim.order, "completed": sim.completed, "fired": sim.fired,
            "n_tasks": sim.n_tasks, "task_lines": sim.max_lines, "trace": trace}


def call(fn):
    try:
        return ["ok", fn()]
    except monitor.Runaway as e:
        return ["exc", "Runaway", False, str(e)]
    except BaseException as e:  # noqa: BLE001
        if type(e).__name__ == "Killed":
            raise
        return ["exc", type(e).__name__, monitor.is_injected(e), str(e)[:400]]


def record(ctx, out, par):
    ctx.sched(out["sched"])
    ctx.record("order", out["order"], out["completed"], out["n_tasks"], out["fired"])
    ctx.count("mode:" + par["mode"])
    ctx.count("tasks", out["n_tasks"])
    if out["order"] != sorted(out["order"]):
        ctx.count("reordered runs")
        ctx.nontrivial = True
    if par["mode"] == "process" and out["n_tasks"]:
        ctx.nontrivial = True
    if out["order"]:
        ctx.states.add(f"{par['mode']}:{out['order'][:12]}")


def gen_cv(rng, env, data_spec):
    """(description) of an outer splitter that suits ``cross_val_predict``."""
    from dst.catalog import est

    r = rng.random()
    n = data_spec["n_obs"]
    if rng.random() < 0.12:
        # explicit folds, not necessarily in time order
        k = rng.choice([3, 4])
        size = n // (k + 1)
        folds = [[list(range(0, (i + 1) * size)), list(range((i + 1) * size, (i + 2) * size))] for i in range(k)]
        rng.shuffle(folds)
        return {"@": "splits", "v": folds}
    if r < 0.2:
        return est("KFold", n_splits=rng.choice([2, 3, 4]))
    if r < 0.3:
        return rng.choice([2, 3])
    if r < 0.65:
        p = {"train_size": rng.choice([15, 20, 25]), "test_size": rng.choice([5, 7, 9])}
        if rng.random() < 0.3:
            p["expend_train"] = True
        if rng.random() < 0.3:
            p["reduce_test"] = True
        if rng.random() < 0.3:
            p["purged_size"] = rng.choice([1, 3])
        return est("WalkForward", **p)
    nf = rng.choice([3, 4, 5])
    p = {"n_folds": nf, "n_test_folds": rng.choice([k for k in (2, 3) if k < nf])}
    if rng.random() < 0.4:
        p["purged_size"] = rng.choice([1, 2])
    if rng.random() < 0.4:
        p["embargo_size"] = rng.choice([1, 2])
    if n < 50:
        p["n_folds"], p["n_test_folds"] = 3, 2
    return est("CombinatorialPurgedCV", **p)
