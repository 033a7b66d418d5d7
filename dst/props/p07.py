"""A seed fixes the result whatever else draws random numbers."""

import copy
import json
import random
import warnings

import numpy as np

from dst import canon, catalog, distops, monitor, parcalls, simrun, work
from dst.parallel import SimParallel
from dst.runner import Violation
from dst.sched import Scheduler, gen_switches

ID = "P07"
RUNS = {"quick": 1800, "thorough": 15000}
LEVEL = "exploration"
RULE = ("a case is one seeded (or randomness-free) operation sequence run against one initial state of the global "
        "generators and one interleaving with an adversary thread that draws from or reseeds them; two cases are the same "
        "if operations, adversary actions and context switches are the same; non-trivial if the adversary acted before or "
        "during the operations")
REAL = work.REAL
STUB = ["thread scheduling", "the adversary thread", "OS entropy", "worker pool (simulated joblib backend)"]
ASSUMPTIONS = ["preemption points are skfolio source lines",
               "draws made by scikit-learn's Lasso solver from the global generator are not skfolio's: for estimators that "
               "contain it only the result is compared, not the generator state"]
SHRINK = ("switches", "actions", "ops")

LASSO = ("FactorModel", "LoadingMatrixRegression", "GraphicalLassoCV", "LassoCV")


def gen(rng, tier):
    ds = catalog.gen_data(rng, n_obs=rng.choice([40, 48, 60]))
    env = catalog.env_of(ds)
    r = rng.random()
    if r < 0.25:
        kind = "vine"
    elif r < 0.4:
        kind = rng.choice(["uni", "cop"])
    elif r < 0.5:
        kind = "syn"
    elif r < 0.65:
        kind = rng.choice(["uset_mu", "uset_cov", "mr_uset"])
    elif r < 0.75:
        kind = "ens"
    elif r < 0.8:
        kind = "search"
    else:
        kind = "any"
    if kind == "syn":
        spec = catalog.gen_synthetic(rng, env)
        kind = "prior"
        if rng.random() < 0.3:
            spec = catalog.est("MeanRisk", prior_estimator=spec)
            kind = "opt"
    elif kind == "mr_uset":
        which = rng.choice(["Mu", "Covariance"])
        spec = catalog.est("MeanRisk", objective_function=catalog.E("ObjectiveFunction.MAXIMIZE_UTILITY"))
        spec["p"][("mu" if which == "Mu" else "covariance") + "_uncertainty_set_estimator"] = catalog.gen_uset(rng, env, which)
        kind = "opt"
    elif kind == "ens":
        spec = rng.choice([catalog.gen_nco, catalog.gen_stacking])(rng, env, jobs=False)
        if spec["cls"] == "NestedClustersOptimization":
            spec["p"]["clustering_estimator"] = catalog.est("KMeans", n_clusters=2, random_state=rng.choice([0, 1]), n_init=2)
        kind = "opt"
    elif kind == "search":
        spec = catalog.gen_search(rng, env)
        kind = "search"
    elif kind == "any":
        kind, spec = catalog.gen_any(rng, env)
    else:
        spec = catalog.gen_any(rng, env, kinds=[kind])[1]
    parcalls.strip_jobs(spec)
    inst = False
    if kind in ("uni", "cop", "vine") and rng.random() < 0.2:
        spec["p"]["random_state"] = {"@": "rs", "v": rng.choice([0, 9])}
        inst = True
    ops = [{"op": "fit"}]
    if kind in ("uni", "cop", "vine"):
        for _ in range(rng.choice([1, 2, 3])):
            q = distops.gen(rng, kind, env, bad=0.0)
            ops.append(q)
    elif rng.random() < 0.3 and not inst:
        ops.append({"op": "fit"})
    return {"data": ds, "kind": kind, "spec": spec, "ops": ops,
            "global": [rng.randrange(1, 10**6), rng.randrange(1, 10**6)],
            "actions": [rng.choice(["draw", "draw", "normal", "seed", "pyrandom", "pyseed", "setstate", "scipy", "model"]
                                   + ["model"] * (6 if kind in ("uni", "cop") else 0))
                        for _ in range(rng.choice([0, 2, 6, 20, 20]))],
            "switches": gen_switches(rng, horizon=rng.choice([20, 60] if kind in ("uni", "cop") else [60, 400, 1500])),
            "n_jobs": rng.choice([None, None, 2]), "entropy": rng.randrange(1, 10**6)}


def _ops(plan, out):
    data = catalog.Data(plan["data"])
    e = catalog.build(plan["spec"])
    kind = plan["kind"]
    for op in plan["ops"]:
        if op["op"] == "fit":
            catalog.fit("opt" if kind == "search" else kind, plan["spec"], e, data)
            if kind == "search":
                out.append(parcalls.observe_search(e, data))
            else:
                out.append(catalog.observe(kind, plan["spec"], e, data, light=kind in ("uni", "cop", "vine")))
        else:
            out.append(distops.run(kind, plan["spec"], e, op, [data]))


def _states():
    return [canon.rng_state(np.random.mtrand._rand), hash(random.getstate())]


def _reference(plan):
    simrun.pin_entropy(99)
    np.random.seed(plan["global"][1])
    random.seed(plan["global"][1])
    out = []
    r = work.guarded(lambda: _ops(plan, out))
    return [r[0], out if r[0] == "ok" else r[1], *r[2:]]


def _other(plan):
    """A fitted model of another owner, of the same class if the operation is on a distribution."""
    cls = plan["spec"].get("cls")
    cls = cls if plan["kind"] in ("uni", "cop") else ["Gaussian", "StudentT", "GaussianCopula"][plan["entropy"] % 3]
    rs = np.random.RandomState(5)
    if plan["kind"] != "cop" and not cls.endswith("Copula"):
        return catalog.ns()[cls](random_state=3).fit(rs.standard_normal((20, 1)))
    return catalog.ns()[cls](random_state=3).fit(rs.uniform(0.05, 0.95, (20, 2)))


def _act(a, i, other):
    if a == "model":
        other.sample(3)
    elif a == "scipy":
        import scipy.stats as st

        st.norm.rvs(size=2)
        st.t.rvs(5, size=2)
    elif a == "draw":
        np.random.random(3)
    elif a == "normal":
        np.random.randn()
    elif a == "seed":
        np.random.seed(1000 + i)
    elif a == "pyrandom":
        random.random()
    elif a == "pyseed":
        random.seed(i)
    else:
        s = np.random.get_state()
        np.random.random(5)
        np.random.set_state(s)


def _run(plan, alone):
    """The operations next to the adversary; ``alone``: the adversary only."""
    simrun.pin_entropy(plan["entropy"])
    np.random.seed(plan["global"][0])
    random.seed(plan["global"][0])
    warnings.simplefilter("ignore")
    out, box = [], {}
    sched = Scheduler([] if alone else plan["switches"])
    sim = SimParallel(mode="thread", n_jobs=plan["n_jobs"] or 1)

    def main():
        with sim.active():
            from dst.parrun import call

            box["r"] = call(lambda: _ops(plan, out))

    acted = []
    other = _other(plan)

    def adversary():
        for i, a in enumerate(plan["actions"]):
            if "r" not in box:
                acted.append(a)
            _act(a, i, other)
            sched.sleep(0)

    if not alone:
        sched.spawn(main, "op")
    sched.spawn(adversary, "adversary")
    sched.run()
    r = box.get("r", ["ok", None])
    return {"r": [r[0], out if r[0] == "ok" else r[1], *r[2:]], "states": _states(), "acted": acted,
            "sched": sched.info(),
            "trace": sched.trace[:60]}


def execute(plan, ctx):
    ref = ctx.fork(_reference, copy.deepcopy(plan))
    out = ctx.fork(_run, plan, False)
    base = ctx.fork(_run, plan, True)
    ctx.sched(out["sched"])
    ctx.record(plan["actions"], plan["spec"].get("cls"), [o["op"] for o in plan["ops"]])
    ctx.notes = out["trace"]
    # only what the adversary did before the operations were over counts
    ctx.nontrivial = bool(out["acted"])
    for a in out["acted"]:
        ctx.fault("adversary:" + a)
    ctx.count("class:" + plan["spec"].get("cls", "Pipeline"))
    ctx.count("outcome:" + ref[0])
    ctx.comparisons += 1
    what = f"{json.dumps(plan['spec'])[:300]} ops {[o['op'] for o in plan['ops']]}"
    r = out["r"]
    if r[0] == "ok" and ref[0] == "ok":
        d = canon.diff(parcalls.nameless(r[1]), parcalls.nameless(ref[1]), **parcalls.tolerance(plan["spec"]))
    elif r[0] == ref[0] and r[1] == ref[1]:
        d = None
    else:
        d = f"{canon.short(r, 300)} instead of {canon.short(ref, 300)}"
    if d:
        raise Violation("seed-ignored", f"{what}: result depends on the global generators: {d}")
    if not catalog.uses(plan["spec"], *LASSO):
        ctx.comparisons += 1
        for name, a, b in zip(("numpy.random", "random"), out["states"], base["states"], strict=True):
            if a != b:
                raise Violation("global-generator-touched", f"{what}: state of the global {name} generator was changed")
