"""Pieces shared by the property modules."""

import copy
import warnings

from dst import canon, catalog, faults, monitor, simrun


def set_param(spec, rng, env, kind, allow=("plain",)):
    """A second description of the same class with some parameters drawn anew."""
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            spec = catalog.tweak(spec, rng)[0]
        return spec
    for _ in range(20):
        other = catalog.gen_any(rng, env, kinds=[kind], allow=allow)[1]
        if other.get("cls") == spec.get("cls"):
            new = copy.deepcopy(spec)
            if spec["@"] == "est" and rng.random() < 0.5:
                for k in other["p"]:
                    if rng.random() < 0.5:
                        new["p"][k] = other["p"][k]
                return new
            return other
    return copy.deepcopy(spec)


def variant_data(rng, ds):
    """Another data set: same shape, fewer/more rows, or another width."""
    new = dict(ds)
    r = rng.random()
    if r < 0.2:
        # nearly the same values
        new["tweak"] = [rng.choice([["cell", rng.randrange(40), rng.randrange(3), 0.03], ["scale", 2.0], ["scale", -1.0],
                                    ["roll", 1], ["swap"], ["names", 1], ["names", 2], ["names", 1], ["iv", 1.5], ["y", 2.0]])]
        return new
    new["seed"] = rng.randrange(1, 10_000)
    if r < 0.55:
        pass
    elif r < 0.75:
        new["n_obs"] = rng.choice([40, 45, 52, 60, 66])
    else:
        new["n_assets"] = rng.choice([3, 4, 5, 6, 7])
    return new


class Abort:
    """Plan entry ``{"frac": f, "exc": kind}`` resolved against a known extent.

    ``frac`` is a share of the time of the operation or, with ``by`` = "site", of the
    distinct source lines it passes.
    """

    @staticmethod
    def gen(rng):
        r = rng.random()
        frac = rng.random() if r < 0.8 else (0.97 + 0.03 * rng.random() if r < 0.9 else 0.03 * rng.random())
        return {"frac": round(frac, 6), "by": rng.choice(["time", "site"]),
                "exc": rng.choice(["interrupt", "interrupt", "memory", "error", "value"])}

    @staticmethod
    def context(abort, extent):
        if abort is None:
            return monitor.LineContext()
        lines, firsts = extent if isinstance(extent, list) else (extent, [])
        if abort.get("by") == "site" and firsts:
            return monitor.LineContext(at=firsts[min(int(abort["frac"] * len(firsts)), len(firsts) - 1)], exc=abort["exc"])
        return monitor.LineContext(at=1 + int(abort["frac"] * max(lines, 1)), exc=abort["exc"])


def guarded(fn, ctx=None):
    """Run ``fn`` under a line context; ('ok', value) or ('exc', type, injected?, text)."""
    ctx = ctx or monitor.LineContext()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with monitor.watching(ctx):
                return ["ok", fn()]
        except monitor.Runaway as e:
            return ["exc", "Runaway", False, str(e)]
        except BaseException as e:  # noqa: BLE001
            return ["exc", type(e).__name__, monitor.is_injected(e), str(e)[:300]]


def fresh(kind, spec, ds, entropy=11, light=False, outcomes=None):
    """Reference: build, fit and observe in this (forked, pristine) process."""
    simrun.pin_entropy(entropy)
    data = catalog.Data(ds)
    e = catalog.build(spec)
    ctx = monitor.LineContext(record=True)
    sol = faults.Solver(outcomes)
    with sol.active():
        r = guarded(lambda: catalog.fit(kind, spec, e, data), ctx)
    if r[0] == "ok":
        r = guarded(lambda: catalog.observe(kind, spec, e, data, light))
        if r[0] == "exc":
            r[0] = "obs_exc"
    return {"r": r, "lines": ctx.extent, "solves": sol.calls}


def compare(a, b, spec):
    """First difference of two outcomes, or None. Errors compare by type."""
    if a[0] != b[0]:
        return f"{canon.short(a)} instead of {canon.short(b)}"
    if a[0] != "ok":
        return None if a[1] == b[1] else f"{a[1]} ({a[3]}) instead of {b[1]} ({b[3]})"
    return canon.diff(a[1], b[1], **catalog.tolerance(spec))


REAL = ["all of skfolio", "numpy", "scipy", "pandas", "scikit-learn", "cvxpy", "Clarabel solver"]
