"""Workload catalogue: data sets and estimators described by plain JSON.

``gen_*`` draw descriptions from a random stream, ``build`` turns a description into
the real skfolio object, ``observe`` records what a user can see of a fitted object.
"""

import contextlib
import datetime as dt
import warnings

import numpy as np
import pandas as pd

from dst import canon


# ----------------------------------------------------------------------- data
def gen_data(rng, n_obs=None, n_assets=None, factors=None, form=None):
    return {
        "seed": rng.randrange(1, 10_000),
        "n_obs": n_obs or rng.choice([40, 48, 60, 75]),
        "n_assets": n_assets or rng.choice([3, 4, 5, 6, 7]),
        "factors": rng.choice([0, 0, 2, 3]) if factors is None else factors,
        "form": form or rng.choice(["frame", "frame", "array"]),
        "prefix": rng.choice(["A", "A", "B"]),
    }


class Data:
    """X, y, implied volatilities; deterministic in the description."""

    def __init__(self, spec):
        self.spec = spec
        rs = np.random.RandomState(spec["seed"])
        n, k = spec["n_obs"], spec["n_assets"]
        nf = max(spec["factors"], 1)
        f = rs.standard_t(5, size=(n, nf)) * 0.008 + 0.0003
        beta = rs.uniform(-0.3, 1.3, size=(nf, k))
        vol = rs.uniform(0.004, 0.02, size=k)
        x = f @ beta + rs.standard_normal((n, k)) * vol + rs.uniform(0, 0.0015, size=k)
        iv = 0.1 + 0.2 * rs.uniform(size=(n, k)) + np.abs(x)
        self.names = [f"{spec['prefix']}{i}" for i in range(k)]
        self.fnames = [f"F{i}" for i in range(nf)]
        dates = pd.date_range("2021-01-04", periods=n, freq="B")
        if spec["form"] == "frame":
            self.X = pd.DataFrame(x, index=dates, columns=self.names)
            self.y = pd.DataFrame(f, index=dates, columns=self.fnames)
            self.iv = pd.DataFrame(iv, index=dates, columns=self.names)
        else:
            self.X, self.y, self.iv = x, f, np.ascontiguousarray(iv)
        for kind, *a in spec.get("tweak", []):
            # nearly the same data
            v = self.X.values if spec["form"] == "frame" else self.X
            if kind == "cell":
                v[a[0] % n, a[1] % k] += a[2]
            elif kind == "scale":
                v *= a[0]
            elif kind == "roll":
                v[:] = np.roll(v, a[0], axis=0)
            elif kind == "names" and spec["form"] == "frame":
                # the same columns under each other's names
                self.names = self.names[a[0] % k:] + self.names[:a[0] % k]
                self.X.columns = self.iv.columns = self.names
            elif kind == "swap":
                v[:, [0, -1]] = v[:, [-1, 0]]
            elif kind == "iv":
                (self.iv.values if spec["form"] == "frame" else self.iv)[:] *= a[0]
            elif kind == "y":
                (self.y.values if spec["form"] == "frame" else self.y)[:] *= a[0]
        self.bench = self.y.iloc[:, 0] if spec["form"] == "frame" else self.y[:, 0]
        if not spec["factors"]:
            self.y = None
        self.dates = dates

    def overwrite(self, other):
        """The owner writes other values into the same objects."""
        for name in ("X", "y", "iv", "bench"):
            mine = getattr(self, name)
            if mine is not None:
                _write(mine, np.asarray(getattr(other, name)))
        if getattr(self, "_holes", None) is not None:
            _write(self._holes, np.asarray(holes(other)))
        self.spec = other.spec


def _write(target, values):
    """In place, keeping the memory layout: another layout means other rounding."""
    v = target.to_numpy() if hasattr(target, "to_numpy") else target
    if v.flags.writeable and (v is target or np.shares_memory(v, target.to_numpy())):
        v[...] = values
    else:
        target[:] = values


def same_layout(a, b):
    return all(a[k] == b[k] for k in ("n_obs", "n_assets", "factors", "form", "prefix")) and \
        [t for t in a.get("tweak", []) if t[0] == "names"] == [t for t in b.get("tweak", []) if t[0] == "names"]


def env_of(data_spec):
    return {
        "n": data_spec["n_assets"],
        "n_obs": data_spec["n_obs"],
        "frame": data_spec["form"] == "frame",
        "factors": data_spec["factors"],
        "names": [f"{data_spec['prefix']}{i}" for i in range(data_spec["n_assets"])],
    }


# ---------------------------------------------------------------- value specs
def E(name):
    return {"@": "enum", "v": name}


def A(values):
    return {"@": "arr", "v": values}


def est(cls, /, **p):
    return {"@": "est", "cls": cls, "p": p}


def _namespace():
    import sklearn.cluster
    import sklearn.linear_model
    import sklearn.model_selection

    import skfolio
    import skfolio.cluster
    import skfolio.distance
    import skfolio.distribution
    import skfolio.model_selection
    import skfolio.moments
    import skfolio.optimization
    import skfolio.portfolio
    import skfolio.pre_selection
    import skfolio.prior
    import skfolio.uncertainty_set

    from dst import userest

    ns = {"WeightedMu": userest.WeightedMu}
    for m in (sklearn.linear_model, sklearn.cluster, sklearn.model_selection,
              skfolio, skfolio.measures, skfolio.moments, skfolio.prior,
              skfolio.distribution, skfolio.uncertainty_set, skfolio.distance,
              skfolio.cluster, skfolio.pre_selection, skfolio.optimization,
              skfolio.model_selection, skfolio.portfolio):
        for n in getattr(m, "__all__", dir(m)):
            if not n.startswith("_"):
                ns[n] = getattr(m, n)
    return ns


_NS = None


def ns():
    global _NS
    if _NS is None:
        _NS = _namespace()
    return _NS


def _obj_tilt(w):
    return 0.001 * w[0]


def _con_cap(w):
    return [w[0] <= 0.8]


def _ret_first(w):
    return 0.001 * w[0] + 0.0005 * w[1]


FUNCS = {"obj_tilt": _obj_tilt, "con_cap": _con_cap, "ret_first": _ret_first}


def build(v, shared=None):
    """Turn a value description into the real thing."""
    if isinstance(v, list):
        return [build(x, shared) for x in v]
    if not isinstance(v, dict):
        return v
    t = v["@"]
    if t == "enum":
        cls, name = v["v"].split(".")
        return getattr(ns()[cls], name)
    if t == "arr":
        return np.array(v["v"])
    if t == "dict":
        return {k: build(x, shared) for k, x in v["v"].items()}
    if t == "intdict":
        return {k: build(x, shared) for k, x in zip(v["k"], v["v"], strict=True)}
    if t == "tuple":
        return tuple(build(x, shared) for x in v["v"])
    if t == "func":
        return FUNCS[v["v"]]
    if t == "rs":
        return np.random.RandomState(v["v"])
    if t == "dates":
        return {k: dt.datetime.fromisoformat(x) for k, x in v["v"].items()}
    if t == "offset":
        return pd.DateOffset(days=v["v"])
    if t == "shared":
        if shared is None:
            return build(v["v"], shared)
        key = v["k"]
        if key not in shared:
            shared[key] = build(v["v"], shared)
        return shared[key]
    if t == "pipe":
        from sklearn.pipeline import Pipeline

        return Pipeline([(n, build(s, shared)) for n, s in v["steps"]])
    if t == "splits":
        return [(np.array(a), np.array(b)) for a, b in v["v"]]
    if t == "scorer":
        from skfolio.metrics import make_scorer

        return make_scorer(build(v["v"]))
    if t == "est":
        kw = {k: build(x, shared) for k, x in v["p"].items()}
        o = ns()[v["cls"]](**kw)
        if v.get("request"):
            import sklearn

            with sklearn.config_context(enable_metadata_routing=True):
                o = o.set_fit_request(**v["request"])
        return o
    raise KeyError(t)


def walk(v):
    """All estimator descriptions inside ``v``, including itself."""
    if isinstance(v, list):
        for x in v:
            yield from walk(x)
    elif isinstance(v, dict):
        if v.get("@") == "est":
            yield v
        for x in v.values():
            if isinstance(x, dict | list):
                yield from walk(x)


def uses(v, *classes):
    return any(e["cls"] in classes for e in walk(v))


def named(v):
    """Whether the description refers to assets by name."""
    return any(e["cls"] == "BlackLitterman" or any(isinstance(x, dict) and x.get("@") == "dict" for x in e["p"].values())
               or "linear_constraints" in e["p"] for e in walk(v))


# ------------------------------------------------------------------ generators
def weighted(rng, pairs):
    tot = sum(w for _, w in pairs)
    r = rng.random() * tot
    for x, w in pairs:
        r -= w
        if r <= 0:
            return x
    return pairs[-1][0]


def gen_cov(rng, env, depth=0, allow=("plain",)):
    c = weighted(rng, [
        ("EmpiricalCovariance", 3), ("EWCovariance", 2), ("GerberCovariance", 2),
        ("DenoiseCovariance", 2), ("DetoneCovariance", 2), ("LedoitWolf", 2), ("OAS", 1),
        ("ShrunkCovariance", 1), ("GraphicalLassoCV", 0.4 if "slow" in allow else 0),
        ("ImpliedCovariance", 1.5 if "iv" in allow else 0),
    ])
    p = {}
    if c == "EmpiricalCovariance":
        p = {"window_size": rng.choice([None, 30]), "ddof": rng.choice([0, 1])}
    elif c == "EWCovariance":
        p = {"alpha": rng.choice([0.1, 0.3]), "window_size": rng.choice([None, 30])}
    elif c == "GerberCovariance":
        p = {"threshold": rng.choice([0.3, 0.5]), "psd_variant": rng.random() < 0.5}
    elif c in ("DenoiseCovariance", "DetoneCovariance"):
        if depth < 1 and rng.random() < 0.6:
            p = {"covariance_estimator": gen_cov(rng, env, depth + 1)}
    elif c == "ShrunkCovariance":
        p = {"shrinkage": rng.choice([0.1, 0.4])}
    elif c == "GraphicalLassoCV":
        p = {"alphas": 2, "n_refinements": 2, "cv": 3, "n_jobs": rng.choice([None, 2])}
    elif c == "ImpliedCovariance":
        p = {"window_size": 10}
        if rng.random() < 0.5:
            p["prior_covariance_estimator"] = gen_cov(rng, env, depth + 1)
        r = rng.random()
        if r < 0.3:
            p["volatility_risk_premium_adj"] = A([1.1 + 0.05 * i for i in range(env["n"])])
        elif r < 0.45:
            p["volatility_risk_premium_adj"] = 1.2
        elif r < 0.6 and env["frame"]:
            p["volatility_risk_premium_adj"] = {"@": "dict", "v": {n: 1.1 for n in env["names"]}}
        elif r < 0.85:
            p["linear_regressor"] = rng.choice([est("Ridge", alpha=0.1), est("LinearRegression"),
                                                est("LinearRegression", fit_intercept=False),
                                                est("Ridge", alpha=1.0, fit_intercept=False)])
        o = est(c, **p)
        o["request"] = {"implied_vol": True}
        return o
    if rng.random() < 0.15:
        p["higham"] = True
    return est(c, **p)


def gen_weighted_mu(rng):
    o = est("WeightedMu", power=rng.choice([0.5, 1.0, 2.0]))
    o["request"] = {"implied_vol": True}
    return o


def gen_mu(rng, env, allow=("plain",)):
    if "iv" in allow and rng.random() < 0.4:
        return gen_weighted_mu(rng)
    c = rng.choice(["EmpiricalMu", "EWMu", "EquilibriumMu", "ShrunkMu", "ShrunkMu"])
    p = {}
    if c == "EmpiricalMu":
        p = {"window_size": rng.choice([None, 25])}
    elif c == "EWMu":
        p = {"alpha": rng.choice([0.1, 0.3])}
    elif c == "EquilibriumMu":
        p = {"risk_aversion": rng.choice([1.0, 2.5])}
        if rng.random() < 0.5:
            p["weights"] = A(_simplex(rng, env["n"]))
        if rng.random() < 0.5:
            p["covariance_estimator"] = gen_cov(rng, env, 1)
    else:
        p = {"method": E("ShrunkMuMethods." + rng.choice(["JAMES_STEIN", "BAYES_STEIN", "BODNAR_OKHRIN"])),
             "vol_weighted_target": rng.random() < 0.5}
        if rng.random() < 0.5:
            p["covariance_estimator"] = gen_cov(rng, env, 1)
    return est(c, **p)


def _simplex(rng, n):
    v = [rng.random() + 0.05 for _ in range(n)]
    s = sum(v)
    return [round(x / s, 6) for x in v]


def gen_empirical_prior(rng, env, allow=("plain",)):
    p = {}
    if rng.random() < 0.7:
        p["mu_estimator"] = gen_mu(rng, env, allow)
    if rng.random() < 0.8:
        p["covariance_estimator"] = gen_cov(rng, env, 0, allow)
    if rng.random() < 0.15 and "iv" not in allow:
        p["is_log_normal"] = True
        p["investment_horizon"] = rng.choice([5, 21])
    return est("EmpiricalPrior", **p)


def gen_black_litterman(rng, env, names=None, sub=None):
    names = names or env["names"]
    n = rng.choice([1, 2])
    views = []
    for i in range(n):
        a, b = rng.sample(range(len(names)), 2)
        if rng.random() < 0.5:
            views.append(f"{names[a]} == {rng.choice([0.0005, 0.001, 0.002])}")
        else:
            views.append(f"{names[a]} - {names[b]} == {rng.choice([0.0002, 0.0008])}")
    p = {"views": views if rng.random() < 0.5 else A(views), "tau": rng.choice([0.05, 0.2])}
    if rng.random() < 0.6:
        conf = [rng.choice([0, 0.25, 0.6, 1.0]) for _ in views]
        p["view_confidences"] = A([float(c) for c in conf]) if rng.random() < 0.7 else conf
    if rng.random() < 0.3:
        p["groups"] = A([[rng.choice(["g1", "g2"]) for _ in names]])
        if env["frame"] and rng.random() < 0.5:
            p["groups"] = {"@": "dict", "v": {nm: [rng.choice(["g1", "g2"])] for nm in names}}
    if sub is not None:
        p["prior_estimator"] = sub
    return est("BlackLitterman", **p)


def gen_vine(rng, env, seeded=True, n_jobs=True):
    p = {"max_depth": rng.choice([2, 2, 3, 4]),
         "marginal_candidates": [est("Gaussian")] if rng.random() < 0.5
         else [est("Gaussian"), est("StudentT")],
         "copula_candidates": rng.choice([
             [est("GaussianCopula")],
             [est("GaussianCopula"), est("ClaytonCopula")],
             [est("GaussianCopula"), est("JoeCopula")],
             [est("GumbelCopula"), est("ClaytonCopula")],
         ])}
    if rng.random() < 0.15:
        p["copula_candidates"] = [est("StudentTCopula")]
    r = rng.random()
    if r < 0.2:
        p["log_transform"] = True
    elif r < 0.35:
        p["log_transform"] = [rng.random() < 0.5 for _ in range(env["n"])]
        if env["frame"] and rng.random() < 0.5:
            p["log_transform"] = {"@": "dict", "v": dict(zip(env["names"], p["log_transform"], strict=True))}
    elif r < 0.45 and seeded and n_jobs:
        p["fit_marginals"] = False
    if rng.random() < 0.4:
        idx = rng.sample(range(env["n"]), rng.choice([1, 2]) if env["n"] > 2 else 1)
        p["central_assets"] = [env["names"][i] for i in idx] if env["frame"] else idx
    p["dependence_method"] = E("DependenceMethod." + rng.choice(
        ["KENDALL_TAU", "KENDALL_TAU", "MUTUAL_INFORMATION", "WASSERSTEIN_DISTANCE"]))
    p["selection_criterion"] = E("SelectionCriterion." + rng.choice(["AIC", "BIC"]))
    if rng.random() < 0.3:
        p["independence_level"] = rng.choice([0.01, 0.5])
    if n_jobs:
        p["n_jobs"] = rng.choice([None, 2, 3])
    if seeded:
        p["random_state"] = rng.choice([0, 7, 42])
    return est("VineCopula", **p)


def gen_synthetic(rng, env, seeded=True):
    p = {"n_samples": rng.choice([40, 60])}
    if rng.random() < 0.75:
        p["distribution_estimator"] = gen_vine(rng, env, seeded, n_jobs=False)
    else:
        p["distribution_estimator"] = est("VineCopula", max_depth=2,
                                          marginal_candidates=[est("Gaussian")],
                                          copula_candidates=[est("GaussianCopula")],
                                          random_state=3 if seeded else None)
    if rng.random() < 0.5:
        a = rng.randrange(env["n"])
        key = env["names"][a] if env["frame"] else a
        val = rng.choice([-0.02, -0.01, 0.005])
        kind = rng.random()
        if kind < 0.5:
            cond = val
        elif kind < 0.75:
            cond = {"@": "tuple", "v": [None, val]}
        else:
            cond = A([val + 0.0001 * i for i in range(p["n_samples"])])
        if not env["frame"]:
            p["sample_args"] = {"@": "dict", "v": {"conditioning": {"@": "intdict", "k": [key], "v": [cond]}}}
        else:
            p["sample_args"] = {"@": "dict", "v": {"conditioning": {"@": "dict", "v": {key: cond}}}}
    return est("SyntheticData", **p)


def gen_factor_model(rng, env):
    p = {}
    r = rng.random()
    if r < 0.6:
        p["loading_matrix_estimator"] = est(
            "LoadingMatrixRegression",
            linear_regressor=rng.choice([est("LinearRegression"), est("LassoCV", cv=3, n_alphas=8, fit_intercept=False),
                                         est("Ridge", alpha=0.01)]),
            n_jobs=rng.choice([None, 2, 3]))
    fenv = {"n": env["factors"], "n_obs": env["n_obs"], "frame": env["frame"], "factors": 0,
            "names": [f"F{i}" for i in range(env["factors"])]}
    r = rng.random()
    if r < 0.35:
        p["factor_prior_estimator"] = gen_empirical_prior(rng, fenv)
    elif r < 0.6 and env["frame"] and env["factors"] >= 2:
        p["factor_prior_estimator"] = gen_black_litterman(rng, fenv, fenv["names"])
    elif r < 0.7:
        p["factor_prior_estimator"] = gen_synthetic(rng, fenv)
    p["residual_variance"] = rng.random() < 0.7
    return est("FactorModel", **p)


def gen_prior(rng, env, allow=("plain",)):
    opts = [("emp", 5), ("bl", 2 if env["frame"] else 0), ("syn", 0.6 if "slow" in allow else 0),
            ("fm", 2.5 if env["factors"] else 0)]
    c = weighted(rng, opts)
    if c == "emp":
        return gen_empirical_prior(rng, env, allow)
    if c == "bl":
        sub = gen_empirical_prior(rng, env) if rng.random() < 0.4 else None
        return gen_black_litterman(rng, env, sub=sub)
    if c == "syn":
        return gen_synthetic(rng, env)
    return gen_factor_model(rng, env)


def gen_uset(rng, env, which):
    if rng.random() < 0.5:
        p = {"confidence_level": rng.choice([0.8, 0.95]), "diagonal": rng.random() < 0.5}
        if rng.random() < 0.4:
            p["prior_estimator"] = gen_empirical_prior(rng, env)
        return est(f"Empirical{which}UncertaintySet", **p)
    p = {"confidence_level": rng.choice([0.8, 0.95]), "diagonal": rng.random() < 0.5,
         "n_bootstrap_samples": rng.choice([20, 40]), "seed": rng.choice([0, 5, 99]),
         "block_size": rng.choice([None, 4.0])}
    if rng.random() < 0.4:
        p["prior_estimator"] = gen_empirical_prior(rng, env)
    return est(f"Bootstrap{which}UncertaintySet", **p)


def gen_distance(rng, env):
    c = rng.choice(["PearsonDistance", "KendallDistance", "SpearmanDistance", "CovarianceDistance",
                    "DistanceCorrelation", "MutualInformation"])
    p = {}
    if c in ("PearsonDistance", "KendallDistance", "SpearmanDistance"):
        p = {"absolute": rng.random() < 0.4, "power": rng.choice([1, 2])}
    elif c == "CovarianceDistance":
        p = {"covariance_estimator": gen_cov(rng, env, 1), "absolute": rng.random() < 0.4}
    elif c == "MutualInformation":
        # Knuth's rule has no optimum for the constant series that factor models can produce
        p = {"n_bins_method": E("NBinsMethod." + rng.choice(["FREEDMAN", "KNUTH" if not env["factors"] else "FREEDMAN"])),
             "normalize": rng.random() < 0.7}
        if rng.random() < 0.5:
            p["n_bins"] = 6
    return est(c, **p)


def gen_clustering(rng, env):
    p = {"linkage_method": E("LinkageMethod." + rng.choice(["WARD", "SINGLE", "COMPLETE", "AVERAGE"]))}
    if rng.random() < 0.5 and env["n"] > 2:
        p["max_clusters"] = rng.choice([2, 3])
    return est("HierarchicalClustering", **p)


RISKS = ["VARIANCE", "SEMI_VARIANCE", "STANDARD_DEVIATION", "SEMI_DEVIATION", "MEAN_ABSOLUTE_DEVIATION",
         "FIRST_LOWER_PARTIAL_MOMENT", "CVAR", "EVAR", "WORST_REALIZATION", "CDAR", "MAX_DRAWDOWN",
         "AVERAGE_DRAWDOWN", "EDAR", "ULCER_INDEX", "GINI_MEAN_DIFFERENCE"]


def gen_bounds(rng, env, p, lo=True):
    r = rng.random()
    if r < 0.25:
        p["min_weights"] = 0.02
        p["max_weights"] = 0.9
    elif r < 0.4:
        p["min_weights"] = A([0.01] * env["n"])
        p["max_weights"] = A([0.95] * env["n"])
    elif r < 0.5 and env["frame"]:
        p["max_weights"] = {"@": "dict", "v": {n: 0.85 for n in env["names"]}}
        p["min_weights"] = {"@": "dict", "v": {env["names"][0]: 0.02}}
    elif r < 0.6:
        p["max_weights"] = [0.9] * env["n"]


def gen_costs(rng, env, p):
    if rng.random() < 0.25:
        p["transaction_costs"] = rng.choice([0.0005, A([0.0004] * env["n"])]) if not env["frame"] or rng.random() < 0.6 \
            else {"@": "dict", "v": {n: 0.0003 for n in env["names"][:2]}}
        p["previous_weights"] = A(_simplex(rng, env["n"])) if not env["frame"] or rng.random() < 0.6 \
            else {"@": "dict", "v": {n: 0.5 for n in env["names"][:2]}}
    if rng.random() < 0.2:
        p["management_fees"] = rng.choice([0.0001, A([0.0001 * (i + 1) for i in range(env["n"])])])


def gen_groups(rng, env, p):
    if rng.random() < 0.25:
        g = [rng.choice(["Equity", "Bond"]) for _ in range(env["n"])]
        g[0], g[1] = "Equity", "Bond"
        if env["frame"] and rng.random() < 0.5:
            p["groups"] = {"@": "dict", "v": {n: [x] for n, x in zip(env["names"], g, strict=True)}}
        else:
            p["groups"] = rng.choice([[g], A([g])])
        p["linear_constraints"] = ["Equity <= 0.9 * Bond + 0.8", "Equity >= 0.01"]
        if env["frame"]:
            p["linear_constraints"].append(f"{env['names'][0]} <= 0.95")
    elif rng.random() < 0.1:
        p["left_inequality"] = A([[1.0] + [0.0] * (env["n"] - 1)])
        p["right_inequality"] = A([0.9])


def gen_mean_risk(rng, env, allow=("plain",), frontier=None):
    p = {"risk_measure": E("RiskMeasure." + rng.choice(RISKS))}
    p["objective_function"] = E("ObjectiveFunction." + weighted(rng, [
        ("MINIMIZE_RISK", 4), ("MAXIMIZE_UTILITY", 2), ("MAXIMIZE_RATIO", 3), ("MAXIMIZE_RETURN", 1)]))
    if p["objective_function"]["v"].endswith("UTILITY"):
        p["risk_aversion"] = rng.choice([0.5, 2.0])
    if rng.random() < 0.55:
        p["prior_estimator"] = gen_prior(rng, env, allow)
    gen_bounds(rng, env, p)
    gen_costs(rng, env, p)
    gen_groups(rng, env, p)
    if frontier or (frontier is None and p["objective_function"]["v"].endswith("MINIMIZE_RISK") and rng.random() < 0.25):
        p["objective_function"] = E("ObjectiveFunction.MINIMIZE_RISK")
        if rng.random() < 0.6:
            p["efficient_frontier_size"] = rng.choice([2, 3, 4])
        else:
            p["min_return"] = A([0.00001 * i for i in range(1, rng.choice([3, 4]))])
    elif rng.random() < 0.15:
        p["min_return"] = 0.00001
    if rng.random() < 0.2:
        p["l2_coef"] = 0.01
    if rng.random() < 0.1:
        p["l1_coef"] = 0.001
    if rng.random() < 0.2:
        p[rng.choice(["max_cvar", "max_cdar", "max_max_drawdown", "max_ulcer_index", "max_average_drawdown",
                      "max_semi_variance", "max_mean_absolute_deviation", "max_worst_realization", "max_variance",
                      "max_standard_deviation", "max_semi_deviation", "max_first_lower_partial_moment", "max_evar", "max_edar",
                      "max_gini_mean_difference"])] = 0.9
    if rng.random() < 0.12:
        p["mu_uncertainty_set_estimator"] = gen_uset(rng, env, "Mu")
    if rng.random() < 0.35 and p["risk_measure"]["v"].endswith(".VARIANCE") and env["n"] <= 4:
        p["covariance_uncertainty_set_estimator"] = gen_uset(rng, env, "Covariance")
    if rng.random() < 0.1:
        p["budget"] = None
        p["min_budget"] = 0.5
        p["max_budget"] = 1.0
    if rng.random() < 0.1:
        p["risk_free_rate"] = 0.00005
    if rng.random() < 0.1:
        p["min_acceptable_return"] = 0.0001 if rng.random() < 0.5 else A([0.0001] * env["n"])
    if rng.random() < 0.15:
        p["solver_params"] = {"@": "dict", "v": {"tol_gap_abs": 1e-8}}
    if rng.random() < 0.2:
        for b in ("cvar_beta", "evar_beta", "cdar_beta", "edar_beta"):
            p[b] = rng.choice([0.9, 0.8, 0.7])
    if rng.random() < 0.1:
        p["max_turnover"] = 0.9
        p["previous_weights"] = A(_simplex(rng, env["n"]))
    if rng.random() < 0.1 and "min_weights" not in p:
        p["min_weights"] = -0.3
        if rng.random() < 0.5:
            p["max_short"] = 0.4
            p["max_long"] = 1.4
    if rng.random() < 0.06:
        p["overwrite_expected_return"] = {"@": "func", "v": "ret_first"}
    if rng.random() < 0.08:
        p["scale_objective"] = 10.0
        p["scale_constraints"] = 2.0
    if rng.random() < 0.06 and "mip" in allow and not env["factors"] and "solver_params" not in p:
        p["solver"] = "SCIP"
        p["risk_measure"] = E("RiskMeasure." + rng.choice(["CVAR", "MEAN_ABSOLUTE_DEVIATION", "WORST_REALIZATION"]))
        p["objective_function"] = E("ObjectiveFunction.MINIMIZE_RISK")
        r = rng.random()
        if r < 0.4:
            p["cardinality"] = 2
        elif r < 0.65:
            p["threshold_long"] = 0.1
        elif r < 0.8:
            p["threshold_long"], p["threshold_short"], p["min_weights"] = 0.1, -0.05, -0.3
            p["max_weights"] = 1.0
        else:
            p["groups"] = [[("Equity", "Bond")[i % 2] for i in range(env["n"])]]
            p["group_cardinalities"] = {"@": "dict", "v": {"Equity": 1, "Bond": 1}}
            p["linear_constraints"] = None
            p["min_weights"] = 0.0
            p["max_weights"] = 1.0
    if rng.random() < 0.1:
        p["add_objective"] = {"@": "func", "v": "obj_tilt"}
    if rng.random() < 0.1:
        p["add_constraints"] = {"@": "func", "v": "con_cap"}
    if rng.random() < 0.15:
        p["portfolio_params"] = {"@": "dict", "v": {"name": "mr", "annualized_factor": 12}}
    return est("MeanRisk", **p)


def gen_risk_budgeting(rng, env, allow=("plain",)):
    p = {"risk_measure": E("RiskMeasure." + rng.choice([r for r in RISKS if r not in ("GINI_MEAN_DIFFERENCE",)]))}
    r = rng.random()
    if r < 0.5:
        b = [1.0] * env["n"]
        for i in range(env["n"]):
            b[i] = rng.choice([1.0, 2.0, 0.5, 0.0])
        b[0] = 1.0
        b[1] = 1.0
        p["risk_budget"] = A(b)
    elif r < 0.7 and env["frame"]:
        p["risk_budget"] = {"@": "dict", "v": {n: 1.0 + i for i, n in enumerate(env["names"])}}
    if rng.random() < 0.5:
        p["prior_estimator"] = gen_prior(rng, env, allow)
    if rng.random() < 0.3:
        p["min_return"] = 0.00001
    gen_costs(rng, env, p)
    if rng.random() < 0.2:
        for b in ("cvar_beta", "evar_beta", "cdar_beta", "edar_beta"):
            p[b] = rng.choice([0.9, 0.8, 0.7])
    if rng.random() < 0.1:
        p["min_acceptable_return"] = 0.0001
    if rng.random() < 0.15:
        p["portfolio_params"] = {"@": "dict", "v": {"name": "rb", "compounded": True}}
    if rng.random() < 0.15:
        gen_groups(rng, env, p)
    if rng.random() < 0.1:
        p["max_weights"] = rng.choice([0.9, A([0.9] * env["n"])])
    return est("RiskBudgeting", **p)


def gen_max_div(rng, env, allow=("plain",)):
    p = {}
    gen_bounds(rng, env, p)
    gen_groups(rng, env, p)
    if rng.random() < 0.4:
        gen_costs(rng, env, p)
    if rng.random() < 0.5:
        p["prior_estimator"] = gen_prior(rng, env, allow)
    return est("MaximumDiversification", **p)


def gen_dr_cvar(rng, env):
    p = {"wasserstein_ball_radius": rng.choice([0.01, 0.02]), "risk_aversion": rng.choice([0.5, 1.0])}
    gen_bounds(rng, env, p)
    if rng.random() < 0.3:
        gen_groups(rng, env, p)
    if rng.random() < 0.3:
        p["prior_estimator"] = est("EmpiricalPrior", mu_estimator=est("EWMu", alpha=0.2))
    return est("DistributionallyRobustCVaR", **p)


def gen_hier(rng, env, allow=("plain",)):
    c = rng.choice(["HierarchicalRiskParity", "HierarchicalEqualRiskContribution"])
    rm = rng.choice(["RiskMeasure." + r for r in RISKS] + ["ExtraRiskMeasure.VALUE_AT_RISK",
                                                            "ExtraRiskMeasure.DRAWDOWN_AT_RISK",
                                                            "ExtraRiskMeasure.FOURTH_CENTRAL_MOMENT"])
    p = {"risk_measure": E(rm)}
    if rng.random() < 0.5:
        p["prior_estimator"] = gen_prior(rng, env, allow)
    if rng.random() < 0.6:
        p["distance_estimator"] = gen_distance(rng, env)
    if rng.random() < 0.6:
        p["hierarchical_clustering_estimator"] = gen_clustering(rng, env)
    if rng.random() < 0.3:
        p["max_weights"] = rng.choice([0.7, A([0.8] * env["n"])])
    if rng.random() < 0.2:
        p["min_weights"] = A([0.01] * env["n"])
    gen_costs(rng, {**env, "frame": False}, p)
    if rng.random() < 0.1:
        p["portfolio_params"] = {"@": "dict", "v": {"name": "hi", "tag": "t", "risk_free_rate": 0.0002}}
    return est(c, **p)


def gen_naive(rng, env, allow=("plain",)):
    c = rng.choice(["EqualWeighted", "InverseVolatility"])
    p = {}
    if c == "InverseVolatility" and rng.random() < 0.6:
        p["prior_estimator"] = gen_prior(rng, env, allow)
    return est(c, **p)


def gen_inner(rng, env, few=False, allow=("plain",)):
    """A cheap optimisation without asset-specific input; ``few``: valid for two assets too."""
    if "iv" in allow and rng.random() < 0.7:
        return est("MeanRisk", prior_estimator=est("EmpiricalPrior", mu_estimator=gen_weighted_mu(rng)),
                   objective_function=E("ObjectiveFunction." + rng.choice(["MAXIMIZE_UTILITY", "MAXIMIZE_RATIO"])))
    r = rng.random() * (0.8 if few and rng.random() < 0.95 else 1.0)
    if r < 0.3:
        return est("MeanRisk", risk_measure=E("RiskMeasure." + rng.choice(RISKS)),
                   objective_function=E("ObjectiveFunction." + rng.choice(["MINIMIZE_RISK", "MAXIMIZE_RATIO"])))
    if r < 0.45:
        return est("RiskBudgeting", risk_measure=E("RiskMeasure." + rng.choice(["VARIANCE", "CVAR", "CDAR"])))
    if r < 0.6:
        return est("InverseVolatility", prior_estimator=est("EmpiricalPrior", covariance_estimator=gen_cov(rng, env, 1)))
    if r < 0.7:
        return est("MaximumDiversification")
    if r < 0.8:
        return est("EqualWeighted")
    return est("HierarchicalRiskParity", risk_measure=E("RiskMeasure." + rng.choice(["VARIANCE", "CVAR"])))


def gen_inner_cv(rng, env):
    r = rng.random()
    if r < 0.3:
        return rng.choice([2, 3])
    if r < 0.5:
        return est("KFold", n_splits=rng.choice([2, 3]))
    if r < 0.6:
        return "ignore"
    if r < 0.75:
        return est("CombinatorialPurgedCV", n_folds=rng.choice([3, 4]), n_test_folds=2)
    return None


def gen_nco(rng, env, jobs=True, allow=("plain",)):
    p = {}
    if rng.random() < 0.7 or "iv" in allow:
        p["inner_estimator"] = gen_inner(rng, env, few=True, allow=allow)
    if rng.random() < 0.7:
        p["outer_estimator"] = gen_inner(rng, env, few=True)
    if rng.random() < 0.4:
        p["distance_estimator"] = gen_distance(rng, env)
    if rng.random() < 0.7:
        p["clustering_estimator"] = est("HierarchicalClustering", max_clusters=rng.choice([2, 3])) \
            if rng.random() < 0.7 or env["n"] < 3 else est("KMeans", n_clusters=2, random_state=0, n_init=1)
    cv = gen_inner_cv(rng, env)
    if cv is not None:
        p["cv"] = cv
        if isinstance(cv, dict) and cv["cls"] == "CombinatorialPurgedCV":
            p["quantile"] = rng.choice([0.3, 0.5])
            p["quantile_measure"] = E(rng.choice(["RatioMeasure.SHARPE_RATIO", "RatioMeasure.SORTINO_RATIO",
                                                  "RiskMeasure.CVAR"]))
    if jobs:
        p["n_jobs"] = rng.choice([None, 2, 3])
    return est("NestedClustersOptimization", **p)


def gen_stacking(rng, env, jobs=True, allow=("plain",)):
    k = rng.choice([2, 3])
    subs = [{"@": "tuple", "v": [f"m{i}", gen_inner(rng, env, allow=allow)]} for i in range(k)]
    p = {"estimators": subs}
    if rng.random() < 0.7:
        p["final_estimator"] = gen_inner(rng, env, few=True)
    cv = gen_inner_cv(rng, env)
    if cv is not None:
        p["cv"] = cv
        if isinstance(cv, dict) and cv["cls"] == "CombinatorialPurgedCV":
            p["quantile"] = rng.choice([0.3, 0.5])
    if rng.random() < 0.1:
        p["cv"] = "prefit"
        p.pop("quantile", None)
    if jobs:
        p["n_jobs"] = rng.choice([None, 2, 3])
    if p.get("cv") == "prefit":
        p["cv"] = 3
    return est("StackingOptimization", **p)


def gen_opt(rng, env, allow=("plain",), ensembles=True):
    c = weighted(rng, [("mr", 6), ("rb", 2), ("md", 1.5), ("dr", 0.4 if env["n_obs"] <= 48 else 0.1),
                       ("hier", 3), ("naive", 1.5), ("nco", 1.5 if ensembles else 0),
                       ("stack", 1.5 if ensembles else 0)])
    return {
        "mr": lambda: gen_mean_risk(rng, env, allow),
        "rb": lambda: gen_risk_budgeting(rng, env, allow),
        "md": lambda: gen_max_div(rng, env, allow),
        "dr": lambda: gen_dr_cvar(rng, env),
        "hier": lambda: gen_hier(rng, env, allow),
        "naive": lambda: gen_naive(rng, env, allow),
        "nco": lambda: gen_nco(rng, env, allow=allow),
        "stack": lambda: gen_stacking(rng, env, allow=allow),
    }[c]()


GRIDS = {
    "MeanRisk": [("risk_measure", [E("RiskMeasure.VARIANCE"), E("RiskMeasure.CVAR"), E("RiskMeasure.CDAR")]),
                 ("l2_coef", [0.0, 0.05, 1.0]),
                 ("prior_estimator", [est("EmpiricalPrior"), est("EmpiricalPrior", mu_estimator=est("ShrunkMu"),
                                                                 covariance_estimator=est("LedoitWolf"))]),
                 ("prior_estimator__covariance_estimator", [est("GerberCovariance"), est("EWCovariance", alpha=0.3)])],
    "RiskBudgeting": [("risk_measure", [E("RiskMeasure.VARIANCE"), E("RiskMeasure.CVAR"), E("RiskMeasure.MAX_DRAWDOWN")])],
    "HierarchicalRiskParity": [("risk_measure", [E("RiskMeasure.VARIANCE"), E("RiskMeasure.CVAR")]),
                               ("distance_estimator", [est("PearsonDistance"), est("KendallDistance"),
                                                       est("DistanceCorrelation")])],
    "InverseVolatility": [("prior_estimator", [est("EmpiricalPrior"),
                                               est("EmpiricalPrior", covariance_estimator=est("EWCovariance", alpha=0.4)),
                                               est("EmpiricalPrior", covariance_estimator=est("OAS"))])],
}


def gen_search(rng, env):
    cls = rng.choice(["MeanRisk", "MeanRisk", "RiskBudgeting", "HierarchicalRiskParity", "InverseVolatility"])
    keys = rng.sample(GRIDS[cls], rng.choice([1, min(2, len(GRIDS[cls]))]))
    base = est(cls)
    if any(k.startswith("prior_estimator__") for k, _ in keys):
        keys = [kv for kv in keys if kv[0] != "prior_estimator"]
        base = est(cls, prior_estimator=est("EmpiricalPrior"))
    grid = {}
    for k, vals in keys:
        grid[k] = rng.sample(vals, rng.choice([2, len(vals)]))
    r = rng.random()
    if r < 0.5:
        cv = est("WalkForward", train_size=rng.choice([15, 20, 25]), test_size=rng.choice([8, 10]))
    else:
        cv = est("KFold", n_splits=rng.choice([2, 3]))
    p = {"estimator": base, "cv": cv, "error_score": "raise"}
    if rng.random() < 0.6:
        p["scoring"] = {"@": "scorer", "v": E(rng.choice(
            ["RatioMeasure.SORTINO_RATIO", "RiskMeasure.CVAR", "PerfMeasure.MEAN", "RatioMeasure.CALMAR_RATIO"]))}
    if rng.random() < 0.2:
        p["return_train_score"] = True
    if rng.random() < 0.75:
        return est("GridSearchCV", param_grid={"@": "dict", "v": grid}, **p)
    return est("RandomizedSearchCV", param_distributions={"@": "dict", "v": grid}, n_iter=2,
               random_state=rng.choice([0, 4]), **p)


def gen_univariate(rng):
    c = rng.choice(["Gaussian", "StudentT", "JohnsonSU", "NormalInverseGaussian"])
    p = {"random_state": rng.choice([0, 3, 11])}
    if rng.random() < 0.3:
        p["loc"] = 0.0
    return est(c, **p)


def gen_copula(rng):
    c = rng.choice(["GaussianCopula", "StudentTCopula", "ClaytonCopula", "GumbelCopula", "JoeCopula",
                    "IndependentCopula"])
    p = {"random_state": rng.choice([0, 3, 11])}
    if c != "IndependentCopula":
        p["itau"] = rng.random() < 0.7
    return est(c, **p)


def gen_preselection(rng, env):
    c = rng.choice(["DropCorrelated", "DropZeroVariance", "SelectComplete", "SelectKExtremes",
                    "SelectNonDominated", "SelectNonExpiring"] if env["frame"] else
                   ["DropCorrelated", "DropZeroVariance", "SelectComplete", "SelectKExtremes", "SelectNonDominated"])
    p = {}
    if c == "DropCorrelated":
        p = {"threshold": rng.choice([0.3, 0.6, 0.9]), "absolute": rng.random() < 0.3}
    elif c == "SelectKExtremes":
        p = {"k": max(2, env["n"] - rng.choice([0, 1, 2])), "highest": rng.random() < 0.6}
        if rng.random() < 0.5:
            p["measure"] = E(rng.choice(["RiskMeasure.CVAR", "PerfMeasure.MEAN", "RatioMeasure.SORTINO_RATIO"]))
    elif c == "SelectNonDominated":
        p = {"min_n_assets": rng.choice([None, 2, 3])}
        if rng.random() < 0.5:
            p["fitness_measures"] = [E("PerfMeasure.MEAN"), E("RiskMeasure.CVAR")]
    elif c == "SelectComplete":
        p = {"drop_assets_with_internal_nan": rng.random() < 0.5}
    elif c == "SelectNonExpiring":
        known = rng.choice([1.0, 0.6])
        p = {"expiration_dates": {"@": "dates", "v": {n: "2021-02-15" if i % 3 == 2 else "2030-01-01"
                                                       for i, n in enumerate(env["names"]) if rng.random() < known}},
             "expiration_lookahead": {"@": "offset", "v": 5}}
    return est(c, **p)


KINDS = ["opt", "cov", "mu", "prior", "uset_mu", "uset_cov", "distance", "cluster", "presel", "uni", "cop", "vine", "pipe"]


def _with_bench(rng, spec):
    if spec["cls"] in ("MeanRisk", "MaximumDiversification") and not uses(spec, "FactorModel") and rng.random() < 0.08:
        spec["p"]["max_tracking_error"] = rng.choice([0.5, 0.05])
    return spec


def gen_any(rng, env, kinds=None, allow=("plain",)):
    """(kind, description) of any estimator."""
    kind = weighted(rng, [(k, w) for k, w in [
        ("opt", 8), ("cov", 2), ("mu", 1.2), ("prior", 3), ("uset_mu", 0.7), ("uset_cov", 0.7),
        ("distance", 1.2), ("cluster", 0.8), ("presel", 1.2), ("uni", 1), ("cop", 1.2), ("vine", 1),
        ("pipe", 1)] if kinds is None or k in kinds])
    g = {
        "opt": lambda: _with_bench(rng, gen_opt(rng, env, (*allow, "mip"))),
        "cov": lambda: gen_cov(rng, env, 0, (*allow, "slow")),
        "mu": lambda: gen_mu(rng, env, allow),
        "prior": lambda: gen_prior(rng, env, (*allow, "slow")),
        "uset_mu": lambda: gen_uset(rng, env, "Mu"),
        "uset_cov": lambda: gen_uset(rng, env, "Covariance"),
        "distance": lambda: gen_distance(rng, env),
        "cluster": lambda: gen_clustering(rng, env),
        "presel": lambda: gen_preselection(rng, env),
        "uni": lambda: gen_univariate(rng),
        "cop": lambda: gen_copula(rng),
        "vine": lambda: gen_vine(rng, env),
        "pipe": lambda: {"@": "pipe", "steps": [["sel", gen_preselection(rng, env)], ["opt", gen_inner(rng, env, allow=allow)]]},
    }[kind]()
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2, 3])):
            g = tweak(g, rng)[0]
    return kind, g


# ------------------------------------------------------- one parameter changed
_B = [False, True]
_TB = [0.95, 0.9, 0.8, 0.7]
TWEAKS = {
    "EmpiricalMu": {"window_size": [None, 20, 30]},
    "EWMu": {"alpha": [0.1, 0.2, 0.4], "window_size": [None, 30]},
    "EquilibriumMu": {"risk_aversion": [1.0, 1.5, 3.0]},
    "ShrunkMu": {"vol_weighted_target": _B,
                 "method": [E("ShrunkMuMethods." + m) for m in ("JAMES_STEIN", "BAYES_STEIN", "BODNAR_OKHRIN")]},
    "EmpiricalCovariance": {"window_size": [None, 25, 35], "ddof": [0, 1], "higham": _B, "nearest": _B, "higham_max_iteration": [100, 60]},
    "EWCovariance": {"alpha": [0.1, 0.2, 0.4], "window_size": [None, 30], "higham": _B, "nearest": _B},
    "GerberCovariance": {"threshold": [0.3, 0.4, 0.5], "psd_variant": _B, "window_size": [None, 35], "nearest": _B},
    "DenoiseCovariance": {"higham": _B, "nearest": _B},
    "DetoneCovariance": {"n_markets": [1, 2], "higham": _B, "nearest": _B},
    "LedoitWolf": {"assume_centered": _B, "block_size": [1000, 2], "store_precision": _B, "nearest": _B},
    "OAS": {"assume_centered": _B, "store_precision": _B, "nearest": _B},
    "WeightedMu": {"power": [0.5, 1.0, 2.0]},
    "ShrunkCovariance": {"shrinkage": [0.1, 0.2, 0.5], "assume_centered": _B, "store_precision": _B},
    "ImpliedCovariance": {"annualized_factor": [252, 365.0, 12], "window_size": [10, 12],
                          "volatility_risk_premium_adj": [None, 1.1, 1.3], "higham": _B, "nearest": _B},
    "LinearRegression": {"fit_intercept": _B, "positive": _B},
    "Ridge": {"fit_intercept": _B, "alpha": [0.01, 0.1, 2.0]},
    "LassoCV": {"fit_intercept": _B, "n_alphas": [8, 5], "cv": [3, 2]},
    "EmpiricalPrior": {"mu_estimator": [None, est("EmpiricalMu"), est("ShrunkMu")],
                       "covariance_estimator": [None, est("EmpiricalCovariance", ddof=0), est("OAS")]},
    "BlackLitterman": {"tau": [0.05, 0.1, 0.3], "risk_free_rate": [0, 0.0001], "view_confidences": [None]},
    "SyntheticData": {"n_samples": [40, 50, 60]},
    "FactorModel": {"residual_variance": _B, "higham": _B, "max_iteration": [100, 60],
                    "factor_prior_estimator": [None, est("EmpiricalPrior", mu_estimator=est("EWMu", alpha=0.3))]},
    "EmpiricalMuUncertaintySet": {"confidence_level": [0.8, 0.9, 0.95], "diagonal": _B},
    "EmpiricalCovarianceUncertaintySet": {"confidence_level": [0.8, 0.9, 0.95], "diagonal": _B},
    "BootstrapMuUncertaintySet": {"confidence_level": [0.8, 0.9], "diagonal": _B, "seed": [0, 1, 2],
                                  "n_bootstrap_samples": [20, 30], "block_size": [None, 3.0, 5.0]},
    "BootstrapCovarianceUncertaintySet": {"confidence_level": [0.8, 0.9], "diagonal": _B, "seed": [0, 1, 2],
                                          "n_bootstrap_samples": [20, 30], "block_size": [None, 3.0, 5.0]},
    "PearsonDistance": {"absolute": _B, "power": [1, 2, 3]},
    "KendallDistance": {"absolute": _B, "power": [1, 2, 3]},
    "SpearmanDistance": {"absolute": _B, "power": [1, 2, 3]},
    "CovarianceDistance": {"absolute": _B, "power": [1, 2, 3]},
    "DistanceCorrelation": {"threshold": [0.5, 0.3]},
    "MutualInformation": {"n_bins": [4, 6], "normalize": _B},
    "HierarchicalClustering": {"max_clusters": [None, 2, 3],
                               "linkage_method": [E("LinkageMethod." + m) for m in ("WARD", "SINGLE", "COMPLETE")]},
    "MeanRisk": {"risk_measure": [E("RiskMeasure." + r) for r in ("VARIANCE", "CVAR", "CDAR", "SEMI_DEVIATION")],
                 "objective_function": [E("ObjectiveFunction.MINIMIZE_RISK"), E("ObjectiveFunction.MAXIMIZE_RATIO")],
                 "cvar_beta": _TB, "cdar_beta": _TB, "evar_beta": [0.95, 0.8], "edar_beta": [0.95, 0.8],
                 "l2_coef": [0.0, 0.01, 0.3], "l1_coef": [0.0, 0.002], "risk_aversion": [1.0, 3.0],
                 "max_weights": [1.0, 0.7], "min_weights": [0.0, 0.01], "min_acceptable_return": [None, 0.0002],
                 "risk_free_rate": [0.0, 0.0001], "min_return": [None, 0.00002], "transaction_costs": [0.0, 0.0003],
                 "management_fees": [0.0, 0.0002], "add_objective": [None, {"@": "func", "v": "obj_tilt"}],
                 "add_constraints": [None, {"@": "func", "v": "con_cap"}],
                 "portfolio_params": [None, {"@": "dict", "v": {"name": "mr2", "cvar_beta": 0.7}}]},
    "RiskBudgeting": {"risk_measure": [E("RiskMeasure." + r) for r in ("VARIANCE", "CVAR", "CDAR")],
                      "cvar_beta": _TB, "cdar_beta": _TB, "risk_budget": [None], "min_weights": [0.0, 0.01],
                      "risk_free_rate": [0.0, 0.0001], "min_return": [None, 0.00002],
                      "scale_objective": [None, 5.0], "scale_constraints": [None, 2.0], "max_weights": [1.0, 0.8],
                      "solver_params": [None, {"@": "dict", "v": {"tol_gap_abs": 1e-8}}],
                      "add_objective": [None, {"@": "func", "v": "obj_tilt"}],
                      "add_constraints": [None, {"@": "func", "v": "con_cap"}]},
    "MaximumDiversification": {"l2_coef": [0.0, 0.01, 0.3], "l1_coef": [0.0, 0.002], "max_weights": [1.0, 0.7],
                               "budget": [1.0, 0.9], "transaction_costs": [0.0, 0.0003], "management_fees": [0.0, 0.0002],
                               "risk_free_rate": [0.0, 0.0001], "solver_params": [None, {"@": "dict", "v": {"tol_gap_abs": 1e-8}}],
                               "add_constraints": [None, {"@": "func", "v": "con_cap"}],
                               "portfolio_params": [None, {"@": "dict", "v": {"name": "md2", "tag": "t"}}]},
    "DistributionallyRobustCVaR": {"min_weights": [0.0, -0.1], "budget": [1.0, 0.9], "risk_free_rate": [0.0, 0.0001],
                                   "solver_params": [None, {"@": "dict", "v": {"tol_gap_abs": 1e-8}}],
                                   "add_constraints": [None, {"@": "func", "v": "con_cap"}],
                                   "portfolio_params": [None, {"@": "dict", "v": {"name": "dr2", "tag": "t"}}],
                                   "cvar_beta": _TB, "risk_aversion": [0.5, 1.0, 2.0],
                                   "wasserstein_ball_radius": [0.01, 0.03], "max_weights": [1.0, 0.8]},
    "HierarchicalRiskParity": {"risk_measure": [E("RiskMeasure.VARIANCE"), E("RiskMeasure.CVAR"), E("RiskMeasure.CDAR")],
                               "max_weights": [1.0, 0.7], "distance_estimator": [None, est("KendallDistance")],
                               "portfolio_params": [None, {"@": "dict", "v": {"name": "h2"}}]},
    "HierarchicalEqualRiskContribution": {"risk_measure": [E("RiskMeasure.VARIANCE"), E("RiskMeasure.CVAR")],
                                          "max_weights": [1.0, 0.7], "solver": ["CLARABEL"],
                                          "solver_params": [None, {"@": "dict", "v": {"tol_gap_abs": 1e-8}}],
                                          "portfolio_params": [None, {"@": "dict", "v": {"name": "he2", "tag": "t"}}],
                                          "distance_estimator": [None, est("KendallDistance")]},
    "InverseVolatility": {"prior_estimator": [None, est("EmpiricalPrior", covariance_estimator=est("OAS"))],
                          "portfolio_params": [None, {"@": "dict", "v": {"name": "iv2"}}]},
    "EqualWeighted": {"portfolio_params": [None, {"@": "dict", "v": {"name": "ew2", "tag": "x"}}]},
    "NestedClustersOptimization": {"cv": [None, 2, 3], "outer_estimator": [est("EqualWeighted"), est("InverseVolatility")],
                                   "inner_estimator": [est("EqualWeighted"), est("InverseVolatility")],
                                   "portfolio_params": [None, {"@": "dict", "v": {"name": "n2", "tag": "t"}}],
                                   "quantile": [0.5, 0.2], "quantile_measure": [E("RatioMeasure.SHARPE_RATIO"), E("PerfMeasure.MEAN")]},
    "StackingOptimization": {"portfolio_params": [None, {"@": "dict", "v": {"name": "s2", "tag": "t"}}],
                             "quantile": [0.5, 0.2], "quantile_measure": [E("RatioMeasure.SHARPE_RATIO"), E("PerfMeasure.MEAN")],
                             "cv": [None, 2, 3], "final_estimator": [est("EqualWeighted"), est("InverseVolatility")]},
    "Gaussian": {"loc": [None, 0.0, 0.001], "scale": [None, 0.01], "random_state": [0, 1, 2]},
    "StudentT": {"loc": [None, 0.0], "scale": [None, 0.01], "random_state": [0, 1, 2]},
    "JohnsonSU": {"loc": [None, 0.0], "scale": [None, 0.01], "random_state": [0, 1, 2]},
    "NormalInverseGaussian": {"loc": [None, 0.0], "scale": [None, 0.01], "random_state": [0, 1, 2]},
    "GaussianCopula": {"itau": _B, "kendall_tau": [None, 0.3], "tolerance": [1e-4, 1e-3], "random_state": [0, 1, 2]},
    "StudentTCopula": {"itau": _B, "kendall_tau": [None, 0.3], "tolerance": [1e-4, 1e-3], "random_state": [0, 1, 2]},
    "ClaytonCopula": {"itau": _B, "kendall_tau": [None, 0.3], "tolerance": [1e-4, 1e-3], "random_state": [0, 1, 2]},
    "GumbelCopula": {"itau": _B, "kendall_tau": [None, 0.3], "tolerance": [1e-4, 1e-3], "random_state": [0, 1, 2]},
    "JoeCopula": {"itau": _B, "kendall_tau": [None, 0.3], "tolerance": [1e-4, 1e-3], "random_state": [0, 1, 2]},
    "VineCopula": {"max_depth": [2, 3], "fit_marginals": [True], "log_transform": _B, "random_state": [0, 1, 2], "central_assets": [None],
                   "independence_level": [0.05, 0.4], "copula_candidates": [[est("GaussianCopula")], [est("JoeCopula")]],
                   "selection_criterion": [E("SelectionCriterion.AIC"), E("SelectionCriterion.BIC")]},
    "DropCorrelated": {"threshold": [0.3, 0.5, 0.8], "absolute": _B},
    "SelectKExtremes": {"k": [2, 3], "highest": _B, "measure": [E("RiskMeasure.CVAR"), E("RatioMeasure.SORTINO_RATIO")]},
    "DropZeroVariance": {"threshold": [1e-8, 1e-4]},
    "SelectComplete": {"drop_assets_with_internal_nan": _B},
    "SelectNonDominated": {"min_n_assets": [None, 2, 3], "threshold": [-0.5, 0.5]},
}


def _paths(v, path=()):
    """(path for ``set_params``, description) of every estimator inside ``v``."""
    if not isinstance(v, dict):
        return
    if v.get("@") == "pipe":
        for name, s in v["steps"]:
            yield from _paths(s, (*path, name))
    if v.get("@") == "est":
        if v["cls"] in TWEAKS:
            yield path, v
        for k, x in v["p"].items():
            if k == "estimators":
                for s in x:
                    yield from _paths(s["v"][1], (*path, s["v"][0]))
            elif isinstance(x, dict) and x.get("@") == "est":
                yield from _paths(x, (*path, k))


def apply(spec, name, value):
    """The description after ``set_params(name=value)``, or None if there is no such place in it."""
    new = canon.clone_json(spec)
    *path, k = name.split("__")
    for p, node in _paths(new):
        if list(p) == path:
            node["p"][k] = canon.clone_json(value)
            return new
    return None


def tweak(spec, rng):
    """The description with one parameter anywhere inside it changed: (new description, name for set_params, value)."""
    new = canon.clone_json(spec)
    nodes = list(_paths(new))
    for _ in range(20):
        if not nodes:
            break
        path, node = rng.choice(nodes)
        k = rng.choice(list(TWEAKS[node["cls"]]))
        v = rng.choice(TWEAKS[node["cls"]][k])
        if k not in node["p"] or node["p"][k] != v:
            if k == "portfolio_params" and not path and node["p"].get(k) is None and v is None:
                continue
            node["p"][k] = canon.clone_json(v)
            return new, "__".join([*path, k]), v
    return new, None, None


# ------------------------------------------------------------------ operations
def needs_routing(spec):
    return uses(spec, "ImpliedCovariance", "WeightedMu")


@contextlib.contextmanager
def routing(spec):
    import sklearn

    if needs_routing(spec):
        with sklearn.config_context(enable_metadata_routing=True):
            yield
    else:
        yield


def holes(data):
    """The same data with missing values: assets that start late, end early or pause."""
    if getattr(data, "_holes", None) is None:
        X = data.X.copy()
        arr = X.to_numpy(copy=True) if hasattr(X, "iloc") else X
        arr[:3, 1] = np.nan
        arr[5:7, 0] = np.nan
        if arr.shape[1] > 4:
            arr[-2:, 3] = np.nan
        data._holes = pd.DataFrame(arr, index=X.index, columns=X.columns) if hasattr(X, "iloc") else arr
    return data._holes


def fit_args(kind, spec, data):
    """Positional and keyword arguments of ``fit`` for this estimator."""
    import skfolio.distribution as skd

    X = data.X
    if kind == "uni":
        X = X.iloc[:, [0]] if hasattr(X, "iloc") else X[:, [0]]
        return (X,), {}
    if kind == "cop":
        arr = np.asarray(X)[:, :2]
        return (skd.compute_pseudo_observations(arr),), {}
    if kind == "cluster":
        c = np.corrcoef(np.asarray(X).T)
        dist = np.sqrt(np.clip(0.5 * (1 - c), 0, None))
        np.fill_diagonal(dist, 0.0)
        if hasattr(X, "columns"):
            dist = pd.DataFrame(dist, columns=X.columns)
        return (dist,), {}
    if kind == "presel" and spec["cls"] in ("SelectComplete", "SelectNonExpiring"):
        return (holes(data),), {}
    if kind == "vine" and spec["p"].get("fit_marginals") is False:
        U = skd.compute_pseudo_observations(np.asarray(X))
        if hasattr(X, "columns"):
            U = pd.DataFrame(U, columns=X.columns, index=X.index)
        return (U,), {}
    kw = {}
    if needs_routing(spec):
        kw["implied_vol"] = data.iv
    if uses(spec, "FactorModel"):
        return (X, data.y), kw
    if kind == "opt" and spec["p"].get("max_tracking_error"):
        return (X, data.bench), kw
    return (X,), kw


def fit(kind, spec, e, data):
    args, kw = fit_args(kind, spec, data)
    with routing(spec):
        return e.fit(*args, **kw)


def observe(kind, spec, e, data, light=False):
    """What a user sees of a fitted estimator, by value."""
    args, kw = fit_args(kind, spec, data)
    X = args[0]
    out = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "pipe":
            out["steps"] = [canon.describe(s) for _, s in e.steps]
        else:
            out["model"] = canon.describe(e)
        if light:
            return out
        if kind in ("opt", "pipe"):
            out["predict"] = canon.describe(e.predict(X))
            with routing(spec):
                out["score"] = canon.describe(e.score(X))
        elif kind == "presel":
            out["support"] = canon.describe(e.get_support())
            out["transform"] = canon.describe(e.transform(X))
            out["names"] = canon.describe(e.get_feature_names_out())
        elif kind == "uni":
            out["sample"] = canon.describe(e.sample(5))
            out["score"] = canon.describe(e.score_samples(X))
            out["cdf"] = canon.describe(e.cdf(np.asarray(X)[:5]))
            out["ppf"] = canon.describe(e.ppf(np.array([[0.1], [0.5], [0.9]])))
            out["aic"] = canon.describe(e.aic(X))
        elif kind == "cop":
            out["sample"] = canon.describe(e.sample(5))
            out["score"] = canon.describe(e.score_samples(X))
            out["cdf"] = canon.describe(e.cdf(X[:5]))
            out["pd"] = canon.describe(e.partial_derivative(X[:5], first_margin=True))
            out["ipd"] = canon.describe(e.inverse_partial_derivative(X[:5]))
            out["tail"] = canon.describe([e.lower_tail_dependence, e.upper_tail_dependence])
            out["aic"] = canon.describe(e.aic(X))
        elif kind == "vine":
            out["sample"] = canon.describe(e.sample(6))
            out["score"] = canon.describe(e.score_samples(X))
            out["aic"] = canon.describe(e.aic(X))
    return out


def tolerance(spec):
    """Rounding allowance: solver-based results are equal up to solver rounding.

    Relative changes of the data by 1e-15 were seen to move risk budgets by 2e-5.
    """
    if uses(spec, "RiskBudgeting"):
        return {"rtol": 1e-3, "atol": 1e-5}
    if uses(spec, "MeanRisk", "MaximumDiversification", "DistributionallyRobustCVaR"):
        return {"rtol": 5e-5, "atol": 2e-6}
    return {"rtol": 1e-9, "atol": 1e-11}
