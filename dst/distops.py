"""Queries on fitted distributions (univariate, bivariate copula, vine copula)."""

import numpy as np

from dst import canon, catalog


def gen_conditioning(rng, env, n, valid=True):
    k = rng.choice([1, 1, 2]) if env["n"] > 3 else 1
    idx = rng.sample(range(env["n"]), k)
    out = []
    for i in idx:
        key = env["names"][i] if env["frame"] and rng.random() < 0.8 else i
        out.append([key, i, rng.choice(["value", "bounds", "lower", "upper", "array", "array"]),
                    round(rng.uniform(-0.02, 0.02), 5)])
    if len({isinstance(o[0], str) for o in out}) > 1:
        for o in out:
            o[0] = o[1]
    return out


def gen(rng, kind, env, bad=0.15):
    """One query; ``bad``: probability of arguments that are rejected."""
    if kind == "vine":
        op = rng.choice(["sample", "sample", "cond", "cond", "cond", "score", "score", "aic", "bic", "mean_score",
                         "n_params", "repr", "scatter", "marginals", "clear"])
    elif kind == "cop":
        op = rng.choice(["sample", "sample", "score", "cdf", "pd", "ipd", "tail", "conc", "aic", "bic", "repr", "mean_score",
                         "plot_tail", "plot2d"])
    else:
        op = rng.choice(["sample", "sample", "score", "cdf", "ppf", "aic", "bic", "repr", "mean_score", "plot_pdf", "qq"])
    q = {"op": op, "n": rng.choice([1, 3, 7, 20]), "data": rng.randrange(3)}
    if op in ("cond", "scatter", "marginals"):
        q["n"] = rng.choice([5, 10, 20])
        q["cond"] = gen_conditioning(rng, env, q["n"]) if op == "cond" or rng.random() < 0.4 else None
    if op in ("pd", "ipd"):
        q["first"] = rng.random() < 0.5
    if rng.random() < bad:
        q["bad"] = rng.choice(["args", "shape", "nan"])
    return q


def _reuse(held, key, v):
    """The caller's one array for ``key``, now holding ``v``."""
    if held is None:
        return v
    if key not in held:
        held[key] = v.copy()
    elif hasattr(v, "iloc"):
        held[key].iloc[:, :] = v.to_numpy()
    else:
        held[key][...] = v
    return held[key]


def _frame_cond(q, u, held=None):
    d = {}
    for key, _, how, v in q["cond"]:
        if u:
            v = 0.5 + 10 * v
        val = {"value": v, "bounds": (v - 0.01, v + 0.01), "lower": (v, None), "upper": (None, v),
               "array": None}[how]
        if how == "array":
            val = _reuse(held, ("scenario", key, q["n"]), np.linspace(v - 0.005, v + 0.005, q["n"]))
        d[key] = val
    if q.get("bad") == "args":
        d[next(iter(d))] = (0.5, -0.5)
    elif q.get("bad") == "shape":
        d[next(iter(d))] = np.zeros(q["n"] + 3)
    elif q.get("bad") == "nan":
        d["no such asset"] = 0.1
    return d


def run(kind, spec, e, q, datasets, held=None):
    """The answer of query ``q`` to ``e``, by value.

    ``held``: arrays which the caller keeps and overwrites between queries.
    """
    data = datasets[q["data"] % len(datasets)]
    X = catalog.fit_args(kind, spec, data)[0][0]
    bad = q.get("bad")
    if bad == "shape":
        X = np.asarray(X)[:, :-1] if np.asarray(X).shape[1] > 1 else np.asarray(X)[:, 0]
    elif bad == "nan":
        X = np.array(X)
        X[1, 0] = np.nan
    elif held is not None and len(X):
        X = _reuse(held, ("X", np.shape(X), type(X).__name__), X)
    op, n = q["op"], q["n"]
    u = kind == "vine" and spec["p"].get("fit_marginals") is False
    if op == "sample":
        return canon.describe(e.sample(n if bad is None else -1))
    if op == "cond":
        return canon.describe(e.sample(n, conditioning=_frame_cond(q, u, held)))
    if op == "score":
        return canon.describe(e.score_samples(X))
    if op == "mean_score":
        return canon.describe(e.score(X))
    if op in ("aic", "bic"):
        return canon.describe(getattr(e, op)(X))
    if op == "cdf":
        return canon.describe(e.cdf(X[:5] if bad is None else np.array(["a"])))
    if op == "ppf":
        return canon.describe(e.ppf(np.array([[0.1], [0.5], [0.9]])))
    if op == "pd":
        return canon.describe(e.partial_derivative(X[:7], first_margin=q["first"]))
    if op == "ipd":
        return canon.describe(e.inverse_partial_derivative(X[:7], first_margin=q["first"]))
    if op == "tail":
        return [float(e.lower_tail_dependence), float(e.upper_tail_dependence)]
    if op == "conc":
        return canon.describe(e.tail_concentration(np.array([0.1, 0.5, 0.8]) * (1 if bad is None else 5)))
    if op == "n_params":
        return int(e.n_params)
    if op == "repr":
        return str(e.fitted_repr)
    if op == "clear":
        e.clear_cache()
        return None
    if op in ("scatter", "marginals"):
        f = e.plot_scatter_matrix if op == "scatter" else e.plot_marginal_distributions
        kw = {"n_samples": n}
        if q["cond"]:
            kw["conditioning"] = _frame_cond(q, u, held)
            kw["n_samples"] = n
        if not any(c[2] == "array" for c in q["cond"] or ()):
            kw["X"] = X
        return canon.describe(f(**kw).to_plotly_json())
    if op == "plot_pdf":
        return canon.describe(e.plot_pdf(X).to_plotly_json())
    if op == "qq":
        return canon.describe(e.qq_plot(X).to_plotly_json())
    if op == "plot_tail":
        return canon.describe(e.plot_tail_concentration(X).to_plotly_json())
    if op == "plot2d":
        return canon.describe(e.plot_pdf_2d().to_plotly_json())
    raise KeyError(op)
