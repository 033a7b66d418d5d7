"""Portfolios, multi-period portfolios and populations described by plain JSON, and their figures."""

import warnings

import numpy as np

from dst import canon, catalog

_BETAS = [0.95, 0.9, 0.8, 0.7, 0.6, 0.5, 0.99]
SETTINGS = {
    "annualized_factor": [252, 252.0, 12, 52.0, 1, 365],
    "risk_free_rate": [0.0, 0, 0.0001, 0.001, -0.0002, 0.95],
    "compounded": [False, True],
    "min_acceptable_return": [None, 0.0, 0, 0.001, -0.002, 0.95],
    "value_at_risk_beta": _BETAS,
    "cvar_beta": _BETAS,
    "entropic_risk_measure_theta": [1.0, 1, 2.0, 0.95, 0.5],
    "entropic_risk_measure_beta": _BETAS,
    "evar_beta": [0.95, 0.8, 0.9],
    "drawdown_at_risk_beta": _BETAS,
    "cdar_beta": _BETAS,
    "edar_beta": [0.95, 0.8, 0.9],
    "name": ["n1", "n2", "n3"],
    "tag": ["t1", "t2", None],
    "fitness_measures": [["PerfMeasure.MEAN", "RiskMeasure.VARIANCE"], ["RatioMeasure.SHARPE_RATIO"],
                         ["PerfMeasure.MEAN", "RiskMeasure.CVAR", "RiskMeasure.CDAR"],
                         ["PerfMeasure.ANNUALIZED_MEAN", "RiskMeasure.ANNUALIZED_STANDARD_DEVIATION"]],
}
DEFAULTS = {"annualized_factor": 252, "risk_free_rate": 0.0, "compounded": False, "min_acceptable_return": None,
            "value_at_risk_beta": 0.95, "cvar_beta": 0.95, "entropic_risk_measure_theta": 1.0,
            "entropic_risk_measure_beta": 0.95, "evar_beta": 0.95, "drawdown_at_risk_beta": 0.95, "cdar_beta": 0.95,
            "edar_beta": 0.95, "tag": None, "fitness_measures": ["PerfMeasure.MEAN", "RiskMeasure.VARIANCE"]}
# accepted when set, but the figures that use them cannot be computed
ODD = [["cvar_beta", "high"], ["cvar_beta", None], ["value_at_risk_beta", "x"], ["risk_free_rate", "x"],
       ["annualized_factor", "x"], ["evar_beta", None], ["edar_beta", 1.0], ["min_acceptable_return", "x"]]

MEASURES = None


def measures():
    global MEASURES
    if MEASURES is None:
        from skfolio.measures import ExtraRiskMeasure, PerfMeasure, RatioMeasure, RiskMeasure

        MEASURES = [f"{type(m).__name__}.{m.name}" for e in (PerfMeasure, RiskMeasure, ExtraRiskMeasure, RatioMeasure)
                    for m in e]
    return MEASURES


def measure(name):
    cls, m = name.split(".")
    return getattr(catalog.ns()[cls], m)


def gen_settings(rng, name, p=0.25):
    s = {"name": name}
    for k, vals in SETTINGS.items():
        if k != "name" and rng.random() < p:
            s[k] = gen_value(rng, k)
    return s


def gen_value(rng, key):
    if key == "fitness_measures" and rng.random() < 0.6:
        return rng.sample([m for m in measures() if not any(s in m for s in SLOW)], rng.choice([1, 2, 3, 4]))
    return rng.choice(SETTINGS[key])


def gen_portfolio(rng, name="p", frame=None, rows=None, n_assets=None, plain=False):
    n = n_assets or rng.choice([2, 3, 4, 5])
    form = ("frame" if frame else "array") if frame is not None else rng.choice(["frame", "frame", "array"])
    ds = catalog.gen_data(rng, n_obs=rng.choice([40, 60]), n_assets=n, factors=0, form=form)
    env = catalog.env_of(ds)
    w = catalog._simplex(rng, n)
    if rng.random() < 0.3:
        w[0] = -w[0]
    if rng.random() < 0.3:
        w[-1] = 0.0
    out = {"@": "ptf", "data": ds, "rows": rows or [0, ds["n_obs"]], "w": w, "s": gen_settings(rng, name)}
    r = rng.random()
    if env["frame"] and r < 0.3:
        out["wform"] = "dict"
    elif r < 0.4:
        out["wform"] = "list"
    if not plain and rng.random() < 0.35:
        out["prev"] = catalog._simplex(rng, n)
        out["tc"] = rng.choice([0.001, [0.0005 * (i + 1) for i in range(n)]])
    if not plain and rng.random() < 0.25:
        out["fees"] = rng.choice([0.0001, [0.0001 * (i + 1) for i in range(n)]])
    return out


def _settings(s):
    s = dict(s)
    if "fitness_measures" in s:
        s["fitness_measures"] = [measure(m) for m in s["fitness_measures"]]
    return s


def build(spec):
    import skfolio
    from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if spec["@"] == "ptf":
            d = catalog.Data(spec["data"])
            a, b = spec["rows"]
            X = d.X.iloc[a:b] if hasattr(d.X, "iloc") else d.X[a:b]
            if spec.get("flip"):
                X = X.copy()
                X[:] = np.asarray(X)[::-1]
            w = np.array(spec["w"], dtype=float)
            if spec.get("wform") == "dict":
                w = dict(zip(d.names, spec["w"], strict=True))
            elif spec.get("wform") == "list":
                w = list(spec["w"])
            kw = {}
            for k, arg in (("prev", "previous_weights"), ("tc", "transaction_costs"), ("fees", "management_fees")):
                if k in spec:
                    kw[arg] = np.array(spec[k]) if isinstance(spec[k], list) else spec[k]
            return Portfolio(X=X, weights=w, **kw, **_settings(spec["s"]))
        if spec["@"] == "mpp":
            return MultiPeriodPortfolio([build(p) for p in spec["items"]], **_settings(spec["s"]),
                                        check_observations_order=spec.get("ordered", False))
        if spec["@"] == "pop":
            return skfolio.Population([build(p) for p in spec["items"]])
    raise KeyError(spec["@"])


def gen_mpp(rng, name="m", k=None, frame=None, ordered=None, plain=False):
    frame = rng.random() < 0.75 if frame is None else frame
    k = k or rng.choice([1, 2, 3])
    items = []
    for i in range(k):
        p = gen_portfolio(rng, f"{name}_{i}", frame=frame, plain=plain)
        p["data"]["n_obs"] = 60
        p["rows"] = [15 * i, 15 * i + rng.choice([10, 15])]
        items.append(p)
    return {"@": "mpp", "items": items, "s": gen_settings(rng, name),
            "ordered": (rng.random() < 0.4 and frame) if ordered is None else ordered}


def gen_object(rng, name="o"):
    return gen_portfolio(rng, name) if rng.random() < 0.6 else gen_mpp(rng, name)


# ---------------------------------------------------------------------- figures
SLOW = ("EVAR", "EDAR")
COMMON = ["returns", "observations", "n_observations", "fitness", "cumulative_returns", "drawdowns", "measures_df",
          "summary", "summary_raw", "returns_df", "cumulative_returns_df", "composition", "weights_per_observation",
          "annualized_factor", "fitness_measures", "name", "tag", "repr", "as_array", "settings"]
PTF = ["diversification", "sric", "effective_number_assets", "nonzero_assets", "nonzero_assets_index", "n_assets", "assets",
       "weights", "previous_weights", "transaction_costs", "management_fees", "total_cost", "total_fee"]
MPP = ["len", "assets", "names"]
POP = ["pop:summary", "pop:summary_raw", "pop:composition", "pop:fronts", "pop:len", "pop:names"]


def gen_figure(rng, kind):
    if kind == "pop":
        r = rng.random()
        m = rng.choice(measures())
        if r < 0.3:
            return rng.choice(POP)
        if r < 0.75:
            return f"pop:{rng.choice(['measures', 'mean', 'std', 'sort', 'quantile', 'min', 'max'])}:{m}"
        if r < 0.85:
            return f"pop:rolling:{rng.choice(['RiskMeasure.CVAR', 'RatioMeasure.SHARPE_RATIO'])}"
        if r < 0.92:
            return f"pop:contribution:{rng.choice(['RiskMeasure.CVAR', 'RiskMeasure.VARIANCE'])}"
        return f"pop:filter:{rng.choice(SETTINGS['tag'][:2])}"
    r = rng.random()
    if r < 0.55:
        return rng.choice(measures())
    if r < 0.8:
        return rng.choice(COMMON)
    if r < 0.9:
        return rng.choice(PTF if kind == "ptf" else MPP)
    m = rng.choice([x for x in measures() if not any(s in x for s in SLOW)])
    if r < 0.92:
        return f"get:{m}"
    if r < 0.95:
        return f"rolling:{m}:{rng.choice([5, 8])}"
    return f"contribution:{m}:{rng.choice([0, 1])}"


def all_figures(kind):
    return [*measures(), *COMMON, *(PTF if kind == "ptf" else MPP), "rolling:RatioMeasure.SORTINO_RATIO:6",
            "contribution:RiskMeasure.CVAR:0", "contribution:RatioMeasure.SHARPE_RATIO:1"]


def figure(o, f):
    """Value of one figure; a description."""
    return canon.describe(_figure(o, f))


def _figure(o, f):
    parts = f.split(":")
    if parts[0] == "pop":
        what = parts[1]
        if what in ("summary", "summary_raw"):
            return o.summary(formatted=what == "summary")
        if what == "composition":
            return o.composition()
        if what == "fronts":
            return o.non_denominated_sort()
        if what == "len":
            return len(o)
        if what == "names":
            return [p.name for p in o]
        if what == "rolling":
            return o.rolling_measure(measure(parts[2]), window=6)
        if what == "contribution":
            return o.contribution(measure(parts[2]))
        if what == "filter":
            return [p.name for p in o.filter(tags=parts[2])]
        m = measure(parts[2])
        if what == "measures":
            return o.measures(m)
        if what == "mean":
            return o.measures_mean(m)
        if what == "std":
            return o.measures_std(m)
        # values, not names: portfolios that tie may come in any order
        if what == "sort":
            return [getattr(p, m.value) for p in o.sort_measure(m)]
        if what == "quantile":
            return getattr(o.quantile(m, 0.5), m.value)
        return getattr(o.min_measure(m) if what == "min" else o.max_measure(m), m.value)
    if parts[0] == "get":
        return o.get_measure(measure(parts[1]))
    if parts[0] == "rolling":
        return o.rolling_measure(measure(parts[1]), window=int(parts[2]))
    if parts[0] == "contribution":
        return o.contribution(measure(parts[1]), to_df=parts[2] == "1")
    if "." in f:
        return getattr(o, measure(f).value)
    if f == "summary":
        return o.summary()
    if f == "summary_raw":
        return o.summary(formatted=False)
    if f == "settings":
        return {k: getattr(o, k) for k in SETTINGS}
    if f == "repr":
        return repr(o)
    if f == "as_array":
        return o.__array__()
    if f == "len":
        return len(o)
    if f == "names":
        return [p.name for p in o]
    return getattr(o, f)


def get(o, f):
    """['ok', value] or ['exc', type]."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return ["ok", figure(o, f)]
        except Exception as e:  # noqa: BLE001
            return ["exc", type(e).__name__, str(e)[:200]]


def same(a, b, f=""):
    if a[0] != b[0]:
        return f"{canon.short(a, 250)} instead of {canon.short(b, 250)}"
    if a[0] == "exc":
        return None if a[1] == b[1] else f"{a[1:]} instead of {b[1:]}"
    if "contribution" in f:
        # finite differences
        return canon.diff(a[1], b[1], rtol=1e-5, atol=1e-7)
    if any(s in f for s in (*SLOW, "summary", "measures_df")):
        return canon.diff(a[1], b[1], rtol=1e-5, atol=1e-8)
    return canon.diff(a[1], b[1], rtol=1e-9, atol=1e-12)


def fresh(queries):
    """[(spec, figure)] -> values on newly built objects, each used once."""
    from dst import simrun

    simrun.pin_entropy(77)
    memo, out = {}, []
    for spec, f in queries:
        k = canon.digest([repr(spec), f])
        if k not in memo:
            try:
                memo[k] = get(build(spec), f)
            except Exception as e:  # noqa: BLE001
                memo[k] = ["exc", "build:" + type(e).__name__, str(e)[:200]]
        out.append(memo[k])
    return out
