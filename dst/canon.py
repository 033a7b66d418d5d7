"""Plain, comparable descriptions of skfolio objects and their comparison."""

import dataclasses
import enum
import hashlib
import json
import types
import warnings

import numpy as np
import pandas as pd

MAX_DEPTH = 12


class Opaque:
    """Something compared by type only."""


def describe(obj, depth=0, fitted=True, seen=None):
    """Nested lists/dicts/arrays describing ``obj`` by value."""
    import sklearn.base as skb

    from skfolio.population import Population
    from skfolio.portfolio import BasePortfolio

    if seen is None:
        seen = set()
    if depth > MAX_DEPTH:
        return {"#": "deep"}
    d = lambda o: describe(o, depth + 1, fitted, seen)  # noqa: E731
    if obj is None or isinstance(obj, str | bool | bytes):
        return obj
    if isinstance(obj, enum.Enum):
        return {"#": "enum", "v": f"{type(obj).__name__}.{obj.name}"}
    if isinstance(obj, np.generic):
        obj = obj.item()
        if isinstance(obj, str | bool | bytes) or obj is None:
            return obj
    if isinstance(obj, int | float | complex):
        return obj
    if isinstance(obj, np.ndarray):
        if obj.dtype.hasobject:
            return {"#": "objarray", "shape": list(obj.shape),
                    "v": [d(x) for x in obj.ravel().tolist()]}
        return np.array(obj)
    if isinstance(obj, pd.Timestamp | pd.Timedelta | np.datetime64):
        return str(obj)
    if isinstance(obj, pd.DataFrame):
        return {"#": "frame", "columns": [d(c) for c in obj.columns.tolist()],
                "index": d(obj.index),
                "v": [d(obj.iloc[:, i].to_numpy()) for i in range(obj.shape[1])]}
    if isinstance(obj, pd.Series):
        return {"#": "series", "name": d(obj.name), "index": d(obj.index),
                "v": d(obj.to_numpy())}
    if isinstance(obj, pd.Index):
        return {"#": "index", "v": d(obj.to_numpy())}
    if id(obj) in seen:
        return {"#": "cycle", "t": type(obj).__name__}
    seen = seen | {id(obj)}
    if isinstance(obj, Population):
        return {"#": "population", "v": [describe(p, depth + 1, fitted, seen) for p in obj]}
    if isinstance(obj, BasePortfolio):
        return portfolio(obj)
    d = lambda o: describe(o, depth + 1, fitted, seen)  # noqa: E731
    if isinstance(obj, skb.BaseEstimator):
        return estimator(obj, d, fitted)
    if isinstance(obj, dict):
        items = [[d(k), d(v)] for k, v in obj.items()]
        return {"#": "dict", "v": items}
    if isinstance(obj, list | tuple):
        return {"#": type(obj).__name__, "v": [d(x) for x in obj]}
    if isinstance(obj, set | frozenset):
        return {"#": "set", "v": sorted((d(x) for x in obj), key=repr)}
    if dataclasses.is_dataclass(obj) and not isinstance(obj, type):
        return {"#": type(obj).__name__,
                "v": {f.name: d(getattr(obj, f.name)) for f in dataclasses.fields(obj)}}
    if isinstance(obj, types.FunctionType | types.BuiltinFunctionType | types.MethodType):
        return {"#": "function", "v": getattr(obj, "__name__", "?")}
    if isinstance(obj, type):
        return {"#": "type", "v": obj.__name__}
    if isinstance(obj, np.random.RandomState):
        return {"#": "rng", "v": rng_state(obj)}
    if isinstance(obj, np.random.Generator):
        return {"#": "rng", "v": repr(obj.bit_generator.state)}
    if hasattr(obj, "get_n_splits") and hasattr(obj, "split"):
        return {"#": type(obj).__name__, "v": {k: d(v) for k, v in sorted(vars(obj).items())}}
    return {"#": "opaque", "t": type(obj).__name__}


def rng_state(rs):
    s = rs.get_state(legacy=False)
    st = s["state"]
    return hashlib.sha1(
        np.asarray(st["key"]).tobytes() + repr((st["pos"], s["has_gauss"], s["gauss"])).encode()
    ).hexdigest()


# measured durations and the like are not part of a fitted model
_SKIP = ("time", "_cvx_cache", "n_jobs", "verbose")


def estimator(est, d, fitted):
    out = {"#": "estimator", "t": type(est).__name__, "params": {}, "fitted": {}}
    try:
        params = est.get_params(deep=False)
    except Exception:  # noqa: BLE001
        params = {}
    for k in sorted(params):
        if k in _SKIP:
            continue
        out["params"][k] = d(params[k])
    if fitted:
        for k in sorted(vars(est)):
            if k in params or not k.endswith("_") or k.startswith("_"):
                continue
            if any(s in k for s in _SKIP):
                continue
            v = vars(est)[k]
            if type(v).__module__.startswith("cvxpy"):
                continue
            if k == "cv_results_":
                v = {a: b for a, b in v.items() if "time" not in a}
            if k == "trees_":
                v = vine_trees(v)
            out["fitted"][k] = d(v)
    return out


def vine_trees(trees):
    """Public content of a fitted vine: structure and copulas of each edge."""
    out = []
    for tree in trees:
        edges = []
        for e in tree.edges:
            edges.append([str(e), e.copula])
        out.append(edges)
    return out


PTF_ATTRS = (
    "name", "tag", "assets", "n_assets", "n_observations", "annualized_factor",
    "risk_free_rate", "compounded", "min_acceptable_return", "value_at_risk_beta",
    "entropic_risk_measure_theta", "entropic_risk_measure_beta", "cvar_beta",
    "evar_beta", "drawdown_at_risk_beta", "cdar_beta", "edar_beta",
    "observations", "returns", "weights", "previous_weights", "transaction_costs",
    "management_fees", "composition", "fitness_measures",
)


def portfolio(p):
    from skfolio.portfolio import MultiPeriodPortfolio

    out = {"#": type(p).__name__}
    for a in PTF_ATTRS:
        try:
            v = getattr(p, a)
        except AttributeError:
            continue
        out[a] = describe(v, 6)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for m in ("mean", "variance", "cvar", "max_drawdown", "sharpe_ratio"):
            out[m] = describe(getattr(p, m), 6)
    if isinstance(p, MultiPeriodPortfolio):
        out["portfolios"] = [portfolio(q) for q in p.portfolios]
    return out


# ------------------------------------------------------------------ comparison
def _num(x):
    return isinstance(x, int | float | complex) and not isinstance(x, bool)


def clone_json(v):
    return json.loads(json.dumps(v))


def diff(a, b, rtol=0.0, atol=0.0, path=""):
    """First difference between two descriptions, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {short(a)} != {short(b)}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} != {b.shape}"
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            try:
                same = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
            except TypeError:
                same = bool(np.all(a == b))
            if same:
                return None
            with np.errstate(all="ignore"):
                err = np.nanmax(np.abs(a - b)) if a.size else 0
            return f"{path}: arrays differ by {err:.3g}: {short(a)} != {short(b)}"
        if not np.array_equal(a, b):
            return f"{path}: {short(a)} != {short(b)}"
        return None
    if _num(a) and _num(b):
        if a == b or (a != a and b != b):
            return None
        try:
            if np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
                return None
        except TypeError:
            pass
        return f"{path}: {a!r} != {b!r}"
    if type(a) is not type(b):
        return f"{path}: {short(a)} != {short(b)}"
    if isinstance(a, dict):
        if list(a) != list(b):
            ka, kb = set(map(str, a)), set(map(str, b))
            if path.endswith(".fitted") and ka > kb:
                # an attribute left from an earlier configuration is not part of the model
                a = {k: a[k] for k in b}
            elif ka != kb:
                return f"{path}: keys only left {sorted(ka - kb)} only right {sorted(kb - ka)}"
        for k in a:
            r = diff(a[k], b[k], rtol, atol, f"{path}.{k}" if k not in ("#", "v") else path)
            if r:
                return r
        return None
    if isinstance(a, list | tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b, strict=True)):
            r = diff(x, y, rtol, atol, f"{path}[{i}]")
            if r:
                return r
        return None
    if a != b:
        return f"{path}: {short(a)} != {short(b)}"
    return None


def short(x, n=160):
    if isinstance(x, np.ndarray):
        s = np.array2string(x.ravel()[:6], precision=6) + f" shape {x.shape}"
    else:
        s = repr(x)
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


def digest(x):
    h = hashlib.sha1()
    _feed(h, x)
    return h.hexdigest()[:16]


def _feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(str(x.dtype).encode() + repr(x.shape).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        for k in x:
            h.update(str(k).encode() + b"=")
            _feed(h, x[k])
    elif isinstance(x, list | tuple):
        h.update(b"[")
        for y in x:
            _feed(h, y)
        h.update(b"]")
    else:
        h.update(repr(x).encode())
