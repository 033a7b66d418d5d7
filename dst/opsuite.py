"""Public operations with everything that is passed in kept at hand: used around snapshots."""

import numpy as np
import pandas as pd

from dst import canon, catalog, distops, faults, parcalls, parrun, ptf


def gen(rng, kinds=None):
    kind = catalog.weighted(rng, [(k, w) for k, w in [
        ("est", 10), ("dist", 2.5), ("cvp", 2.5), ("search", 1.5), ("ptf", 2.5), ("mpp", 1.5), ("pop", 1.5), ("split", 1),
        ("prices", 1), ("measures", 1), ("prefit", 0.6)] if kinds is None or k in kinds])
    allow = ("iv",) if kind == "est" and rng.random() < 0.2 else ("plain",)
    ds = catalog.gen_data(rng)
    if "iv" in allow:
        ds["n_obs"] = max(ds["n_obs"], 60)
    env = catalog.env_of(ds)
    plan = {"op": kind, "data": ds, "layout": rng.choice(["plain", "plain", "view", "fortran"])}
    if kind == "est":
        plan["kind"], plan["spec"] = catalog.gen_any(rng, env, allow=allow)
        if rng.random() < 0.15:
            plan["solver"] = {str(rng.choice([0, 0, 1, 2])): rng.choice(faults.SOLVER_KINDS)}
        if plan["spec"].get("cls") in ("MeanRisk", "RiskBudgeting", "MaximumDiversification") and rng.random() < 0.15:
            plan["spec"]["p"]["raise_on_failure"] = False
    elif kind == "dist":
        k = rng.choice(["vine", "vine", "cop", "uni"])
        ds["n_obs"] = rng.choice([40, 48])
        env = catalog.env_of(ds)
        plan["kind"], plan["spec"] = catalog.gen_any(rng, env, kinds=[k])
        plan["queries"] = [distops.gen(rng, k, env, bad=0.1) for _ in range(rng.choice([1, 2, 3]))]
    elif kind == "cvp":
        plan["spec"] = catalog.gen_inner(rng, env) if rng.random() < 0.5 else catalog.gen_opt(rng, env, ("plain",))
        for k in ("efficient_frontier_size",):
            plan["spec"]["p"].pop(k, None)
        if isinstance(plan["spec"]["p"].get("min_return"), dict):
            plan["spec"]["p"].pop("min_return")
        plan["cv"] = parrun.gen_cv(rng, env, ds)
        if rng.random() < 0.3:
            plan["pparams"] = {"name": "cv", "annualized_factor": 12}
    elif kind == "search":
        plan["spec"] = catalog.gen_search(rng, env)
        plan["spec"]["p"].pop("error_score", None) if rng.random() < 0.3 else None
    elif kind in ("ptf", "mpp", "pop"):
        n = 1 if kind == "ptf" else rng.choice([2, 3])
        ds["n_obs"] = rng.choice([40, 60])
        plan["items"] = [{"w": catalog._simplex(rng, env["n"]), "form": rng.choice(["array", "list", "dict"]),
                          "prev": rng.random() < 0.4, "tc": rng.choice([None, 0.001, "array", "dict"]),
                          "fees": rng.choice([None, 0.0001, "array"]), "s": ptf.gen_settings(rng, f"p{i}")}
                         for i in range(n)]
        plan["figures"] = [ptf.gen_figure(rng, kind) for _ in range(rng.choice([2, 5]))]
        plan["then"] = [rng.choice(["neg", "mul", "add", "round", "plot", "plot", "append", "setitem", "copy", "params"])
                        for _ in range(rng.choice([1, 2, 3]))]
    elif kind == "split":
        plan["cv"] = parrun.gen_cv(rng, env, ds)
        if isinstance(plan["cv"], int) or plan["cv"]["@"] == "splits" or plan["cv"]["cls"] == "KFold":
            plan["cv"] = catalog.est("WalkForward", train_size=20, test_size=5)
        if ds["form"] == "frame" and plan["cv"]["cls"] == "WalkForward" and rng.random() < 0.6:
            plan["cv"] = catalog.est("WalkForward", train_size=rng.choice([1, 2]), test_size=1, freq=rng.choice(["MS", "WOM-3FRI"]),
                                     previous=rng.random() < 0.5)
    elif kind == "prices":
        plan["args"] = {"log_returns": rng.random() < 0.5, "drop_inceptions_nan": rng.random() < 0.7,
                        "nan_threshold": rng.choice([1, 0.5]), "fill_nan": rng.random() < 0.6}
        plan["nans"] = rng.choice([0, 3, 8])
        ds["form"] = "frame"
    elif kind == "measures":
        plan["which"] = rng.sample(MEASURES, 6)
    elif kind == "prefit":
        plan["spec"] = catalog.gen_inner(rng, env)
    return plan


MEASURES = ["mean", "mean_absolute_deviation", "first_lower_partial_moment", "variance", "semi_variance", "standard_deviation",
            "semi_deviation", "third_central_moment", "skew", "fourth_central_moment", "kurtosis", "fourth_lower_partial_moment",
            "worst_realization", "value_at_risk", "cvar", "entropic_risk_measure", "evar", "get_cumulative_returns",
            "get_drawdowns", "drawdown_at_risk", "max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index",
            "gini_mean_difference", "effective_number_assets"]


def _layout(x, how):
    """The same values as a view of a larger array, or in column order."""
    if how == "plain":
        return x
    if isinstance(x, np.ndarray):
        if how == "fortran":
            return np.asfortranarray(x)
        big = np.zeros((x.shape[0] + 2, x.shape[1] + 2))
        big[1:-1, 1:-1] = x
        return big[1:-1, 1:-1]
    if isinstance(x, pd.DataFrame) and how == "view":
        big = pd.concat([x, x.add_prefix("other_")], axis=1)
        return big[list(x.columns)]
    return x


class Op:
    def __init__(self, plan):
        self.plan = p = plan
        self.kind = p["op"]
        self.data = catalog.Data(p["data"])
        d = self.data
        d.X, d.y = _layout(d.X, p["layout"]), _layout(d.y, p["layout"])
        d.iv = _layout(d.iv, p["layout"])
        self.inputs = {}
        self.n_solves = 0
        if "spec" in p:
            self.est = catalog.build(p["spec"])
        getattr(self, "_init_" + self.kind)()

    def snapshot(self):
        return {k: _deep(v() if callable(v) and k.startswith("*") else v) for k, v in self.inputs.items()}

    def run(self):
        return getattr(self, "_run_" + self.kind)()

    # -- estimators ---------------------------------------------------------
    def _init_est(self):
        self.args, self.kw = catalog.fit_args(self.plan["kind"], self.plan["spec"], self.data)
        self.inputs = {"data": list(self.args), "metadata": self.kw, "*parameters": self._params}

    def _params(self):
        if self.plan["spec"]["@"] == "pipe":
            # fitting a pipeline fits its steps
            return [s.get_params(deep=False) for _, s in self.est.steps]
        return self.est.get_params(deep=False)

    def _run_est(self):
        p = self.plan
        self.sol = faults.Solver(p.get("solver"))
        with catalog.routing(p["spec"]):
            with self.sol.active():
                self.est.fit(*self.args, **self.kw)
        X = self.args[0]
        if p["kind"] in ("opt", "pipe"):
            pred = self.est.predict(X)
            ptfs = [pred] if not isinstance(pred, list) else pred
            for q in ptfs:
                q.sharpe_ratio  # noqa: B018
                q.summary()
            with catalog.routing(p["spec"]):
                self.est.score(X)
        elif p["kind"] == "presel":
            self.est.transform(X)
            self.est.get_support()
        elif p["kind"] == "cluster":
            self.est.plot_dendrogram()

    # -- distributions --------------------------------------------------------
    def _init_dist(self):
        self._init_est()

    def _run_dist(self):
        p = self.plan
        self.est.fit(*self.args, **self.kw)
        for q in p["queries"]:
            try:
                distops.run(p["kind"], p["spec"], self.est, q, [self.data])
            except Exception:  # noqa: BLE001
                if "bad" not in q:
                    raise

    # -- cross-validation and search ------------------------------------------
    def _init_cvp(self):
        self.cv = catalog.build(self.plan["cv"])
        self.pparams = self.plan.get("pparams")
        self.y = self.data.y if catalog.uses(self.plan["spec"], "FactorModel") else None
        self.inputs = {"X": self.data.X, "y": self.y, "estimator": self.est, "splitter": self.cv, "portfolio_params": self.pparams}

    def _run_cvp(self):
        from skfolio.model_selection import cross_val_predict

        pred = cross_val_predict(self.est, self.data.X, self.y, cv=self.cv, portfolio_params=self.pparams)
        pred.summary()

    def _init_search(self):
        self.inputs = {"X": self.data.X, "*parameters": lambda: self.est.get_params(deep=False)}

    def _run_search(self):
        self.est.fit(self.data.X)
        self.est.predict(self.data.X)

    def _init_prefit(self):
        self.est.fit(self.data.X)
        from skfolio.optimization import StackingOptimization

        self.stack = StackingOptimization(estimators=[("a", self.est), ("b", catalog.build(catalog.est("EqualWeighted")))],
                                          cv="prefit")
        self.stack.estimators[1][1].fit(self.data.X)
        self.inputs = {"X": self.data.X, "*parameters": lambda: self.stack.get_params(deep=False)}

    def _run_prefit(self):
        self.stack.fit(self.data.X)
        self.stack.predict(self.data.X)

    # -- portfolios -----------------------------------------------------------
    def _init_ptf(self):
        self.kwargs = []
        k = self.data.spec["n_assets"]
        frame = hasattr(self.data.X, "columns")
        n = len(self.plan["items"])
        size = self.data.spec["n_obs"] // n if self.kind == "mpp" else self.data.spec["n_obs"]
        for i, it in enumerate(self.plan["items"]):
            lo = i * size if self.kind == "mpp" else 0
            X = self.data.X[lo:lo + size] if not frame else self.data.X.iloc[lo:lo + size]
            w = np.array(it["w"])
            if it["form"] == "list":
                w = list(it["w"])
            elif it["form"] == "dict" and frame:
                w = dict(zip(self.data.names, it["w"], strict=True))
            kw = {"X": X, "weights": w, **ptf._settings(it["s"])}
            if it["prev"]:
                kw["previous_weights"] = np.full(k, 1.0 / k)
            for a, key in (("transaction_costs", "tc"), ("management_fees", "fees")):
                v = it[key]
                if v == "array" or v == "dict" and not frame:
                    v = np.linspace(0.0001, 0.0004, k)
                elif v == "dict":
                    v = {self.data.names[0]: 0.001}
                if v is not None:
                    kw[a] = v
            self.kwargs.append(kw)
        self.inputs = {"X": self.data.X, "arguments": self.kwargs}

    _init_mpp = _init_pop = _init_ptf

    def _run_ptf(self):
        from skfolio.portfolio import Portfolio

        ps = [Portfolio(**kw) for kw in self.kwargs]
        self._use(ps[0], ps[0])

    def _run_mpp(self):
        from skfolio.portfolio import MultiPeriodPortfolio, Portfolio

        ps = [Portfolio(**kw) for kw in self.kwargs]
        self.list = list(ps)
        o = MultiPeriodPortfolio(self.list)
        self.inputs["component list"] = self.list
        self.before = _deep([p.name for p in self.list])
        self._use(o, ps[0])
        if _deep([p.name for p in self.list]) != self.before:
            raise AssertionError("component list passed in was changed")

    def _run_pop(self):
        from skfolio import Population
        from skfolio.portfolio import Portfolio

        ps = [Portfolio(**kw) for kw in self.kwargs]
        lst = list(ps)
        o = Population(lst)
        self._use(o, ps[0])
        if len(lst) != len(ps):
            raise AssertionError("portfolio list passed in was changed")

    def _use(self, o, first):
        from skfolio.measures import PerfMeasure, RatioMeasure, RiskMeasure

        for f in self.plan["figures"]:
            ptf.get(o, f)
        for what in self.plan["then"]:
            if what == "plot":
                if self.kind == "pop":
                    o.plot_measures(x=RiskMeasure.CVAR, y=PerfMeasure.MEAN)
                    o.plot_cumulative_returns()
                    o.plot_composition()
                else:
                    o.plot_cumulative_returns()
                    o.plot_rolling_measure(RatioMeasure.SHARPE_RATIO, window=5)
                    o.plot_composition()
            elif what == "copy":
                o.copy() if self.kind != "pop" else o[:]
            elif what == "append" and self.kind != "ptf":
                o.append(first)
            elif what == "setitem" and self.kind != "ptf":
                o[0] = first
            elif what == "params" and self.kind == "pop":
                o.set_portfolio_params(risk_free_rate=0.001)
            elif what == "neg" and self.kind != "pop":
                -o  # noqa: B018
            elif what == "mul" and self.kind != "pop":
                o * 0.5
            elif what == "add" and self.kind != "pop":
                try:
                    o + o
                except ValueError:
                    pass
            elif what == "round" and self.kind != "pop":
                round(o, 2)

    # -- the rest ---------------------------------------------------------------
    def _init_split(self):
        self.cv = catalog.build(self.plan["cv"])
        self.inputs = {"X": self.data.X, "splitter": self.cv}

    def _run_split(self):
        list(self.cv.split(self.data.X))
        self.cv.get_n_splits(self.data.X)
        if hasattr(self.cv, "summary"):
            self.cv.summary(self.data.X)
            self.cv.plot_train_test_folds()

    def _init_prices(self):
        prices = 100 * (1 + self.data.X).cumprod()
        rs = np.random.RandomState(self.plan["data"]["seed"])
        for _ in range(self.plan["nans"]):
            prices.iloc[rs.randint(len(prices)), rs.randint(prices.shape[1])] = np.nan
        if self.plan["nans"] > 4:
            prices.iloc[:4, 0] = np.nan
        self.prices = prices
        self.y = None if self.data.y is None else 100 * (1 + self.data.y).cumprod()
        self.inputs = {"prices": self.prices, "factor prices": self.y}

    def _run_prices(self):
        from skfolio.preprocessing import prices_to_returns

        if self.y is None:
            prices_to_returns(self.prices, **self.plan["args"])
        else:
            prices_to_returns(self.prices, self.y, **self.plan["args"])

    def _init_measures(self):
        self.returns = np.array(np.asarray(self.data.X)[:, 0])
        self.inputs = {"returns": self.returns}

    def _run_measures(self):
        import skfolio.measures as mt

        for name in self.plan["which"]:
            getattr(mt, name)(self.returns)


def _deep(o):
    """Description plus the details a description leaves out."""
    extra = []

    def visit(x, depth=0):
        if depth > 6:
            return
        if isinstance(x, pd.DataFrame):
            extra.append([str(x.index.name), str(x.columns.name), [str(t) for t in x.dtypes], repr(x.attrs),
                          str(getattr(x.index, "freq", None))])
        elif isinstance(x, np.ndarray):
            extra.append([str(x.dtype), bool(x.flags.writeable)])
            b = x.base
            if isinstance(b, np.ndarray) and b.dtype.kind == "f":
                extra.append(canon.digest(np.array(b)))
        elif isinstance(x, dict):
            for k in x:
                visit(x[k], depth + 1)
        elif isinstance(x, list | tuple):
            for y in x:
                visit(y, depth + 1)
        elif hasattr(x, "get_params") and not isinstance(x, type):
            extra.append(sorted(k for k in vars(x) if k.endswith("_") and not k.startswith("_")))
            try:
                visit(x.get_params(deep=False), depth + 1)
            except Exception:  # noqa: BLE001
                pass

    visit(o)
    return [canon.describe(o), extra]
