"""Estimators a user of skfolio would write, used in the workloads."""

import numpy as np
from skfolio.moments import BaseMu


class WeightedMu(BaseMu):
    """Average of the returns weighted by metadata of the observations."""

    def __init__(self, power=1.0):
        self.power = power

    def fit(self, X, y=None, implied_vol=None):
        names = list(X.columns) if hasattr(X, "columns") else None
        if hasattr(implied_vol, "columns") and names is not None:
            implied_vol = implied_vol[names]
        X = np.asarray(X, dtype=float)
        self.n_features_in_ = X.shape[1]
        if implied_vol is None:
            w = np.ones_like(X)
        else:
            w = 1 / np.asarray(implied_vol, dtype=float)[:, :X.shape[1]] ** self.power
            if len(w) != len(X):
                raise ValueError("metadata and data have different lengths")
        self.mu_ = (w * X).sum(axis=0) / w.sum(axis=0)
        return self
