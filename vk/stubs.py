"""Instrumented estimators used as surrogates."""
import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin


class LinearModel(RegressorMixin, BaseEstimator):
    """Predicts (X - lo).w with deviation 1 and exact gradients."""

    def __init__(self, w=(1.0,), lo=(0.0,)):
        self.w = w
        self.lo = lo

    def fit(self, X, y):
        self.n_fit_ = len(X)
        return self

    def predict(self, X, return_std=False, return_cov=False,
                return_mean_grad=False, return_std_grad=False):
        X = np.asarray(X, dtype=float)
        w = np.asarray(self.w)
        mu = (X - np.asarray(self.lo)).dot(w)
        if not return_std:
            return mu
        out = [mu, np.ones(len(X))]
        if return_mean_grad:
            out.append(w.copy())
            if return_std_grad:
                out.append(np.zeros_like(w))
        return tuple(out)


class Hill(RegressorMixin, BaseEstimator):
    """Mean and deviation are fixed functions plus an offset per fit.

    The exploiting, exploring and mixed acquisitions have their optima at
    different points; no gradients.
    """

    def __init__(self, c=(0.3,), amp=1.0, dev=0.6, step=0.0):
        self.c = c
        self.amp = amp
        self.dev = dev
        self.step = step

    def fit(self, X, y):
        self.n_fit_ = len(X)
        return self

    def predict(self, X, return_std=False):
        X = np.asarray(X, dtype=float)
        r = np.sum((X - np.asarray(self.c)) ** 2, axis=1)
        mu = self.amp * r - self.step * self.n_fit_ * (1 + X[:, 0])
        if not return_std:
            return mu
        return mu, 0.02 + self.dev * r


def acquisition(name, mu, std, y_opt=None, xi=0.01, kappa=1.96):
    """Reference values, to be minimized."""
    from scipy.stats import norm
    mu, std = np.asarray(mu, float), np.asarray(std, float)
    if name == "LCB":
        return -std if kappa == "inf" else mu - kappa * std
    out = np.zeros(len(mu))
    ok = std > 0
    u = (y_opt - xi - mu[ok]) / std[ok]
    if name.startswith("EI"):
        out[ok] = (y_opt - xi - mu[ok]) * norm.cdf(u) + std[ok] * norm.pdf(u)
    else:
        out[ok] = norm.cdf(u)
    return -out


def model_acquisition(name, model, X, y_opt, kwargs=None):
    kwargs = kwargs or {}
    xi, kappa = kwargs.get("xi", 0.01), kwargs.get("kappa", 1.96)
    if name.endswith("ps"):
        model, clock = model
        a = acquisition(name, *model.predict(X, return_std=True),
                        y_opt=y_opt, xi=xi, kappa=kappa)
        m, s = clock.predict(X, return_std=True)
        return a * np.exp(-np.asarray(m) + 0.5 * np.asarray(s) ** 2)
    return acquisition(name, *model.predict(X, return_std=True), y_opt=y_opt,
                       xi=xi, kappa=kappa)
