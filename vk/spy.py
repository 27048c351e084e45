"""Surrogates that record every fit and prediction (events in LOG)."""
import numpy as np
from skopt.learning import (ExtraTreesRegressor, GaussianProcessRegressor,
                            GradientBoostingQuantileRegressor,
                            RandomForestRegressor)

LOG = []
RECORD_PREDICT = [False]


def reset(predictions=False):
    del LOG[:]
    RECORD_PREDICT[0] = predictions


class _Spy(object):
    def fit(self, X, y, *args, **kwargs):
        LOG.append({"ev": "fit", "X": np.array(X, dtype=float),
                    "y": np.array(y, dtype=float), "model": self})
        self.spy_fits = getattr(self, "spy_fits", 0) + 1
        return super(_Spy, self).fit(X, y, *args, **kwargs)

    def predict(self, X, *args, **kwargs):
        if RECORD_PREDICT[0]:
            LOG.append({"ev": "predict", "X": np.array(X, dtype=float),
                        "model": self})
        return super(_Spy, self).predict(X, *args, **kwargs)


class SpyGP(_Spy, GaussianProcessRegressor):
    pass


class SpyRF(_Spy, RandomForestRegressor):
    pass


class SpyET(_Spy, ExtraTreesRegressor):
    pass


class SpyGBRT(_Spy, GradientBoostingQuantileRegressor):
    pass


def make(name, seed=0, n_jobs=1):
    """As gen.make_surrogate, for rf, et, gbrt and gp."""
    if name == "rf":
        return SpyRF(n_estimators=8, min_samples_leaf=2, random_state=seed,
                     n_jobs=n_jobs)
    if name == "et":
        return SpyET(n_estimators=8, min_samples_leaf=2, random_state=seed,
                     n_jobs=n_jobs)
    if name == "gbrt":
        from sklearn.ensemble import GradientBoostingRegressor
        return SpyGBRT(base_estimator=GradientBoostingRegressor(
            n_estimators=8, loss="quantile"), random_state=seed,
            n_jobs=n_jobs)
    if name == "gp":
        from skopt.learning.gaussian_process.kernels import (ConstantKernel,
                                                             Matern)
        return SpyGP(kernel=ConstantKernel(1.0, (0.01, 1000.0)) *
                     Matern(length_scale=0.5,
                            length_scale_bounds=(0.01, 100), nu=2.5),
                     normalize_y=True, noise="gaussian",
                     n_restarts_optimizer=0, random_state=seed)
    raise ValueError(name)


def fits(of=None, since=0):
    return [e for e in LOG[since:] if e["ev"] == "fit" and
            (of is None or e["model"] is of)]
