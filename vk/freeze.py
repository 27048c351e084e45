"""Deep structural snapshots, to see whether a call changed its arguments."""
import types

import numpy as np


def freeze(x, depth=0):
    from sklearn.base import BaseEstimator
    from sklearn.gaussian_process.kernels import Kernel
    from skopt.space import Dimension, Space
    if depth > 12:
        return "deep"
    d = depth + 1
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return (type(x).__name__, repr(x))
    if isinstance(x, np.generic):
        return (type(x).__name__, repr(x.item()))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("array", x.shape, [freeze(v, d) for v in x.ravel()])
        return ("array", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, d) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(repr(freeze(v, d)) for v in x))
    if isinstance(x, dict):
        return (type(x).__name__, [(freeze(k, d), freeze(v, d))
                                   for k, v in x.items()])
    if isinstance(x, Dimension):
        return freeze_dim(x)
    if isinstance(x, Space):
        return ("Space", [freeze_dim(v) for v in x.dimensions])
    if isinstance(x, np.random.RandomState):
        return ("RandomState", freeze(x.get_state(), d))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, type,
                      types.MethodType)):
        return ("callable", id(x))
    if isinstance(x, Kernel):
        return (type(x).__name__, [(k, freeze(v, d)) for k, v in
                                   sorted(x.get_params(deep=False).items())],
                x.theta.tobytes())
    if isinstance(x, BaseEstimator):
        fitted = sorted(k for k in vars(x) if k.endswith("_") and
                        not k.startswith("_"))
        return (type(x).__name__, [(k, freeze(v, d)) for k, v in
                                   sorted(x.get_params(deep=False).items())],
                fitted)
    return ("object", type(x).__name__, id(x))


def freeze_dim(dim):
    probe = dim.rvs(4, random_state=5)
    warped = np.asarray(dim.transform(list(probe)))
    return (type(dim).__name__, dim.name, repr(dim.prior),
            getattr(dim, "base", None), dim.transform_,
            repr(dim.bounds), str(getattr(dim, "dtype", None)),
            repr(list(probe)), warped.shape, warped.tolist(),
            repr(dim.transformed_bounds))


def difference(a, b, path=""):
    """Where two snapshots differ."""
    if a == b:
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = difference(x, y, "%s/%d" % (path, i))
            if r:
                return r
    return "%s: %s -> %s" % (path, str(a)[:300], str(b)[:300])
