"""Generators of search spaces (as JSON specs), builders and the independent
legality model. Nothing here asks the code under test whether a point is legal.
"""
import math
import numbers

import numpy as np

# ---- dimension specs -----------------------------------------------------

REAL_U = [(0.0, 1.0), (-5.0, 5.0), (1e-6, 1e-3), (-1e6, 1e6), (1e5, 1e5 + 1),
          (-3.0, 7.5), (0.1, 0.3), (-1e-9, 1e-9), (2.0, 1e8), (-7.25, -1.5)]
REAL_U_INTB = [(0, 1), (-2, 9), (1, 1000)]
REAL_L = [(1e-6, 1.0), (1.0, 1000.0), (0.5, 2.0 ** 20), (1e-3, 2e-3),
          (1e-9, 1e9), (3.0, 4.0), (1e-5, 0.1), (0.07, 12.5)]
INT_U = [(0, 1), (1, 2), (-3, 4), (0, 100), (1, 1000), (10, 2000000),
         (-10 ** 9, 10 ** 9), (-7, -2), (5, 9)]
INT_L = [(1, 2), (1, 10), (1, 1000), (2, 10 ** 6), (3, 17), (100, 130),
         (1, 10 ** 9)]
CATS = [
    ["a", "b"], ["a", "b", "c"], ["x"], ["red", "green", "blue", "grey", "k"],
    [1, 2, 5], [0, 1], [3, 7, 9, 11], [-1.5, 0.25, 3.0], [True, False],
    [None, "auto"], ["1", "2", "10"], [10, 2, 1], ["", " ", "b c"],
    [None, 1, "a", 2.5], [1, "1"], ["é", "ß"], [0.1, 10, 100],
    [1, "1", 2], [True, "True", "x"], [None, "None", 0, "0"],
    [False, "no"], ["z", "y", "x", "w", "v", "u", "t", "s", "r"],
]
TUPLE_CATS = [[[1, 2], [3, 4]], [[1], [2, 3], []]]


def real_spec(rs, transform=None, dtypes=False):
    if rs.rand() < 0.5:
        pool = REAL_U + (REAL_U_INTB if rs.rand() < 0.3 else [])
        low, high = pool[rs.randint(len(pool))]
        if rs.rand() < 0.25:
            c, w = rs.randn() * 10 ** rs.uniform(-3, 3), 10 ** rs.uniform(-2, 3)
            low, high = float(c - w), float(c + w)
        prior, base = "uniform", 10
    else:
        low, high = REAL_L[rs.randint(len(REAL_L))]
        if rs.rand() < 0.25:
            low = float(10 ** rs.uniform(-8, 3))
            high = float(low * 10 ** rs.uniform(0.2, 6))
        prior, base = "log-uniform", int(rs.choice([10, 10, 2, 3, 7, 16]))
    d = {"k": "real", "low": low, "high": high, "prior": prior, "base": base,
         "transform": transform, "dtype": "float"}
    if dtypes and rs.rand() < 0.35:
        d["dtype"] = str(rs.choice(["float32", "float64", "float"]))
        if (abs(low) < 6e4 and abs(high) < 6e4 and
                (high - low) > 0.05 * max(abs(low), abs(high)) and
                (prior == "uniform" and high - low > 0.01 or low > 1e-3) and
                rs.rand() < 0.3):
            d["dtype"] = "float16"
        if d["dtype"] == "float32" and \
                (high - low) < 1e-4 * max(abs(low), abs(high)):
            d["dtype"] = "float64"
    return d


def int_spec(rs, transform=None, dtypes=False):
    if rs.rand() < 0.6:
        low, high = INT_U[rs.randint(len(INT_U))]
        if rs.rand() < 0.25:
            low = int(rs.randint(-1000, 1000))
            high = low + int(rs.randint(1, 300))
        prior, base = "uniform", 10
    else:
        low, high = INT_L[rs.randint(len(INT_L))]
        prior, base = "log-uniform", int(rs.choice([10, 10, 2, 3, 7]))
    d = {"k": "int", "low": low, "high": high, "prior": prior, "base": base,
         "transform": transform, "dtype": "int64"}
    if dtypes and rs.rand() < 0.5:
        ok = ["int", "int32", "int64"]
        if -30000 < low and high < 30000:
            ok += ["int16"]
        if -120 < low and high < 120:
            ok += ["int8"]
        if low >= 0:
            ok += ["uint32", "uint64"]
            if high < 250:
                ok += ["uint8"]
            if high < 65000:
                ok += ["uint16"]
        d["dtype"] = str(rs.choice(ok))
    return d


def cat_spec(rs, transform=None, priors=True, tuples=False, pool=None,
             min_cats=1):
    pool = pool or (CATS + (TUPLE_CATS if tuples else []))
    pool = [c for c in pool if len(c) >= min_cats]
    cats = pool[rs.randint(len(pool))]
    is_tuple = isinstance(cats[0], list)
    d = {"k": "cat", "cats": cats, "tuples": is_tuple, "prior": None,
         "transform": transform}
    if priors and rs.rand() < 0.3 and len(cats) > 1:
        p = rs.dirichlet(np.ones(len(cats)) * 2)
        p = np.round(p * 16 + 1)
        p = p / p.sum()
        d["prior"] = [float(v) for v in p]
    return d


def space_spec(rs, min_dims=1, max_dims=4, kinds=("real", "int", "cat"),
               transforms=False, dtypes=False, tuples=False, priors=True,
               names=False, min_cats=1):
    n = rs.randint(min_dims, max_dims + 1)
    dims = []
    for _ in range(n):
        k = kinds[rs.randint(len(kinds))]
        if k == "real":
            t = [None, "identity", "normalize"][rs.randint(3)] \
                if transforms else None
            dims.append(real_spec(rs, t, dtypes))
        elif k == "int":
            t = [None, "identity", "normalize"][rs.randint(3)] \
                if transforms else None
            dims.append(int_spec(rs, t, dtypes))
        else:
            t = [None, "onehot", "label", "normalize"][rs.randint(4)] \
                if transforms else None
            dims.append(cat_spec(rs, t, priors, tuples, min_cats=min_cats))
    # spaces made only of tuple categories look like batches of points
    if all(d["k"] == "cat" and d["tuples"] for d in dims):
        dims.append(real_spec(rs, None, dtypes))
    if names:
        for i, d in enumerate(dims):
            d["name"] = "p%d" % i
    return dims


def cats_of(d):
    return [tuple(c) for c in d["cats"]] if d.get("tuples") else list(d["cats"])


_NP_TYPES = {"real": "float", "int": "int64"}


def build_dim(d):
    from skopt.space import Categorical, Integer, Real
    name = d.get("name")
    if d["k"] == "real":
        dtype = float if d["dtype"] == "float" else d["dtype"]
        return Real(d["low"], d["high"], prior=d["prior"], base=d["base"],
                    transform=d["transform"], name=name, dtype=dtype)
    if d["k"] == "int":
        dtype = {"int": int, "int64": np.int64}.get(d["dtype"], d["dtype"])
        return Integer(d["low"], d["high"], prior=d["prior"], base=d["base"],
                       transform=d["transform"], name=name, dtype=dtype)
    return Categorical(cats_of(d), prior=d["prior"], transform=d["transform"],
                       name=name)


def build_dims(spec):
    return [build_dim(d) for d in spec]


def build_space(spec):
    from skopt.space import Space
    return Space(build_dims(spec))


# ---- the legality model --------------------------------------------------

def same_cat(v, c):
    """v is the category c (value and kind, numpy scalars allowed)."""
    if isinstance(c, np.generic):
        c = c.item()
    if c is None or v is None:
        return v is c
    if isinstance(c, tuple):
        return isinstance(v, tuple) and v == c
    if isinstance(c, str):
        return isinstance(v, str) and str(v) == c
    if isinstance(c, bool):
        return isinstance(v, (bool, np.bool_)) and bool(v) == c
    if isinstance(v, (str, tuple, bool, np.bool_)):
        return False
    try:
        return bool(v == c)
    except Exception:
        return False


def loose_same(v, c):
    """As same_cat, but 1.0 for True and the like pass (numeric encodings)."""
    if isinstance(c, (bool, numbers.Number)) and \
            isinstance(v, (bool, np.bool_, numbers.Number)):
        return float(v) == float(c)
    return same_cat(v, c)


def why_illegal(d, v):
    """None if v is a legal value of dimension spec d, else the reason."""
    if d["k"] == "real":
        if isinstance(v, (bool, np.bool_)) or \
                not isinstance(v, (float, np.floating)):
            return "kind %s is not a float" % type(v).__name__
        if not math.isfinite(v):
            return "not finite"
        if not d["low"] <= float(v) <= d["high"]:
            return "%r outside [%r, %r]" % (v, d["low"], d["high"])
        return None
    if d["k"] == "int":
        if isinstance(v, (bool, np.bool_)) or \
                not isinstance(v, (int, np.integer)):
            return "kind %s is not an integer" % type(v).__name__
        if not d["low"] <= int(v) <= d["high"]:
            return "%r outside [%r, %r]" % (v, d["low"], d["high"])
        return None
    same = loose_same if d.get("transform") == "identity" else same_cat
    if not any(same(v, c) for c in cats_of(d)):
        return "%r (%s) is none of %r" % (v, type(v).__name__, cats_of(d))
    return None


def illegal_point(spec, x):
    """None if x is a legal point, else the reason."""
    if not isinstance(x, (list, tuple)):
        return "a point should be a list, got %s" % type(x).__name__
    if len(x) != len(spec):
        return "%d values for %d dimensions" % (len(x), len(spec))
    for i, (d, v) in enumerate(zip(spec, x)):
        r = why_illegal(d, v)
        if r:
            return "dimension %d: %s" % (i, r)
    return None


# ---- points --------------------------------------------------------------

def rand_value(rs, d, edge=0.15):
    if d["k"] == "cat":
        c = cats_of(d)
        return c[rs.randint(len(c))]
    low, high = d["low"], d["high"]
    u = rs.rand()
    if u < edge / 2:
        v = low
    elif u < edge:
        v = high
    elif d["prior"] == "uniform":
        v = low + rs.rand() * (high - low)
    else:
        v = math.exp(math.log(low) + rs.rand() * (math.log(high) -
                                                  math.log(low)))
    if d["k"] == "int":
        return int(min(max(round(v), low), high))
    return float(min(max(v, low), high))


def rand_point(rs, spec, edge=0.15):
    return [rand_value(rs, d, edge) for d in spec]


def plain(x):
    """JSON-friendly rendering of a point (for digests and reports)."""
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def same_value(a, b):
    """Equality of two values of a point (kinds may differ in numpy).

    Floats may differ in their last digits: numpy's power depends on where
    its arrays lie in memory.
    """
    a, b = plain(a), plain(b)
    if type(a) is not type(b) and not (
            isinstance(a, numbers.Number) and isinstance(b, numbers.Number)):
        return False
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-12 * abs(a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_value(x, y)
                                        for x, y in zip(a, b))
    return a == b


def same_point(a, b):
    return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))


def same_points(a, b):
    return len(a) == len(b) and all(same_point(x, y) for x, y in zip(a, b))


def near_value(a, b, tol=1e-5):
    """Equal, or reals that differ by rounding errors."""
    a, b = plain(a), plain(b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(abs(a), abs(b), 1e-3)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near_value(x, y, tol)
                                        for x, y in zip(a, b))
    return same_value(a, b)


# ---- objectives ----------------------------------------------------------

def coords(spec, x):
    """Coordinates in [0, 1] of a legal point (model of the space)."""
    out = []
    for d, v in zip(spec, x):
        if d["k"] == "cat":
            c = cats_of(d)
            idx = [i for i, e in enumerate(c) if loose_same(v, e)]
            out.append(idx[0] / max(1, len(c) - 1) if idx else 0.5)
        elif d["prior"] == "uniform":
            out.append((float(v) - d["low"]) / (d["high"] - d["low"]))
        else:
            lo, hi = math.log(d["low"]), math.log(d["high"])
            out.append((math.log(max(float(v), 1e-300)) - lo) / (hi - lo))
    return np.array(out, dtype=float)


def objective(spec, rs_seed=0, scale=1.0, offset=0.0):
    """A deterministic smooth objective on the space."""
    rs = np.random.RandomState(rs_seed)
    c = rs.rand(len(spec))
    w = rs.uniform(0.3, 2.0, len(spec))

    def f(x):
        u = coords(spec, x)
        return float(offset + scale * (np.sum(w * (u - c) ** 2) +
                                       0.2 * np.sin(7 * np.sum(u * w))))
    return f


# ---- surrogates ----------------------------------------------------------

def make_surrogate(name, seed=0, n_jobs=1):
    """Estimator (or string) for the Optimizer; small ones for speed."""
    from skopt.learning import (ExtraTreesRegressor, GaussianProcessRegressor,
                                GradientBoostingQuantileRegressor,
                                RandomForestRegressor)
    if name in ("GP", "RF", "ET", "GBRT", "dummy"):
        return name
    if name == "rf":
        return RandomForestRegressor(n_estimators=8, min_samples_leaf=2,
                                     random_state=seed, n_jobs=n_jobs)
    if name == "et":
        return ExtraTreesRegressor(n_estimators=8, min_samples_leaf=2,
                                   random_state=seed, n_jobs=n_jobs)
    if name == "gbrt":
        from sklearn.ensemble import GradientBoostingRegressor
        return GradientBoostingQuantileRegressor(
            base_estimator=GradientBoostingRegressor(n_estimators=8,
                                                     loss="quantile"),
            random_state=seed, n_jobs=n_jobs)
    if name == "gp":
        from skopt.learning.gaussian_process.kernels import (ConstantKernel,
                                                             Matern)
        return GaussianProcessRegressor(
            kernel=ConstantKernel(1.0, (0.01, 1000.0)) *
            Matern(length_scale=0.5, length_scale_bounds=(0.01, 100), nu=2.5),
            normalize_y=True, noise="gaussian", n_restarts_optimizer=0,
            random_state=seed)
    raise ValueError(name)


FAST = ["rf", "et", "gbrt", "gp"]
DESIGNS = ["random", "sobol", "halton", "hammersly", "lhs", "grid"]


def state_of_global_rng():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def seed(rs):
    """A seed for random_state; falsy and extreme ones are frequent."""
    u = rs.rand()
    if u < 0.15:
        return 0
    if u < 0.25:
        return [1, 2 ** 31 - 2][rs.randint(2)]
    return int(rs.randint(2 ** 31))
