"""Random covariance functions and an evaluator written independently."""
import math

import numpy as np


def generate(rs, d, depth=2, kinds=None, bounds="fixed"):
    """A kernel of skopt over d features, as nested JSON."""
    if depth and rs.rand() < 0.6:
        op = str(rs.choice(["sum", "product", "sum", "product", "pow",
                            "scale", "shift"]))
        a = generate(rs, d, depth - 1, kinds, bounds)
        if op == "pow":
            return {"k": "pow", "a": a, "e": float(rs.choice([1, 2, 3]))}
        if op in ("scale", "shift"):
            return {"k": op, "a": a, "left": bool(rs.rand() < 0.5),
                    "c": round(float(rs.uniform(0.3, 3)), 3)}
        return {"k": op, "a": a,
                "b": generate(rs, d, depth - 1, kinds, bounds)}
    kinds = kinds or ["rbf", "rbf", "matern0.5", "matern1.5", "matern2.5",
                      "matern2.5", "rq", "sine", "const", "dot", "hamming"]
    if d > 1:
        # periodic in the distance: not positive definite
        kinds = [k for k in kinds if k != "sine"]
    k = str(rs.choice(kinds))
    wide = rs.rand() < 0.15

    def log(low, high):
        w = 1.0 if wide else 0.0
        return float("%.4g" % 10 ** rs.uniform(low - w, high + w))
    ls = log(-0.7, 0.7)
    if (k == "rbf" or k.startswith("matern") or k == "hamming") and \
            rs.rand() < 0.4:
        ls = [log(-0.7, 0.7) for _ in range(d)]
    return {"k": k, "ls": ls, "p": log(-0.2, 0.5),
            "alpha": log(-0.5, 0.6), "c": log(-0.5, 0.5),
            "bounds": bounds if bounds != "mixed" else
            str(rs.choice(["fixed", "free"]))}


def contains(t, kinds):
    return t["k"] in kinds or any(contains(t[s], kinds) for s in ("a", "b")
                                  if s in t)


def build(t):
    from skopt.learning.gaussian_process import kernels as K
    k = t["k"]
    if k == "sum":
        return build(t["a"]) + build(t["b"])
    if k == "product":
        return build(t["a"]) * build(t["b"])
    if k == "pow":
        return build(t["a"]) ** t["e"]
    if k == "scale":
        return t["c"] * build(t["a"]) if t["left"] else build(t["a"]) * t["c"]
    if k == "shift":
        return t["c"] + build(t["a"]) if t["left"] else build(t["a"]) + t["c"]
    b = {"fixed": "fixed", "free": (1e-2, 1e2)}[t["bounds"]]
    if k == "rbf":
        return K.RBF(t["ls"], length_scale_bounds=b)
    if k.startswith("matern"):
        return K.Matern(t["ls"], nu=float(k[6:]), length_scale_bounds=b)
    if k == "rq":
        return K.RationalQuadratic(t["ls"], t["alpha"], length_scale_bounds=b,
                                   alpha_bounds=b)
    if k == "sine":
        return K.ExpSineSquared(t["ls"], t["p"], length_scale_bounds=b,
                                periodicity_bounds=b)
    if k == "const":
        return K.ConstantKernel(t["c"], constant_value_bounds=b)
    if k == "dot":
        return K.DotProduct(t["c"], sigma_0_bounds=b)
    if k == "hamming":
        return K.HammingKernel(t["ls"], length_scale_bounds=b)
    raise ValueError(k)


def evaluate(kernel, X, Y=None):
    """k(X, Y) from the parameters of a kernel object, by the textbook.

    Y=None: the covariance of X with itself (white noise on its diagonal).
    """
    same = Y is None
    X = np.asarray(X, dtype=float)
    Z = X if same else np.asarray(Y, dtype=float)
    name = type(kernel).__name__

    def scaled(ls):
        ls = np.asarray(ls, dtype=float)
        diff = X[:, None, :] / ls - Z[None, :, :] / ls
        return np.sqrt(np.sum(diff ** 2, axis=2))
    if name == "Sum":
        return evaluate(kernel.k1, X, Y) + evaluate(kernel.k2, X, Y)
    if name == "Product":
        return evaluate(kernel.k1, X, Y) * evaluate(kernel.k2, X, Y)
    if name == "Exponentiation":
        return evaluate(kernel.kernel, X, Y) ** kernel.exponent
    if name == "ConstantKernel":
        return np.full((len(X), len(Z)), float(kernel.constant_value))
    if name == "WhiteKernel":
        return kernel.noise_level * np.eye(len(X)) if same else \
            np.zeros((len(X), len(Z)))
    if name == "DotProduct":
        return X @ Z.T + kernel.sigma_0 ** 2
    if name == "HammingKernel":
        ls = np.ones(X.shape[1]) * np.asarray(kernel.length_scale, float)
        return np.exp(-np.sum((X[:, None, :] != Z[None, :, :]) * ls, axis=2))
    if name == "RBF":
        return np.exp(-0.5 * scaled(kernel.length_scale) ** 2)
    if name == "Matern":
        r, nu = scaled(kernel.length_scale), kernel.nu
        if nu == 0.5:
            return np.exp(-r)
        if nu == 1.5:
            s = math.sqrt(3) * r
            return (1 + s) * np.exp(-s)
        if nu == 2.5:
            s = math.sqrt(5) * r
            return (1 + s + s * s / 3) * np.exp(-s)
        if nu == np.inf:
            return np.exp(-0.5 * r ** 2)
        raise ValueError(nu)
    if name == "RationalQuadratic":
        r2 = scaled(kernel.length_scale) ** 2
        return (1 + r2 / (2 * kernel.alpha)) ** -kernel.alpha
    if name == "ExpSineSquared":
        r = scaled(1.0) * math.pi / kernel.periodicity
        r = np.sin(r) ** 2
        return np.exp(-2 * r / kernel.length_scale ** 2)
    raise ValueError(name)


def log_likelihood(K, y):
    """Of observations y (n,) under N(0, K)."""
    sign, logdet = np.linalg.slogdet(K)
    return -0.5 * (y @ np.linalg.solve(K, y) + logdet +
                   len(y) * math.log(2 * math.pi))
