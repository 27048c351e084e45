"""C21 reported gradients are the derivatives of the reported values."""
import numpy as np
from vk import gen, kern

RULE = ("a case is a generated covariance function, or a Gaussian process "
        "fitted with one; each gradient it reports is compared with central "
        "differences of the values it reports, where differences with three "
        "step sizes agree with each other (the function is smooth there); "
        "non-trivial: distinct (kernel structure, place of the point, input "
        "type)")
REQUIRED = ["kernel-x", "kernel-value", "at-training-point", "shared-coords",
            "mean-grad", "std-grad", "same-values", "hamming-theta",
            "theta", "likelihood-theta", "integer-input", "list-input",
            "far"]


def cases(tier, seed):
    k = 5 if tier == "quick" else 100
    return [{"kind": t} for t in ["kernel"] * 900 + ["predict"] * 700 +
            ["theta"] * 300 + ["hamming"] * 150 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"kernel": run_kernel, "predict": run_predict, "theta": run_theta,
     "hamming": run_hamming}[case["kind"]](rs, mon)


KINDS = ["rbf", "rbf", "matern0.5", "matern1.5", "matern2.5", "matern2.5",
         "rq", "sine", "const", "dot"]


def numeric(f, x, steps=(3e-4, 1e-4, 3e-5)):
    """Central differences, and where they can be trusted.

    f maps a point to an array; returns (derivatives, errors) with one entry
    per coordinate first.
    """
    grads = []
    for h in steps:
        g = []
        for i in range(len(x)):
            e = np.zeros(len(x))
            e[i] = h * max(1.0, abs(x[i]))
            hi, lo = x + e, x - e
            g.append((np.asarray(f(hi)) - np.asarray(f(lo))) /
                     (hi[i] - lo[i]))
        grads.append(np.array(g))
    # Richardson from the first two, error from the spread
    r = steps[0] / steps[1]
    best = grads[1] + (grads[1] - grads[0]) / (r * r - 1)
    err = np.abs(grads[2] - grads[1]) + np.abs(grads[1] - grads[0])
    return best, err


def one_sided(f, x, h=1e-5):
    """Left and right differences, which differ at kinks."""
    left, right = [], []
    f0 = np.asarray(f(x))
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = h * max(1.0, abs(x[i]))
        right.append((np.asarray(f(x + e)) - f0) / e[i])
        left.append((f0 - np.asarray(f(x - e))) / e[i])
    return np.array(left), np.array(right)


def place(rs, X, where):
    n, d = X.shape
    x = rs.uniform(X.min() - 0.3, X.max() + 0.3, d)
    if where == "at":
        x = X[rs.randint(n)].astype(float).copy()
    elif where == "shared":
        i = rs.randint(n)
        m = rs.rand(d) < 0.6
        x[m] = X[i][m]
    elif where == "far":
        x = x + rs.uniform(20, 60, d)
    return x


def run_kernel(rs, mon):
    d, n = int(rs.randint(1, 5)), int(rs.randint(1, 8))
    tree = kern.generate(rs, d, int(rs.randint(0, 4)), KINDS)
    kernel = kern.build(tree)
    X = rs.rand(n, d) * float(rs.choice([1, 1, 5]))
    where = str(rs.choice(["generic", "generic", "at", "shared", "far"]))
    form = str(rs.choice(["array", "array", "list", "int"]))
    if form == "int":
        X = rs.randint(-3, 4, (n, d))
    x = place(rs, X, where)
    if form == "int":
        x = np.round(x).astype(int)
    K = kern.evaluate(kernel, x[None].astype(float), X)[0]
    got = np.asarray(kernel(x[None].astype(float), X))[0]
    mon.check(np.allclose(got, K, rtol=1e-9, atol=1e-300), "kernel-value",
              lambda: "%s at %s: %s, formula %s" % (kernel, x, got, K))
    gx, gX = (x.tolist(), X.tolist()) if form == "list" else (x, X)
    keep = X.copy()
    g = np.asarray(kernel.gradient_x(gx, gX))
    mon.check(np.array_equal(keep, X), "kernel-x",
              lambda: "gradient_x changed the training points")
    f = lambda p: kern.evaluate(kernel, p[None], X)[0]
    xf = x.astype(float)
    want, err = numeric(f, xf)
    want, err = want.T, err.T
    if not mon.check(np.shape(g) == (n, d), "kernel-x", lambda:
                     "%s: gradient of shape %s, %d points, %d features" % (
                         kernel, np.shape(g), n, d)):
        return
    left, right = one_sided(f, xf)
    smooth = np.abs(left - right).T < 1e-2 * np.abs(want) + 1e-3 * max(
        1.0, np.max(np.abs(K)))
    scale = np.max(np.abs(want)) + np.max(np.abs(K)) * 1e-3
    # non-smooth at training points
    if kern.contains(tree, ["matern0.5"]):
        r = np.sqrt(np.sum((X - xf) ** 2, axis=1))
        smooth = smooth & (r > 1e-2)[:, None]
    judged = smooth & (err < 1e-3 * scale)
    mon.count("entries judged", int(judged.sum()))
    mon.count("entries not smooth", int((~judged).sum()))
    if not judged.any():
        return
    bad = judged & ~(np.abs(g - want) <= 1e-5 * scale + 3 * err)
    key = {"at": "at-training-point", "shared": "shared-coords",
           "far": "far"}.get(where, "kernel-x")
    for k in {key, {"int": "integer-input", "list": "list-input"}.get(
            form, "kernel-x")}:
        mon.check(not bad.any(), k, lambda:
                  "%s at %s (%s, %s) from %s: gradient %s, differences %s" % (
                      kernel, x, where, form, X.tolist(), g.tolist(),
                      want.tolist()))
    mon.nontrivial([shape(tree), where, form, d])


def shape(t):
    return [t["k"], isinstance(t.get("ls"), list)] + [
        shape(t[s]) for s in ("a", "b") if s in t]


def run_predict(rs, mon):
    from skopt.learning import GaussianProcessRegressor
    d, n = int(rs.randint(1, 5)), int(rs.randint(2, 15))
    tree = kern.generate(rs, d, int(rs.randint(0, 3)), KINDS)
    X = rs.rand(n, d) * float(rs.choice([1, 1, 4]))
    y = np.sin(2 * X.sum(axis=1)) + 0.2 * rs.randn(n)
    if rs.rand() < 0.15:
        y = y * float(10 ** rs.uniform(-12, -4))    # small units
    else:
        y = y * float(10 ** rs.uniform(-2, 3)) + float(rs.choice([0, 10]))
    if rs.rand() < 0.1:
        X = rs.randint(-3, 4, (n, d))
    model = GaussianProcessRegressor(
        kernel=kern.build(tree) if rs.rand() < 0.9 else None,
        alpha=float(10 ** rs.uniform(-6, -2)),
        optimizer=None, normalize_y=bool(rs.rand() < 0.6),
        noise=[None, 0.05, "gaussian"][rs.randint(3)]).fit(X, y)
    where = str(rs.choice(["generic", "generic", "generic", "at", "shared",
                           "far"]))
    x = place(rs, X, where)
    m, s, gm, gs = model.predict(x[None], return_std=True,
                                 return_mean_grad=True, return_std_grad=True)
    m1, gm1 = model.predict(x[None], return_mean_grad=True)
    m2, s2, gm2 = model.predict(x[None], return_std=True,
                                return_mean_grad=True)
    m0, s0 = model.predict(x[None], return_std=True)
    same = all(np.array_equal(a, b) for a, b in
               [(m, m1), (m, m2), (m, m0), (s, s2), (s, s0), (gm, gm1),
                (gm, gm2)])
    close = all(np.allclose(a, b, rtol=1e-9, atol=1e-12) for a, b in
                [(m, m1), (m, m2), (m, m0), (s, s2), (s, s0), (gm, gm1),
                 (gm, gm2)])
    mon.check(same or close, "same-values", lambda: "%s: %s" % (
        model.kernel_, [(m, m1, m2, m0), (s, s2, s0), (gm, gm1, gm2)]))
    rough = kern.contains(tree, ["matern0.5"]) and np.min(
        np.sqrt(np.sum((X - x) ** 2, axis=1))) < 1e-2
    if rough:
        return
    what = lambda: "%s noise=%r normalize=%s at %s (%s) of %s y=%s" % (
        model.kernel_, model.noise, model.normalize_y, x.tolist(), where,
        X.tolist(), y.tolist())
    want, err = numeric(lambda p: model.predict(p[None])[0], x)
    scale = np.max(np.abs(want)) + 1e-3 * np.std(y) + 1e-9 * np.max(
        np.abs(y))
    ok = err < 1e-3 * scale
    mon.check(np.shape(gm) == (d,) and not np.any(
        ok & ~(np.abs(gm - want) <= 1e-5 * scale + 3 * err)), "mean-grad",
        lambda: "%s: mean gradient %s, differences %s" % (what(), gm, want))
    mon.count("means not smooth", int((~ok).sum()))
    ystd = model.y_train_std_ if model.normalize_y else 1.0
    prior = np.sqrt(model.kernel_.diag(x[None])[0]) * ystd
    if s[0] < 1e-2 * prior:
        mon.count("deviation too small to differentiate")
        return
    if not np.all(np.isfinite(gs)) or np.shape(gs) != (d,):
        mon.violate("std-grad", "%s: std gradient %s" % (what(), gs))
        return
    want, err = numeric(lambda p: model.predict(p[None],
                                                return_std=True)[1][0], x)
    scale = np.max(np.abs(want)) + 1e-3 * s[0]
    ok = err < 1e-3 * scale
    mon.check(not np.any(ok & ~(np.abs(gs - want) <= 1e-4 * scale + 3 * err)),
              "std-grad", lambda: "%s: std gradient %s, differences %s" % (
                  what(), gs, want))
    mon.count("deviations not smooth", int((~ok).sum()))
    mon.nontrivial(["predict", shape(tree), where, model.normalize_y,
                    str(model.noise), d])


def theta_numeric(f, theta):
    return numeric(f, np.asarray(theta, dtype=float), (1e-3, 3e-4, 1e-4))


def run_theta(rs, mon):
    """Gradients with respect to hyperparameters, composite kernels."""
    from skopt.learning import GaussianProcessRegressor
    d, n = int(rs.randint(1, 4)), int(rs.randint(2, 7))
    tree = kern.generate(rs, d, int(rs.randint(1, 4)),
                         ["rbf", "matern2.5", "const", "dot", "hamming",
                          "hamming", "matern1.5", "rq"], "mixed")
    kernel = kern.build(tree)
    X = rs.randint(0, 3, (n, d)) * 1.0
    theta = np.array(kernel.theta)
    K, g = kernel(X, eval_gradient=True)
    mon.check(np.allclose(K, kern.evaluate(kernel, X), rtol=1e-8,
                          atol=1e-12), "theta",
              lambda: "%s: value with gradient %s" % (kernel, K))
    if not mon.check(np.shape(g) == (n, n, len(theta)), "theta",
                     lambda: "%s: %d parameters, gradient of shape %s" % (
                         kernel, len(theta), np.shape(g))) or \
            not len(theta):
        return

    def at(t):
        return kern.evaluate(kernel.clone_with_theta(t), X)
    want, err = theta_numeric(at, theta)
    want, err = np.moveaxis(want, 0, -1), np.moveaxis(err, 0, -1)
    scale = np.max(np.abs(want)) + 1e-3 * np.max(np.abs(K))
    ok = err < 1e-3 * scale
    # sklearn returns the rational quadratic with an isotropic scale only
    mon.check(not np.any(ok & ~(np.abs(g - want) <= 1e-5 * scale + 3 * err)),
              "theta", lambda: "%s: gradient %s, differences %s" % (
                  kernel, g.tolist(), want.tolist()))
    gp = GaussianProcessRegressor(kernel=kernel, alpha=1e-2, optimizer=None)
    y = rs.randn(n)
    gp.fit(X, y)
    if np.linalg.cond(K + 1e-2 * np.eye(n)) < 1e6:
        l, lg = gp.log_marginal_likelihood(theta, eval_gradient=True)
        want, err = theta_numeric(
            lambda t: kern.log_likelihood(at(t) + 1e-2 * np.eye(n), y),
            theta)
        scale = np.max(np.abs(want)) + 1e-3 * max(1.0, abs(l))
        ok = err < 1e-3 * scale
        mon.check(not np.any(ok & ~(np.abs(lg - want) <= 1e-4 * scale +
                                    3 * err)), "likelihood-theta", lambda:
                  "%s: likelihood gradient %s, differences %s" % (
                      kernel, lg, want))
    mon.nontrivial(["theta", shape(tree), n, d])


def run_hamming(rs, mon):
    from skopt.learning.gaussian_process.kernels import HammingKernel
    d, n = int(rs.randint(1, 6)), int(rs.randint(1, 8))
    iso = rs.rand() < 0.5
    ls = float(10 ** rs.uniform(-2, 1)) if iso else \
        (10 ** rs.uniform(-2, 1, d)).tolist()
    if rs.rand() < 0.2:
        ls = [ls] if iso else np.array(ls)
    fixed = rs.rand() < 0.2
    kernel = HammingKernel(ls, length_scale_bounds="fixed" if fixed
                           else (1e-5, 1e5))
    if rs.rand() < 0.3:
        X = np.array([[str(v) for v in r] for r in rs.randint(0, 3, (n, d))],
                     dtype=object)
    else:
        X = rs.randint(0, 3, (n, d)) * 1.0
    v = np.ones(d) * np.asarray(ls, dtype=float)
    K = np.array([[np.exp(-sum(v[i] for i in range(d) if a[i] != b[i]))
                   for b in X] for a in X])
    got = kernel(X)
    mon.check(np.allclose(got, K, rtol=1e-9), "kernel-value",
              lambda: "%s %s: %s, formula %s" % (kernel, X.tolist(), got, K))
    m = int(rs.randint(1, 4))
    mon.check(np.allclose(kernel(X, X[:m]), K[:, :m], rtol=1e-9) and
              np.allclose(kernel.diag(X), 1.0, rtol=1e-12), "kernel-value",
              lambda: "%s on two sets" % kernel)
    K2, g = kernel(X, eval_gradient=True)
    count = 0 if fixed else (1 if iso or d == 1 else d)
    if not mon.check(np.allclose(K2, K, rtol=1e-9) and
                     np.shape(g) == (n, n, count),
                     "hamming-theta", lambda: "%s: gradient of shape %s" % (
                         kernel, np.shape(g))):
        return
    if fixed:
        return
    # d/dlog(l) exp(-l c) = -l c exp(-l c)
    differ = np.array([[[1.0 * (a[i] != b[i]) for i in range(d)] for b in X]
                       for a in X]).reshape(n, n, d)
    want = -differ * v * K[..., None]
    if count == 1:
        want = want.sum(axis=2, keepdims=True)
    mon.check(np.allclose(g, want, rtol=1e-6, atol=1e-12), "hamming-theta",
              lambda: "%s on %s: gradient %s, formula %s" % (
                  kernel, X.tolist(), np.asarray(g).tolist(), want.tolist()))
    mon.nontrivial(["hamming", iso, d, n, str(np.asarray(X).dtype)])
