"""C20 Gaussian-process predictions equal the exact posterior."""
import numpy as np
from vk import gen, kern

RULE = ("a case is a Gaussian process with a generated covariance function, "
        "noise setting and data set, or the models of an optimization; its "
        "predictions are compared with the dense posterior recomputed from "
        "its hyperparameters; non-trivial: distinct (kernel structure, noise, "
        "normalization, data shape)")
REQUIRED = ["mean", "std", "cov", "std-of-cov", "non-negative", "noise",
            "noise-not-added", "likelihood", "improves", "refit", "prior",
            "many-or-one", "several-targets", "optimizer-models",
            "fixed-parameters"]
CONFIRM = ("refit",)


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["optimizer"] * 70 + ["fit"] * 1200 +
            ["prior"] * 40 + ["targets"] * 60 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"fit": run_fit, "prior": run_prior, "targets": run_targets,
     "optimizer": run_optimizer}[case["kind"]](rs, mon)


def data(rs, d):
    n = int(rs.choice([1, 2, 3, 5, 8, 13, 20, 30]))
    style = str(rs.choice(["unit", "unit", "wide", "grid", "clustered"]))
    X = rs.rand(n, d)
    if style == "wide":
        X = X * 10 - 5
    elif style == "grid":
        X = rs.randint(0, 4, (n, d)) * 1.0
    elif style == "clustered" and n > 1:
        X[1] = X[0] + 1e-3 * rs.randn(d)
    y = np.sin(3 * X.sum(axis=1)) + 0.1 * rs.randn(n)
    form = str(rs.choice(["plain", "plain", "big", "small", "offset",
                          "constant", "tiny"]))
    if form == "big":
        y = y * 1e5
    elif form == "small":
        y = y * 1e-3
    elif form == "tiny":
        y = y * 1e-11
    elif form == "offset":
        y = y + 100
    elif form == "constant":
        y = np.full(n, 2.5)
    return X, y, style, form


class Posterior(object):
    """Dense linear algebra on the textbook formulas."""

    def __init__(self, kernel, noise, alpha, X, y, normalize):
        self.kernel, self.X = kernel, np.asarray(X, dtype=float)
        y = np.asarray(y, dtype=float)
        self.shift = y.mean(axis=0) if normalize else 0.0
        self.scale = y.std(axis=0) if normalize else 1.0
        if np.ndim(self.scale) == 0 and self.scale < 10 * np.finfo(float).eps:
            self.scale = 1.0
        self.yn = (y - self.shift) / self.scale
        self.K = kern.evaluate(kernel, self.X) + np.diag(
            (noise or 0.0) + alpha * np.ones(len(self.X)))
        self.cond = np.linalg.cond(self.K)
        self.weights = np.linalg.solve(self.K, self.yn)

    def predict(self, Q):
        Ks = kern.evaluate(self.kernel, Q, self.X)
        Kq = kern.evaluate(self.kernel, Q, Q)
        mean = Ks @ self.weights
        cov = Kq - Ks @ np.linalg.solve(self.K, Ks.T)
        # rounding, amplified by the conditioning of the training covariance
        # (the deviation is found from its explicit inverse), for the mean
        # also by the size of the weights
        eps = 1e-9 + 3e-15 * self.cond * len(self.X)
        top = max(1.0, np.max(np.abs(np.diag(Kq))), np.max(np.abs(Ks)))
        back = np.linalg.solve(self.K, Ks.T)
        lever = 1.0 + np.max(np.sum(np.abs(back), axis=0))
        weight = np.max(np.sum(np.abs(self.weights), axis=0))
        return {"mean": mean * self.scale + self.shift,
                "cov": cov * self.scale ** 2,
                "mean_tol": self.scale * (eps * max(
                    1e-3, np.max(np.abs(self.yn))) * top + 1e-14 *
                    len(self.X) * top * lever * weight) +
                1e-9 * np.max(np.abs(self.shift)),
                "var_tol": eps * self.scale ** 2 * top * max(
                    1.0, top / max(np.min(np.diag(self.K)), 1e-12))}


def agree(mon, post, model, Q, what):
    want = post.predict(Q)
    if want["mean_tol"] > 1e-3 * np.max(post.scale) * max(
            1e-3, np.max(np.abs(post.yn))):
        mon.count("too ill-conditioned to judge")
        return False
    m0 = model.predict(Q)
    m1, s = model.predict(Q, return_std=True)
    m2, c = model.predict(Q, return_cov=True)
    for m in (m0, m1, m2):
        mon.check(np.shape(m) == (len(Q),) and np.all(
            np.abs(m - want["mean"]) <= want["mean_tol"]), "mean", lambda:
            "%s: mean %s, posterior %s (tolerance %g)" % (
                what(), m, want["mean"], want["mean_tol"]))
    var = np.diag(want["cov"])
    tol = want["var_tol"]
    mon.check(np.shape(s) == (len(Q),) and np.all(np.isfinite(s)) and
              np.all(s >= 0), "non-negative",
              lambda: "%s: deviations %s" % (what(), s))
    mon.check(np.all(np.abs(s ** 2 - var) <= tol) or np.all(
        np.abs(s ** 2 - np.maximum(var, 0)) <= tol), "std", lambda:
        "%s: std %s, posterior %s (variance tolerance %g)" % (
            what(), s, np.sqrt(np.maximum(var, 0)), tol))
    mon.check(np.shape(c) == (len(Q), len(Q)) and np.all(
        np.abs(c - want["cov"]) <= tol), "cov", lambda:
        "%s: cov %s, posterior %s (tolerance %g)" % (
            what(), c, want["cov"], tol))
    mon.check(np.all(np.abs(np.diag(c) - s ** 2) <= 2 * tol), "std-of-cov",
              lambda: "%s: std %s, cov diagonal %s" % (what(), s, np.diag(c)))
    one = [model.predict(Q[i:i + 1], return_std=True) for i in range(len(Q))]
    mon.check(all(abs(o[0][0] - m0[i]) <= 2 * want["mean_tol"] and
                  abs(o[1][0] ** 2 - s[i] ** 2) <= 2 * tol
                  for i, o in enumerate(one)), "many-or-one",
              lambda: "%s: one by one %s, together %s %s" % (
                  what(), one, m0, s))
    return True


def run_fit(rs, mon):
    from sklearn.base import clone
    from skopt.learning import GaussianProcessRegressor
    d = int(rs.randint(1, 5))
    X, y, style, form = data(rs, d)
    tree = None
    if rs.rand() < 0.92:
        tree = kern.generate(rs, d, int(rs.randint(0, 3)), bounds="mixed")
    given = kern.build(tree) if tree else None
    noise = [None, None, 0.1, 1e-3, 2.0, "gaussian", "gaussian", 0][
        rs.randint(8)]
    alpha = 1e-10
    u = rs.rand()
    if u < 0.2:
        alpha = float(10 ** rs.uniform(-6, 0))
    elif u < 0.35:
        alpha = 10 ** rs.uniform(-6, 0, len(X))
    elif u < 0.8:
        alpha = 1e-6
    normalize = bool(rs.rand() < 0.5)
    kw = dict(kernel=given, noise=noise, alpha=alpha, normalize_y=normalize,
              n_restarts_optimizer=int(rs.choice([0, 0, 1])),
              random_state=gen.seed(rs),
              optimizer=None if rs.rand() < 0.3 else "fmin_l_bfgs_b")
    if rs.rand() < 0.1:
        kw["copy_X_train"] = False
    model = GaussianProcessRegressor(**kw)
    XX, yy = (X.tolist(), y.tolist()) if rs.rand() < 0.2 else (X, y)
    model.fit(XX, yy)
    what = lambda: "%s noise=%r alpha=%s normalize=%s n=%d d=%d %s %s" % (
        model.kernel_, noise, np.max(alpha), normalize, len(X), d, style,
        form)
    if noise:
        ok = model.noise_ is not None and model.noise_ >= 0 and (
            noise == "gaussian" or model.noise_ == noise)
        mon.check(ok, "noise", lambda: "noise %r, noise_ %r" % (
            noise, model.noise_))
        if not ok:
            return
    else:
        mon.check(model.noise_ is None, "noise",
                  lambda: "noise %r, noise_ %r" % (noise, model.noise_))
    post = Posterior(model.kernel_, model.noise_, alpha, X, y, normalize)
    Q = rs.rand(5, d) if style != "grid" else rs.randint(0, 4, (5, d)) * 1.0
    if style == "wide":
        Q = Q * 12 - 6
    Q[0] = X[0]
    if len(X) > 2:
        Q[1] = X[-1]
        Q[2] = 0.5 * (X[0] + X[1])
    judged = agree(mon, post, model, Q, what)
    # predictions are of the function, not of further noisy observations
    K0 = kern.evaluate(model.kernel_, Q, Q)
    prior = np.diag(K0) * post.scale ** 2
    s = model.predict(Q, return_std=True)[1]
    if noise:
        mon.check(np.all(s ** 2 <= prior * (1 + 1e-6) + 1e-9 *
                         post.scale ** 2), "noise-not-added",
                  lambda: "%s: variances %s, prior %s" % (
                      what(), s ** 2, prior))
    if judged and post.cond < 1e9:
        lml = kern.log_likelihood(post.K, post.yn)
        mon.check(abs(lml - model.log_marginal_likelihood_value_) <=
                  1e-5 * max(1.0, abs(lml)) + 1e-13 * post.cond * len(X),
                  "likelihood", lambda: "%s: likelihood %r, reported %r" % (
                      what(), lml, model.log_marginal_likelihood_value_))
        start = given
        if start is not None:
            K = kern.evaluate(start, X) + np.diag(
                {None: 0, 0: 0, "gaussian": 1.0}.get(noise, noise) +
                alpha * np.ones(len(X)))
            if kw["optimizer"] is None:
                # nothing is learned
                mon.check(np.allclose(
                    np.atleast_1d(start.theta), strip(model, noise),
                    rtol=1e-9, atol=1e-12),
                    "fixed-parameters", lambda: "%s: %s, given %s" % (
                        what(), model.kernel_, start))
            elif np.linalg.cond(K) < 1e9:
                before = kern.log_likelihood(K, post.yn)
                mon.check(lml >= before - 1e-6 * max(1.0, abs(before)),
                          "improves", lambda: "%s: likelihood %r, before "
                          "fitting %r" % (what(), lml, before))
    if rs.rand() < 0.4 and judged:
        again = clone(model)
        if np.ndim(alpha) == 0:
            again.fit(rs.rand(4, d), rs.rand(4))
        again.fit(X, y)
        again.fit(X, y)
        a = again.predict(Q, return_std=True)
        b = model.predict(Q, return_std=True)
        sc = post.scale
        mon.check(all(np.allclose(u, v, rtol=1e-3, atol=1e-4 * sc)
                      for u, v in zip(a, b)), "refit",
                  lambda: "%s: refitted %s, fresh %s" % (what(), a, b))
    mon.nontrivial([str(tree and shape(tree)), str(noise), normalize,
                    len(X), d, style, form, str(kw["optimizer"])])


def strip(model, noise):
    """theta of the fitted kernel without the added noise term."""
    k = model.kernel_
    return np.atleast_1d(k.k1.theta if noise else k.theta)


def shape(t):
    return [t["k"]] + [shape(t[s]) for s in ("a", "b") if s in t]


def run_prior(rs, mon):
    from skopt.learning import GaussianProcessRegressor
    d = int(rs.randint(1, 4))
    tree = kern.generate(rs, d, 1) if rs.rand() < 0.8 else None
    kernel = kern.build(tree) if tree else None
    model = GaussianProcessRegressor(kernel=kernel)
    Q = rs.rand(4, d)
    if kernel is None:
        K = np.exp(-0.5 * np.sum((Q[:, None] - Q[None]) ** 2, axis=2))
    else:
        K = kern.evaluate(kernel, Q, Q)
    m, s = model.predict(Q, return_std=True)
    m2, c = model.predict(Q, return_cov=True)
    mon.check(not np.any(m) and not np.any(m2) and not np.any(
        model.predict(Q)) and np.allclose(s ** 2, np.diag(K), rtol=1e-7, atol=1e-10) and
        np.allclose(c, K, rtol=1e-7, atol=1e-10), "prior",
        lambda: "%s: %s %s %s" % (kernel, m, s, c))
    mon.nontrivial(["prior", str(tree and shape(tree)), d])


def run_targets(rs, mon):
    """Several targets share the covariance function."""
    from skopt.learning import GaussianProcessRegressor
    d, n = int(rs.randint(1, 3)), int(rs.randint(3, 12))
    X, Y = rs.rand(n, d), rs.randn(n, int(rs.randint(2, 4)))
    normalize = bool(rs.rand() < 0.5)
    tree = kern.generate(rs, d, 1)
    model = GaussianProcessRegressor(
        kernel=kern.build(tree), normalize_y=normalize, optimizer=None,
        noise=[None, 0.1][rs.randint(2)], alpha=1e-4).fit(X, Y)
    post = Posterior(model.kernel_, model.noise_, 1e-4, X, Y, normalize)
    if post.cond > 1e8:
        return
    Q = rs.rand(int(rs.choice([2, 3, 5])), d)
    mean = kern.evaluate(model.kernel_, Q, X) @ post.weights * post.scale + \
        post.shift
    Ks = kern.evaluate(model.kernel_, Q, X)
    cov = kern.evaluate(model.kernel_, Q, Q) - Ks @ np.linalg.solve(
        post.K, Ks.T)
    scale = post.scale * np.ones(Y.shape[1])
    m, s = model.predict(Q, return_std=True)
    m2, c = model.predict(Q, return_cov=True)
    var = np.outer(np.diag(cov), scale ** 2)
    mon.check(all(np.allclose(v, mean, atol=1e-5 * np.max(scale))
                  for v in (m, m2, model.predict(Q))) and
              np.shape(s) == var.shape and
              np.allclose(s ** 2, var, atol=1e-5 * np.max(scale) ** 2) and
              np.allclose(c, cov[..., None] * scale ** 2,
                          atol=1e-5 * np.max(scale) ** 2),
              "several-targets", lambda: "%s: %s %s %s, posterior %s %s" % (
                  model.kernel_, m, s, c, mean, var))
    mon.nontrivial(["targets", str(shape(tree)), normalize, n, Y.shape[1]])


def run_optimizer(rs, mon):
    """The models of optimizations, with the surrogate built for them."""
    import skopt
    spec = gen.space_spec(rs, max_dims=3, transforms=False)
    noise = ["gaussian", 0.01, 1e-10][rs.randint(3)]
    f = gen.objective(spec, 3, scale=float(10 ** rs.uniform(-1, 2)),
                      offset=float(rs.choice([0, 50, -3])))
    res = skopt.gp_minimize(
        f, gen.build_dims(spec), n_calls=7, n_initial_points=4, noise=noise,
        acq_optimizer="sampling", n_points=50, acq_func="EI",
        n_restarts_optimizer=0, random_state=gen.seed(rs))
    W = np.asarray(res.space.transform(res.x_iters), dtype=float)
    n0 = len(W) - len(res.models) + 1
    Q = np.asarray(res.space.transform(res.space.rvs(
        4, random_state=gen.seed(rs))), dtype=float)
    for i, model in enumerate(res.models):
        n = n0 + i
        post = Posterior(model.kernel_, model.noise_,
                         model.alpha, W[:n], res.func_vals[:n],
                         model.normalize_y)
        what = lambda: "model %d of %d told, %s, space %s" % (
            n, len(W), model.kernel_, spec)
        if agree(mon, post, model, Q, what):
            mon.check(True, "optimizer-models")
    mon.nontrivial(["optimizer", [d["k"] for d in spec], str(noise)])
