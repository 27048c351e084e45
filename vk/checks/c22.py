"""C22 tree-ensemble uncertainty is what the ensemble implies."""
import numpy as np
from vk import gen

RULE = ("a case is a forest or a quantile-boosting model with generated "
        "parameters and data; mean, deviation and quantiles are recomputed "
        "from the single trees and their training samples, fits are repeated "
        "with the same seed and other numbers of workers; non-trivial: "
        "distinct (estimator, parameters, data shape)")
REQUIRED = ["mean", "std", "leaf-variance", "min-variance", "non-negative",
            "as-sklearn", "parameters", "reproducible", "workers", "refused",
            "oob", "grown", "median", "spread", "quantiles", "quantile-fit",
            "quantile-order", "result-models"]
CONFIRM = ("workers",)


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["forest"] * 420 + ["gbrt"] * 260 +
            ["result"] * 40 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"forest": run_forest, "gbrt": run_gbrt,
     "result": run_result}[case["kind"]](rs, mon)


def data(rs, n=None, d=None):
    n = n or int(rs.choice([2, 5, 12, 30, 60]))
    d = d or int(rs.randint(1, 5))
    X = rs.rand(n, d)
    if rs.rand() < 0.3:
        X = np.round(X * 4) / 4
    y = np.sin(4 * X.sum(axis=1)) + 0.3 * rs.randn(n)
    form = str(rs.choice(["plain", "plain", "big", "small", "offset",
                          "constant"]))
    y = {"plain": y, "big": y * 1e4, "small": y * 1e-3, "offset": y + 30,
         "constant": np.full(n, -1.5)}[form]
    return X, y, form


def run_forest(rs, mon):
    import sklearn.ensemble as E
    from skopt import learning as L
    name = str(rs.choice(["RandomForestRegressor", "ExtraTreesRegressor"]))
    X, y, form = data(rs)
    n, d = X.shape
    kw = {"n_estimators": int(rs.choice([1, 2, 5, 11])),
          "random_state": gen.seed(rs)}
    if rs.rand() < 0.5:
        kw["min_samples_leaf"] = int(rs.choice([1, 2, 3, 5]))
    if rs.rand() < 0.3:
        kw["max_depth"] = int(rs.randint(1, 5))
    if rs.rand() < 0.2:
        kw["min_samples_split"] = int(rs.choice([2, 4, 8]))
    if rs.rand() < 0.2:
        kw["max_leaf_nodes"] = int(rs.randint(2, 8))
    if rs.rand() < 0.2:
        kw["min_impurity_decrease"] = float(rs.choice([0.001, 0.05]))
    if rs.rand() < 0.3:
        kw["max_features"] = [1, 0.5, "sqrt", "log2", None][rs.randint(5)]
    if rs.rand() < 0.3:
        kw["bootstrap"] = bool(rs.rand() < 0.5)
    if rs.rand() < 0.1:
        kw["min_weight_fraction_leaf"] = 0.1
    reference = dict(kw)
    mv = 0.0
    if rs.rand() < 0.5:
        mv = float(rs.choice([1e-6, 0.01, 0.5, 30.0]))
        kw["min_variance"] = mv
    weights = rs.uniform(0.2, 2, n) if rs.rand() < 0.15 else None
    kw["n_jobs"] = int(rs.choice([1, 1, 2]))
    m = getattr(L, name)(**kw)
    m.fit(X, y) if weights is None else m.fit(X, y, sample_weight=weights)
    what = lambda: "%s(%s) n=%d d=%d %s" % (name, kw, n, d, form)
    Q = np.vstack([rs.rand(6, d), X[:2]])
    if rs.rand() < 0.2:
        Q = np.array(Q.tolist())
    mean0 = m.predict(Q)
    mean, std = m.predict(Q.tolist() if rs.rand() < 0.2 else Q,
                          return_std=True)
    size = max(1e-300, np.max(np.abs(y)))
    trees = np.array([t.predict(Q) for t in m.estimators_])
    mon.check(len(m.estimators_) == kw["n_estimators"] and
              np.shape(mean) == (len(Q),) and
              np.allclose(mean, trees.mean(axis=0), rtol=0,
                          atol=1e-9 * size) and
              np.allclose(mean0, mean, rtol=0, atol=1e-12 * size), "mean",
              lambda: "%s: mean %s and %s, of the trees %s" % (
                  what(), mean, mean0, trees.mean(axis=0)))
    leaf = np.array([t.tree_.impurity[t.apply(Q)] for t in m.estimators_])
    var = np.maximum(leaf, mv).mean(axis=0) + trees.var(axis=0)
    tol = 1e-12 * size ** 2 + 1e-9 * var
    mon.check(np.shape(std) == (len(Q),) and np.all(np.isfinite(std)) and
              np.all(std >= 0), "non-negative",
              lambda: "%s: %s" % (what(), std))
    mon.check(np.all(np.abs(std ** 2 - var) <= tol), "std",
              lambda: "%s: std %s, total variance implies %s" % (
                  what(), std, np.sqrt(var)))
    mon.check(np.all(std ** 2 >= mv - tol), "min-variance",
              lambda: "%s: std %s below the leaf variance" % (what(), std))
    boot = kw.get("bootstrap", name.startswith("Random"))
    if weights is None and not boot:
        # leaf variances from the training data themselves
        own = np.zeros((len(m.estimators_), len(Q)))
        means = np.zeros_like(own)
        for i, t in enumerate(m.estimators_):
            at = t.apply(X)
            for j, q in enumerate(t.apply(Q)):
                own[i, j] = np.var(y[at == q])
                means[i, j] = np.mean(y[at == q])
        want = np.maximum(own, mv).mean(axis=0) + means.var(axis=0)
        mon.check(np.all(np.abs(std ** 2 - want) <= 1e-9 * size ** 2 +
                         1e-6 * want), "leaf-variance", lambda:
                  "%s: std %s, training samples in the leaves imply %s" % (
                      what(), std, np.sqrt(want)))
    # the same trees as scikit-learn grows
    s = getattr(E, name)(**dict(reference, bootstrap=boot))
    s.fit(X, y) if weights is None else s.fit(X, y, sample_weight=weights)
    mon.check(np.allclose(s.predict(Q), mean, rtol=0, atol=1e-9 * size),
              "as-sklearn", lambda: "%s: %s, scikit-learn %s" % (
                  what(), mean, s.predict(Q)))
    p = m.get_params()
    mon.check(all(p[k] == v for k, v in kw.items()) and all(
        t.tree_.max_depth <= kw.get("max_depth", 10 ** 9) and
        t.get_n_leaves() <= kw.get("max_leaf_nodes", 10 ** 9)
        for t in m.estimators_), "parameters",
        lambda: "%s: parameters %s" % (what(), p))
    from sklearn.base import clone
    for jobs in (kw["n_jobs"], 3):
        c = clone(m).set_params(n_jobs=jobs)
        c.fit(X, y) if weights is None else c.fit(X, y,
                                                  sample_weight=weights)
        a, b = c.predict(Q, return_std=True)
        mon.check(np.allclose(a, mean, rtol=0, atol=1e-9 * size) and
                  np.all(np.abs(b ** 2 - std ** 2) <= tol),
                  "reproducible" if jobs == kw["n_jobs"] else "workers",
                  lambda: "%s: again with %d workers %s %s, before %s %s" % (
                      what(), jobs, a, b, mean, std))
    if weights is None and rs.rand() < 0.3:
        # fitted on, with more trees: the first ones are kept
        more = kw["n_estimators"] + 3
        both = []
        for cls, k in ((getattr(L, name), kw),
                       (getattr(E, name), dict(reference, bootstrap=boot))):
            c = cls(**dict(k, warm_start=True)).fit(X, y)
            first = list(c.estimators_)
            c.set_params(n_estimators=more).fit(X, y)
            both.append((len(c.estimators_), all(
                a is b for a, b in zip(first, c.estimators_)), c.predict(Q)))
        mon.check(both[0][:2] == both[1][:2] and
                  np.allclose(both[0][2], both[1][2], rtol=0,
                              atol=1e-9 * size), "grown", lambda:
                  "%s warm_start, to %d trees: %s, scikit-learn %s" % (
                      what(), more, both[0], both[1]))
    if weights is None and boot and n >= 12 and rs.rand() < 0.3:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            k = dict(kw, oob_score=True, n_estimators=20, bootstrap=True)
            a = getattr(L, name)(**k).fit(X, y)
            k.pop("min_variance", None)
            b = getattr(E, name)(**k).fit(X, y)
        a, b = (np.append(getattr(v, "oob_prediction_", [np.nan]),
                          getattr(v, "oob_score_", np.nan)) for v in (a, b))
        mon.check(np.shape(a) == np.shape(b) and
                  np.allclose(a, b, rtol=1e-6, atol=1e-9 * size,
                              equal_nan=True), "oob",
                  lambda: "%s out of bag: %s, scikit-learn %s" % (
                      what(), a, b))
    other = str(rs.choice(["absolute_error", "friedman_mse"]))
    o = getattr(L, name)(n_estimators=2, criterion=other).fit(X, y)
    try:
        o.predict(Q, return_std=True)
        raised = None
    except ValueError as e:
        raised = e
    mon.check(raised is not None, "refused", lambda:
              "%s: a deviation from impurities that are no variances" % other)
    mon.nontrivial([name, sorted((k, str(v)) for k, v in kw.items()
                                 if k != "random_state"), n, d, form])


def run_gbrt(rs, mon):
    from sklearn.ensemble import GradientBoostingRegressor
    from skopt.learning import GradientBoostingQuantileRegressor as G
    X, y, form = data(rs, n=int(rs.choice([5, 12, 30])))
    n, d = X.shape
    kw = {"random_state": gen.seed(rs)}
    base = None
    bkw = {"n_estimators": int(rs.choice([3, 8])), "loss": "quantile"}
    if rs.rand() < 0.9:
        if rs.rand() < 0.3:
            bkw["max_depth"] = int(rs.randint(1, 4))
        if rs.rand() < 0.3:
            bkw["learning_rate"] = 0.3
        if rs.rand() < 0.2:
            bkw["subsample"] = 0.7
        if rs.rand() < 0.2:
            bkw["min_samples_leaf"] = 3
        base = GradientBoostingRegressor(**bkw)
        kw["base_estimator"] = base
    else:
        bkw.pop("n_estimators")
    quantiles = [0.16, 0.5, 0.84]
    u = rs.rand()
    if u < 0.5:
        if u < 0.35:
            quantiles = quantiles + [round(float(v), 2)
                                     for v in rs.uniform(0.02, 0.98, 2)
                                     if round(float(v), 2) not in quantiles]
            quantiles = [quantiles[i] for i in rs.permutation(
                len(quantiles))]
        kw["quantiles"] = quantiles
        if u < 0.1:
            kw["quantiles"] = np.array(quantiles)
        elif u < 0.2:
            kw["quantiles"] = tuple(quantiles)
    kw["n_jobs"] = int(rs.choice([1, 1, 2]))
    m = G(**kw).fit(X, y)
    what = lambda: "gbrt %s %s n=%d d=%d %s" % (kw, bkw, n, d, form)
    Q = np.vstack([rs.rand(5, d), X[:2]])
    mean = m.predict(Q)
    mean2, std = m.predict(Q, return_std=True)
    allq = m.predict(Q, return_quantiles=True)
    if not mon.check(np.shape(allq) == (len(Q), len(quantiles)), "quantiles",
                     lambda: "%s: shape %s" % (what(), np.shape(allq))):
        return
    col = {q: allq[:, i] for i, q in enumerate(quantiles)}
    size = max(1e-300, np.max(np.abs(y)))
    tol = 1e-9 * size
    mon.check(np.allclose(mean, col[0.5], rtol=0, atol=tol) and
              np.allclose(mean2, col[0.5], rtol=0, atol=tol), "median",
              lambda: "%s: mean %s %s, quantiles %s" % (what(), mean, mean2,
                                                        allq))
    mon.check(np.all(np.isfinite(std)) and np.allclose(
        std, (col[0.84] - col[0.16]) / 2, rtol=0, atol=tol), "spread",
        lambda: "%s: std %s, quantiles %s" % (what(), std, allq))
    # each quantile is boosted for that quantile, all from the same seed
    other = [quantiles[i] for i in rs.permutation(len(quantiles))]
    if rs.rand() < 0.5:
        other = [q for q in other if q == 0.5 or rs.rand() < 0.6]
    o = G(**dict(kw, quantiles=other, n_jobs=1)).fit(X, y)
    oq = o.predict(Q, return_quantiles=True)
    mon.check(all(np.allclose(oq[:, i], col[q], rtol=0, atol=tol)
                  for i, q in enumerate(other)), "quantile-order",
              lambda: "%s: quantiles %s are %s, with %s %s" % (
                  what(), other, oq, quantiles, allq))
    if d == 1 and "subsample" not in bkw:
        # with a single feature there is nothing random in boosting
        for q in quantiles:
            r = GradientBoostingRegressor(**dict(
                bkw, alpha=q, random_state=1)).fit(X, y)
            mon.check(np.allclose(r.predict(Q), col[q], rtol=0, atol=tol),
                      "quantile-fit", lambda: "%s: quantile %s %s, boosting "
                      "for it %s" % (what(), q, col[q], r.predict(Q)))
    for jobs in (kw["n_jobs"], 3):
        c = G(**dict(kw, n_jobs=jobs)).fit(X, y)
        mon.check(np.allclose(c.predict(Q, return_quantiles=True), allq,
                              rtol=0, atol=tol),
                  "reproducible" if jobs == kw["n_jobs"] else "workers",
                  lambda: "%s: again with %d workers %s, before %s" % (
                      what(), jobs, c.predict(Q, return_quantiles=True),
                      allq))
    if rs.rand() < 0.2:
        gone = float(rs.choice([0.16, 0.84]))
        bad = [q for q in [0.16, 0.5, 0.84] if q != gone]
        b = G(**dict(kw, quantiles=bad)).fit(X, y)
        try:
            b.predict(Q, return_std=True)
            raised = None
        except ValueError as e:
            raised = e
        mon.check(raised is not None, "refused",
                  lambda: "a deviation from quantiles %s" % bad)
    if rs.rand() < 0.1:
        try:
            G(base_estimator=GradientBoostingRegressor()).fit(X, y)
            raised = None
        except ValueError as e:
            raised = e
        mon.check(raised is not None, "refused", "a base of another loss")
    mon.nontrivial(["gbrt", sorted((k, str(v)) for k, v in kw.items()
                                   if k != "random_state"), n, d, form])


def run_result(rs, mon):
    """The models of optimizations predict what their trees imply."""
    import skopt
    spec = gen.space_spec(rs, max_dims=3, transforms=False)
    f = gen.objective(spec, 3)
    name = str(rs.choice(["RF", "ET", "GBRT"]))
    kw = dict(n_calls=6, n_initial_points=4, n_points=30, acq_func="EI",
              random_state=gen.seed(rs))
    if name == "GBRT":
        res = skopt.gbrt_minimize(f, gen.build_dims(spec), **kw)
    else:
        res = skopt.forest_minimize(f, gen.build_dims(spec),
                                    base_estimator=name, **kw)
    Q = np.asarray(res.space.transform(res.space.rvs(5, random_state=1)))
    for m in res.models:
        mean, std = m.predict(Q, return_std=True)
        if name == "GBRT":
            q = m.predict(Q, return_quantiles=True)
            i = [list(m.quantiles).index(v) for v in (0.16, 0.5, 0.84)]
            ok = np.allclose(mean, q[:, i[1]]) and np.allclose(
                std, (q[:, i[2]] - q[:, i[0]]) / 2)
        else:
            t = np.array([e.predict(Q) for e in m.estimators_])
            leaf = np.array([e.tree_.impurity[e.apply(Q)]
                             for e in m.estimators_])
            var = np.maximum(leaf, m.min_variance).mean(axis=0) + \
                t.var(axis=0)
            size = np.max(np.abs(res.func_vals))
            ok = np.allclose(mean, t.mean(axis=0)) and np.all(
                np.abs(std ** 2 - var) <= 1e-11 * size ** 2 + 1e-9 * var)
        mon.check(ok and len(std) == 5, "result-models",
                  lambda: "%s: %s %s" % (name, mean, std))
    mon.nontrivial(["result", name, [d["k"] for d in spec]])
