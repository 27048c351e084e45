"""C24 hyperparameter search evaluates, records and selects exactly."""
import zlib

import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin, clone
from vk import gen
from vk.freeze import freeze

RULE = ("a case is a hyperparameter search with an estimator that logs every "
        "fit and callbacks that log every round; the trace is judged against "
        "the configured budget, batch size and stopping rule, the scores are "
        "recomputed by an own cross-validation; non-trivial: distinct "
        "(spaces, budgets, batch size, surrogate, scoring, refit mode)")
REQUIRED = ["budget", "legal", "native", "keys", "fits", "rounds", "batch",
            "round-result", "score", "splits", "told", "told-points",
            "result-best", "best-index", "best-score", "best-params", "rank",
            "refit", "no-refit", "total-iterations", "stopped", "unchanged",
            "repeat", "workers", "global-rng", "refused", "param-columns",
            "train-score", "fit-params", "zero-budget"]

LOG = []
ON = [True]
NAMES = ["b", "a", "d", "c", "e2", "e10", "Z"]


class LoggingEst(RegressorMixin, BaseEstimator):
    """Fit logs, the score is a known function of parameters and data."""

    def __init__(self, a=0, b=0, c=0, d=0, e2=0, e10=0, Z=0, mode="plain"):
        self.a = a
        self.b = b
        self.c = c
        self.d = d
        self.e2 = e2
        self.e10 = e10
        self.Z = Z
        self.mode = mode

    def worth(self):
        t = repr([(n, getattr(self, n)) for n in sorted(NAMES)
                  if not isinstance(getattr(self, n), BaseEstimator)])
        u = zlib.crc32(t.encode()) / 2.0 ** 32
        if self.mode == "ties":
            return round(u * 3) / 3
        if self.mode == "huge":
            return 1e6 * (u - 0.5)
        return u - 0.3

    def fit(self, X, y, tag=None):
        if ON[0]:
            LOG.append(("fit", {n: getattr(self, n) for n in NAMES}, len(X),
                        tag))
        self.mean_ = float(np.mean(y))
        self.n_ = len(X)
        return self

    def predict(self, X):
        return np.full(len(X), self.worth()) + 0.01 * self.mean_

    def score(self, X, y):
        return self.worth() + (0.0 if self.mode == "ties" else
                               0.01 * (float(np.mean(y)) - self.mean_))


def by_hand(est, X, y):
    return 2.0 * est.worth() + 0.001 * est.n_


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["search"] * 230 + ["pipeline"] * 16 +
            ["refused"] * 12 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    ON[0] = True
    del LOG[:]
    {"search": run_search, "pipeline": run_pipeline,
     "refused": run_refused}[case["kind"]](rs, mon)


def dims_for(rs, spec, names):
    """The dimensions as a user may write them, by parameter name."""
    out = {}
    order = [names[i] for i in rs.permutation(len(names))]
    by = dict(zip(names, spec))
    for n in order:
        d = by[n]
        u = rs.rand()
        if u < 0.3 and d["k"] in ("real", "int") and d["base"] == 10:
            v = (d["low"], d["high"])
            if d["k"] == "real":
                v = (float(v[0]), float(v[1]))
            if d["prior"] != "uniform":
                v = v + (d["prior"],)
            out[n] = v
        elif u < 0.4 and d["k"] == "cat" and len(d["cats"]) > 2 and \
                d["prior"] is None and all(isinstance(c, str)
                                           for c in d["cats"]):
            out[n] = list(d["cats"])
        else:
            out[n] = gen.build_dim(d)
            if rs.rand() < 0.2:
                out[n].name = str(rs.choice(NAMES))
    return out


def run_search(rs, mon):
    from skopt import BayesSearchCV
    n_spaces = int(rs.choice([1, 1, 2, 3]))
    specs, spaces, budgets = [], [], []
    default = int(rs.choice([1, 2, 4, 5, 7]))
    for _ in range(n_spaces):
        spec = gen.space_spec(rs, max_dims=3)
        names = [NAMES[i] for i in rs.permutation(len(NAMES))[:len(spec)]]
        specs.append(dict(zip(names, spec)))
        space = dims_for(rs, spec, names)
        if rs.rand() < 0.4:
            n = int(rs.choice([0, 1, 2, 3, 6, 9]))
            spaces.append((space, n))
            budgets.append(n)
        else:
            spaces.append(space)
            budgets.append(default)
    if sum(budgets) == 0:
        spaces[0], budgets[0] = (spaces[0][0], 3), 3
    given = spaces[0] if n_spaces == 1 and isinstance(spaces[0], dict) and \
        rs.rand() < 0.7 else spaces
    n_points = int(rs.choice([1, 1, 1, 2, 3, 5]))
    folds = int(rs.choice([2, 3]))
    ok = {"base_estimator": str(rs.choice(["dummy", "RF", "ET", "GP"],
                                          p=[0.3, 0.55, 0.05, 0.1])),
          "n_initial_points": int(rs.choice([1, 2, 3]))}
    if ok["base_estimator"] == "RF" and rs.rand() < 0.8:
        from skopt.learning import RandomForestRegressor
        ok["base_estimator"] = RandomForestRegressor(n_estimators=5,
                                                     random_state=3)
    if ok["base_estimator"] == "GP":
        ok["acq_optimizer"] = "sampling"
    if rs.rand() < 0.3:
        ok["acq_func"] = str(rs.choice(["EI", "LCB", "PI"]))
    if rs.rand() < 0.15:
        ok["initial_point_generator"] = "lhs"
    if rs.rand() < 0.05:
        ok = None
    scoring = [None, None, None, "neg_mean_squared_error", by_hand][
        rs.randint(5)]
    refit = [True, True, True, False, last][rs.randint(5)]
    est = LoggingEst(mode=str(rs.choice(["plain", "plain", "ties", "huge"])))
    N = int(rs.choice([8, 13]))
    X = np.arange(2.0 * N).reshape(N, 2)
    y = np.sin(np.arange(N))
    groups = None
    from sklearn.model_selection import GroupKFold, KFold
    cv = folds
    if rs.rand() < 0.2:
        cv = GroupKFold(folds)
        groups = np.arange(N) % 4
    elif rs.rand() < 0.2:
        cv = list(KFold(folds).split(X))
    seed = gen.seed(rs)
    train = bool(rs.rand() < 0.2)
    jobs = 2 if rs.rand() < 0.06 else 1
    tag = seed + 0.5 if rs.rand() < 0.3 else None
    rounds = [-(-b // n_points) for b in budgets]
    stop_at = None
    if rs.rand() < 0.35:
        k = int(rs.randint(n_spaces))
        if rounds[k] > 1:
            stop_at = (k, int(rs.randint(1, rounds[k])))

    def make(n_jobs=1):
        return BayesSearchCV(
            clone(est), given, optimizer_kwargs=ok, n_iter=default,
            scoring=scoring, n_jobs=n_jobs, n_points=n_points, refit=refit,
            cv=cv, random_state=seed, return_train_score=train)
    where = {"space": 0, "round": 0}

    def watch(res):
        LOG.append(("round", len(res.x_iters), float(res.fun),
                    [list(x) for x in res.x_iters],
                    [float(v) for v in res.func_vals]))
        while where["round"] >= rounds[where["space"]]:
            where["space"] += 1
            where["round"] = 0
        where["round"] += 1
        if stop_at == (where["space"], where["round"]):
            where["space"] += 1
            where["round"] = 0
            return True
    form = rs.rand()
    s = make(jobs)
    advertised = s.total_iterations
    before = (freeze(given), freeze(ok), freeze(est))
    world = gen.state_of_global_rng()
    kw = {} if tag is None else {"tag": tag}
    callback = watch if form < 0.4 or stop_at else \
        [watch, lambda res: None] if form < 0.8 else None
    r = s.fit(X, y, groups=groups, callback=callback, **kw)
    what = lambda: "spaces %s budgets %s n_points %d kwargs %s scoring %s " \
        "refit %s cv %s stop %s mode %s" % (
            [sorted(p) for p in specs], budgets, n_points, ok, scoring,
            refit, cv, stop_at, est.mode)
    mon.check(r is s, "unchanged", "fit returns another object")
    mon.check((freeze(given), freeze(ok), freeze(est)) == before,
              "unchanged", lambda: "%s: arguments changed" % what())
    mon.check(gen.state_of_global_rng() == world, "global-rng",
              lambda: "%s: the global random state moved" % what())
    # what should have been evaluated
    done = list(budgets)
    if stop_at is not None:
        done[stop_at[0]] = min(done[stop_at[0]], stop_at[1] * n_points)
    total = sum(done)
    mon.check(advertised == sum(budgets), "total-iterations",
              lambda: "%s: advertises %d" % (what(), advertised))
    params = s.cv_results_["params"]
    if not mon.check(len(params) == total,
                     "budget" if stop_at is None else "stopped",
                     lambda: "%s: %d candidates, want %d" % (
                         what(), len(params), total)):
        return
    if 0 in budgets:
        mon.check(True, "zero-budget")
    at, parts = 0, []
    for k in range(n_spaces):
        parts.append(params[at:at + done[k]])
        at += done[k]
    for part, spec in zip(parts, specs):
        for p in part:
            if not mon.check(set(p) == set(spec), "keys",
                             lambda: "%s: candidate %s" % (what(), p)):
                continue
            for n, v in p.items():
                why = gen.why_illegal(spec[n], v)
                mon.check(why is None, "legal", lambda:
                          "%s: parameter %s=%r: %s" % (what(), n, v, why))
                mon.check(not isinstance(v, (np.generic, np.ndarray)),
                          "native", lambda: "%s: parameter %s=%r is %s" % (
                              what(), n, v, type(v)))
    for n in NAMES:
        col = s.cv_results_.get("param_" + n)
        mine = [(n in p, p.get(n)) for p in params]
        if col is None:
            mon.check(not any(m for m, _ in mine), "param-columns",
                      lambda: "%s: no column for %s" % (what(), n))
        else:
            mask = np.ma.getmaskarray(col)
            mon.check(len(col) == total and all(
                m == (not k) and (m or gen.same_value(v, w))
                for (k, w), m, v in zip(mine, mask, col.data)),
                "param-columns", lambda: "%s: column %s is %s" % (
                    what(), n, col))
    trace = list(LOG)
    del LOG[:]
    judge_trace(mon, what, trace, parts, n_points, s, refit, jobs, tag,
                callback is not None, N, folds)
    # the scores, from an own cross-validation
    from sklearn.metrics import mean_squared_error
    splits = list(cv) if isinstance(cv, list) else \
        list(cv.split(X, y, groups)) if groups is not None else \
        list(KFold(cv).split(X))
    ON[0] = False
    mean = np.asarray(s.cv_results_["mean_test_score"], dtype=float)
    for i, p in enumerate(params):
        one = []
        own = []
        for tr, te in splits:
            e = clone(est).set_params(**p).fit(X[tr], y[tr])
            for out, idx in ((one, te), (own, tr)):
                if scoring is None:
                    out.append(e.score(X[idx], y[idx]))
                elif scoring is by_hand:
                    out.append(by_hand(e, X[idx], y[idx]))
                else:
                    out.append(-mean_squared_error(y[idx],
                                                   e.predict(X[idx])))
        got = [s.cv_results_["split%d_test_score" % j][i]
               for j in range(len(splits))]
        size = 1e-9 * max(np.max(np.abs(one)), 1)
        mon.check(np.allclose(got, one, rtol=0, atol=size), "splits",
                  lambda: "%s: candidate %s scored %s, by hand %s" % (
                      what(), p, got, one))
        mon.check(abs(mean[i] - np.mean(one)) <= size, "score",
                  lambda: "%s: candidate %s mean score %s, by hand %s" % (
                      what(), p, mean[i], np.mean(one)))
        if train:
            mon.check(abs(s.cv_results_["mean_train_score"][i] -
                          np.mean(own)) <= size, "train-score", lambda:
                      "%s: candidate %s mean train score %s, by hand %s" % (
                          what(), p, s.cv_results_["mean_train_score"][i],
                          np.mean(own)))
    ON[0] = True
    mon.check(s.n_splits_ == folds, "splits",
              lambda: "%s: n_splits_ %s" % (what(), s.n_splits_))
    # what each optimizer was told
    results = s.optimizer_results_
    mon.check(len(results) == n_spaces, "told",
              lambda: "%s: %d results" % (what(), len(results)))
    at = 0
    for k, (part, spec, res) in enumerate(zip(parts, specs, results)):
        own = mean[at:at + len(part)]
        at += len(part)
        if not part:
            continue
        names = sorted(spec)
        pts = [[p[n] for n in names] for p in part]
        mon.check(gen.same_points([list(x) for x in res.x_iters], pts),
                  "told-points", lambda: "%s: told %s, evaluated %s" % (
                      what(), res.x_iters, pts))
        mon.check(np.array_equal(res.func_vals, -own), "told", lambda:
                  "%s: told %s, mean scores %s" % (what(), res.func_vals,
                                                   own))
        i = int(np.argmax(own))
        mon.check(float(res.fun) == -own[i] and any(
            gen.same_point(list(res.x), pts[j])
            for j in range(len(pts)) if own[j] == own[i]), "result-best",
            lambda: "%s: best %s %s of %s %s" % (what(), res.x, res.fun, pts,
                                                 own))
        mon.check([d.name for d in res.space.dimensions] == names or any(
            getattr(v, "name", None) for v in (
                spaces[k][0] if isinstance(spaces[k], tuple)
                else spaces[k]).values()), "told-points", lambda:
            "%s: names %s" % (what(), [d.name for d in res.space.dimensions]))
    # the selection
    best = int(np.argmax(mean)) if refit is not last else total - 1
    mon.check(s.best_index_ == best, "best-index",
              lambda: "%s: best index %s of %s" % (what(), s.best_index_,
                                                   mean))
    if refit is not last:
        mon.check(s.best_score_ == mean.max(), "best-score",
                  lambda: "%s: best score %s of %s" % (
                      what(), s.best_score_, mean))
    mon.check(same_params(s.best_params_, params[best]), "best-params",
              lambda: "%s: best %s of %s" % (what(), s.best_params_, params))
    rank = [1 + int(np.sum(mean > m)) for m in mean]
    mon.check(list(s.cv_results_["rank_test_score"]) == rank, "rank",
              lambda: "%s: ranks %s of %s" % (
                  what(), s.cv_results_["rank_test_score"], mean))
    if train:
        tm = s.cv_results_["mean_train_score"]
        mon.check(list(s.cv_results_["rank_train_score"]) ==
                  [1 + int(np.sum(tm > m)) for m in tm], "train-score",
                  lambda: "%s: train ranks %s of %s" % (
                      what(), s.cv_results_["rank_train_score"], tm))
    if refit:
        e = s.best_estimator_
        mon.check(e.n_ == N and all(
            gen.same_value(getattr(e, n), v)
            for n, v in params[best].items()) and
            np.allclose(s.predict(X), e.predict(X)), "refit",
            lambda: "%s: best estimator %s on %d rows" % (what(), e, e.n_))
    else:
        mon.check(not hasattr(s, "best_estimator_"), "no-refit",
                  "an estimator without refit")
    # again, and with other workers
    if rs.rand() < 0.25 or jobs > 1:
        where.update(space=0, round=0)
        del LOG[:]
        o = make(1) if jobs > 1 or rs.rand() < 0.5 else s
        o.fit(X, y, groups=groups, callback=callback, **kw)
        again = o.cv_results_["params"]
        mon.check(len(again) == total and all(
            same_params(a, b) for a, b in zip(again, params)),
            "workers" if jobs > 1 else "repeat", lambda:
            "%s: again %s, before %s" % (what(), again, params))
        mon.check(np.array_equal(o.cv_results_["mean_test_score"], mean),
                  "repeat", lambda: "%s: scores differ" % what())
    mon.nontrivial([[sorted(p) for p in specs], budgets, n_points, str(ok),
                    str(scoring)[:12], str(refit)[:12], str(stop_at),
                    est.mode])


def last(results):
    return len(results["params"]) - 1


def same_params(a, b):
    return set(a) == set(b) and all(gen.same_value(a[n], b[n]) for n in a)


def judge_trace(mon, what, trace, parts, n_points, s, refit, jobs, tag,
                rounds, N, folds):
    """Fits and rounds happened exactly as often, and when, they should."""
    expected = []          # per round: (space, first, last) of its candidates
    for k, part in enumerate(parts):
        for i in range(0, len(part), n_points):
            expected.append((k, i, min(len(part), i + n_points)))
    segments, fits = [], []
    marks = []
    for ev in trace:
        if ev[0] == "fit":
            fits.append(ev)
        else:
            segments.append(fits)
            marks.append(ev)
            fits = []
    if rounds:
        if not mon.check(len(marks) == len(expected), "rounds",
                         lambda: "%s: %d rounds, want %d" % (
                             what(), len(marks), len(expected))):
            return
        for (k, i, j), m in zip(expected, marks):
            mon.check(m[1] == j, "batch", lambda:
                      "%s: %d points after a round, want %d" % (
                          what(), m[1], j))
            names = sorted(parts[k][0])
            mon.check(m[2] == min(m[4]) and gen.same_points(
                m[3], [[p[n] for n in names] for p in parts[k][:j]]),
                "round-result", lambda: "%s: the callback saw %s" % (
                    what(), m))
    elif jobs == 1:
        # without marks: everything but the refit is one segment
        cut = len(fits) - bool(refit)
        segments, fits = [fits[:cut]], fits[cut:]
        expected = [(None, 0, 0)]
    if jobs > 1:
        return
    mon.count("fits logged", sum(len(g) for g in segments) + len(fits))
    for e, group in zip(expected, segments):
        k, i, j = e
        want = parts[k][i:j] if k is not None else sum(parts, [])
        left = [f for f in group]
        for p in want:
            mine = [f for f in left if all(
                gen.same_value(f[1][n], v) for n, v in p.items()) and all(
                f[1][n] == 0 for n in NAMES if n not in p)][:folds]
            mon.check(len(mine) == folds, "fits", lambda:
                      "%s: candidate %s fitted %d times" % (
                          what(), p, len(mine)))
            for f in mine:
                left = [g for g in left if g is not f]
        mon.check(not left, "fits", lambda: "%s: also fitted %s" % (
            what(), left))
        mon.check(all(f[2] < N for f in group), "fits",
                  lambda: "%s: rows %s" % (what(), [f[2] for f in group]))
        mon.check(all(f[3] == tag for f in group), "fit-params", lambda:
                  "%s: tags %s" % (what(), [f[3] for f in group]))
    mon.check(len(fits) == bool(refit) and all(f[2] == N and f[3] == tag
                                               for f in fits),
              "refit" if refit else "no-refit", lambda:
              "%s: fits after the search %s" % (what(), fits))


def run_pipeline(rs, mon):
    """Nested names, and estimators as categories, as in the documentation."""
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import StandardScaler
    from skopt import BayesSearchCV
    from skopt.space import Categorical, Integer, Real
    pipe = Pipeline([("scale", StandardScaler()), ("model", LoggingEst())])
    first = {"model": Categorical([LoggingEst(mode="plain")]),
             "model__a": Real(1e-6, 1.0, prior="log-uniform"),
             "model__c": Integer(1, 8)}
    second = {"model": [LoggingEst(mode="huge")] if rs.rand() < 0.3 else
              Categorical([LoggingEst(mode="huge"),
                           LoggingEst(mode="ties")]),
              "model__b": Categorical(["u", "v"]),
              "scale__with_mean": Categorical([True, False])}
    if isinstance(second["model"], list):
        second["model"] = Categorical(second["model"])
    n = [int(v) for v in rs.randint(1, 5, 2)]
    s = BayesSearchCV(pipe, [(first, n[0]), (second, n[1])], cv=2,
                      n_points=int(rs.choice([1, 2])),
                      optimizer_kwargs={"base_estimator": "RF",
                                        "n_initial_points": 2},
                      random_state=gen.seed(rs))
    X = np.arange(20.0).reshape(10, 2)
    y = np.cos(np.arange(10))
    s.fit(X, y)
    params = s.cv_results_["params"]
    what = lambda: "pipeline %s: %s" % (n, params)
    mon.check(len(params) == sum(n), "budget", what)
    for i, p in enumerate(params):
        space = first if i < n[0] else second
        if not mon.check(set(p) == set(space), "keys", what):
            continue
        mon.check(isinstance(p["model"], LoggingEst) and (
            p["model"].mode == "plain") == (i < n[0]), "legal", what)
        if i < n[0]:
            mon.check(isinstance(p["model__a"], float) and
                      1e-6 <= p["model__a"] <= 1 and
                      type(p["model__c"]) is int and
                      1 <= p["model__c"] <= 8, "legal", what)
        else:
            mon.check(p["model__b"] in ("u", "v") and
                      type(p["scale__with_mean"]) is bool, "legal", what)
    fitted = [f for f in LOG]
    mon.check(len(fitted) == 2 * sum(n) + 1, "fits", lambda:
              "%s: %d fits" % (what(), len(fitted)))
    for i, p in enumerate(params):
        mine = fitted[2 * i:2 * i + 2]
        mon.check(all(f[1][k[7:]] == v for f in mine for k, v in p.items()
                      if k.startswith("model__")), "fits", lambda:
                  "%s: fits %s" % (what(), mine))
    mean = s.cv_results_["mean_test_score"]
    mon.check(s.best_index_ == int(np.argmax(mean)) and
              s.best_score_ == max(mean), "best-index", what)
    told = np.concatenate([r.func_vals for r in s.optimizer_results_])
    mon.check(np.array_equal(told, -mean), "told", what)
    del LOG[:]
    mon.nontrivial(["pipeline", n, sorted(second)])


def run_refused(rs, mon):
    from skopt import BayesSearchCV
    good = {"a": (0.0, 1.0)}
    bad = [[], {}, [(good, -1)], [(good, 1.5)], [(good, 2, 3)], ["a"],
           "abc", [(good,)], {"a": "x"}, [good, 5]]
    sp = bad[rs.randint(len(bad))]
    try:
        s = BayesSearchCV(LoggingEst(), sp, n_iter=2, cv=2)
        s.fit(np.zeros((6, 1)), np.zeros(6))
        raised = None
    except (ValueError, TypeError) as e:
        raised = e
    mon.check(raised is not None and not LOG, "refused",
              lambda: "search space %r accepted" % (sp,))
    mon.nontrivial(["refused", str(sp)])
