"""C26 the expected minimum is a legal point with its predicted value."""
import copy

import numpy as np
from vk import gen

RULE = ("a case is a result (of an optimization, or with prescribed models) "
        "and a seed; the expected minimum is judged by the legality model, "
        "by the predictions of the last model and by fresh random points; "
        "with convex models by the known minimum; non-trivial: distinct "
        "(space kinds and priors, model, number of starts)")
REQUIRED = ["legal", "value", "not-above-best", "random-points", "repeat",
            "sampling-legal", "sampling-value", "sampling-random",
            "sampling-repeat", "convex", "last-model", "global-rng",
            "unchanged", "zero-starts", "categorical", "more-starts"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["run"] * 130 + ["stub"] * 260 +
            ["cat"] * 30 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"run": run_result, "stub": run_stub, "cat": run_cat}[case["kind"]](
        rs, mon)


def allowed(n, total):
    """How many of `total` random points may beat the best of n.

    The best of n draws is beaten by a fraction above p with probability
    (1 - p)^n; p is chosen for 1e-10, with room for the second sample.
    """
    p = 1 - 10 ** (-10.0 / max(n, 1))
    return int(p * total + 7 * np.sqrt(p * total) + 20)


def predict(res, points):
    return np.asarray(res.models[-1].predict(res.space.transform(points)),
                      dtype=float)


def check(rs, mon, spec, res, what, starts=None, fresh=1500):
    from skopt import expected_minimum
    from skopt.utils import expected_minimum_random_sampling
    cat = any(d["k"] == "cat" for d in spec)
    seed = gen.seed(rs)
    starts = starts if starts is not None else int(
        rs.choice([0, 1, 3, 20, 20]))
    at_best = float(predict(res, [res.x])[0])
    before = copy.deepcopy((res.x, res.x_iters, res.fun,
                            list(res.func_vals)))
    world = gen.state_of_global_rng()
    kw = {} if starts == 20 and rs.rand() < 0.5 else {
        "n_random_starts": starts}
    x, fun = expected_minimum(res, random_state=seed, **kw)
    say = lambda: "%s starts %d: %s %s" % (what(), starts, x, fun)
    mon.check(gen.state_of_global_rng() == world, "global-rng",
              lambda: "%s: the global random state moved" % say())
    now = (res.x, res.x_iters, res.fun, list(res.func_vals))
    mon.check(gen.same_point(now[0], before[0]) and
              gen.same_points(now[1], before[1]) and now[2:] == before[2:],
              "unchanged", lambda: "%s: the result changed" % say())
    why = gen.illegal_point(spec, list(x) if isinstance(
        x, (list, tuple)) else x)
    mon.check(why is None, "legal", lambda: "%s: %s" % (say(), why))
    pool = res.space.rvs(fresh, random_state=gen.seed(rs))
    y = predict(res, pool)
    size = max(np.ptp(y), 1e-6 * np.max(np.abs(y)), 1e-300)
    own = float(predict(res, [list(x)])[0])
    mon.check(np.ndim(fun) == 0 and abs(own - fun) <= 1e-7 * size, "value",
              lambda: "%s: predicted %r there" % (say(), own))
    mon.check(fun <= at_best + 1e-7 * size,
              "not-above-best" if starts else "zero-starts",
              lambda: "%s: predicted %r at the best point %s" % (
                  say(), at_best, res.x))
    n = 100000 if cat else starts
    if n:
        beaten = int(np.sum(y < fun - 1e-9 * size))
        mon.check(beaten <= allowed(n, fresh),
                  "categorical" if cat else "random-points", lambda:
                  "%s: %d of %d random points are better" % (
                      say(), beaten, fresh))
    if rs.rand() < 0.5:
        x2, fun2 = expected_minimum(
            res, random_state=np.random.RandomState(seed)
            if rs.rand() < 0.3 else seed, **kw)
        mon.check(gen.near_value(gen.plain(list(x2)), gen.plain(list(x)),
                                 1e-9) and
                  abs(fun2 - fun) <= 1e-9 * size, "repeat", lambda:
                  "%s: again %s %s" % (say(), x2, fun2))
    if not cat and 0 < starts < 20 and rs.rand() < 0.5:
        # the starts of a smaller number are a part of those of a larger
        x3, fun3 = expected_minimum(res, n_random_starts=60,
                                    random_state=seed)
        mon.check(np.sum(y < fun3 - 1e-9 * size) <= allowed(60, fresh),
                  "more-starts", lambda: "%s: with 60 starts %s %s" % (
                      say(), x3, fun3))
    # by random sampling
    n = int(rs.choice([1, 10, 300, 1000]))
    a, fa = expected_minimum_random_sampling(res, n_random_starts=n,
                                             random_state=seed)
    say2 = lambda: "%s sampling %d: %s %s" % (what(), n, a, fa)
    why = gen.illegal_point(spec, list(a))
    mon.check(why is None, "sampling-legal", lambda: "%s: %s" % (
        say2(), why))
    own = float(predict(res, [list(a)])[0])
    mon.check(np.ndim(fa) == 0 and abs(own - fa) <= 1e-7 * size,
              "sampling-value", lambda: "%s: predicted %r there" % (
                  say2(), own))
    beaten = int(np.sum(y < fa - 1e-9 * size))
    mon.check(beaten <= allowed(n, fresh), "sampling-random", lambda:
              "%s: %d of %d random points are better" % (
                  say2(), beaten, fresh))
    b, fb = expected_minimum_random_sampling(res, n_random_starts=n,
                                             random_state=seed)
    mon.check(gen.same_point(list(a), list(b)) and fa == fb,
              "sampling-repeat", lambda: "%s: again %s %s" % (
                  say2(), b, fb))
    mon.count("fresh random points", fresh)
    return x, fun


def run_result(rs, mon):
    import skopt
    spec = gen.space_spec(rs, max_dims=3, kinds=("real", "int"),
                          transforms=True)
    f = gen.objective(spec, int(rs.randint(99)),
                      scale=float(rs.choice([1, 1, 1e-3, 1e3])),
                      offset=float(rs.choice([0, -4.0])))
    name = str(rs.choice(["gp", "gp", "rf", "et", "gbrt", "tell"]))
    kw = dict(n_calls=7, n_initial_points=5, n_points=60,
              random_state=gen.seed(rs))
    dims = gen.build_dims(spec)
    if name == "gp":
        res = skopt.gp_minimize(f, dims, acq_optimizer="sampling", **kw)
    elif name == "gbrt":
        res = skopt.gbrt_minimize(f, dims, **kw)
    elif name == "tell":
        opt = skopt.Optimizer(dims, "GP", n_initial_points=4,
                              acq_optimizer="sampling",
                              random_state=gen.seed(rs))
        for _ in range(6):
            x = opt.ask()
            opt.tell(x, f(x))
        res = opt.get_result()
    else:
        res = skopt.forest_minimize(f, dims, base_estimator=name.upper(),
                                    **kw)
    what = lambda: "%s on %s" % (name, spec)
    check(rs, mon, spec, res, what)
    mon.nontrivial([name, [(d["k"], d["prior"], d["transform"])
                           for d in spec]])


class Bowl(object):
    """A convex quadratic of the warped point, or a wave."""

    def __init__(self, c, w, depth=0.0, wave=0.0):
        self.c, self.w, self.depth, self.wave = c, w, depth, wave

    def fit(self, X, y):
        return self

    def predict(self, X, return_std=False):
        X = np.asarray(X, dtype=float)
        m = self.depth + np.sum(self.w * (X - self.c) ** 2, axis=1) + \
            self.wave * np.sin(9 * X).sum(axis=1)
        return (m, np.ones(len(X))) if return_std else m


def result_with(rs, dims, spec, models):
    from skopt.space import Space
    from skopt.utils import create_result
    space = Space(dims)
    Xi = [gen.rand_point(rs, spec) for _ in range(4)]
    yi = [float(v) for v in rs.randn(4)]
    return create_result(Xi, yi, space=space, models=models)


def run_stub(rs, mon):
    from skopt import expected_minimum
    d = int(rs.randint(1, 4))
    ints = rs.rand() < 0.35
    logs = rs.rand() < 0.2
    spec = []
    for _ in range(d):
        if ints and rs.rand() < 0.6:
            low = int(rs.randint(-5, 5))
            spec.append({"k": "int", "low": low,
                         "high": low + int(rs.randint(1, 9)),
                         "prior": "uniform", "base": 10, "dtype": "int64",
                         "transform": str(rs.choice(["identity",
                                                     "normalize"]))})
        else:
            low = float(rs.choice([-2.0, 0.0, 0.5, 1.0]))
            high = low + float(rs.choice([0.5, 1.0, 4.0]))
            prior = "uniform"
            if logs:
                low, high, prior = 0.5, 6.0, "log-uniform"
            spec.append({"k": "real", "low": low, "high": high,
                         "prior": prior, "base": 10, "dtype": "float",
                         "transform": str(rs.choice(["identity",
                                                     "normalize"]))})
    dims = gen.build_dims(spec)
    from skopt.space import Space
    box = np.array(Space(dims).transformed_bounds, dtype=float)
    inside = rs.rand() < 0.7
    c = box[:, 0] + (box[:, 1] - box[:, 0]) * (
        rs.uniform(0.1, 0.9, d) if inside else rs.uniform(-0.5, 1.5, d))
    w = rs.uniform(0.3, 3, d)
    depth = float(rs.choice([0, -5.0, 100.0]))
    wave = 0.0 if rs.rand() < 0.6 else 0.5
    first = Bowl(c[::-1] * 0 + box[:, 0], w, depth - 50)
    last = Bowl(c, w, depth, wave)
    res = result_with(rs, dims, spec, [first, last])
    what = lambda: "bowl c=%s w=%s wave=%s in %s" % (c, w, wave, spec)
    starts = int(rs.choice([0, 1, 3, 20]))
    x, fun = check(rs, mon, spec, res, what, starts)
    real = all(s["k"] == "real" for s in spec)
    lowest = depth + np.sum(w * (np.clip(c, box[:, 0], box[:, 1]) - c) ** 2)
    if not wave:
        # rounded, no point is below the bottom of the bowl
        mon.check(fun >= lowest - 1e-9 * max(1, abs(depth)) - 1e-9,
                  "last-model", lambda: "%s: %s %s below the lowest "
                  "prediction %s" % (what(), x, fun, lowest))
    if real and not wave:
        tol = 2e-3 * max(np.sum(w * (box[:, 1] - box[:, 0]) ** 2), 1e-3)
        mon.check(fun <= lowest + tol, "convex", lambda:
                  "%s starts %d: %s %s, the minimum is %s at %s" % (
                      what(), starts, x, fun, lowest, c))
    mon.nontrivial(["bowl", [(s["k"], s["prior"], s["transform"])
                             for s in spec], inside, wave, starts])


def run_cat(rs, mon):
    """With categories: 100000 random points."""
    import skopt
    spec = gen.space_spec(rs, max_dims=3, min_cats=2)
    if not any(d["k"] == "cat" for d in spec):
        spec.append(gen.cat_spec(rs, min_cats=2))
    stub = rs.rand() < 0.6
    dims = gen.build_dims(spec)
    if stub:
        from skopt.space import Space
        box = np.array(Space(dims).transformed_bounds, dtype=float)
        c = box[:, 0] + (box[:, 1] - box[:, 0]) * rs.rand(len(box))
        w = rs.uniform(0.5, 2, len(box)) / np.maximum(
            box[:, 1] - box[:, 0], 1e-12) ** 2
        name = "bowl"
        if rs.rand() < 0.5:
            # the observed optimum sits in a narrow hole
            at = gen.rand_point(rs, spec, 0)
            c = np.asarray(Space(dims).transform([at]), dtype=float)[0]
            name = "hole"
        res = result_with(rs, dims, spec, [Bowl(c + 9, w), Bowl(c, w)])
        if name == "hole":
            from skopt.utils import create_result
            Xi = [at] + res.x_iters
            res = create_result(Xi, [-5.0, 0, 1, 2, 3], space=res.space,
                                models=res.models)
    else:
        f = gen.objective(spec, 3)
        name = str(rs.choice(["GP", "RF"]))
        opt = skopt.Optimizer(dims, name, n_initial_points=4,
                              acq_optimizer="sampling",
                              random_state=gen.seed(rs))
        for _ in range(6):
            x = opt.ask()
            opt.tell(x, f(x))
        res = opt.get_result()
    what = lambda: "%s on %s" % (name, spec)
    check(rs, mon, spec, res, what, starts=20, fresh=10000)
    mon.nontrivial(["cat", name, [(d["k"], d.get("prior") is not None)
                                  for d in spec]])
