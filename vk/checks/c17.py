"""C17 user inputs and other runs are never affected."""
import contextlib
import io

import numpy as np
from vk import gen, opt as vo
from vk.freeze import difference, freeze

RULE = ("a case is an entry point called with generated arguments, all of "
        "which are snapshotted deeply before and compared after; runs on "
        "reused or shared dimension objects are compared with runs on fresh "
        "ones; non-trivial: distinct (entry point, options, dimension kinds)")
REQUIRED = ["optimizer-arguments", "told-arguments", "reused-dimensions",
            "shared-dimensions", "minimize-arguments", "search-arguments",
            "fit-arguments", "helper-arguments", "result-kept",
            "reused-estimator", "later-changes"]
CONFIRM = ("reused-dimensions", "shared-dimensions", "reused-estimator")


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in
            ["search"] * 24 + ["plots"] * 16 + ["optimizer"] * 260 +
            ["shared"] * 100 + ["later"] * 120 + ["minimize"] * 160 + ["fit"] * 120 +
            ["helpers"] * 200 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"optimizer": run_optimizer, "shared": run_shared, "later": run_later,
     "minimize": run_minimize, "search": run_search, "fit": run_fit,
     "helpers": run_helpers, "plots": run_plots}[case["kind"]](rs, mon)


def unchanged(mon, key, before, args, what):
    for name in before:
        after = freeze(args[name])
        mon.check(after == before[name], key, lambda: "%s changed its %s: %s"
                  % (what, name, difference(before[name], after)))


def shorthand(rs, spec):
    """Dimensions as tuples and lists where that says the same."""
    out = []
    for d, dim in zip(spec, gen.build_dims(spec)):
        if d["transform"] is None and rs.rand() < 0.5:
            if d["k"] == "cat" and len(d["cats"]) > 2 and \
                    d["prior"] is None and all(
                        isinstance(c, str) for c in d["cats"]):
                dim = list(d["cats"])
            elif d["k"] == "real" and d["dtype"] == "float" and \
                    d["base"] == 10 and not (isinstance(d["low"], int)):
                dim = (d["low"], d["high"], d["prior"])
        out.append(dim)
    return out


def drive(opt, cfg, seed, mon=None, steps=6):
    rs = np.random.RandomState(seed)
    f = vo.Values(np.random.RandomState(seed), cfg, "smooth")
    spec = vo.declared(cfg, opt)
    trace, kept = [], []
    for _ in range(steps):
        u = rs.rand()
        if u < 0.6:
            x = opt.ask()
            trace.append(gen.plain(x))
            x = list(x)
            y = f(x)
            if vo.is_ps(cfg) and rs.rand() < 0.5:
                y = list(y)
        elif u < 0.8:
            x = opt.ask(2)
            trace.append(gen.plain(x))
            x = [list(p) for p in x]
            y = [f(p) for p in x]
            if vo.is_ps(cfg) and rs.rand() < 0.5:
                y = [list(v) for v in y]
        else:
            x = [gen.rand_point(rs, spec) for _ in range(rs.randint(1, 4))]
            y = [f(p) for p in x]
        kept.append((x, y, freeze(x), freeze(y)))
        opt.tell(x, y)
        opt.get_result()
        if mon is not None:
            for px, py, fx, fy in kept:
                mon.check(freeze(px) == fx and freeze(py) == fy,
                          "told-arguments", lambda: "told %s became %r %r" % (
                              fx, px, py))
    return trace


def close_traces(a, b, cfg):
    """Equal up to a first difference, which is a rounding error."""
    for x, y in zip(a, b):
        if x != y:
            return gen.near_value(x, y, 1e-5 if cfg["est"] == "gp" else 1e-11)
    return len(a) == len(b)


def run_optimizer(rs, mon):
    from skopt import Optimizer
    cfg = vo.config(rs, ["rf", "et", "gbrt", "gp", "dummy", "gp"],
                    n_points=40, max_dims=3, tuples=rs.rand() < 0.2,
                    names=rs.rand() < 0.3)
    if cfg["est"] == "dummy":
        cfg["acq"] = "EI"
    kw = vo.optimizer_kwargs(cfg)
    if cfg["acq_kwargs"] is None and rs.rand() < 0.5:
        kw["acq_func_kwargs"] = {}
    args = {"dimensions": shorthand(rs, cfg["space"]),
            "base_estimator": gen.make_surrogate(cfg["est"], 3),
            "acq_func_kwargs": kw.get("acq_func_kwargs"),
            "acq_optimizer_kwargs": kw["acq_optimizer_kwargs"]}
    kw.update(args)
    before = {k: freeze(v) for k, v in args.items()}
    opt = Optimizer(**kw)
    unchanged(mon, "optimizer-arguments", before, args, "Optimizer()")
    seed = gen.seed(rs)
    a = drive(opt, cfg, seed, mon)
    opt.update_next()
    opt.copy(random_state=2)
    unchanged(mon, "optimizer-arguments", before, args,
              "an optimization with %s %s" % (cfg["est"], cfg["gen"]))
    # again with the same objects
    b = drive(Optimizer(**kw), cfg, seed)
    kw["dimensions"] = gen.build_dims(cfg["space"])
    kw["base_estimator"] = gen.make_surrogate(cfg["est"], 3)
    g = cfg["gen"]
    from vk.checks.designs import build_design
    kw["initial_point_generator"] = build_design(g) if isinstance(g, dict) \
        else g
    c = drive(Optimizer(**kw), cfg, seed)
    mon.check(close_traces(a, b, cfg) and close_traces(a, c, cfg),
              "reused-dimensions", lambda: "first %s, reused %s, fresh %s; %s"
              % (a, b, c, cfg))
    mon.nontrivial(["optimizer", cfg["est"], cfg["acq"], str(cfg["gen"]),
                    [(d["k"], d["transform"]) for d in cfg["space"]]])


def run_shared(rs, mon):
    """Two optimizers on the same dimension objects, interleaved."""
    from skopt import Optimizer
    base = vo.config(rs, ["rf"], n_points=40, max_dims=3)
    cfgs = [dict(base, **{k: v for k, v in vo.config(
        rs, ["rf", "gp", "et"], n_points=40, dims=base["space"]).items()
        if k != "space"}) for _ in range(2)]
    dims = gen.build_dims(base["space"])
    before = freeze(dims)

    def step(opt, cfg, f):
        x = opt.ask()
        opt.tell(x, f(x))
        return gen.plain(x)
    alone = []
    for cfg in cfgs:
        f = vo.Values(np.random.RandomState(1), cfg, "smooth")
        opt = vo.build(cfg)
        alone.append([step(opt, cfg, f) for _ in range(6)])
    fs = [vo.Values(np.random.RandomState(1), cfg, "smooth") for cfg in cfgs]
    opts = [vo.build(cfg, dims=dims) for cfg in cfgs]
    both = [[], []]
    order = [0] * 6 + [1] * 6
    rs.shuffle(order)
    for i in order:
        both[i].append(step(opts[i], cfgs[i], fs[i]))
        if rs.rand() < 0.2:
            # and something else with the same dimensions
            from skopt.sampler import Halton
            Halton().generate(dims, 3)
    for i in (0, 1):
        mon.check(close_traces(alone[i], both[i], cfgs[i]),
                  "shared-dimensions", lambda: "alone %s, shared %s; %s" % (
                      alone[i], both[i], cfgs))
    after = freeze(dims)
    mon.check(after == before, "optimizer-arguments",
              lambda: difference(before, after))
    mon.nontrivial(["shared", [c["est"] for c in cfgs],
                    [(d["k"], d["transform"]) for d in base["space"]]])


def run_later(rs, mon):
    """What happens to the lists afterwards does not reach a run."""
    import skopt
    from skopt import Optimizer
    from skopt.space import Real, Space
    cfg = vo.config(rs, ["rf", "et", "gp", "dummy"], n_points=30, max_dims=3)
    if cfg["est"] == "dummy":
        cfg["acq"] = "EI"
    spec = cfg["space"]
    f = vo.Values(np.random.RandomState(3), cfg, "smooth")
    dims = gen.build_dims(spec)
    how = int(rs.randint(4))

    def spoil(x):
        if how == 0:
            x.append(x[0])
        elif how == 1:
            del x[:]
        elif how == 2:
            x[0], x[-1] = x[-1], x[0]
            x.insert(0, x[-1])
        else:
            x[0] = [None] if isinstance(x[0], list) else type(x[0])
    if rs.rand() < 0.35:
        # a space of its own
        space = Space(dims)
        before = freeze(space)
        spoil(dims)
        mon.check(freeze(space) == before, "later-changes", lambda:
                  "the space changed with the list it was made from: %s" %
                  difference(before, freeze(space)))
        mon.nontrivial(["later-space", how, [d["k"] for d in spec]])
        return
    if rs.rand() < 0.4:
        x0 = [gen.rand_point(rs, spec) for _ in range(rs.randint(2, 5))]
        y0 = [f(x) for x in x0]
        if vo.is_ps(cfg):
            y0 = [v[0] if isinstance(v, (tuple, list)) else v for v in y0]
        name = str(rs.choice(["dummy", "forest"]))
        kw = {} if name == "dummy" else dict(
            n_initial_points=2, n_points=30,
            base_estimator=gen.make_surrogate("rf"))
        res = getattr(skopt, name + "_minimize")(
            gen.objective(spec, 3), dims, x0=x0, y0=y0, n_calls=4,
            random_state=gen.seed(rs), **kw)
        want = freeze([res.x_iters, res.func_vals, res.x, res.fun,
                       res.space])
        for a in (x0, y0, dims):
            spoil(a)
        got = freeze([res.x_iters, res.func_vals, res.x, res.fun, res.space])
        mon.check(want == got, "later-changes",
                  lambda: "the result of %s_minimize changed: %s" % (
                      name, difference(want, got)))
        mon.nontrivial(["later-minimize", name, how])
        return
    kw = vo.optimizer_kwargs(cfg)
    mine = gen.build_dims(spec)
    a = Optimizer(mine, gen.make_surrogate(cfg["est"], 3), **kw)
    b = Optimizer(gen.build_dims(spec), gen.make_surrogate(cfg["est"], 3),
                  **vo.optimizer_kwargs(cfg))
    n0 = [gen.rand_point(rs, spec) for _ in range(rs.randint(2, 5))]
    X, Y = [list(x) for x in n0], [f(x) for x in n0]
    a.tell(X, Y)
    b.tell([list(x) for x in n0], list(Y))
    spoil(X)
    spoil(Y)
    spoil(mine)
    ta, tb = [], []
    for _ in range(3):
        for o, t in ((a, ta), (b, tb)):
            x = o.ask()
            t.append(gen.plain(x))
            o.tell(x, f(x))
    ra, rb = a.get_result(), b.get_result()
    mon.check(close_traces(ta, tb, cfg) and
              [gen.plain(x) for x in ra.x_iters[:len(n0)]] ==
              [gen.plain(x) for x in n0] and len(ra.x_iters) == len(n0) + 3
              and len(ra.func_vals) == len(n0) + 3 and
              np.array_equal(ra.func_vals[:len(n0)], rb.func_vals[:len(n0)])
              and ra.space.n_dims == len(spec), "later-changes",
              lambda: "lists changed by the caller after tell reached the "
              "optimizer: %s %s" % (ta, tb))
    mon.nontrivial(["later", how, cfg["est"], cfg["acq"]])


def run_minimize(rs, mon):
    import skopt
    name = str(rs.choice(["dummy", "forest", "gbrt", "gp"]))
    spec = gen.space_spec(rs, max_dims=3, transforms=rs.rand() < 0.5,
                          names=rs.rand() < 0.2)
    f = gen.objective(spec, 3)
    x0 = [gen.rand_point(rs, spec) for _ in range(rs.randint(1, 4))]
    args = {"dimensions": shorthand(rs, spec)}
    u = rs.rand()
    if u < 0.3:
        args["x0"] = x0
    elif u < 0.6:
        args["x0"] = x0
        args["y0"] = [f(x) for x in x0]
        if rs.rand() < 0.3:
            args["y0"] = np.array(args["y0"])
    elif u < 0.75:
        args["x0"] = x0[0]
    callbacks = [lambda res: None, lambda res: False][:rs.randint(0, 3)]
    if rs.rand() < 0.6:
        args["callback"] = callbacks
    kw = dict(n_calls=8, random_state=gen.seed(rs),
              verbose=bool(rs.rand() < 0.3))
    if name != "dummy":
        kw.update(n_initial_points=3, n_points=30, acq_func="EI",
                  initial_point_generator=str(rs.choice(gen.DESIGNS)))
        args["base_estimator"] = gen.make_surrogate(
            {"forest": "rf", "gbrt": "gbrt", "gp": "gp"}[name])
    if name == "gp":
        kw["acq_optimizer"] = "sampling"
        kw["noise"] = ["gaussian", 0.1][rs.randint(2)]
    before = {k: freeze(v) for k, v in args.items()}

    def once():
        with contextlib.redirect_stdout(io.StringIO()):
            res = getattr(skopt, name + "_minimize")(f, **dict(args, **kw))
        return res, [gen.plain(x) for x in res.x_iters]
    res, a = once()
    unchanged(mon, "minimize-arguments", before, args, "%s_minimize" % name)
    res, b = once()
    cfg = {"est": name}
    mon.check(close_traces(a, b, cfg), "reused-estimator",
              lambda: "%s first %s, again %s" % (name, a, b))
    if callbacks and "callback" in args:
        mon.check(len(args["callback"]) == len(callbacks),
                  "minimize-arguments", "callbacks")
    mon.nontrivial([name, sorted(args), kw["verbose"],
                    [(d["k"], d["transform"]) for d in spec]])


def run_search(rs, mon):
    from sklearn.linear_model import Ridge
    from sklearn.tree import DecisionTreeRegressor
    from skopt import BayesSearchCV
    from skopt.space import Categorical, Integer, Real
    X = rs.rand(24, 3)
    y = X.sum(axis=1) + 0.1 * rs.randn(24)
    dims = {"max_depth": Integer(1, 9), "min_samples_leaf": (1, 5),
            "splitter": ["best", "random"],
            "min_impurity_decrease": Real(1e-6, 0.1, prior="log-uniform"),
            "criterion": Categorical(["squared_error", "friedman_mse"])}
    keys = [k for k in sorted(dims) if rs.rand() < 0.6] or ["max_depth"]
    rs.shuffle(keys)
    space = {k: dims[k] for k in keys}
    spaces = space
    if rs.rand() < 0.5:
        spaces = [(space, 3), {"max_depth": dims["max_depth"]}]
    args = {"estimator": DecisionTreeRegressor(random_state=0),
            "search_spaces": spaces,
            "optimizer_kwargs": {
                "base_estimator": str(rs.choice(["RF", "GP", "ET"])),
                "n_initial_points": 2,
                "acq_func_kwargs": {"xi": 0.02},
                "acq_optimizer_kwargs": {"n_points": 30}},
            "X": X, "y": y}
    if rs.rand() < 0.3:
        args["optimizer_kwargs"] = None
    callback = [lambda r: None]
    args["callback"] = callback
    before = {k: freeze(v) for k, v in args.items()}
    traces = []
    for _ in range(2):
        s = BayesSearchCV(args["estimator"], args["search_spaces"],
                          optimizer_kwargs=args["optimizer_kwargs"], n_iter=4,
                          n_points=int(1 + (len(keys) > 2)), cv=2,
                          random_state=5)
        own = freeze(s)
        s.fit(args["X"], args["y"], callback=args["callback"])
        traces.append([sorted((k, gen.plain(v)) for k, v in p.items())
                       for p in s.cv_results_["params"]])
        unchanged(mon, "search-arguments", before, args, "BayesSearchCV")
        mon.check(freeze(s)[1] == own[1], "search-arguments",
                  lambda: "fit changed the parameters of the search: %s" %
                  difference(own[1], freeze(s)[1]))
    mon.check(close_traces(*[[[list(v) for v in p] for p in t]
                             for t in traces], cfg={"est": "gp"}),
              "reused-dimensions", lambda: repr(traces))
    mon.nontrivial(["search", keys, isinstance(spaces, list)])


def run_fit(rs, mon):
    """Surrogates leave data, kernels and base estimators alone."""
    from sklearn.ensemble import GradientBoostingRegressor
    from skopt.learning import (GaussianProcessRegressor,
                                GradientBoostingQuantileRegressor)
    from skopt.learning.gaussian_process import kernels as K
    n, d = int(rs.randint(4, 20)), int(rs.randint(1, 4))
    X, y = rs.rand(n, d), rs.randn(n)
    name = str(rs.choice(["gp", "rf", "et", "gbrt"]))
    args = {"X": X, "y": y}
    if rs.rand() < 0.3:
        args["X"], args["y"] = X.tolist(), y.tolist()
    if name == "gp":
        args["kernel"] = [None, K.RBF(0.7), K.ConstantKernel(2.0) *
                          K.Matern(length_scale=[0.5] * d, nu=1.5),
                          K.RationalQuadratic() + K.ConstantKernel(0.1),
                          K.Matern() * K.ConstantKernel(1.0)][rs.randint(5)]
        est = GaussianProcessRegressor(
            kernel=args["kernel"], normalize_y=bool(rs.rand() < 0.5),
            noise=[None, 0.1, "gaussian"][rs.randint(3)], random_state=1,
            n_restarts_optimizer=int(rs.randint(2)))
    elif name == "gbrt":
        args["base"] = GradientBoostingRegressor(n_estimators=5,
                                                 loss="quantile")
        est = GradientBoostingQuantileRegressor(base_estimator=args["base"],
                                                random_state=1)
    else:
        est = gen.make_surrogate(name, 1)
    args["Q"] = rs.rand(3, d)
    before = {k: freeze(v) for k, v in args.items()}
    params = freeze(est)[1]
    preds = []
    for _ in range(2):
        est.fit(args["X"], args["y"])
        preds.append(np.concatenate(est.predict(args["Q"], return_std=True)))
        unchanged(mon, "fit-arguments", before, args, name)
        mon.check(freeze(est)[1] == params, "fit-arguments",
                  lambda: "%s: fit changed a parameter: %s" % (
                      name, difference(params, freeze(est)[1])))
    mon.check(np.allclose(preds[0], preds[1], rtol=1e-4, atol=1e-6),
              "reused-estimator", lambda: "%s refitted on the same data: %r"
              % (name, preds))
    mon.nontrivial(["fit", name, n, d, str(args.get("kernel"))])


class Objective(object):
    """An objective that can be pickled."""

    def __init__(self, spec, seed):
        self.spec, self.seed = spec, seed

    def __call__(self, x):
        return gen.objective(self.spec, self.seed)(x)


def make_result(rs, spec, name="rf"):
    from skopt import Optimizer
    f = gen.objective(spec, 2)
    opt = Optimizer(gen.build_dims(spec), gen.make_surrogate(name),
                    n_initial_points=3, acq_optimizer="sampling",
                    acq_func="EI", random_state=gen.seed(rs),
                    acq_optimizer_kwargs={"n_points": 30})
    for _ in range(5):
        x = opt.ask()
        opt.tell(x, f(x))
    res = opt.get_result()
    res.specs["args"]["func"] = Objective(spec, 2)
    return res


def freeze_result(res):
    d = {k: freeze(res[k]) for k in ("x", "fun", "func_vals", "x_iters",
                                     "space")}
    d["models"] = [id(m) for m in res.models]
    d["keys"] = sorted(res)
    d["specs"] = sorted(res.specs["args"])
    d["random_state"] = freeze(res.random_state)
    return d


def run_helpers(rs, mon):
    import os
    import skopt
    from skopt import utils
    from skopt.space import Space
    spec = gen.space_spec(rs, max_dims=3, transforms=True, names=True)
    dims = gen.build_dims(spec)
    x = gen.rand_point(rs, spec)
    pts = [gen.rand_point(rs, spec) for _ in range(3)]
    by_name = {d.name: d for d in dims}
    values = {d.name: v for d, v in zip(dims, x)}
    args = {"dims": dims, "x": x, "pts": pts, "by_name": by_name,
            "values": values}
    before = {k: freeze(v) for k, v in args.items()}

    def named():
        @utils.use_named_args(dims)
        def f(**kw):
            kw.clear()
            return 0.5
        f(x)

    def space_use():
        s = Space(dims)
        s.rvs(2, random_state=1)
        t = s.transform(pts)
        keep = t.copy()
        s.inverse_transform(t)
        mon.check(np.array_equal(keep, t), "helper-arguments",
                  "inverse_transform changed its array")
        s.distance(pts[0], pts[1])
        pts[0] in s
        s == Space(gen.build_dims(spec))
        s.bounds, s.transformed_bounds, s.n_dims, repr(s)

    def normalize_use():
        s = utils.normalize_dimensions(dims)
        s.transform(pts)
        s2 = utils.normalize_dimensions(Space(dims))
        s2.set_transformer("normalize")

    def dicts():
        utils.point_asdict(by_name, x)
        utils.point_aslist(by_name, values)
        utils.dimensions_aslist(by_name)

    def cook():
        for name in ("GP", "RF"):
            utils.cook_estimator(name, space=Space(dims), random_state=1)
        utils.cook_estimator("GP", space=dims, random_state=1)

    def designs():
        from vk.checks.designs import build_design, gen_design
        g = gen_design(rs, len(spec))
        if g["k"] == "lhs":
            g["o"]["iterations"] = 3
        build_design(g).generate(dims, 5, random_state=2)

    for fn in (named, space_use, normalize_use, dicts, cook, designs):
        fn()
        unchanged(mon, "helper-arguments", before, args, fn.__name__)
    res = make_result(rs, [dict(d, transform=None) for d in spec],
                      str(rs.choice(["rf", "gp"])))
    frozen = freeze_result(res)
    x0 = [list(p) for p in res.x_iters[:2]]
    path = os.path.join(os.environ["VK_SCRATCH"], "c17-%d" % os.getpid())
    skopt.dump(res, path)
    mon.check(freeze_result(res) == frozen, "result-kept", "dump")
    skopt.dump(res, path, store_objective=False)
    mon.check(freeze_result(res) == frozen, "result-kept",
              "dump without the objective")
    skopt.expected_minimum(res, n_random_starts=2, random_state=1)
    mon.check(freeze_result(res) == frozen, "result-kept",
              "expected_minimum")
    utils.expected_minimum_random_sampling(res, 20, random_state=1)
    mon.check(freeze_result(res) == frozen, "result-kept",
              "expected_minimum_random_sampling")
    for cb in (skopt.callbacks.DeltaXStopper(0.1),
               skopt.callbacks.DeltaYStopper(0.1, 2),
               skopt.callbacks.HollowIterationsStopper(2),
               skopt.callbacks.CheckpointSaver(path)):
        cb(res)
        mon.check(freeze_result(res) == frozen, "result-kept",
                  type(cb).__name__)
    mon.nontrivial(["helpers", [(d["k"], d["transform"]) for d in spec]])


def run_plots(rs, mon):
    import matplotlib.pyplot as plt
    from skopt import plots
    spec = gen.space_spec(rs, min_dims=2, max_dims=3, min_cats=2,
                          priors=False)
    res = make_result(rs, spec, "rf")
    frozen = freeze_result(res)
    calls = [lambda: plots.plot_convergence(res),
             lambda: plots.plot_regret(res),
             lambda: plots.plot_evaluations(res, bins=5),
             lambda: plots.plot_objective(res, n_points=4, n_samples=6),
             lambda: plots.partial_dependence(
                 res.space, res.models[-1], 0, None, n_samples=5,
                 n_points=4)]
    try:
        for i, c in enumerate(calls):
            c()
            mon.check(freeze_result(res) == frozen, "result-kept",
                      "plot %d" % i)
            plt.close("all")
    finally:
        plt.close("all")
    mon.nontrivial(["plots", [d["k"] for d in spec]])
