"""C28 options select what they name, reach their part, or are refused."""
import contextlib
import io
import warnings

import numpy as np
from vk import gen

RULE = ("a case is an option given through an entry point (surrogate, design "
        "and acquisition names in several letter cases with parameters, "
        "options of the minimize functions, deprecated aliases) whose effect "
        "is observed on the models, designs and points of the run; or a call "
        "with one invalid option, which must raise without evaluating "
        "anything; non-trivial: distinct (entry point, option, value)")
REQUIRED = ["estimator", "estimator-params", "auto-optimizer", "design",
            "design-params", "minimizer-model", "minimizer-noise",
            "minimizer-effort", "minimizer-queue", "alias", "refused",
            "refused-silently", "hedge-default", "named-design",
            "default", "options-reach", "search-effort"]
CONFIRM = ("alias", "design", "named-design", "design-params",
           "auto-optimizer", "default", "options-reach")


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in
            ["estimator"] * 120 + ["design"] * 150 + ["minimizer"] * 80 +
            ["alias"] * 40 + ["refused"] * 260 + ["defaults"] * 160 +
            ["reach"] * 60 + ["effort"] * 25 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"estimator": run_estimator, "design": run_design,
     "minimizer": run_minimizer, "alias": run_alias,
     "reach": run_reach, "effort": run_effort,
     "refused": run_refused, "defaults": run_defaults}[case["kind"]](rs, mon)


def pick(rs, options):
    return options[rs.randint(len(options))]


def any_case(rs, name):
    return pick(rs, [name, name.lower(), name.upper(), name.capitalize()])


def classes():
    from skopt import learning as l
    return {"GP": l.GaussianProcessRegressor, "RF": l.RandomForestRegressor,
            "ET": l.ExtraTreesRegressor,
            "GBRT": l.GradientBoostingQuantileRegressor}


def run_estimator(rs, mon):
    from skopt import Optimizer
    from skopt.utils import cook_estimator, has_gradients
    kind = pick(rs, ["GP", "RF", "ET", "GBRT", "DUMMY"])
    name = any_case(rs, kind)
    spec = gen.space_spec(rs, max_dims=3, kinds=pick(
        rs, [("cat",), ("real", "int", "cat")]))
    if all(d.get("tuples") for d in spec):
        spec.append(gen.real_spec(rs))
    only_cat = all(d["k"] == "cat" for d in spec)
    kw = {"random_state": gen.seed(rs)}
    if kind in ("RF", "ET") and rs.rand() < 0.7:
        kw.update(n_estimators=int(rs.randint(2, 30)),
                  min_samples_leaf=int(rs.randint(1, 5)))
    if kind == "GP" and rs.rand() < 0.7:
        kw["noise"] = float(pick(rs, [1e-10, 0.1]))
    if rs.rand() < 0.5:
        kw["n_jobs"] = int(rs.randint(1, 4))
    given = dict(kw)
    est = cook_estimator(name, space=gen.build_dims(spec), **kw)
    mon.check(kw == given, "estimator", "the options were changed")
    if kind == "DUMMY":
        mon.check(est is None, "estimator", lambda: "dummy is %r" % est)
    else:
        if not mon.check(type(est) is classes()[kind], "estimator",
                         lambda: "%s made %r" % (name, est)):
            return
        have = est.get_params()
        for k, v in given.items():
            if k == "n_jobs" and k not in have:
                continue
            mon.check(have.get(k) == v, "estimator-params",
                      lambda: "%s: %s=%r is %r" % (name, k, v, have.get(k)))
        mon.check(has_gradients(est) == (kind == "GP" and not only_cat),
                  "auto-optimizer", lambda: "%s on %s has gradients: %s" % (
                      name, spec, has_gradients(est)))
        again = cook_estimator(est, random_state=given["random_state"] + 1)
        mon.check(type(again) is type(est) and
                  again.get_params()["random_state"] ==
                  given["random_state"] + 1, "estimator-params",
                  lambda: "given %r, got %r" % (est, again))
    jobs = int(rs.randint(1, 4))
    acq = pick(rs, ["EI", "PI", "LCB", "gp_hedge", None])
    okw = {} if acq is None else {"acq_func": acq}
    opt = Optimizer(gen.build_dims(spec), name, n_initial_points=1,
                    n_jobs=jobs, random_state=1, **okw)
    if kind == "DUMMY":
        mon.check(opt.base_estimator_ is None, "estimator", "dummy optimizer")
    else:
        mon.check(type(opt.base_estimator_) is classes()[kind], "estimator",
                  lambda: "Optimizer(%r) uses %r" % (name,
                                                     opt.base_estimator_))
        mon.check(opt.base_estimator_.get_params().get("n_jobs", jobs) == jobs,
                  "estimator-params", lambda: "%s n_jobs=%d: %r" % (
                      name, jobs, opt.base_estimator_))
        mon.check(opt.acq_optimizer == (
            "lbfgs" if kind == "GP" and not only_cat else "sampling"),
            "auto-optimizer", lambda: "auto on %s %s is %s" % (
                name, spec, opt.acq_optimizer))
    mon.check(hasattr(opt, "gains_") == (acq in (None, "gp_hedge")),
              "hedge-default", lambda: "acq_func %r has gains: %s" % (
                  acq, hasattr(opt, "gains_")))
    mon.nontrivial(["estimator", name, sorted(given), only_cat, acq])
    mon.sample({"name": name, "options": given})


def run_design(rs, mon):
    from skopt import Optimizer
    from skopt.sampler import Grid, Halton, Hammersly, Lhs, Sobol
    from skopt.utils import cook_initial_point_generator
    made = {"sobol": (Sobol, {"randomize": [True, False],
                              "skip": [0, 8, 16]}),
            "lhs": (Lhs, {"lhs_type": ["classic", "centered"],
                          "criterion": ["maximin", "ratio", None],
                          "iterations": [3, 50]}),
            "halton": (Halton, {"min_skip": [0, 3], "max_skip": [5, 9],
                                "primes": [None, (5, 3, 2, 7)]}),
            "hammersly": (Hammersly, {"min_skip": [0, 3], "max_skip": [5, 9],
                                      "primes": [None, (5, 3, 2, 7)]}),
            "grid": (Grid, {"border": ["include", "only"],
                            "use_full_layout": [True, False],
                            "append_border": ["only", "include"]}),
            "random": (None, {})}
    kind = pick(rs, sorted(made))
    cls, options = made[kind]
    name = any_case(rs, kind)
    kw = {k: pick(rs, v) for k, v in sorted(options.items())
          if rs.rand() < 0.6}
    if "min_skip" in kw or "max_skip" in kw:
        kw.setdefault("min_skip", 2)
        kw.setdefault("max_skip", 4)
    g = cook_initial_point_generator(name, **kw)
    if cls is None:
        mon.check(g is None and cook_initial_point_generator(None) is None,
                  "design", lambda: "random is %r" % g)
        mon.nontrivial(["design", name])
        return
    if not mon.check(type(g) is cls, "design",
                     lambda: "%s made %r" % (name, g)):
        return
    spec = [gen.real_spec(rs) for _ in range(rs.randint(1, 4))]
    n = int(rs.choice([4, 8]))
    seed = gen.seed(rs)

    def points(generator):
        return generator.generate(gen.build_dims(spec), n, random_state=seed)
    mon.check(gen.same_points(points(g), points(cls(**kw))), "design-params",
              lambda: "%s with %s is not %s(**%s)" % (name, kw, cls, kw))
    # options given to an instance take effect on it
    given = cls()
    back = cook_initial_point_generator(given, **kw)
    mon.check(back is given or type(back) is cls, "design", repr(back))
    mon.check(gen.same_points(points(back), points(cls(**kw))),
              "design-params", lambda: "%s(), then %s" % (cls, kw))
    # by name, the optimizer's points are those of the default design
    if kind in ("halton", "hammersly"):
        opt = Optimizer(gen.build_dims(spec), "rf", n_initial_points=n,
                        initial_point_generator=name, random_state=seed)
        seen = []
        for i in range(n):
            seen.append(opt.ask())
            opt.tell(seen[-1], float(i), fit=False)
        mon.check(gen.same_points(seen, cls().generate(
            gen.build_dims(spec), n, random_state=seed)), "named-design",
            lambda: "%s in an optimizer: %r" % (name, seen))
    mon.nontrivial(["design", name, sorted(kw.items(), key=str)])


def run_minimizer(rs, mon):
    import skopt
    from vk import spy
    spec = gen.space_spec(rs, max_dims=3)
    if all(d["k"] == "cat" for d in spec):
        spec.append(gen.real_spec(rs))
    f = gen.objective(spec, int(rs.randint(1000)))
    kind = pick(rs, ["gp", "gp", "forest", "forest", "gbrt", "spied"])
    n_init = int(rs.randint(1, 4))
    kw = dict(n_initial_points=n_init, n_calls=n_init + int(rs.randint(2, 4)),
              n_points=int(rs.randint(50, 400)),
              random_state=gen.seed(rs))
    queue = pick(rs, [None, None, 1, 2])
    if queue is not None:
        kw["model_queue_size"] = queue
    if kind == "gp":
        kw["n_restarts_optimizer"] = 1
        noise = pick(rs, ["gaussian", 1e-10, 0.01, 0.3])
        kw["noise"] = noise
        res = skopt.gp_minimize(f, gen.build_dims(spec), **kw)
        want = classes()["GP"]
        for m in res.models:
            ok = getattr(m, "noise", None) == noise
            if ok and noise != "gaussian":
                # the fitted noise is the one given, for scaled targets
                ok = m.noise_ == noise
            mon.check(ok, "minimizer-noise", lambda: "noise=%r: %r" % (
                noise, getattr(m, "noise", None)))
    elif kind == "forest":
        name = any_case(rs, pick(rs, ["RF", "ET"]))
        if rs.rand() < 0.3:
            res, want = skopt.forest_minimize(
                f, gen.build_dims(spec), **kw), classes()["ET"]
        else:
            res, want = skopt.forest_minimize(
                f, gen.build_dims(spec), base_estimator=name, **kw), \
                classes()[name.upper()]
    elif kind == "gbrt":
        res, want = skopt.gbrt_minimize(f, gen.build_dims(spec), **kw), \
            classes()["GBRT"]
    else:
        est = spy.make(pick(rs, ["rf", "et", "gp"]), 3)
        spy.reset(predictions=True)
        want = type(est)
        func = pick(rs, [skopt.gp_minimize, skopt.forest_minimize,
                         skopt.gbrt_minimize])
        if func is skopt.gp_minimize:
            kw["acq_optimizer"] = "sampling"
        res = func(f, gen.build_dims(spec), base_estimator=est,
                   acq_func=pick(rs, ["EI", "LCB", "PI"]), **kw)
        sizes = {}
        for e in spy.LOG:
            if e["ev"] == "predict":
                sizes[id(e["model"])] = max(sizes.get(id(e["model"]), 0),
                                            len(e["X"]))
        mon.check(sizes and all(v == kw["n_points"] for v in sizes.values()),
                  "minimizer-effort", lambda: "n_points=%d: candidates %s" % (
                      kw["n_points"], sorted(sizes.values())))
    mon.check(all(type(m) is want for m in res.models), "minimizer-model",
              lambda: "%s: models are %s" % (kind, [type(m)
                                                    for m in res.models]))
    fits = kw["n_calls"] - n_init + 1
    mon.check(len(res.models) == min(fits, queue or fits), "minimizer-queue",
              lambda: "%d models of %d, queue %s" % (len(res.models), fits,
                                                     queue))
    mon.nontrivial([kind, kw.get("noise"), queue, want.__name__])


def run_alias(rs, mon):
    """n_random_starts is n_initial_points."""
    import skopt
    spec = gen.space_spec(rs, max_dims=3)
    f = gen.objective(spec, int(rs.randint(1000)))
    seed, k = int(rs.randint(2 ** 31)), int(rs.randint(1, 5))
    name = pick(rs, ["forest", "gbrt", "gp", "optimizer", "base"])
    runs = []
    for option in ("n_random_starts", "n_initial_points"):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            if name == "optimizer":
                opt = skopt.Optimizer(gen.build_dims(spec), "RF",
                                      random_state=seed, **{option: k})
                for _ in range(k + 2):
                    x = opt.ask()
                    res = opt.tell(x, f(x))
            else:
                kw = {option: k, "n_calls": k + 2, "random_state": seed,
                      "n_points": 60}
                if name == "base":
                    from skopt.optimizer import base_minimize
                    res = base_minimize(f, gen.build_dims(spec),
                                        gen.make_surrogate("et", 3),
                                        acq_optimizer="sampling", **kw)
                else:
                    func = {"forest": skopt.forest_minimize,
                            "gbrt": skopt.gbrt_minimize,
                            "gp": skopt.gp_minimize}[name]
                    res = func(f, gen.build_dims(spec), **kw)
        runs.append((res.x_iters, len(res.models),
                     any(issubclass(w.category, DeprecationWarning) and
                         "n_random_starts" in str(w.message)
                         for w in caught)))
    mon.check(gen.same_points(runs[0][0], runs[1][0]) and
              runs[0][1] == runs[1][1] == 3, "alias",
              lambda: "%s with %d: %s" % (name, k, runs))
    mon.check(runs[0][2] and not runs[1][2], "alias",
              lambda: "%s: warned %s" % (name, [r[2] for r in runs]))
    mon.nontrivial(["alias", name, k])


def run_reach(rs, mon):
    """A minimize function is the optimizer with the same options, driven."""
    import skopt
    from skopt import Optimizer
    spec = gen.space_spec(rs, max_dims=3)
    if all(d["k"] == "cat" for d in spec):
        spec.append(gen.real_spec(rs))
    f = gen.objective(spec, int(rs.randint(1000)))
    name = pick(rs, ["gp", "forest", "gbrt"])
    func = {"gp": skopt.gp_minimize, "forest": skopt.forest_minimize,
            "gbrt": skopt.gbrt_minimize}[name]
    est = gen.make_surrogate({"gp": "gp", "forest": pick(rs, ["rf", "et"]),
                              "gbrt": "gbrt"}[name], 3)
    seed, n_init = gen.seed(rs), int(rs.randint(1, 5))
    n_calls = n_init + int(rs.randint(1, 5))
    kw = {"n_initial_points": n_init, "acq_func": pick(
        rs, ["EI", "PI", "LCB", "LCB", "gp_hedge"])}
    acq, search = {}, {"n_points": int(rs.randint(20, 300))}
    if rs.rand() < 0.8:
        acq["xi"] = float(pick(rs, [0, 0.0, 0.01, 0.3, 5.0]))
        acq["kappa"] = pick(rs, [0, 0.0, 0.5, 1.96, 10.0, 200.0])
    if name == "gp":
        kw["acq_optimizer"] = pick(rs, ["sampling", "lbfgs", "auto"])
        if rs.rand() < 0.7:
            search["n_restarts_optimizer"] = int(rs.randint(1, 8))
    if rs.rand() < 0.5:
        kw["initial_point_generator"] = pick(
            rs, ["lhs", "halton", "sobol", "hammersly", "random"])
    if rs.rand() < 0.3:
        kw["model_queue_size"] = int(rs.randint(1, 4))
    res = func(f, gen.build_dims(spec), base_estimator=est, n_calls=n_calls,
               random_state=seed, **dict(kw, **dict(acq, **search)))
    if name != "gp":
        kw["acq_optimizer"] = "sampling"
    opt = Optimizer(gen.build_dims(spec), gen.make_surrogate(
        {"gp": "gp", "gbrt": "gbrt"}.get(
            name, "rf" if "Random" in type(est).__name__ else "et"), 3),
        random_state=np.random.RandomState(seed), acq_func_kwargs=acq,
        acq_optimizer_kwargs=search, **kw)
    for _ in range(n_calls):
        x = opt.ask()
        last = opt.tell(x, f(x))
    mon.check(same(res.x_iters, opt.Xi) and
              len(res.models) == len(last.models), "options-reach",
              lambda: "%s with %s %s %s: points %s, an optimizer's %s" % (
                  name, kw, acq, search, res.x_iters, opt.Xi))
    mon.nontrivial(["reach", name, kw["acq_func"], sorted(acq.items()),
                    sorted(search)])


def run_effort(rs, mon):
    """The acquisition is searched from as many places as asked."""
    import skopt
    from vk import spy
    spec = [gen.real_spec(rs) for _ in range(rs.randint(1, 4))]
    f = gen.objective(spec, int(rs.randint(1000)))
    k = int(rs.randint(1, 8))
    est = spy.make("gp", 3)
    spy.reset(predictions=True)
    res = skopt.gp_minimize(
        f, gen.build_dims(spec), base_estimator=est, n_calls=5,
        n_initial_points=4, acq_func=pick(rs, ["EI", "LCB"]), n_points=40,
        n_restarts_optimizer=k, n_jobs=1, acq_optimizer="lbfgs",
        random_state=gen.seed(rs))
    # rows of the candidates from which the searches start: the first single
    # row after the candidates, and every row that is a candidate
    seen = {}
    for e in spy.LOG:
        if e["ev"] == "predict":
            X = np.atleast_2d(e["X"])
            m = seen.setdefault(id(e["model"]), {"c": None, "starts": set()})
            if len(X) == 40:
                m["c"] = set(map(tuple, X))
            elif len(X) == 1 and m["c"] and tuple(X[0]) in m["c"]:
                m["starts"].add(tuple(X[0]))
    counts = [len(m["starts"]) for m in seen.values() if m["c"]]
    mon.check(counts and all(c in (k, k + 1) for c in counts),
              "search-effort",
              lambda: "n_restarts_optimizer=%d: searches from %s of the "
              "candidates" % (k, counts))
    mon.nontrivial(["effort", k, len(spec)])


def trace(res):
    return [list(map(gen.plain, x)) for x in res.x_iters]


def same(a, b):
    """Equal up to a first difference, which is a rounding error."""
    for x, y in zip(a, b):
        if not gen.same_value(x, y):
            return gen.near_value(x, y, 1e-5)
    return len(a) == len(b)


def default_tables(rs):
    """label -> (options that say what is documented anyway, call)."""
    import skopt
    from skopt import Optimizer, Space, acquisition, learning, sampler, space
    from skopt.optimizer import base_minimize
    from skopt.utils import (expected_minimum,
                             expected_minimum_random_sampling)
    spec = gen.space_spec(rs, max_dims=3)
    if all(d["k"] == "cat" for d in spec):
        spec.append(gen.real_spec(rs))
    f = gen.objective(spec, int(rs.randint(1000)))
    seed = gen.seed(rs)
    acq = pick(rs, ["EI", "PI", "LCB"])
    table = {}

    def minimizer(name, func, few, fixed, defaults):
        fixed = dict(fixed, random_state=seed)

        def call(**kw):
            return trace(func(f, gen.build_dims(spec), **dict(fixed, **kw)))
        table[name] = ({k: v for k, v in defaults.items() if k not in fixed},
                       call)
    common = {"n_calls": 100, "n_random_starts": None,
              "n_initial_points": 10, "initial_point_generator": "random",
              "x0": None, "y0": None, "verbose": False, "callback": None,
              "n_points": 10000, "xi": 0.01, "kappa": 1.96, "n_jobs": 1,
              "model_queue_size": None}
    gp = dict(common, base_estimator=None, acq_func="gp_hedge",
              acq_optimizer="auto", n_restarts_optimizer=5, noise="gaussian")
    minimizer("gp", skopt.gp_minimize, True, dict(
        n_calls=4, n_initial_points=2, acq_func=acq), gp)
    minimizer("gp hedge", skopt.gp_minimize, True, dict(
        n_calls=4, n_initial_points=2), gp)
    minimizer("gp ten", skopt.gp_minimize, True, dict(n_calls=13), gp)
    minimizer("gp budget", skopt.gp_minimize, False, dict(
        n_initial_points=100), gp)
    forest = dict(common, base_estimator="ET")
    minimizer("forest", skopt.forest_minimize, True, dict(
        n_calls=4, n_initial_points=2, acq_func=acq), forest)
    minimizer("forest ten", skopt.forest_minimize, True, dict(
        n_calls=13), forest)
    minimizer("forest budget", skopt.forest_minimize, True, dict(
        n_initial_points=98), forest)
    gbrt = dict(common, base_estimator=None, acq_optimizer="auto")
    minimizer("gbrt", skopt.gbrt_minimize, True, dict(
        n_calls=4, n_initial_points=2, acq_func=acq), gbrt)
    minimizer("gbrt ten", skopt.gbrt_minimize, True, dict(
        n_calls=12), gbrt)
    minimizer("gbrt budget", skopt.gbrt_minimize, True, dict(
        n_initial_points=98), gbrt)
    dummy = {k: common[k] for k in (
        "n_calls", "initial_point_generator", "x0", "y0", "verbose",
        "callback", "model_queue_size")}
    minimizer("dummy", skopt.dummy_minimize, True, {}, dummy)
    base = dict(common, acq_func="EI", n_restarts_optimizer=5)

    def over_base(f, dims, **kw):
        kw.setdefault("acq_optimizer", "sampling")
        return base_minimize(f, dims, gen.make_surrogate("et", 3), **kw)
    minimizer("base", over_base, True, dict(
        n_calls=13), base)
    minimizer("base budget", over_base, True, dict(
        n_initial_points=98), base)

    def optimizer(**kw):
        est = kw.pop("base_estimator", "gp")
        opt = Optimizer(gen.build_dims(spec), est, random_state=seed,
                        acq_optimizer_kwargs={"n_points": 60}, **kw)
        out = []
        for _ in range(13):
            out.append(opt.ask())
            opt.tell(out[-1], f(out[-1]))
        return out
    table["optimizer"] = ({
        "base_estimator": "GP", "n_random_starts": None,
        "n_initial_points": 10, "initial_point_generator": "random",
        "n_jobs": 1, "acq_func": "gp_hedge", "acq_optimizer": "auto",
        "model_queue_size": None, "acq_func_kwargs": None}, optimizer)

    def batch(**kw):
        opt = Optimizer(gen.build_dims(spec), "rf", n_initial_points=2,
                        random_state=seed, acq_func=acq,
                        acq_optimizer_kwargs={"n_points": 60})
        for _ in range(3):
            x = opt.ask()
            opt.tell(x, f(x))
        return opt.ask(n_points=3, **kw)
    table["ask"] = ({"strategy": "cl_min"}, batch)

    def tell(**kw):
        opt = Optimizer(gen.build_dims(spec), "rf", n_initial_points=2,
                        random_state=seed,
                        acq_optimizer_kwargs={"n_points": 60})
        out = []
        for _ in range(4):
            out.append(opt.ask())
            res = opt.tell(out[-1], f(out[-1]), **kw)
        return out + [[len(res.models)]]
    table["tell"] = ({"fit": True}, tell)

    # designs
    dims = [gen.real_spec(rs) for _ in range(rs.randint(1, 4))]
    n = int(rs.randint(2, 12))
    for cls, opts in (
            (sampler.Lhs, {"lhs_type": "classic", "criterion": "maximin",
                           "iterations": 1000}),
            (sampler.Grid, {"border": "exclude", "use_full_layout": True,
                            "append_border": "only"}),
            (sampler.Halton, {"primes": None}),
            (sampler.Hammersly, {"primes": None}),
            (sampler.Sobol, {"skip": 0})):
        table[cls.__name__] = (opts, lambda cls=cls, **kw: cls(**kw).generate(
            gen.build_dims(dims), n, random_state=seed))

    # spaces
    def rvs(**kw):
        return [[float(v)] for d in gen.build_dims(numbers)
                for v in d.rvs(random_state=seed, **kw)]
    numbers = [d for d in spec if d["k"] != "cat"]
    if numbers:
        table["Dimension.rvs"] = ({"n_samples": 1}, rvs)
    table["Space.rvs"] = ({"n_samples": 1}, lambda **kw: Space(
        gen.build_dims(spec)).rvs(random_state=seed, **kw))
    low = float(rs.uniform(0.1, 10))

    def dimension(cls, *args):
        def call(**kw):
            d = cls(*args, **kw)
            xs = d.rvs(n_samples=5, random_state=seed)
            return [[repr(d), str(d.transformed_size)], list(xs)] + [
                list(np.ravel(d.transform([x]))) for x in xs]
        return call
    table["Real"] = ({"prior": "uniform", "base": 10, "transform": "identity",
                      "name": None, "dtype": float},
                     dimension(space.Real, low, low + 3))
    table["Integer"] = ({"prior": "uniform", "base": 10,
                         "transform": "identity", "name": None,
                         "dtype": np.int64},
                        dimension(space.Integer, int(low), int(low) + 50))
    table["Categorical"] = ({"prior": None, "transform": "onehot",
                             "name": None},
                            dimension(space.Categorical, ["p", "q", "r"]))

    # parts
    X = rs.rand(12, 2)
    y = np.sin(5 * X[:, 0]) + X[:, 1]
    T = rs.rand(20, 2)
    gpm = learning.GaussianProcessRegressor(random_state=0).fit(X, y)
    y_opt = float(np.min(y)) if rs.rand() < 0.5 else 0.0
    for g in (False, True):
        t = T[:1] if g else T

        def flat(v, g=g):
            return [[float(q)] for w in (v if g else [v]) for q in np.ravel(w)]
        table["gaussian_ei", g] = (
            {"xi": 0.01}, lambda t=t, g=g, flat=flat, **kw: flat(
                acquisition.gaussian_ei(t, gpm, y_opt, return_grad=g, **kw)))
        table["gaussian_pi", g] = (
            {"xi": 0.01}, lambda t=t, g=g, flat=flat, **kw: flat(
                acquisition.gaussian_pi(t, gpm, y_opt, return_grad=g, **kw)))
        table["gaussian_lcb", g] = (
            {"kappa": 1.96}, lambda t=t, g=g, flat=flat, **kw: flat(
                acquisition.gaussian_lcb(t, gpm, return_grad=g, **kw)))

    def model(cls, **fixed):
        def call(**kw):
            m = cls(random_state=seed, **dict(fixed, **kw)).fit(X, y)
            return [[float(v)] for w in m.predict(T, return_std=True)
                    for v in w]
        return call
    trees = {"n_estimators": 10, "criterion": "squared_error",
             "max_features": 1.0, "max_depth": None, "min_samples_split": 2,
             "min_samples_leaf": 1, "min_weight_fraction_leaf": 0.0,
             "max_leaf_nodes": None, "min_impurity_decrease": 0.0,
             "oob_score": False, "n_jobs": 1, "verbose": 0,
             "warm_start": False}
    table["RandomForestRegressor"] = (
        dict(trees, bootstrap=True), model(learning.RandomForestRegressor))
    table["ExtraTreesRegressor"] = (trees, model(learning.ExtraTreesRegressor))
    table["GradientBoostingQuantileRegressor"] = (
        {"quantiles": [0.16, 0.5, 0.84], "base_estimator": None, "n_jobs": 1},
        model(learning.GradientBoostingQuantileRegressor))
    table["GaussianProcessRegressor"] = (
        {"kernel": None, "alpha": 1e-10, "optimizer": "fmin_l_bfgs_b",
         "n_restarts_optimizer": 0, "normalize_y": False},
        model(learning.GaussianProcessRegressor))

    # reading a result
    def lowest(func, est, **fixed):
        def call(**kw):
            if "res" not in made:
                opt = Optimizer(gen.build_dims(spec), est, random_state=1,
                                n_initial_points=4,
                                acq_optimizer_kwargs={"n_points": 60})
                for _ in range(5):
                    x = opt.ask()
                    made["res"] = opt.tell(x, f(x))
            x, v = func(made["res"], random_state=seed, **dict(fixed, **kw))
            return [list(x), [float(v)]]
        made = {}
        return call
    table["expected_minimum_random_sampling"] = (
        {"n_random_starts": 100000}, lowest(expected_minimum_random_sampling,
                                            "rf"))
    if all(d["k"] != "cat" for d in spec):
        table["expected_minimum"] = ({"n_random_starts": 20},
                                     lowest(expected_minimum, "gp"))
    if not any(d.get("tuples") for d in spec):
        sp = Space(gen.build_dims(spec))
        P = sp.transform(sp.rvs(6, random_state=seed))
        m = learning.RandomForestRegressor(random_state=0).fit(
            P, np.arange(6.0))
        i = int(rs.randint(len(spec)))

        def dependence(func, *ij):
            def call(**kw):
                out = func(sp, m, *(ij + (P,)), **kw)
                return [list(np.ravel(v)) for v in out]
            return call
        from skopt import plots
        table["partial_dependence_1D"] = (
            {"n_points": 40}, dependence(plots.partial_dependence_1D, i))
        if len(spec) > 1:
            table["partial_dependence_2D"] = (
                {"n_points": 40}, dependence(plots.partial_dependence_2D,
                                             i, (i + 1) % len(spec)))

    def search(**kw):
        from sklearn.linear_model import Ridge
        bs = skopt.BayesSearchCV(
            Ridge(), {"alpha": (1e-3, 1e3, "log-uniform")},
            optimizer_kwargs={"base_estimator": "RF", "n_initial_points": 48,
                              "acq_optimizer_kwargs": {"n_points": 30}},
            random_state=seed, **kw).fit(X, y)
        r = bs.cv_results_
        return [[len(r["params"])], list(r["param_alpha"])] + [
            sorted(k for k in r if not k.endswith("time"))]
    table["BayesSearchCV"] = (
        {"n_iter": 50, "n_points": 1, "n_jobs": 1, "scoring": None,
         "cv": None, "refit": True, "return_train_score": False,
         "verbose": 0}, search)
    return table


def run_defaults(rs, mon):
    """Leaving an option out means giving it its documented default."""
    table = default_tables(rs)
    name = sorted(table, key=str)[rs.randint(len(table))]
    options, call = table[name]
    given = {k: v for k, v in options.items() if rs.rand() < 0.8} or options
    shown = []
    for kw in ({}, given):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            shown.append((call(**kw), out.getvalue()))
    (bare, quiet), (said, loud) = shown
    mon.check(quiet == loud, "default", lambda: "%s: %s given with their "
              "defaults print %r, left out %r" % (name, given, loud, quiet))
    mon.check(same(bare, said), "default", lambda: "%s: %s given with their "
              "defaults: %s, left out: %s" % (name, given, str(said)[:400],
                                              str(bare)[:400]))
    mon.nontrivial(["default", str(name)])
    mon.see("defaults", [str(name), sorted(given)])
    mon.count("defaults given", len(given))


class Calls(object):
    def __init__(self):
        self.n = 0

    def __call__(self, x):
        self.n += 1
        return float(self.n)


def refusals(rs):
    """(label, call taking an objective, accepted kinds of error)."""
    import skopt
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.svm import SVC, SVR
    from skopt import Optimizer, Space
    from skopt.acquisition import _gaussian_acquisition
    from skopt.learning import (GaussianProcessRegressor,
                                GradientBoostingQuantileRegressor)
    from skopt.space import (Categorical, Integer, Real, check_dimension)
    from skopt.utils import cook_estimator, cook_initial_point_generator
    dims = [(0.0, 1.0), (1, 5)]
    junk = pick(rs, ["nonsense", "", "gaussian process", "E I", "gp-hedge",
                     "sobol2", "none"])
    below = pick(rs, [-1, -5])
    word = pick(rs, ["log", "normal", "LOG-UNIFORM", "", "uniform "])
    trans = pick(rs, ["normalise", "log", "onehot", ""])
    v = float(rs.uniform(-5, 5))
    low = int(rs.randint(-5, 5))
    E = (ValueError, TypeError)
    funcs = [("gp", skopt.gp_minimize), ("forest", skopt.forest_minimize),
             ("gbrt", skopt.gbrt_minimize)]
    fname, func = pick(rs, funcs)
    kw = dict(n_calls=3, n_initial_points=1)
    fitted = GaussianProcessRegressor().fit([[0.0], [1.0]], [0.0, 1.0])
    asked = Optimizer(dims, "rf", n_initial_points=2)

    def optimizer(**k):
        return lambda f: Optimizer(dims, **k)

    def minimizer(**k):
        if "x0" not in k and "n_calls" not in k and "n_initial_points" not in \
                k and rs.rand() < 0.5:
            k.update(x0=[[0.5, 2], [0.25, 3]], n_calls=4)
        return lambda f: func(f, dims, **dict(kw, **k))
    table = [
        ("acq_func", optimizer(acq_func=junk), E),
        ("acq_func", minimizer(acq_func=junk), E),
        ("acq_optimizer", optimizer(acq_optimizer=junk), E),
        ("acq_optimizer gp", lambda f: skopt.gp_minimize(
            f, dims, acq_optimizer=junk, **kw), E),
        ("lbfgs for trees", optimizer(base_estimator=pick(
            rs, ["RF", "ET", "GBRT"]), acq_optimizer="lbfgs"), E),
        ("lbfgs for categories", lambda f: Optimizer(
            [["a", "b"], ["c", "d", "e"]], "GP", acq_optimizer="lbfgs"), E),
        ("base_estimator", optimizer(base_estimator=junk), E),
        ("base_estimator", minimizer(base_estimator=junk), E),
        ("base_estimator", lambda f: cook_estimator(junk, space=dims), E),
        ("no regressor", optimizer(base_estimator=pick(
            rs, [SVC(), RandomForestClassifier()])), E),
        ("no regressor", lambda f: cook_estimator(SVC()), E),
        ("GP without space", lambda f: cook_estimator("GP"), E),
        ("generator", optimizer(initial_point_generator=junk), E),
        ("generator", minimizer(initial_point_generator=junk), E),
        ("generator", lambda f: cook_initial_point_generator(junk), E),
        ("generator object", lambda f: cook_initial_point_generator(
            pick(rs, [3, [1], SVR()])), E),
        ("n_initial_points", optimizer(n_initial_points=below), E),
        ("n_initial_points", minimizer(n_initial_points=below), E),
        ("n_calls", minimizer(n_calls=pick(rs, [0, -1])), E),
        ("model_queue_size", optimizer(model_queue_size=pick(
            rs, ["2", 2.5, [1]])), E),
        ("model_queue_size", minimizer(model_queue_size="2"), E),
        ("n_points", lambda f: asked.ask(n_points=pick(
            rs, [0, -1, 1.5, "2"])), E),
        ("strategy", lambda f: asked.ask(n_points=2, strategy=pick(
            rs, ["cl_median", "CL_MIN", "min", ""])), E),
        ("Real bounds", lambda f: Real(v, v - pick(rs, [0.0, 1.0])), E),
        ("Integer bounds", lambda f: Integer(low, low - int(
            pick(rs, [0, 1, 7]))), E),
        ("Real prior", lambda f: Real(1, 2, prior=word), E),
        ("Integer prior", lambda f: Integer(1, 2, prior=word), E),
        ("Real transform", lambda f: Real(1, 2, transform=trans), E),
        ("Integer transform", lambda f: Integer(1, 2, transform=trans), E),
        ("Categorical transform", lambda f: Categorical(
            ["a", "b"], transform=pick(rs, ["one-hot", "log", ""])), E),
        ("Real dtype", lambda f: Real(1, 2, dtype=pick(
            rs, ["int", "double", int, np.int64, str])), E),
        ("Integer dtype", lambda f: Integer(1, 2, dtype=pick(
            rs, ["float", "long", float, np.float32, str])), E),
        ("dimension", lambda f: check_dimension(pick(
            rs, ["(1, 2)", 3, None, {"low": 1}, (), []])), E),
        ("dimension in a space", lambda f: Space([(1, 2), pick(
            rs, ["ab", 3, None, (None, 1)])]), E),
        ("space transformer", lambda f: Space(dims).set_transformer(trans), E),
        ("noise", lambda f: GaussianProcessRegressor(noise=junk).fit(
            [[0.0], [1.0]], [0.0, 1.0]), E),
        ("std and cov", lambda f: fitted.predict(
            [[0.5]], return_std=True, return_cov=True),
            E + (RuntimeError,)),
        ("std_grad without std", lambda f: fitted.predict(
            [[0.5]], return_std=False, return_mean_grad=True,
            return_std_grad=True), E),
        ("gradient of several rows", lambda f: fitted.predict(
            [[0.5], [0.2]], return_mean_grad=True), E),
        ("boosting base", lambda f: GradientBoostingQuantileRegressor(
            base_estimator=SVR()).fit([[0.0], [1.0]], [0.0, 1.0]), E),
        ("acquisition", lambda f: _gaussian_acquisition(
            np.zeros((2, 1)), fitted, acq_func=junk), E),
        ("callback", minimizer(callback=pick(rs, [3, "stop", [4]])), E),
        ("x0", minimizer(x0=[[0.5, 2], [0.1, 3, 4]]),
            E + (RuntimeError, AssertionError)),
        ("x0 and y0", minimizer(x0=[[0.5, 2], [0.1, 3]], y0=[1.0]), E),
        ("x0 type", minimizer(x0=((0.5, 2), (0.1, 3))), E),
        ("budget", minimizer(n_calls=2, n_initial_points=3), E),
        ("nothing to start from", minimizer(n_initial_points=0), E),
    ]
    return [(fname if "minimizer" in c.__qualname__ else "", l, c, e)
            for l, c, e in table]


def run_refused(rs, mon):
    table = refusals(rs)
    name, label, call, errors = table[rs.randint(len(table))]
    f = Calls()
    got = None
    try:
        value = call(f)
    except Exception as e:
        got = e
    mon.check(got is not None, "refused",
              lambda: "%s %s was accepted: %r" % (name, label, value))
    if got is not None:
        mon.check(isinstance(got, errors), "refused",
                  lambda: "%s %s raised %r" % (name, label, got))
        mon.see("refusals", [name, label, type(got).__name__])
    mon.check(f.n == 0, "refused-silently",
              lambda: "%s %s: %d evaluations first" % (name, label, f.n))
    mon.nontrivial(["refused", name, label, str(got)[:80]])
