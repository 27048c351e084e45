"""C10 phases are counted exactly, asks repeat, models accumulate."""
import numpy as np
from vk import gen, opt as vo

RULE = ("a case is an optimizer with a recording surrogate (or a minimize "
        "function given one) driven through random single/batch/non-fitting "
        "tells; a reference counter predicts the design point, whether a "
        "model is fitted, and the model queue; non-trivial: distinct "
        "(surrogate, acquisition, design, initial points, queue, operations)")
REQUIRED = ["design-order", "no-early-fit", "one-fit", "model-count",
            "newest-last", "repeat-ask", "queue", "minimize-fits",
            "minimize-design", "random-phase"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["history"] * 450 + ["minimize"] * 80
            for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"history": run_history, "minimize": run_minimize}[case["kind"]](rs, mon)


def inner(model, ps):
    """The fitted recording estimator for the objective values."""
    return model.estimators_[0] if ps else model


def run_history(rs, mon):
    from vk import spy
    cfg = vo.config(rs, gen.FAST, n_points=30, max_init=7, max_dims=3,
                    queue=True)
    if rs.rand() < 0.1:
        cfg["n_init"] = 0
    steps = vo.steps(rs, cfg, 3, 12)
    ps = vo.is_ps(cfg)
    per_fit = 2 if ps else 1
    spy.reset()
    opt = vo.build(cfg, spied=True)
    spec = vo.declared(cfg, opt)
    f = vo.Values(rs, cfg)
    n_init = cfg["n_init"]
    designed = cfg["gen"] != "random"
    design = None
    if designed and n_init:
        twin = vo.build(cfg)
        design = twin.ask(n_init)       # the whole design at once
        spy.reset()
        mon.check(len(design) == n_init, "design-order", "%d points" %
                  len(design))
    told, models, ops, X = 0, [], [], []
    last = None                     # suggestion of the newest model
    for step in range(steps):
        in_design = told < n_init
        if in_design or models:
            x = opt.ask()
            again = opt.ask()
            if in_design and design is not None:
                mon.check(gen.same_point(x, design[told]) and
                          gen.same_point(again, design[told]), "design-order",
                          lambda: "after %d of %d: %r, design %r; %s" % (
                              told, n_init, x, design, cfg))
            elif in_design:
                mon.check(gen.illegal_point(spec, x) is None and
                          not spy.fits(), "random-phase",
                          lambda: "%r %s" % (x, cfg))
            else:
                mon.check(gen.same_point(x, again), "repeat-ask",
                          lambda: "%r then %r; %s" % (x, again, cfg))
                if last is not None:
                    mon.check(gen.same_point(x, last), "repeat-ask",
                              lambda: "%r, before non-fitting tells %r" % (
                                  x, last))
                last = x
        else:
            x = gen.rand_point(rs, spec)
        fit = bool(rs.rand() < 0.8)
        mark = len(spy.LOG)
        if rs.rand() < 0.3:
            B = [x] + [gen.rand_point(rs, spec)
                       for _ in range(rs.randint(0, 4))]
            opt.tell(B, [f(b) for b in B], fit=fit)
            X += B
            told += len(B)
            ops.append("b%d%d" % (len(B), fit))
        else:
            opt.tell(x, f(x), fit=fit)
            X.append(x)
            told += 1
            ops.append("t%d" % fit)
        fits = spy.fits(since=mark)
        if told < n_init or not fit:
            mon.check(not fits, "no-early-fit",
                      lambda: "%d fits after %d of %d (fit=%s); %s" % (
                          len(fits), told, n_init, fit, cfg))
        else:
            last = None
            mon.check(len(fits) == per_fit, "one-fit",
                      lambda: "%d fits for a tell after %d of %d; %s %s" % (
                          len(fits) // per_fit, told, n_init, ops, cfg))
            if len(fits) == per_fit:
                models.append(fits[0]["model"])
        q = cfg["queue"]
        keep = models if q is None else models[-q:]
        have = [inner(m, ps) for m in opt.models]
        mon.check(len(have) == len(keep), "model-count",
                  lambda: "%d models after %d fitting tells, queue %s" % (
                      len(have), len(models), q))
        if q is not None and len(models) > q:
            mon.check(len(have) == q, "queue", "%d > %d" % (len(have), q))
        mon.check(all(a is b for a, b in zip(have, keep)), "newest-last",
                  lambda: "models kept: fits %s of %d" % (
                      [[i for i, m in enumerate(models) if m is h]
                       for h in have], len(models)))
        res = opt.get_result()
        mon.check([inner(m, ps) for m in res.models] == have, "newest-last",
                  "models of the result")
        for m in have:
            # a kept model was fitted once
            mon.check(m.spy_fits == 1, "newest-last",
                      lambda: "a model was fitted %d times" % m.spy_fits)
    mon.count("models", len(models))
    mon.count("observations", told)
    mon.nontrivial([cfg["est"], cfg["acq"], str(cfg["gen"]), n_init,
                    cfg["queue"], ops])
    mon.sample({"ops": ops, "n_init": n_init, "models": len(models)})


def run_minimize(rs, mon):
    from skopt.optimizer import base_minimize
    from vk import spy
    cfg = vo.config(rs, ["rf", "et", "gp"], n_points=30, max_dims=3,
                    acqs=["EI", "LCB", "PI", "gp_hedge", "EIps"])
    ps = vo.is_ps(cfg)
    per_fit = 2 if ps else 1
    spec = cfg["space"]
    f = vo.Values(rs, cfg)
    spy.reset()
    n_init = int(rs.randint(0, 5))
    x0 = [gen.rand_point(rs, spec) for _ in range(rs.randint(0, 4))]
    if n_init == 0 and not x0:
        n_init = 1
    y0 = [f(x) for x in x0] if x0 and rs.rand() < 0.5 else None
    spent = n_init + (len(x0) if y0 is None else 0)
    n_calls = spent + int(rs.randint(1, 5))
    queue = [None, 1, 2][rs.randint(3)]
    calls = []

    def objective(x):
        calls.append((list(x), len(spy.fits())))
        return f(x)
    kw = vo.optimizer_kwargs(cfg)
    res = base_minimize(
        objective, gen.build_dims(spec), spy.make(cfg["est"]),
        n_calls=n_calls, n_initial_points=n_init,
        initial_point_generator=kw["initial_point_generator"],
        acq_func=cfg["acq"], acq_optimizer=cfg["acq_opt"], x0=x0 or None,
        y0=y0, random_state=cfg["rs"], n_points=30, n_restarts_optimizer=1,
        model_queue_size=queue)
    info = "n_init=%d len(x0)=%d y0=%s n_calls=%d" % (
        n_init, len(x0), y0 is not None, n_calls)
    mon.check(len(calls) == n_calls, "minimize-fits", info)
    # no model until the provided and initial points are used
    mon.check(all(c == 0 for _, c in calls[:spent]), "minimize-fits",
              lambda: "%s: fits before each call %s" % (
                  info, [c for _, c in calls]))
    expected = n_calls - spent + 1
    fits = len(spy.fits()) // per_fit
    mon.check(fits == expected, "minimize-fits",
              lambda: "%s: %d fits, expected %d" % (info, fits, expected))
    after = [c // per_fit for _, c in calls[spent:]]
    mon.check(after == list(range(1, len(after) + 1)), "minimize-fits",
              lambda: "%s: %s" % (info, after))
    want = expected if queue is None else min(expected, queue)
    mon.check(len(res.models) == want, "queue", "%s queue=%s: %d models" % (
        info, queue, len(res.models)))
    g = cfg["gen"]
    if g != "random" and n_init and not x0:
        again = []
        base_minimize(
            lambda x: again.append(list(x)) or 0.0 if not ps else
            again.append(list(x)) or (0.0, 1.0), gen.build_dims(spec),
            spy.make("rf"), n_calls=n_init, n_initial_points=n_init,
            initial_point_generator=vo.optimizer_kwargs(cfg)[
                "initial_point_generator"], acq_func=cfg["acq"],
            acq_optimizer="sampling", random_state=cfg["rs"], n_points=30, n_restarts_optimizer=1)
        if cfg["est"] != "gp":
            mon.check(gen.same_points(again, [x for x, _ in calls[:n_init]]),
                      "minimize-design", lambda: "%s: %r, %r" % (
                          info, again, calls[:n_init]))
    mon.nontrivial(["min", cfg["est"], cfg["acq"], n_init, len(x0),
                    y0 is None, queue])
