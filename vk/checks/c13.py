"""C13 suggestions use the full history and optimise the acquisition."""
import numpy as np
from vk import gen, opt as vo
from vk.stubs import model_acquisition

RULE = ("a case is an optimizer with a recording surrogate and a random "
        "history; after each fitting tell its training data, its candidates "
        "and its suggestion are judged with acquisition values recomputed "
        "from the fitted model; non-trivial: distinct (surrogate, "
        "acquisition, optimizer, exploration parameters, dimension kinds)")
REQUIRED = ["trained-on", "best-of-candidates", "effort", "fresh",
            "update-next", "best-of-searches", "lbfgs-improves", "minimizer"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": "run"} for _ in range(600 * k)] + \
        [{"kind": "minimizer"} for _ in range(100 * k)] + \
        [{"kind": "searches"} for _ in range(100 * k)]


def fitted(fits, ps):
    """The model(s) of the last fit."""
    if ps:
        return fits[-2]["model"], fits[-1]["model"]
    return fits[-1]["model"]


def rows_predicted(log, models):
    """Candidate rows given to the models, in one or more calls."""
    rows = [e["X"] for e in log if e["ev"] == "predict" and
            any(e["model"] is m for m in models) and len(e["X"]) > 3]
    return np.vstack(rows) if rows else None


def visited(mine, name, model, single, scale, y_opt, kw):
    """How much worse than the best point that the local searches saw."""
    S = model_acquisition(name, model, np.vstack(single), y_opt, kw)
    return float((mine - np.min(S)) / scale)


def run_searches(rs, mon):
    """Acquisitions with many local optima and few starting points."""
    from skopt import Optimizer
    from skopt.learning.gaussian_process.kernels import Matern
    from vk import spy
    spec = gen.space_spec(rs, kinds=("real",), max_dims=3)
    est = spy.make("gp", gen.seed(rs) % 1000)
    est.set_params(kernel=Matern(float(rs.choice([0.1, 0.2, 0.3])), "fixed",
                                 nu=2.5), optimizer=None,
                   noise=[None, 1e-3][rs.randint(2)])
    acq = ["EI", "LCB", "PI"][rs.randint(3)]
    kw = {"xi": 0.01, "kappa": 1.96}
    spy.reset(predictions=True)
    opt = Optimizer(gen.build_dims(spec), est, n_initial_points=6,
                    acq_func=acq, acq_optimizer="lbfgs", acq_func_kwargs=kw,
                    random_state=gen.seed(rs), acq_optimizer_kwargs={
                        "n_points": int(rs.randint(5, 20)),
                        "n_restarts_optimizer": int(rs.randint(3, 10))})
    f = gen.objective(spec, 3, scale=float(10 ** rs.uniform(-2, 2)))
    gaps = []
    for _ in range(12):
        x = gen.rand_point(rs, spec)
        mark = len(spy.LOG)
        opt.tell(x, f(x) + 0.3 * rs.randn())
        if not opt.models:
            continue
        single = [e["X"] for e in spy.LOG[mark:] if e["ev"] == "predict" and
                  e["model"] is opt.models[-1] and len(e["X"]) == 1]
        pool = rows_predicted(spy.LOG[mark:], opt.models[-1:])
        if not single or pool is None:
            continue
        spy.RECORD_PREDICT[0] = False
        try:
            y_opt = min(opt.yi)
            w = np.asarray(opt.space.transform([opt.ask()]), dtype=float)
            P = model_acquisition(acq, opt.models[-1], pool, y_opt, kw)
            mine = model_acquisition(acq, opt.models[-1], w, y_opt, kw)[0]
            scale = max(np.ptp(P), 1e-12 * max(1.0, np.max(np.abs(P))))
            gaps.append(visited(mine, acq, opt.models[-1], single, scale,
                                y_opt, kw))
        finally:
            spy.RECORD_PREDICT[0] = True
    # a line search that breaks down gives up a better point now and then
    mon.check(sum(g > 0.05 for g in gaps) < 2, "best-of-searches", lambda:
              "%s of %s: the points suggested are worse than the best ones "
              "visited by %s of the range" % (acq, spec, gaps))
    mon.nontrivial(["searches", acq, len(spec), str(est.noise)])


def judge(mon, opt, cfg, told, fits, log, rs, key="best-of-candidates"):
    ps = vo.is_ps(cfg)
    model = fitted(fits, ps)
    models = model if ps else [model]
    y_opt = min(vo.val(y, ps) for _, y in told)
    kw = cfg["acq_kwargs"]
    names = ["EI", "LCB", "PI"] if cfg["acq"] == "gp_hedge" else [cfg["acq"]]
    pool = rows_predicted(log, models)
    x = opt.ask()
    w = opt.space.transform([x])
    numeric = all(d["k"] == "real" for d in cfg["space"])
    lbfgs = opt.acq_optimizer == "lbfgs"
    info = lambda: "%s acq=%s %s y_opt=%r space=%s" % (
        cfg["est"], cfg["acq"], kw, y_opt, cfg["space"])
    from vk import spy
    spy.RECORD_PREDICT[0] = False
    try:
        mon.check(pool is not None and len(pool) >= cfg["n_points"], "effort",
                  lambda: "%s candidates for n_points=%d" % (
                      None if pool is None else len(pool), cfg["n_points"]))
        if pool is None:
            return
        if lbfgs and not numeric:
            # rounding to integers and categories follows the optimisation
            return
        fresh = np.asarray(opt.space.transform(opt.space.rvs(
            500, random_state=gen.seed(rs))), dtype=float)
        gaps, better = [], []
        for name in names:
            P = model_acquisition(name, model, pool, y_opt, kw)
            d = np.max(np.abs(pool - w), axis=1)
            near = np.argmin(d)
            if not lbfgs and d[near] < 1e-9:
                mine = P[near]
            else:
                mine = model_acquisition(name, model, w, y_opt, kw)[0]
            scale = max(np.ptp(P), 1e-12 * max(1.0, np.max(np.abs(P))))
            F = model_acquisition(name, model, fresh, y_opt, kw)
            gaps.append((mine - np.min(P)) / scale)
            better.append(np.mean(F < mine - 1e-6 * scale))
            if lbfgs and len(names) == 1 and gaps[-1] < -1e-9:
                mon.check(True, "lbfgs-improves")
        mon.check(min(gaps) < (1e-5 if lbfgs else 1e-7), key,
                  lambda: "suggested %r is worse than the best candidate by "
                  "%s of the range; %s" % (x, gaps, info()))
        mon.check(min(better) < 0.12, "fresh",
                  lambda: "%s of fresh random points are better than %r; %s"
                  % (better, x, info()))
    finally:
        spy.RECORD_PREDICT[0] = True


def run_minimizer(rs, mon):
    """The points a minimize function evaluates optimise what it was given."""
    import skopt
    spec = gen.space_spec(rs, max_dims=3, kinds=("real",)
                          if rs.rand() < 0.5 else ("real", "int", "cat"))
    kind = ["gp", "gp", "forest", "gbrt"][rs.randint(4)]
    acq = str(rs.choice(["EI", "PI", "LCB", "LCB", "gp_hedge"] +
                        (["EIps", "PIps"] if kind == "gp" else [])))
    ps = acq.endswith("ps")
    g = gen.objective(spec, int(rs.randint(1000)))
    kw = dict(xi=float(rs.choice([0.0, 0.01, 0.5, 3.0])),
              kappa=float(rs.choice([0.0, 0.5, 1.96, 20.0])))
    n_init = int(rs.randint(2, 6))
    args = dict(acq_func=acq, n_initial_points=n_init, n_points=400,
                n_calls=n_init + int(rs.randint(2, 5)),
                random_state=gen.seed(rs), **kw)
    x0 = None
    if rs.rand() < 0.3:
        x0 = [gen.rand_point(rs, spec) for _ in range(rs.randint(1, 4))]
        args["x0"] = x0
        if rs.rand() < 0.5:
            args["y0"] = [(g(x), 0.5 + g(x) ** 2) if ps else g(x) for x in x0]
        else:
            args["n_calls"] += len(x0)
    if kind == "gp":
        args["acq_optimizer"] = str(rs.choice(["auto", "sampling"]))
        args["noise"] = [1e-10, "gaussian"][rs.randint(2)]
        args["n_restarts_optimizer"] = int(rs.randint(1, 4))
    func = {"gp": skopt.gp_minimize, "forest": skopt.forest_minimize,
            "gbrt": skopt.gbrt_minimize}[kind]
    res = func(lambda x: (g(x), 0.5 + g(x) ** 2) if ps else g(x),
               gen.build_dims(spec), **args)
    start = n_init + (len(x0) if x0 else 0)
    mon.check(len(res.models) == len(res.x_iters) - start + 1, "minimizer",
              lambda: "%d models of %d points" % (len(res.models),
                                                  len(res.x_iters)))
    if kind == "gp" and args["acq_optimizer"] == "auto" and \
            not all(d["k"] == "real" for d in spec):
        return
    names = ["EI", "LCB", "PI"] if acq == "gp_hedge" else [acq]
    fresh = np.asarray(res.space.transform(res.space.rvs(
        500, random_state=gen.seed(rs))), dtype=float)
    for j, m in enumerate(res.models[:-1]):
        if start + j >= len(res.x_iters):
            break
        x = res.x_iters[start + j]
        model = tuple(m.estimators_) if ps else m
        y_opt = np.min(res.func_vals[:start + j])
        w = np.asarray(res.space.transform([x]), dtype=float)
        better = []
        for name in names:
            mine = model_acquisition(name, model, w, y_opt, kw)[0]
            F = model_acquisition(name, model, fresh, y_opt, kw)
            scale = max(np.ptp(F), 1e-12 * max(1.0, np.max(np.abs(F))))
            better.append(np.mean(F < mine - 1e-6 * scale))
        mon.check(min(better) < 0.12, "minimizer",
                  lambda: "%s %s: %s of fresh random points are better than "
                  "point %d, %r; %s" % (kind, args, better, start + j, x,
                                        spec))
    mon.nontrivial(["minimizer", kind, acq, kw, x0 is None,
                    [d["k"] for d in spec]])


def run(case, mon):
    from vk import spy
    from vk.checks.c11 import check_fits
    rs = np.random.RandomState(case["seed"])
    if case["kind"] == "minimizer":
        return run_minimizer(rs, mon)
    if case["kind"] == "searches":
        return run_searches(rs, mon)
    cfg = vo.config(rs, ["rf", "et", "gbrt", "gp", "gp"], n_points=400,
                    max_init=4, max_dims=3, queue=True,
                    kinds=("real",) if rs.rand() < 0.5 else
                    ("real", "int", "cat"))
    if cfg["acq_kwargs"]:
        cfg["acq_kwargs"]["xi"] = float(rs.choice([0.0, 0.01, 0.05, 0.3]))
    ps = vo.is_ps(cfg)
    spy.reset(predictions=True)
    opt = vo.build(cfg, spied=True)
    spec = vo.declared(cfg, opt)
    f = vo.Values(rs, cfg, ["smooth", "smooth", "negative", "steps", "large"]
                  [rs.randint(5)])
    told = []
    if rs.rand() < 0.04:
        X = [gen.rand_point(rs, spec) for _ in range(rs.randint(30, 130))]
        Y = [f(x) for x in X]
        told = list(zip(X, Y))
        opt.tell(X, Y, fit=False)
    for step in range(int(rs.randint(3, 7))):
        x = opt.ask() if (len(told) < cfg["n_init"] or opt.models) and \
            rs.rand() < 0.6 else gen.rand_point(rs, spec)
        fit = bool(rs.rand() < 0.85)
        if rs.rand() < 0.2 and opt.models:
            opt.ask(2)                  # fantasies in between
        mark = len(spy.LOG)
        if rs.rand() < 0.3:
            X = [x] + [gen.rand_point(rs, spec)
                       for _ in range(rs.randint(1, 4))]
            Y = [f(p) for p in X]
            opt.tell(X, Y, fit=fit)
            told += list(zip(X, Y))
        else:
            y = f(x)
            opt.tell(x, y, fit=fit)
            told.append((x, y))
        log = spy.LOG[mark:]
        fits = [e for e in log if e["ev"] == "fit"]
        if not fits:
            continue
        check_fits(mon, opt, fits, [], told, "cl_min", ps, cfg)
        mon.check(all(len(e["X"]) == len(told) for e in fits), "trained-on",
                  lambda: "fits on %s of %d observations" % (
                      [len(e["X"]) for e in fits], len(told)))
        judge(mon, opt, cfg, told, fits, log, rs)
        mon.nontrivial([cfg["est"], cfg["acq"], opt.acq_optimizer,
                        cfg["acq_kwargs"], [d["k"] for d in spec]])
        mon.count("suggestions judged")
    if opt.models and rs.rand() < 0.5:
        # a changed parameter takes effect with update_next
        cfg = dict(cfg, acq_kwargs={"xi": 0.02, "kappa": [
            0.0, 20.0, "inf"][rs.randint(3)]})
        opt.acq_func_kwargs = dict(cfg["acq_kwargs"])
        mark = len(spy.LOG)
        opt.update_next()
        log = spy.LOG[mark:]
        fits = [e for e in log if e["ev"] == "fit"]
        mon.check(len(fits) > 0, "update-next", "nothing recomputed")
        if fits:
            judge(mon, opt, cfg, told, fits, log, rs, "update-next")
