"""C08 results are a faithful, stable ledger of what was told."""
import copy
import math

import numpy as np
from vk import gen, opt as vo

RULE = ("a case is an optimizer (or minimize function) driven through a "
        "random history of single, batch, non-fitting, tuple and numpy-valued "
        "observations with ties; the harness keeps its own ledger and every "
        "result handed out; non-trivial: distinct (surrogate, acquisition, "
        "operation sequence)")
REQUIRED = ["points", "values", "best-value", "best-point", "times",
            "snapshot", "minimize", "create_result", "run"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in
            ["history"] * 500 + ["minimize"] * 60 + ["create"] * 200
            for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"history": run_history, "minimize": run_minimize,
     "create": run_create}[case["kind"]](rs, mon)


def check_result(mon, res, X, Y, ps, what, info=""):
    """The ledger oracle: X told points, Y told values (pairs if ps)."""
    vals = [vo.val(y, ps) for y in Y]
    mon.check(gen.same_points(res.x_iters, X), "points",
              lambda: "%s: %r, told %r %s" % (what, gen.plain(res.x_iters),
                                              gen.plain(X), info))
    got = np.asarray(res.func_vals)
    mon.check(got.shape == (len(vals),) and
              [float(v) for v in got] == [float(v) for v in vals], "values",
              lambda: "%s: %r, told %r %s" % (what, res.func_vals, vals, info))
    if not vals:
        return
    best = min(vals)
    first = vals.index(best)
    mon.check(float(res.fun) == float(best), "best-value",
              lambda: "%s: %r, told %r %s" % (what, res.fun, vals, info))
    mon.check(gen.same_point(res.x, X[first]), "best-point",
              lambda: "%s: %r should be observation %d, %r, of %r %s" % (
                  what, gen.plain(res.x), first, gen.plain(X[first]), vals,
                  info))
    if ps:
        lt = np.asarray(res.log_time)
        ref = [math.log(y[1]) for y in Y]
        mon.check(lt.shape == (len(ref),) and
                  np.allclose(lt, ref, rtol=1e-9, atol=1e-12), "times",
                  lambda: "%s: %r, told %r %s" % (what, lt, ref, info))


def freeze(res):
    d = {"x": gen.plain(res.x), "fun": float(res.fun),
         "func_vals": [float(v) for v in res.func_vals],
         "x_iters": copy.deepcopy(gen.plain(res.x_iters)),
         "models": len(res.models)}
    if "log_time" in res:
        d["log_time"] = [float(v) for v in res.log_time]
    return d


def numpyish(rs, spec, x):
    out = []
    for d, v in zip(spec, x):
        if d["k"] == "real" and rs.rand() < 0.5:
            v = np.float64(v)
        elif d["k"] == "int" and rs.rand() < 0.5:
            v = np.int64(v)
        out.append(v)
    return out


def run_history(rs, mon):
    names = ["rf", "et", "dummy", "dummy", "gp"] if rs.rand() < 0.5 else \
        ["dummy"]
    cfg = vo.config(rs, names, n_points=40, max_init=4, queue=True,
                    max_dims=3)
    steps = vo.steps(rs, cfg, 3, 12)
    opt = vo.build(cfg)
    spec = vo.declared(cfg, opt)
    ps = vo.is_ps(cfg)
    if cfg["est"] == "dummy" and ps:
        cfg["acq"], ps = "EI", False
        opt = vo.build(cfg)
    f = vo.Values(rs, cfg, ["steps", "const", "ints", "smooth", "large",
                            "negative"][rs.randint(6)])
    X, Y, ops, kept = [], [], [], []
    for step in range(steps):
        u = rs.rand()
        fit = bool(rs.rand() < 0.8)
        res = None
        if u < 0.45:
            can_ask = len(X) < cfg["n_init"] or cfg["est"] == "dummy" or \
                bool(opt.models)
            x = opt.ask() if rs.rand() < 0.6 and can_ask else \
                gen.rand_point(rs, spec)
            if X and rs.rand() < 0.2:
                x = list(X[rs.randint(len(X))])
            x = numpyish(rs, spec, x)
            y = f(x)
            if not ps and rs.rand() < 0.3:
                y = np.float64(y) if isinstance(y, float) else np.int64(y)
            if ps and rs.rand() < 0.5:
                y = list(y)
            arg = tuple(x) if rs.rand() < 0.2 else list(x)
            res = opt.tell(arg, y, fit=fit)
            X.append(list(x))
            Y.append(y if not ps else tuple(y))
            ops.append("t")
        elif u < 0.7:
            B = [gen.rand_point(rs, spec) for _ in range(rs.randint(1, 5))]
            B = [tuple(b) if rs.rand() < 0.2 else b for b in B]
            V = [f(b) for b in B]
            arg, vals = list(B), list(V)
            res = opt.tell(arg, vals, fit=fit)
            # the caller goes on using its lists
            arg.append("rubbish")
            vals[0] = (99.0, 1.0) if ps else 99.0
            X += [list(b) for b in B]
            Y += V
            ops.append("b%d" % len(B))
        elif u < 0.8:
            if X:
                res = opt.get_result()
            ops.append("g")
        elif u < 0.9 and (len(X) < cfg["n_init"] or cfg["est"] == "dummy" or
                          opt.models):
            seen = []

            def func(x):
                seen.append((list(x), f(x)))
                return seen[-1][1]
            n = int(rs.randint(1, 4))
            res = opt.run(func, n)
            mon.check(len(seen) == n, "run", "%d calls for %d" % (len(seen),
                                                                  n))
            X += [x for x, _ in seen]
            Y += [y for _, y in seen]
            ops.append("r%d" % n)
        else:
            c = opt.copy(random_state=1)
            if rs.rand() < 0.5:
                x = gen.rand_point(rs, spec)
                c.tell(x, f(x))     # must not reach the original's ledger
            ops.append("c")
        if res is not None and X:
            check_result(mon, res, X, Y, ps, "after %s" % ops, cfg["est"])
            kept.append((freeze(res), res))
        if X:
            check_result(mon, opt.get_result(), X, Y, ps, "get_result")
        for old, r in kept:
            now = freeze(r)
            mon.check(now == old, "snapshot", lambda: "a result of %d points "
                      "became %s, was %s" % (len(old["x_iters"]), now, old))
    mon.count("observations", len(X))
    mon.nontrivial([cfg["est"], cfg["acq"], ops])
    mon.sample({"ops": ops, "values": [float(vo.val(y, ps)) for y in Y]})


def run_minimize(rs, mon):
    import skopt
    spec = gen.space_spec(rs, max_dims=3)
    kind = str(rs.choice(["dummy", "forest", "gp"]))
    ps = kind == "forest" and rs.rand() < 0.4
    cfg = {"space": spec, "acq": "EIps" if ps else "EI"}
    f = vo.Values(rs, cfg)
    log, results = [], []

    def objective(x):
        y = f(x)
        log.append((list(x), y))
        return y
    x0 = [gen.rand_point(rs, spec) for _ in range(rs.randint(0, 4))]
    y0 = [f(x) for x in x0] if x0 and rs.rand() < 0.6 else None
    kw = dict(n_calls=int(rs.randint(5, 9)) + (len(x0) if y0 is None else 0),
              random_state=gen.seed(rs),
              callback=lambda res: results.append((freeze(res), res)) and None)
    if x0:
        kw["x0"] = x0
        if y0 is not None:
            kw["y0"] = y0
    if kind != "dummy":
        kw.update(n_initial_points=3, n_points=50, acq_func=cfg["acq"])
    if kind == "forest":
        kw["base_estimator"] = gen.make_surrogate("rf")
    if kind == "gp":
        kw.update(n_restarts_optimizer=1, acq_optimizer="sampling")
    func = getattr(skopt, kind + "_minimize")
    res = func(objective, gen.build_dims(spec), **kw)
    given = list(zip(x0, y0)) if y0 is not None else []
    hist = given + log
    check_result(mon, res, [x for x, _ in hist], [y for _, y in hist], ps,
                 "%s_minimize" % kind)
    mon.check(res.models is not None and res.space is not None, "minimize")
    for old, r in results:
        mon.check(freeze(r) == old, "snapshot",
                  lambda: "callback result of %s changed" % kind)
        n = len(old["x_iters"])
        mon.check(gen.same_points(old["x_iters"], [x for x, _ in hist[:n]]),
                  "points")
    mon.nontrivial(["min", kind, len(x0), y0 is None, ps])


def run_create(rs, mon):
    from skopt.utils import create_result
    n = int(rs.randint(1, 12))
    ps = rs.rand() < 0.4
    X = [[float(v) for v in rs.randn(2)] for _ in range(n)]
    vals = [float(v) for v in rs.randint(-2, 3, n)]
    Y = [(v, float(t)) for v, t in zip(vals, rs.rand(n) + 0.1)] if ps else vals
    told = [(v, math.log(t)) for v, t in Y] if ps else list(vals)
    res = create_result(X, told, models=["m"])
    check_result(mon, res, X, Y, ps, "create_result")
    old = freeze(res)
    X.append([0.0, 0.0])
    told.append(told[0])
    mon.check(freeze(res) == old, "create_result", "follows the lists")
    mon.nontrivial(["create", vals, ps])
