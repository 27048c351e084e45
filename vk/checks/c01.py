"""C01 every suggested point is a legal point of the space."""
import numpy as np
from vk import gen, opt as vo

RULE = ("a case is an optimizer configuration (generated space x surrogate x "
        "acquisition x optimizer x design) driven through a random history of "
        "single/batch asks and tells, or a minimize function with a recording "
        "objective, or an adversarial linear surrogate; non-trivial: distinct "
        "(surrogate, acquisition, optimizer, design, dimension kinds and "
        "transforms) that reached the model phase")
REQUIRED = ["ask", "batch", "minimize", "accepted", "corner"]

MINIMIZERS = ["gp", "forest", "gbrt", "dummy"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    return [{"kind": t} for t in
            ["strings"] * 24 + ["history"] * 340 + ["minimize"] * 60 +
            ["corner"] * 200 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"history": run_history, "strings": run_strings,
     "minimize": run_minimize, "corner": run_corner}[case["kind"]](rs, mon)


def signature(cfg):
    g = cfg["gen"]
    return [cfg["est"], cfg["acq"], cfg["acq_opt"],
            g["k"] if isinstance(g, dict) else g,
            [(d["k"], d.get("prior") if d["k"] != "cat" else None,
              d["transform"]) for d in cfg["space"]]]


def drive(rs, mon, cfg, steps):
    np.random.seed(3)
    opt = vo.build(cfg)
    spec = vo.declared(cfg, opt)
    f = vo.Values(rs, cfg)
    told = 0

    def legal(x, key):
        bad = gen.illegal_point(spec, x)
        mon.check(bad is None, key, lambda: "%r: %s; cfg %s" % (x, bad, cfg))
        # independent of the code's own opinion: it must accept the point
        mon.see("points", gen.plain(x))
        return bad is None

    for step in range(steps):
        op = rs.rand()
        if op < 0.6:
            x = opt.ask()
            if rs.rand() < 0.3:
                x = opt.ask()
            if not legal(x, "ask"):
                return
            opt.tell(x, f(x))
            told += 1
        elif op < 0.85:
            n = int(rs.randint(1, 5))
            X = opt.ask(n_points=n, strategy=str(
                rs.choice(["cl_min", "cl_mean", "cl_max"])))
            mon.check(len(X) == n, "batch",
                      lambda: "%d of %d points; %s" % (len(X), n, cfg))
            if not all([legal(x, "batch") for x in X]):
                return
            opt.tell(X, [f(x) for x in X])
            told += n
        elif op < 0.93:
            x = gen.rand_point(rs, spec)
            opt.tell(x, f(x))
            told += 1
        else:
            X = [gen.rand_point(rs, spec) for _ in range(rs.randint(1, 4))]
            opt.tell(X, [f(x) for x in X])
            told += len(X)
        mon.check(len(opt.Xi) == told, "accepted",
                  lambda: "%d told, %d recorded" % (told, len(opt.Xi)))
        mon.count("asks and tells")
    if opt.models:
        mon.nontrivial(signature(cfg))
        mon.count("model phase reached")
    mon.sample({"est": cfg["est"], "acq": cfg["acq"],
                "last": gen.plain(opt.ask())})


def run_history(rs, mon):
    names = ["rf", "et", "gbrt", "gp", "gp", "dummy"]
    cfg = vo.config(rs, names, dtypes=rs.rand() < 0.3, queue=True,
                    tuples=rs.rand() < 0.2)
    if cfg["est"] == "dummy":
        cfg["acq"] = "EI"
    drive(rs, mon, cfg, vo.steps(rs, cfg, 4, 11, 0.02))


def run_strings(rs, mon):
    cfg = vo.config(rs, ["GP", "GP", "RF", "ET", "GBRT"], max_dims=3,
                    acqs=["gp_hedge", "EI", "LCB", "PI", "EIps"],
                    dims=None if rs.rand() < 0.7 else gen.space_spec(
                        rs, kinds=("cat",), max_dims=3, transforms=True))
    if cfg["est"] == "GP" and all(d["k"] == "cat" for d in cfg["space"]):
        cfg["acq_opt"] = "auto"
    drive(rs, mon, cfg, int(rs.randint(3, 6)))


def run_minimize(rs, mon):
    import skopt
    kind = MINIMIZERS[rs.randint(4)]
    spec = gen.space_spec(rs, max_dims=3, transforms=rs.rand() < 0.5)
    seed = gen.seed(rs)
    ps = kind != "dummy" and rs.rand() < 0.2
    f = gen.objective(spec, seed % 1000)
    seen = []

    def objective(x):
        seen.append(list(x))
        return (f(x), 0.1 + f(x) ** 2) if ps else f(x)
    kw = dict(n_calls=int(rs.randint(5, 9)), random_state=seed)
    if kind != "dummy":
        kw["n_initial_points"] = int(rs.randint(2, 5))
        kw["acq_func"] = str(rs.choice(["EIps", "PIps"] if ps else
                                       ["EI", "LCB", "PI"]))
        kw["n_points"] = 200
        kw["initial_point_generator"] = str(rs.choice(gen.DESIGNS))
        if kind == "gp":
            kw["n_restarts_optimizer"] = 1
            kw["acq_optimizer"] = str(rs.choice(["auto", "sampling"]))
        if kind == "forest":
            kw["base_estimator"] = gen.make_surrogate(
                str(rs.choice(["rf", "et"])), seed % 1000)
        if kind == "gbrt":
            kw["base_estimator"] = gen.make_surrogate("gbrt")
    func = {"gp": skopt.gp_minimize, "forest": skopt.forest_minimize,
            "gbrt": skopt.gbrt_minimize, "dummy": skopt.dummy_minimize}[kind]
    res = func(objective, gen.build_dims(spec), **kw)
    declared = [dict(d, transform=t)
                for d, t in zip(spec, res.space.get_transformer())]
    mon.check(len(seen) == kw["n_calls"], "minimize", "calls")
    for x in seen:
        bad = gen.illegal_point(declared, x)
        mon.check(bad is None, "minimize",
                  lambda: "%s %r: %s; %s %s" % (kind, x, bad, spec, kw))
        mon.see("points", gen.plain(x))
    mon.nontrivial(["min", kind, kw.get("acq_func"), kw.get("acq_optimizer"),
                    [(d["k"], d["transform"]) for d in spec]])


def run_corner(rs, mon):
    """A linear surrogate sends the acquisition to a corner of the box."""
    from skopt import Optimizer
    from vk.stubs import LinearModel
    spec = gen.space_spec(rs, max_dims=4, transforms=True,
                          kinds=("real", "int", "real", "int", "cat"),
                          dtypes=rs.rand() < 0.5)
    for d in spec:
        # the optimizer is the one that normalizes for GPs; do so here
        if rs.rand() < 0.6:
            d["transform"] = "normalize"
    space = gen.build_space(spec)
    lo = np.array([b[0] for b in space.transformed_bounds], dtype=float)
    hi = np.array([b[1] for b in space.transformed_bounds], dtype=float)
    w = rs.choice([-1.0, 1.0], len(lo)) / np.maximum(hi - lo, 1e-300)
    lbfgs = rs.rand() < 0.7
    opt = Optimizer(gen.build_dims(spec), LinearModel(w=tuple(w),
                                                      lo=tuple(lo)),
                    n_initial_points=1, acq_func=str(
                        rs.choice(["LCB", "EI", "gp_hedge"])),
                    acq_optimizer="lbfgs" if lbfgs else "sampling",
                    random_state=gen.seed(rs),
                    acq_optimizer_kwargs={"n_points": 30,
                                          "n_restarts_optimizer": 2})
    x = opt.ask()
    for i in range(3):
        opt.tell(x, float(i))
        x = opt.ask()
        bad = gen.illegal_point(spec, x)
        mon.check(bad is None, "corner",
                  lambda: "%r: %s; %s" % (x, bad, spec))
    for x in opt.ask(3):
        bad = gen.illegal_point(spec, x)
        mon.check(bad is None, "corner",
                  lambda: "%r: %s; %s" % (x, bad, spec))
    mon.nontrivial(["corner", lbfgs, [(d["k"], d["transform"],
                                       d.get("dtype")) for d in spec]])
