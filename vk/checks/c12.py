"""C12 a fixed seed reproduces the optimization."""
import json
import os
import subprocess
import sys

import numpy as np
from vk import core, gen, opt as vo

RULE = ("a case is a workload (ask/tell history, minimize function, search, "
        "or sampling helper) run twice in one process with different "
        "process-wide random states, and again with more workers or in "
        "another process with another hash seed; traces must be identical; "
        "non-trivial: distinct (workload, surrogate, acquisition, design, "
        "variation)")
REQUIRED = ["twin", "global-state", "other-process", "other-workers",
            "random-state-object", "minimizers", "search", "helpers"]
CONFIRM = ("twin", "random-state-object", "minimizers", "other-workers",
           "other-process", "search", "helpers")
CASE_TIMEOUT = {"quick": 400, "thorough": 1500}


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    return [{"kind": t} for t in
            ["workers"] * 16 + ["process"] * 8 + ["search"] * 10 +
            ["twin"] * 260 + ["minimize"] * 60 + ["helpers"] * 60
            for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"twin": run_twin, "minimize": run_minimize, "workers": run_workers,
     "process": run_process, "search": run_search,
     "helpers": run_helpers}[case["kind"]](rs, mon)


# ---- workloads, deterministic given their JSON description ----------------

def trace_history(w):
    cfg = w["cfg"]
    rs = np.random.RandomState(w["ops"])
    if w.get("rs_object"):
        cfg = dict(cfg, rs=cfg["rs"])
    kw = vo.optimizer_kwargs(cfg)
    if w.get("rs_object"):
        kw["random_state"] = np.random.RandomState(cfg["rs"])
    from skopt import Optimizer
    opt = Optimizer(gen.build_dims(cfg["space"]),
                    make(w, cfg), **kw)
    f = vo.Values(np.random.RandomState(w["ops"]), cfg, "smooth")
    out = []
    for _ in range(w["steps"]):
        u = rs.rand()
        if u < 0.7:
            x = opt.ask()
            out.append(gen.plain(x))
            opt.tell(x, f(x))
        elif u < 0.9:
            X = opt.ask(2, strategy=str(rs.choice(["cl_min", "cl_mean"])))
            out.append(gen.plain(X))
            opt.tell(X, [f(x) for x in X])
        else:
            c = opt.copy(random_state=7)
            out.append(gen.plain(c.ask()))
    r = opt.get_result()
    out.append([gen.plain(r.x_iters), [float(v) for v in r.func_vals]])
    if r.models and not vo.is_ps(cfg):
        p = r.models[-1].predict(opt.space.transform(r.x_iters))
        out.append([float(v) for v in p])
    return out


def make(w, cfg):
    """Seeded through the optimizer (strings) or not at all by the user."""
    name = cfg["est"]
    if name in gen.FAST:
        return gen.make_surrogate(name, w.get("est_seed", 0),
                                  n_jobs=cfg.get("jobs") or 1)
    return name


def trace_minimize(w):
    import skopt
    spec = w["space"]
    f = gen.objective(spec, w["ops"])
    kw = dict(w["kw"])
    jobs = w.get("jobs")
    if jobs and w["func"] != "dummy":
        kw["n_jobs"] = jobs
    if w["func"] == "forest" and w.get("small"):
        kw["base_estimator"] = w["small"]
    seen = []

    def objective(x):
        seen.append(gen.plain(x))
        return f(x)
    res = getattr(skopt, w["func"] + "_minimize")(
        objective, gen.build_dims(spec), **kw)
    out = [seen, [float(v) for v in res.func_vals], gen.plain(res.x)]
    if res.models:
        p = res.models[-1].predict(res.space.transform(res.x_iters))
        out.append([float(v) for v in np.ravel(p)])
    return out


def trace(w):
    return json.loads(json.dumps(
        trace_minimize(w) if w["what"] == "minimize" else trace_history(w)))


def poisoned(seed, fn, mon, key="global-state"):
    """fn() with the given process-wide state, which must not change."""
    np.random.seed(seed)
    import random
    random.seed(seed)
    before = gen.state_of_global_rng()
    py = random.getstate()
    out = fn()
    mon.check(gen.state_of_global_rng() == before, key,
              "numpy's process-wide random state changed")
    mon.check(random.getstate() == py, key,
              "python's process-wide random state changed")
    return out


def agree(a, b, w):
    """Equal traces. They may part ways after a rounding error."""
    if a == b:
        return True
    if w["what"] == "minimize":
        gp = w["func"] == "gp"
        a, b = a[0] + a[1:], b[0] + b[1:]
    else:
        gp = w["cfg"]["est"] in ("gp", "GP")
    return alike(a, b, 1e-5 if gp else 1e-11)


def alike(a, b, tol=1e-11):
    """Equal up to a first difference, which is a rounding error."""
    for x, y in zip(a, b):
        if x != y:
            return gen.near_value(x, y, tol)
    return len(a) == len(b)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "step %d: %s != %s" % (i, str(x)[:400], str(y)[:400])
    return "lengths %d, %d" % (len(a), len(b))


def close(a, b):
    """Equal but for rounding in the predictions (the last entry)."""
    if not gen.same_value(a[:-1], b[:-1]):
        return False
    x, y = a[-1], b[-1]
    return x == y or (np.shape(x) == np.shape(y) and
                      np.allclose(x, y, rtol=1e-9, atol=1e-12))


def history(rs, names, steps=None, **kw):
    cfg = vo.config(rs, names, n_points=60, max_init=4, max_dims=3, **kw)
    if cfg["est"] == "dummy":
        cfg["acq"] = "EI"
    return {"what": "history", "cfg": cfg, "ops": int(rs.randint(2 ** 31)),
            "steps": steps or int(rs.randint(3, 8)),
            "est_seed": int(rs.randint(1000))}


def minimize(rs, funcs=("dummy", "forest", "gbrt", "gp")):
    func = str(funcs[rs.randint(len(funcs))])
    spec = gen.space_spec(rs, max_dims=3)
    kw = {"n_calls": int(rs.randint(5, 8)),
          "random_state": gen.seed(rs)}
    if func != "dummy":
        kw.update(n_initial_points=3, n_points=60,
                  acq_func=str(rs.choice(["EI", "LCB", "PI"])),
                  initial_point_generator=str(rs.choice(gen.DESIGNS)))
    if func == "forest":
        kw["base_estimator"] = str(rs.choice(["ET", "RF"]))
    if func == "gp":
        kw["acq_func"] = str(rs.choice(["EI", "gp_hedge"]))
        kw["n_restarts_optimizer"] = 2
        kw["noise"] = [1e-10, "gaussian"][rs.randint(2)]
    return {"what": "minimize", "func": func, "space": spec, "kw": kw,
            "ops": int(rs.randint(1000))}


def sig(w):
    if w["what"] == "minimize":
        return [w["func"], w["kw"].get("acq_func"),
                w["kw"].get("initial_point_generator")]
    c = w["cfg"]
    return [c["est"], c["acq"], c["acq_opt"], str(c["gen"])]


def run_twin(rs, mon):
    names = ["rf", "et", "gbrt", "gp", "dummy"]
    if rs.rand() < 0.12:
        names = ["GP", "RF", "ET", "GBRT"]
    w = history(rs, names)
    a = poisoned(1, lambda: trace(w), mon)
    b = poisoned(2, lambda: trace(w), mon)
    mon.check(agree(a, b, w), "twin", lambda: "%s; %s" % (first_difference(a, b), w))
    if w["cfg"]["est"] in gen.FAST + ["dummy"]:
        c = trace(dict(w, rs_object=True))
        mon.check(agree(a, c, w), "random-state-object",
                  lambda: "%s; %s" % (first_difference(a, c), w))
    v = dict(w, cfg=dict(w["cfg"], rs=w["cfg"]["rs"] + 1))
    if w["cfg"]["gen"] == "random" and w["cfg"]["n_init"] > 1 and \
            any(d["k"] == "real" for d in w["cfg"]["space"]):
        mon.check(trace(v) != a, "twin", lambda: "the seed has no effect %s"
                  % w)
    mon.nontrivial(["twin"] + sig(w))


def run_minimize(rs, mon):
    w = minimize(rs)
    a = poisoned(3, lambda: trace(w), mon)
    b = poisoned(4, lambda: trace(w), mon)
    mon.check(agree(a, b, w), "minimizers",
              lambda: "%s; %s" % (first_difference(a, b), w))
    mon.nontrivial(["minimize"] + sig(w))


def run_workers(rs, mon):
    if rs.rand() < 0.5:
        w = history(rs, ["rf", "et", "gbrt", "gp"], steps=4)
        more = dict(w, cfg=dict(w["cfg"], jobs=2))
    else:
        w = minimize(rs, ("forest", "gbrt", "gp"))
        more = dict(w, jobs=2)
    a = trace(w)
    b = trace(more)
    # threads add up the trees of a forest in any order
    mon.check(close(a, b) or agree(a, b, w), "other-workers",
              lambda: "%s; %s" % (first_difference(a, b), w))
    mon.nontrivial(["workers"] + sig(w))


def run_process(rs, mon):
    ws = [history(rs, ["rf", "et", "gbrt", "gp", "GP"]) for _ in range(5)] + \
        [minimize(rs) for _ in range(3)]
    env = dict(os.environ, PYTHONHASHSEED=str(int(rs.randint(1, 10000))),
               VK_GLOBAL_SEED=str(int(rs.randint(1000))))
    p = subprocess.run([sys.executable, "-m", "vk.checks.c12"],
                       input=json.dumps(ws), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=core.VERIF, env=env,
                       universal_newlines=True)
    if p.returncode:
        raise RuntimeError("child: " + p.stderr[-2000:])
    out = json.loads(p.stdout.splitlines()[-1])
    for w, b in zip(ws, out):
        a = trace(w)
        mon.check(agree(a, b, w), "other-process",
                  lambda: "%s; %s" % (first_difference(a, b), w))
        mon.nontrivial(["process"] + sig(w))


def run_search(rs, mon):
    from sklearn.datasets import make_regression
    from sklearn.linear_model import Ridge
    from skopt import BayesSearchCV
    from skopt.space import Categorical, Integer, Real
    seed = gen.seed(rs)
    X, y = make_regression(40, 4, random_state=0, noise=3.0)
    n_points = int(rs.randint(1, 3))
    est = str(rs.choice(["GP", "RF", "ET"]))

    def once(jobs):
        s = BayesSearchCV(Ridge(), {
            "alpha": Real(1e-4, 1e3, prior="log-uniform"),
            "fit_intercept": Categorical([True, False])},
            n_iter=5, cv=3, n_points=n_points, n_jobs=jobs,
            optimizer_kwargs={"base_estimator": est, "n_initial_points": 2},
            random_state=seed)
        s.fit(X, y)
        return json.loads(json.dumps(
            [[gen.plain(a), gen.plain(i), float(v)] for a, i, v in zip(
                s.cv_results_["param_alpha"],
                s.cv_results_["param_fit_intercept"],
                s.cv_results_["mean_test_score"])] +
            [gen.plain([s.best_params_[k] for k in sorted(s.best_params_)])]))
    a = poisoned(5, lambda: once(1), mon)
    b = poisoned(6, lambda: once(1 if rs.rand() < 0.6 else 2), mon)
    mon.check(alike(a, b, 1e-5 if est == "GP" else 1e-11), "search",
              lambda: first_difference(a, b))
    mon.nontrivial(["search", est, n_points])


def run_helpers(rs, mon):
    """expected minima, dummy models and samplers with a seed."""
    from skopt import dummy_minimize, expected_minimum, forest_minimize
    from skopt.utils import expected_minimum_random_sampling
    spec = gen.space_spec(rs, max_dims=3,
                          kinds=("real",) if rs.rand() < 0.5 else
                          ("real", "int", "cat"))
    f = gen.objective(spec, 1)
    seed = gen.seed(rs)
    from skopt import Optimizer
    name = str(rs.choice(["gp", "rf"]))
    opt = Optimizer(gen.build_dims(spec), gen.make_surrogate(name),
                    n_initial_points=4, random_state=1,
                    acq_optimizer="sampling",
                    acq_optimizer_kwargs={"n_points": 40})
    for _ in range(6):
        x = opt.ask()
        opt.tell(x, f(x))
    res = opt.get_result()

    def once():
        a = expected_minimum_random_sampling(res, n_random_starts=200,
                                             random_state=seed)
        out = [gen.plain(a[0]), float(a[1])]
        if all(d["k"] == "real" for d in spec):
            b = expected_minimum(res, n_random_starts=4, random_state=seed)
            out += [gen.plain(list(b[0])), float(b[1])]
        out += [gen.plain(res.space.rvs(3, random_state=seed))]
        return json.loads(json.dumps(out))
    a = poisoned(7, once, mon)
    b = poisoned(8, once, mon)
    mon.check(alike(a, b, 1e-5 if name == "gp" else 1e-9), "helpers",
              lambda: first_difference(a, b))
    # the state of the optimizer is not consumed by looking at results
    mon.nontrivial(["helpers", [d["k"] for d in spec]])


def child():
    sys.path.insert(0, core.REPO)
    import warnings
    warnings.simplefilter("ignore")
    np.random.seed(int(os.environ["VK_GLOBAL_SEED"]))
    print(json.dumps([trace(w) for w in json.load(sys.stdin)]))


if __name__ == "__main__":
    child()
