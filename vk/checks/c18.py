"""C18 saving and loading a result loses nothing."""
import io
import os
import pathlib
import subprocess
import sys
import threading

import numpy as np
from vk import core, gen, opt as vo
from vk.freeze import difference, freeze

RULE = ("a case is one result (of a minimizer, an optimizer or a search) "
        "dumped in several formats and loaded again; points, values, space, "
        "random stream, specs and model predictions are compared, the result "
        "in memory is snapshotted around the dump; non-trivial: distinct "
        "(source, surrogate, format, objective stored)")
REQUIRED = ["points", "values", "best", "space", "random-state", "specs",
            "models", "predictions", "times", "in-memory", "objective-stored",
            "objective-dropped", "other-process", "resumed", "extra-fields"]

FORMATS = ["plain", ".pkl", ".gz", ".z", ".bz2", ".xz", ".lzma", "level",
           "levels", "tuple", "true", "path", "path.gz", "file", "bytes",
           "protocol", "dotted"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [{"kind": "process"}] * 16
    out += [{"kind": t} for t in ["optimizer"] * 150 + ["minimize"] * 130 +
            ["search"] * 12]
    return [dict(c) for c in out for _ in range(k)]


class Objective(object):
    def __init__(self, spec, seed):
        self.spec, self.seed = spec, seed

    def __call__(self, x):
        return gen.objective(self.spec, self.seed)(x)


class LockedObjective(Objective):
    """Neither picklable nor copyable."""

    def __init__(self, spec, seed):
        Objective.__init__(self, spec, seed)
        self.lock = threading.Lock()


def keep_going(res):
    return False


def draws(random_state):
    """What a random state would produce, without advancing it."""
    if not isinstance(random_state, np.random.RandomState):
        return freeze(random_state)
    r = np.random.RandomState(0)
    r.set_state(random_state.get_state())
    return repr((r.randint(10 ** 9, size=4), r.randn(3)))


def picture(res):
    """Everything observable of a result, except its models."""
    d = {"fun": freeze(res.fun), "x": freeze(res.x),
         "func_vals": freeze(res.func_vals), "x_iters": freeze(res.x_iters),
         "space": freeze(res.space), "random_state": draws(res.random_state),
         "keys": sorted(res), "n_models": len(res.models or [])}
    for k in sorted(res):
        if k not in ("models", "specs", "space", "random_state") and \
                k not in d:
            d[k] = freeze(res[k])
    specs = res.specs
    d["specs"] = sorted(specs) if isinstance(specs, dict) else specs
    if isinstance(specs, dict):
        d["function"] = specs.get("function")
        args = specs["args"]
        d["args"] = sorted(args)
        d["arg values"] = [(k, spec_value(args[k])) for k in sorted(args)
                           if k != "func"]
    return d


def spec_value(v):
    from skopt.space import Dimension, Space
    if isinstance(v, np.random.RandomState):
        return draws(v)
    if isinstance(v, (Space, Dimension, list, tuple, dict, np.ndarray, str,
                      int, float, type(None), bool)) or callable(v) or \
            hasattr(v, "get_params"):
        return strip_ids(freeze(v))
    return type(v).__name__


def strip_ids(f):
    """Snapshots without object identities (loading makes new objects)."""
    if isinstance(f, tuple) and f and f[0] == "object":
        return f[:2]
    if isinstance(f, (list, tuple)):
        return [strip_ids(v) for v in f]
    return f


def predictions(res, queries):
    out = []
    for m in res.models or []:
        p = [np.asarray(m.predict(queries))]
        try:
            p.append(np.asarray(m.predict(queries, return_std=True)[1]))
        except TypeError:
            pass
        out.append(p)
    return out


def same_predictions(a, b):
    return len(a) == len(b) and all(
        len(p) == len(q) and all(np.allclose(u, v, rtol=1e-7, atol=1e-10)
                                 for u, v in zip(p, q))
        for p, q in zip(a, b))


def write(rs, fmt, res, base, store):
    """Dump in one format; returns what to load from."""
    import skopt
    kw = {}
    if not store:
        kw["store_objective"] = False
    elif rs.rand() < 0.3:
        kw["store_objective"] = True
    target = base
    if fmt.startswith("."):
        target = base + fmt
    elif fmt == "dotted":
        target = base + ".v1.2.pkl.gz"
    elif fmt == "level":
        kw["compress"] = int(rs.randint(0, 10))
    elif fmt == "levels":
        target, kw["compress"] = base + ".gz", int(rs.randint(1, 10))
    elif fmt == "tuple":
        kw["compress"] = (str(rs.choice(["zlib", "gzip", "bz2", "xz",
                                         "lzma"])), int(rs.randint(1, 9)))
    elif fmt == "true":
        kw["compress"] = True
    elif fmt == "path":
        target = pathlib.Path(base)
    elif fmt == "path.gz":
        target = pathlib.Path(base + ".gz")
    elif fmt == "protocol":
        kw["protocol"] = int(rs.choice([2, 4, 5]))
    elif fmt == "file":
        with open(base, "wb") as f:
            skopt.dump(res, f, **kw)
        return open(base, "rb")
    elif fmt == "bytes":
        buf = io.BytesIO()
        skopt.dump(res, buf, **kw)
        buf.seek(0)
        return buf
    skopt.dump(res, target, **kw)
    return target


def compare(mon, before, res_models, got, queries, had, store, what):
    after = picture(got)
    if store or not had:
        want_args = before.get("args")
        mon.check(after.get("args") == want_args, "objective-stored",
                  lambda: "%s: specs args %s became %s" % (
                      what, want_args, after.get("args")))
    else:
        mon.check(after["args"] == [a for a in before["args"]
                                    if a != "func"], "objective-dropped",
                  lambda: "%s: specs args %s became %s" % (
                      what, before["args"], after["args"]))

    def same(field, key):
        mon.check(before.get(field) == after.get(field), key, lambda:
                  "%s %s: %s" % (what, field, difference(
                      before.get(field), after.get(field))))
    same("x_iters", "points")
    same("func_vals", "values")
    same("x", "best")
    same("fun", "best")
    same("space", "space")
    same("random_state", "random-state")
    same("keys", "extra-fields")
    for k in before:
        if k not in after:
            mon.violate("extra-fields", "%s lost %s" % (what, k))
    for k in set(before) & set(after) - {
            "args", "arg values", "x_iters", "func_vals", "x", "fun",
            "space", "random_state", "keys", "log_time", "n_models"}:
        same(k, "extra-fields")
    same("arg values", "specs")
    if "log_time" in before:
        same("log_time", "times")
    same("n_models", "models")
    mon.check(same_predictions(res_models, predictions(got, queries)),
              "predictions", lambda: "%s: the loaded models predict %s, "
              "before %s" % (what, predictions(got, queries), res_models))


def round_trips(rs, mon, res, queries, formats, sig):
    import skopt
    had = isinstance(res.specs, dict) and "func" in res.specs["args"]
    func = res.specs["args"]["func"] if had else None
    locked = isinstance(func, LockedObjective)
    models = predictions(res, queries)
    before = picture(res)
    ids = [id(m) for m in res.models or []]
    for i, fmt in enumerate(formats):
        store = not locked and bool(rs.rand() < 0.6)
        base = os.path.join(os.environ["VK_SCRATCH"], "c18-%d-%d" % (
            os.getpid(), i))
        source = write(rs, fmt, res, base, store)
        what = "%s %s store_objective=%s" % (sig, fmt, store)
        now = picture(res)
        mon.check(now == before and [id(m) for m in res.models or []] == ids
                  and (not had or res.specs["args"]["func"] is func),
                  "in-memory", lambda: "%s changed the result: %s" % (
                      what, difference(sorted(before.items(), key=str),
                                       sorted(now.items(), key=str))))
        got = skopt.load(source)
        compare(mon, before, models, got, queries, had, store, what)
        if had and store:
            x = res.x_iters[0]
            mon.check(got.specs["args"]["func"](x) == func(x),
                      "objective-stored", "another objective")
        if i == 0:
            # twice over
            keep = bool(rs.rand() < 0.5)
            first = picture(got)
            again = io.BytesIO()
            skopt.dump(got, again, store_objective=keep)
            again.seek(0)
            mon.check(picture(got) == first, "in-memory",
                      lambda: "%s: dump with store_objective=%s changed the "
                      "loaded result: %s" % (what, keep, difference(
                          sorted(first.items(), key=str),
                          sorted(picture(got).items(), key=str))))
            second = skopt.load(again)
            compare(mon, first, models, second, queries, had and store, keep,
                    what + ", again")
        mon.nontrivial(sig + [fmt, store])
        mon.count("files")
        if hasattr(source, "close"):
            source.close()
        elif os.path.exists(str(source)):
            os.remove(str(source))
    return had


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"optimizer": run_optimizer, "minimize": run_minimize,
     "search": run_search, "process": run_process}[case["kind"]](rs, mon)


def pick_formats(rs, n=3):
    return [str(f) for f in rs.choice(FORMATS, n, replace=False)]


def optimizer_result(rs):
    cfg = vo.config(rs, ["rf", "et", "gbrt", "gp", "dummy", "gp"],
                    n_points=40, max_dims=3, tuples=rs.rand() < 0.15,
                    names=rs.rand() < 0.4)
    if cfg["est"] == "dummy":
        cfg["acq"] = "EI"
    opt = vo.build(cfg)
    f = vo.Values(np.random.RandomState(2), cfg, "smooth")
    for _ in range(rs.randint(2, 9)):
        x = opt.ask()
        opt.tell(x, f(x))
    return cfg, opt, opt.get_result()


def queries_of(res, rs):
    return np.asarray(res.space.transform(res.space.rvs(
        4, random_state=int(rs.randint(1000)))))


def run_optimizer(rs, mon):
    import skopt
    cfg, opt, res = optimizer_result(rs)
    mon.check(("log_time" in res) == vo.is_ps(cfg), "times",
              lambda: "%s: fields %s" % (cfg["acq"], sorted(res)))
    q = queries_of(res, rs)
    round_trips(rs, mon, res, q, pick_formats(rs),
                ["optimizer", cfg["est"], vo.is_ps(cfg)])
    # go on from the loaded result as from the original one
    if rs.rand() < 0.4 and not vo.is_ps(cfg) and cfg["est"] in ("rf", "et"):
        buf = io.BytesIO()
        skopt.dump(res, buf)
        buf.seek(0)
        got = skopt.load(buf)
        nexts = []
        for r in (res, got):
            o = vo.build(dict(cfg, n_initial=1, gen="random"),
                         dims=r.space.dimensions)
            o.tell(r.x_iters, list(r.func_vals))
            nexts.append([gen.plain(p) for p in o.ask(2)])
        mon.check(nexts[0] == nexts[1], "resumed",
                  lambda: "continuing suggests %s, from the file %s" % (
                      nexts[0], nexts[1]))


def run_minimize(rs, mon):
    import skopt
    name = str(rs.choice(["dummy", "forest", "gbrt", "gp"]))
    spec = gen.space_spec(rs, max_dims=3, transforms=False,
                          names=rs.rand() < 0.3)
    kw = {"n_calls": 6, "random_state": int(rs.randint(10 ** 6))}
    if name != "dummy":
        kw.update(n_initial_points=3, n_points=30, acq_func="EI",
                  base_estimator=gen.make_surrogate(
                      {"forest": "rf", "gbrt": "gbrt", "gp": "gp"}[name]))
    if name == "gp":
        kw["acq_optimizer"] = "sampling"
    if rs.rand() < 0.3:
        kw["x0"] = [gen.rand_point(rs, spec)]
    if rs.rand() < 0.3:
        kw["callback"] = [keep_going]
    if rs.rand() < 0.2:
        kw["random_state"] = np.random.RandomState(kw["random_state"])
    func = (LockedObjective if rs.rand() < 0.3 else Objective)(spec, 2)
    dims = gen.build_dims(spec)
    res = getattr(skopt, name + "_minimize")(func, dims, **kw)
    mon.check("func" in res.specs["args"] and
              res.specs["args"]["func"] is func, "specs",
              lambda: "specs of %s: %s" % (name, sorted(res.specs["args"])))
    round_trips(rs, mon, res, queries_of(res, rs), pick_formats(rs),
                [name, type(func).__name__, sorted(kw)])


def run_search(rs, mon):
    from sklearn.tree import DecisionTreeRegressor
    from skopt import BayesSearchCV
    from skopt.space import Categorical, Integer, Real
    X, y = rs.rand(20, 2), rs.rand(20)
    s = BayesSearchCV(
        DecisionTreeRegressor(random_state=0),
        {"max_depth": Integer(1, 6), "splitter": Categorical(
            ["best", "random"]), "ccp_alpha": Real(1e-4, 1.0,
                                                   prior="log-uniform")},
        optimizer_kwargs={"base_estimator": gen.make_surrogate("rf"),
                          "n_initial_points": 2},
        n_iter=4, cv=2, random_state=1)
    s.fit(X, y)
    for res in s.optimizer_results_:
        round_trips(rs, mon, res, queries_of(res, rs), pick_formats(rs),
                    ["search"])


READER = """
import sys
sys.path[:0] = [%r, %r]
import numpy as np, skopt, json
from vk.checks import c18
res = skopt.load(sys.argv[1])
q = np.load(sys.argv[2])
print("PICTURE", json.dumps([repr(sorted(c18.picture(res).items(), key=str)),
    [[v.tolist() for v in p] for p in c18.predictions(res, q)]]))
"""


def run_process(rs, mon):
    """Loaded by another process."""
    import json
    import skopt
    cfg, opt, res = optimizer_result(rs)
    q = queries_of(res, rs)
    base = os.path.join(os.environ["VK_SCRATCH"], "c18p-%d" % os.getpid())
    ext = str(rs.choice(["", ".gz", ".xz"]))
    skopt.dump(res, base + ext)
    np.save(base + ".npy", q)
    p = subprocess.run(
        [sys.executable, "-W", "ignore", "-c",
         READER % (core.REPO, core.VERIF), base + ext, base + ".npy"],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        universal_newlines=True)
    line = [s for s in p.stdout.splitlines() if s.startswith("PICTURE ")]
    if not mon.check(p.returncode == 0 and len(line) == 1, "other-process",
                     lambda: p.stderr[-1500:]):
        return
    seen, predicted = json.loads(line[0][8:])
    mine = repr(sorted(picture(res).items(), key=str))
    mon.check(seen == mine, "other-process",
              lambda: "another process reads %s, saved %s" % (
                  seen[:900], mine[:900]))
    mon.check(same_predictions(predictions(res, q), [
        [np.array(v) for v in m] for m in predicted]), "other-process",
        lambda: "another process predicts %s" % predicted)
    mon.nontrivial(["process", cfg["est"], ext])

