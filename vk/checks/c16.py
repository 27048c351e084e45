"""C16 stopping and timing callbacks decide by their documented rule."""
import numpy as np
from vk import gen
from vk.clock import virtual

RULE = ("a case is a stopping or timing callback with generated parameters "
        "and a generated history (ties, plateaus, values exactly at the "
        "threshold) fed iteration by iteration on a virtual clock, directly "
        "or through a minimize function; non-trivial: distinct (callback, "
        "parameters, decisions)")
REQUIRED = ["delta-x", "delta-y", "hollow", "deadline", "threshold", "timer",
            "deadline-times", "through-minimizer"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    return [{"kind": t} for t in
            ["delta-x"] * 300 + ["delta-y"] * 300 + ["hollow"] * 300 +
            ["deadline"] * 300 + ["threshold"] * 200 + ["timer"] * 100 +
            ["minimizer"] * 120 for _ in range(k)]


def distance(spec, a, b):
    """Sum over dimensions: |difference|, or 1 for different categories."""
    s = 0.0
    for d, u, v in zip(spec, a, b):
        s += (0.0 if gen.same_cat(u, v) else 1.0) if d["k"] == "cat" else \
            abs(float(u) - float(v))
    return s


def rule(kind, p, X, Y, T, spec):
    """True or False; None when the documentation leaves it open."""
    n = len(Y)
    if kind == "delta-x":
        return n >= 2 and distance(spec, X[-2], X[-1]) < p["delta"]
    if kind == "delta-y":
        if n < p["n_best"]:
            return False
        s = sorted(Y)[:p["n_best"]]
        return s[-1] - s[0] < p["delta"]
    if kind == "hollow":
        k, t = p["n_iterations"], abs(p["threshold"])
        if n <= k:
            return False
        gain = min(Y[:n - k]) - min(Y)
        if gain == t and t > 0:
            return None
        return gain <= t
    if kind == "threshold":
        if min(Y) == p["threshold"]:
            return None
        return min(Y) < p["threshold"]
    if kind == "deadline":
        left = p["total_time"] - sum(T)
        if left == max(T):
            return None
        return left < max(T)
    raise ValueError(kind)


def params(rs, kind):
    if kind == "delta-x":
        return {"delta": float(rs.choice([0.25, 0.5, 1.0, 2.0, 0.125]))}
    if kind == "delta-y":
        return {"delta": float(rs.choice([0.25, 0.5, 1.0, 2.0])),
                "n_best": int(rs.randint(1, 7))}
    if kind == "hollow":
        return {"n_iterations": int(rs.randint(1, 6)),
                "threshold": float(rs.choice([0.0, 0.0, 0.25, 1.0, -0.5]))}
    if kind == "threshold":
        return {"threshold": float(rs.choice([-1.0, 0.0, 0.3, 0.75, 2.0]))}
    return {"total_time": float(rs.choice([4.0, 8.0, 16.0, 33.5]))}


def build(kind, p):
    from skopt import callbacks as c
    return {"delta-x": c.DeltaXStopper, "delta-y": c.DeltaYStopper,
            "hollow": c.HollowIterationsStopper,
            "deadline": c.DeadlineStopper,
            "threshold": c.ThresholdStopper}[kind](**p)


def values(rs, n):
    kind = rs.randint(4)
    if kind == 0:
        return [float(v) for v in rs.randint(-8, 9, n) / 4.0]
    if kind == 1:
        return [float(v) for v in np.cumsum(-rs.rand(n))]
    if kind == 2:       # plateaus, then a drop
        return [float(v) for v in np.repeat(rs.randint(-4, 5, n), 3)[:n] / 2.]
    return [float(v) for v in rs.randn(n)]


def points(rs, n):
    spec = [{"k": "real", "low": -4.0, "high": 4.0, "prior": "uniform",
             "base": 10, "transform": None, "dtype": "float"},
            {"k": "int", "low": -3, "high": 9, "prior": "uniform",
             "base": 10, "transform": None, "dtype": "int64"},
            {"k": "cat", "cats": ["a", "b", "c"], "prior": None,
             "transform": None, "tuples": False}]
    rs.shuffle(spec)
    spec = spec[:rs.randint(1, 4)]
    X = [[float(rs.randint(-16, 17) / 4.0) if d["k"] == "real" else
          gen.rand_value(rs, d) for d in spec]]
    for _ in range(n - 1):
        x = list(X[-1])
        if rs.rand() < 0.8:
            i = rs.randint(len(spec))
            d = spec[i]
            if d["k"] == "real":
                x[i] = float(np.clip(x[i] + rs.choice([-1, 1]) * rs.choice(
                    [0.125, 0.25, 0.5, 1.0, 2.0]), -4, 4))
            else:
                x[i] = gen.rand_value(rs, d)
        X.append(x)
    return spec, X


def run(case, mon):
    from skopt import callbacks
    from skopt.utils import create_result
    rs = np.random.RandomState(case["seed"])
    kind = case["kind"]
    if kind == "minimizer":
        return run_minimizer(rs, mon)
    n = int(rs.randint(1, 16))
    spec, X = points(rs, n)
    Y = values(rs, n)
    if kind == "delta-x":
        Y = values(rs, n)
    space = gen.build_space(spec)
    times = [float(v) for v in rs.choice([0.0, 0.25, 0.5, 1.0, 2.0, 3.5], n)]
    with virtual(callbacks) as clock:
        if kind == "timer":
            c = callbacks.TimerCallback()
            p = None
        else:
            p = params(rs, kind)
            c = build(kind, p)
        T, decisions = [], []
        for i in range(n):
            clock.advance(times[i])
            T.append(times[i])
            res = create_result(X[:i + 1], Y[:i + 1], space=space)
            got = c(res)
            if kind in ("timer", "deadline"):
                have = [float(t) for t in c.iter_time]
                mon.check(len(have) == i + 1 and np.allclose(
                    have, T, rtol=0, atol=1e-9),
                    "timer" if kind == "timer" else "deadline-times",
                    lambda: "recorded %r, iterations took %r" % (have, T))
            if kind == "timer":
                mon.check(not got, "timer", "asks to stop")
                continue
            want = rule(kind, p, X[:i + 1], Y[:i + 1], T, spec)
            decisions.append(bool(got))
            if want is None:
                mon.count("left open by the documentation")
                continue
            mon.check(bool(got) == want, kind,
                      lambda: "%s %s: %r after %d iterations, should be %r; "
                      "X=%r Y=%r T=%r" % (kind, p, got, i + 1, want,
                                          X[:i + 1], Y[:i + 1], T))
    mon.count("stop decisions", sum(decisions))
    mon.nontrivial([kind, p, decisions, n])


def run_minimizer(rs, mon):
    """The run ends at the first iteration at which the rule holds."""
    import skopt
    from skopt import callbacks
    kind = str(rs.choice(["delta-x", "delta-y", "hollow", "deadline",
                          "threshold"]))
    spec, _ = points(rs, 1)
    n = 14
    Y = values(rs, n)
    times = [float(v) for v in rs.choice([0.25, 0.5, 1.0, 2.0], n)]
    X, T = [], []
    p = params(rs, kind)
    from skopt.optimizer import base
    with virtual(callbacks, base) as clock:
        c = build(kind, p)
        timer = callbacks.TimerCallback()

        def objective(x):
            clock.advance(times[len(X)])
            T.append(times[len(X)])
            X.append(list(x))
            return Y[len(X) - 1]
        skopt.dummy_minimize(objective, gen.build_dims(spec), n_calls=n,
                             random_state=gen.seed(rs),
                             callback=[timer, c])
    for i in range(1, len(X) + 1):
        want = rule(kind, p, X[:i], Y[:i], T[:i], spec)
        if want is None:
            return
        if i < len(X):
            mon.check(not want, "through-minimizer", lambda: "%s %s went on "
                      "after %d: %r %r %r" % (kind, p, i, X[:i], Y[:i],
                                              T[:i]))
        elif i < n:
            mon.check(want, "through-minimizer", lambda: "%s %s stopped "
                      "after %d: %r %r %r" % (kind, p, i, X[:i], Y[:i],
                                              T[:i]))
    mon.check(np.allclose(timer.iter_time, T, rtol=0, atol=1e-9), "timer",
              lambda: "%r, took %r" % (timer.iter_time, T))
    mon.nontrivial(["min", kind, p, len(X)])
