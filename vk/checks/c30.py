"""C30 the shipped benchmark problems are the published functions."""
import math

import numpy as np

RULE = ("a case is one benchmark function evaluated at generated points and "
        "at its documented minimisers, in several container types, twice; "
        "values are recomputed from the published formulas in plain Python; "
        "non-trivial: distinct (function, kind of point)")
REQUIRED = ["value", "minimum", "minimiser", "arguments-kept", "parameters"]

HA = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14],
      [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
HP = [[1312, 1696, 5569, 124, 8283, 5886],
      [2329, 4135, 8307, 3736, 1004, 9991],
      [2348, 1451, 3522, 2883, 3047, 6650],
      [4047, 8828, 8732, 5743, 1091, 381]]
HC = [1.0, 1.2, 3.0, 3.2]


def bench2(x):
    return x[0] ** 2 if x[0] < 0 else (x[0] - 5) ** 2 - 5


def branin(x, a=1, b=5.1 / (4 * math.pi ** 2), c=5 / math.pi, r=6, s=10,
           t=1 / (8 * math.pi)):
    return a * (x[1] - b * x[0] * x[0] + c * x[0] - r) ** 2 + \
        s * (1 - t) * math.cos(x[0]) + s


def hart6(x):
    return -sum(HC[i] * math.exp(-sum(
        HA[i][j] * (x[j] - 1e-4 * HP[i][j]) ** 2 for j in range(6)))
        for i in range(4))


# name: (formula, domain or None for strings, documented minimisers, minimum)
FUNCS = {
    "bench1": (lambda x: x[0] ** 2, [(-20, 20)], [[0.0]], 0.0, 1e-12),
    "bench1_with_time": (lambda x: x[0] ** 2, [(-20, 20)], [[0.0]], 0.0,
                         1e-12),
    "bench2": (bench2, [(-20, 20)], [[5.0]], -5.0, 1e-12),
    "bench3": (lambda x: math.sin(5 * x[0]) * (1 - math.tanh(x[0] ** 2)),
               [(-3, 3)], [[-0.3]], -0.9, 0.02),
    "bench4": (lambda x: float(x[0]) ** 2, [None], [["0"]], 0.0, 1e-12),
    "bench5": (lambda x: float(x[0]) ** 2 + x[1] ** 2, [None, (-20, 20)],
               [["0", 0.0]], 0.0, 1e-12),
    "branin": (branin, [(-5, 10), (0, 15)],
               [[-math.pi, 12.275], [math.pi, 2.275], [9.42478, 2.475]],
               0.397887, 1e-5),
    "hart6": (hart6, [(0, 1)] * 6,
              [[0.20169, 0.15001, 0.476874, 0.275332, 0.311652, 0.6573]],
              -3.32237, 1e-5),
}


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    return [{"kind": "points", "name": n} for n in sorted(FUNCS)
            for _ in range(40 * k)]


def draw(rs, domain):
    out = []
    for d in domain:
        if d is None:
            out.append(["0", "1.5", "-2", "1e-3", "7", "0.25"][rs.randint(6)])
        else:
            out.append([float(rs.uniform(*d)), float(d[0]), float(d[1]), 0.0]
                       [rs.choice(4, p=[0.85, 0.05, 0.05, 0.05])])
    return out


def run(case, mon):
    import skopt.benchmarks as B
    rs = np.random.RandomState(case["seed"])
    name = case["name"]
    func = getattr(B, name)
    formula, domain, best, least, tol = FUNCS[name]

    def value(x):
        got = func(x)
        if name == "bench1_with_time":
            mon.check(len(got) == 2 and got[1] == 2.22, "value",
                      lambda: "%r" % (got,))
            got = got[0]
        return float(got)
    for _ in range(30):
        x = draw(rs, domain)
        want = formula(x)
        for form in (list, tuple, np.array):
            if form is np.array and None in domain:
                continue
            p = form(x)
            got = value(p)
            mon.check(abs(got - want) <= 1e-9 * max(1.0, abs(want)), "value",
                      lambda: "%s(%r) = %r, formula %r" % (name, p, got, want))
            mon.check(list(p) == x, "arguments-kept", lambda: repr(p))
        mon.check(want >= least - tol, "minimum",
                  lambda: "%s(%r) = %r < %r" % (name, x, want, least))
        mon.check(value(x) >= least - tol, "minimum",
                  lambda: "%s(%r) below %r" % (name, x, least))
    for x in best:
        mon.check(abs(value(x) - least) <= tol, "minimiser",
                  lambda: "%s(%r) = %r, documented %r" % (
                      name, x, value(x), least))
        if name != "bench3" and None not in domain:
            # a local minimum within the accuracy of the documented point
            for _ in range(5):
                y = [v + 1e-2 * s for v, s in zip(x, rs.randn(len(x)))]
                y = [min(max(v, lo), hi) for v, (lo, hi) in zip(y, domain)]
                mon.check(value(y) >= least - tol, "minimiser",
                          lambda: "%s(%r) = %r" % (name, y, value(y)))
    if name == "branin":
        p = dict(zip("abcrst", [float(v) for v in rs.rand(6) + 0.5]))
        x = draw(rs, domain)
        mon.check(abs(func(x, **p) - branin(x, **p)) <= 1e-9 * max(
            1.0, abs(branin(x, **p))), "parameters", lambda: "%s %s" % (x, p))
    if name == "hart6":
        x, w = draw(rs, domain), rs.rand(4)
        want = -sum(w[i] * math.exp(-sum(
            HA[i][j] * (x[j] - 1e-4 * HP[i][j]) ** 2 for j in range(6)))
            for i in range(4))
        mon.check(abs(func(x, alpha=w) - want) <= 1e-9, "parameters",
                  lambda: "%s %s" % (x, w))
    mon.nontrivial([name, case["seed"] % 50])
