"""C09 a rejected observation leaves the optimizer untouched."""
import copy

import numpy as np
from vk import gen, opt as vo

RULE = ("a case is a pair of identically configured optimizers given the same "
        "random history; one of them also gets bad observations, each of "
        "which must raise; both are compared after each bad call and until "
        "the end; non-trivial: distinct (surrogate, phase, kind of bad call)")
REQUIRED = ["refused", "history-kept", "suggestion-kept", "later-suggestion",
            "later-result", "batch-kept"]
CONFIRM = ("suggestion-kept", "later-suggestion", "batch-kept",
           "later-result")


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": "twin"} for _ in range(450 * k)]


def bad_value(rs, d):
    if d["k"] == "cat":
        return ["no such category", 12345, None, 0.123][rs.randint(3)] \
            if None not in gen.cats_of(d) else "no such category"
    w = d["high"] - d["low"]
    v = [d["low"] - w, d["high"] + w, d["high"] + max(1, w) * 1e3,
         float("nan"), float("inf"), -float("inf")][rs.randint(6)]
    if d["k"] == "int" and np.isfinite(v):
        v = int(v)
    return v


def bad_point(rs, spec):
    x = gen.rand_point(rs, spec)
    if rs.rand() < 0.25:
        if rs.rand() < 0.5 and len(x) > 1:
            return x[:-1], "short point"
        return x + [x[-1]], "long point"
    i = int(rs.randint(len(x)))
    x[i] = bad_value(rs, spec[i])
    return x, "outside " + spec[i]["k"]


def bad_call(rs, spec, f, ps):
    """(x, y, kind) which tell should refuse."""
    def P():
        return gen.rand_point(rs, spec)

    def Y(n):
        return [f(P()) for _ in range(n)]
    u = rs.randint(12)
    if u <= 2:
        x, kind = bad_point(rs, spec)
        return x, f(P()), kind
    if u <= 4:
        n = int(rs.randint(1, 5))
        X = [P() for _ in range(n)]
        i = int(rs.randint(n))
        X[i], kind = bad_point(rs, spec)
        return X, Y(n), "batch with %s" % kind
    if u == 5:
        n = int(rs.randint(1, 5))
        return [P() for _ in range(n)], Y(n + 1), "more values than points"
    if u == 6:
        n = int(rs.randint(2, 5))
        return [P() for _ in range(n)], Y(n - 1), "fewer values than points"
    if u == 7:
        n = int(rs.randint(1, 4))
        vals = Y(n)
        vals[rs.randint(n)] = [None, "a", [1.0, 2.0, 3.0]][rs.randint(3)]
        return [P() for _ in range(n)], vals, "batch with a bad value"
    if u == 8:
        return [P() for _ in range(rs.randint(1, 4))], 1.0, \
            "one value for a batch"
    if ps:
        y = [(0.1,), (0.1, 1.0, 2.0), 0.1, ("a", 1.0), (0.1, "b"),
             (0.1, None), (0.1, -1.0), (0.1, 0.0), None,
             (None, 0.5)][rs.randint(10)]
        if rs.rand() < 0.4:
            n = int(rs.randint(1, 4))
            vals = Y(n)
            vals[-1] = y
            return [P() for _ in range(n)], vals, "timed batch %r" % (y,)
        return P(), y, "timed %r" % (y,)
    y = [None, "0.3", [0.1, 0.2], (0.5,), [], {}, np.array([1.0, 2.0]),
         np.array([0.5])][rs.randint(8)]
    return P(), y, "value %r" % (y,)


def history(opt, ps):
    if not opt.Xi:
        return None
    r = opt.get_result()
    return (gen.plain(r.x_iters), [float(v) for v in r.func_vals],
            float(r.fun), gen.plain(r.x), len(r.models),
            [float(v) for v in r.log_time] if ps else None)


def can_ask(opt, cfg, n):
    return n < cfg["n_init"] or cfg["est"] == "dummy" or bool(opt.models)


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    cfg = vo.config(rs, ["rf", "et", "dummy", "dummy", "gp"], n_points=40,
                    max_init=5, queue=True, max_dims=3)
    if cfg["est"] == "dummy":
        cfg["acq"] = "EI"
    ps = vo.is_ps(cfg)
    steps = vo.steps(rs, cfg, 3, 9, 0.03)
    a, b = vo.build(cfg), vo.build(cfg)     # b never sees the bad calls
    spec = vo.declared(cfg, a)
    f = vo.Values(rs, cfg, "smooth")
    told = 0
    for step in range(steps):
        for _ in range(int(rs.randint(0, 3))):
            x, y, kind = bad_call(rs, spec, f, ps)
            before = history(a, ps)
            cached = None
            if rs.rand() < 0.3 and can_ask(a, cfg, told):
                n = int(rs.randint(1, 3))
                cached = copy.deepcopy(a.ask(n)), a, n
                b.ask(n)
            try:
                a.tell(copy.deepcopy(x), copy.deepcopy(y),
                       fit=bool(rs.rand() < 0.8))
                raised = False
            except Exception as e:
                raised = True
                mon.see("errors", "%s: %s" % (type(e).__name__, kind))
            mon.check(raised, "refused", lambda: "accepted %s: tell(%r, %r); "
                      "%s" % (kind, x, y, cfg))
            if not raised:
                return
            after = history(a, ps)
            mon.check(before == after and (before is not None or not a.Xi),
                      "history-kept", lambda: "%s: %s -> %s" % (kind, before,
                                                                after))
            if cached is not None:
                again = a.ask(cached[2])
                mon.check(gen.same_points(cached[0], again), "batch-kept",
                          lambda: "%s: batch %r -> %r" % (kind, cached[0],
                                                          again))
            phase = "model" if a.models else "initial"
            mon.nontrivial([cfg["est"], ps, phase, kind])
            mon.count("bad calls")
        if can_ask(b, cfg, told):
            x, x2 = a.ask(), b.ask()
            ok = gen.same_point(x, x2) or (
                cfg["est"] == "gp" and gen.near_value(list(x), list(x2)))
            mon.check(ok, "suggestion-kept" if step == 0
                      else "later-suggestion",
                      lambda: "%r, twin %r; %s" % (x, x2, cfg))
            if not ok:
                return
        else:
            x = gen.rand_point(rs, spec)
        if rs.rand() < 0.3:
            X = [x] + [gen.rand_point(rs, spec)
                       for _ in range(rs.randint(1, 3))]
            Y = [f(p) for p in X]
            a.tell(copy.deepcopy(X), copy.deepcopy(Y))
            b.tell(X, Y)
            told += len(X)
        else:
            y = f(x)
            fit = bool(rs.rand() < 0.85)
            a.tell(list(x), y, fit=fit)
            b.tell(list(x), y, fit=fit)
            told += 1
        mon.check(history(a, ps) == history(b, ps), "later-result",
                  lambda: "%s, twin %s" % (history(a, ps), history(b, ps)))
