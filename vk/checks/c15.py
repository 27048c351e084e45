"""C15 minimizers spend exactly the budget and honour provided points."""
import numpy as np
from vk import gen, opt as vo

RULE = ("a case is one call of a minimize function with generated budget, "
        "initial points, x0/y0 form, callbacks and stopping iteration; the "
        "event log of objective and callback calls is checked against the "
        "documented schedule, impossible requests must be refused without any "
        "event; non-trivial: distinct (function, budget shape, x0/y0 form, "
        "callbacks, stop)")
REQUIRED = ["calls", "provided-first", "schedule", "callback-order",
            "callback-result", "early-stop", "returned", "refused",
            "refused-silently", "given-values-used", "specs", "report"]

FUNCS = ["base", "dummy", "forest", "gbrt", "gp"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["run"] * 420 + ["refuse"] * 260 + ["report"] * 60
            for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"run": run_ok, "refuse": run_refuse, "report": run_report}[case["kind"]](rs, mon)


def call(name, rs, objective, spec, kw, n_initial):
    import skopt
    from skopt.optimizer import base_minimize
    kw = dict(kw)
    if name != "dummy":
        kw["n_initial_points"] = n_initial
        kw["n_points"] = 30
        kw["acq_func"] = "EI"
    dims = gen.build_dims(spec)
    if name == "base":
        return base_minimize(objective, dims, gen.make_surrogate("rf"),
                             acq_optimizer="sampling", **kw)
    if name == "dummy":
        return skopt.dummy_minimize(objective, dims, **kw)
    if name == "forest":
        return skopt.forest_minimize(
            objective, dims, base_estimator=gen.make_surrogate("et"), **kw)
    if name == "gbrt":
        return skopt.gbrt_minimize(
            objective, dims, base_estimator=gen.make_surrogate("gbrt"), **kw)
    return skopt.gp_minimize(objective, dims,
                             base_estimator=gen.make_surrogate("gp"),
                             acq_optimizer="sampling", **kw)


def value_of(rs_kind, v):
    return {"float": float(v), "np": np.float64(v),
            "int": int(round(10 * v))}[rs_kind]


def run_ok(rs, mon):
    name = FUNCS[rs.randint(len(FUNCS))]
    spec = gen.space_spec(rs, max_dims=3)
    f = gen.objective(spec, int(rs.randint(1000)))
    vkind = str(rs.choice(["float", "np", "int"]))
    n_x0 = int(rs.randint(1, 4)) if rs.rand() < 0.6 else 0
    x0 = [gen.rand_point(rs, spec) for _ in range(n_x0)]
    if n_x0 and rs.rand() < 0.2:
        x0 = [tuple(x) for x in x0]
    have_y0 = bool(n_x0 and rs.rand() < 0.5)
    y0 = [value_of(vkind, rs.randn()) for _ in x0] if have_y0 else None
    n_init = int(rs.randint(0, 4))
    if not n_x0:
        n_init = max(1, n_init)
    extra = int(rs.choice([0, 0, 1, 2, 4]))
    least = n_init + (n_x0 if not have_y0 else 0)
    n_calls = least + extra
    if n_calls == 0:
        n_calls = 1
    if name == "dummy":
        n_calls = max(n_calls, n_x0 + 1)
    kw = {"n_calls": n_calls, "random_state": gen.seed(rs)}
    if rs.rand() < 0.3:
        kw["initial_point_generator"] = str(rs.choice(gen.DESIGNS[:5]))
        if name != "dummy" and n_init == 0:
            del kw["initial_point_generator"]
    single = n_x0 == 1 and rs.rand() < 0.5
    if n_x0:
        kw["x0"] = x0[0] if single else list(x0)
        if single and isinstance(kw["x0"], tuple):
            kw["x0"] = list(kw["x0"])
    if have_y0:
        kw["y0"] = y0[0] if single and rs.rand() < 0.5 else \
            [list, tuple, np.array][rs.randint(2)](y0)
    log = []
    n_cb = int(rs.randint(0, 4))
    stop_at = int(rs.randint(1, n_calls + 2)) if n_cb and rs.rand() < 0.5 \
        else None
    stopper = int(rs.randint(n_cb)) if n_cb else None
    yes = [True, np.bool_(True), 1][rs.randint(3)]
    no = [None, False, np.bool_(False), 0][rs.randint(4)]

    def make(i):
        seen = [0]

        def callback(res):
            seen[0] += 1
            log.append(("cb", i, [gen.plain(x) for x in res.x_iters],
                        [float(v) for v in res.func_vals], float(res.fun),
                        gen.plain(res.x)))
            if stop_at is not None and i == stopper and seen[0] >= stop_at:
                return yes
            return no
        return callback
    callbacks = [make(i) for i in range(n_cb)]
    if n_cb:
        kw["callback"] = callbacks[0] if n_cb == 1 and rs.rand() < 0.5 else \
            callbacks

    def objective(x):
        v = value_of(vkind, f(x))
        log.append(("f", gen.plain(x), float(v)))
        return v
    verbose = rs.rand() < 0.1
    if verbose:
        kw["verbose"] = True
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        res = call(name, rs, objective, spec, kw, n_init)
    info = "%s n_calls=%d n_init=%d len(x0)=%d y0=%s stop_at=%s" % (
        name, n_calls, n_init, n_x0, have_y0, stop_at)

    # the documented schedule
    X, Y, i, rounds = [], [], 0, 0
    stopped = False

    def expect_f(want=None):
        nonlocal i
        ok = i < len(log) and log[i][0] == "f"
        if ok and want is not None:
            ok = gen.same_point(log[i][1], gen.plain(want))
            mon.check(ok, "provided-first", lambda: "%s: evaluated %r, "
                      "provided %r" % (info, log[i][1], want))
        mon.check(ok, "schedule", lambda: "%s: event %d of %s is no "
                  "evaluation" % (info, i, [e[:2] for e in log]))
        if ok:
            X.append(log[i][1])
            Y.append(log[i][2])
            i += 1
        return ok

    def expect_round():
        """Every callback once, in order, with the history so far."""
        nonlocal i, rounds, stopped
        rounds += 1
        for c in range(n_cb):
            ok = i < len(log) and log[i][0] == "cb" and log[i][1] == c
            mon.check(ok, "callback-order", lambda: "%s: event %d of %s "
                      "should be callback %d" % (
                          info, i, [e[:2] for e in log], c))
            if not ok:
                return False
            _, _, xi, fv, fun, x = log[i]
            mon.check(gen.same_points(xi, X) and fv == Y, "callback-result",
                      lambda: "%s: round %d got %r %r, history %r %r" % (
                          info, rounds, xi, fv, X, Y))
            mon.check(fun == min(Y) and gen.same_point(x, X[Y.index(min(Y))]),
                      "callback-result", "%s: best %r at %r" % (info, fun, x))
            i += 1
        if stop_at is not None and rounds >= stop_at:
            stopped = True
        return True

    ok = True
    budget = n_calls
    if n_x0:
        if have_y0:
            X += [gen.plain(x) for x in x0]
            Y += [float(v) for v in y0]
        else:
            for x in x0:
                ok = ok and expect_f(list(x))
            budget -= n_x0
        ok = ok and expect_round()
    while ok and budget > 0 and not stopped:
        ok = expect_f() and expect_round()
        budget -= 1
    if not ok:
        return
    calls = sum(e[0] == "f" for e in log)
    mon.check(i == len(log), "early-stop" if stopped else "calls",
              lambda: "%s: %d events after the end: %s" % (
                  info, len(log) - i, [e[:2] for e in log[i:]]))
    if not stopped:
        mon.check(calls == n_calls, "calls", lambda: "%s: %d calls" % (info,
                                                                       calls))
    else:
        mon.check(rounds == stop_at, "early-stop", info)
        mon.count("early stops")
    mon.check(gen.same_points([gen.plain(x) for x in res.x_iters], X) and
              [float(v) for v in res.func_vals] == Y, "returned",
              lambda: "%s: returned %r" % (info, res.x_iters))
    mon.check(float(res.fun) == min(Y), "returned", info)
    if have_y0:
        mon.check([float(v) for v in res.func_vals[:n_x0]] ==
                  [float(v) for v in y0], "given-values-used",
                  lambda: "%s: %r, given %r" % (info, res.func_vals, y0))
    mon.check(res.specs["args"]["n_calls"] == n_calls and
              "function" in res.specs, "specs", lambda: repr(res.specs))
    mon.count("objective calls", calls)
    mon.count("callback calls", len(log) - calls)
    mon.nontrivial([name, n_init, extra, n_x0, have_y0, single, n_cb,
                    stop_at is not None and rounds])
    mon.sample({"info": info, "events": [e[0] for e in log]})


def run_refuse(rs, mon):
    """Impossible requests: an error, and nothing was evaluated."""
    name = FUNCS[rs.randint(len(FUNCS))]
    spec = gen.space_spec(rs, max_dims=3, kinds=("real", "int", "real"))
    n_x0 = int(rs.randint(1, 4))
    x0 = [gen.rand_point(rs, spec) for _ in range(n_x0)]
    n_init = int(rs.randint(1, 4))
    kw = {"random_state": 1}
    kind = ["budget", "budget-x0", "no-initial", "y0-short", "y0-long",
            "dims", "dims-y0", "callback", "zero", "y0-only",
            "outside"][rs.randint(11)]
    if name == "dummy" and kind in ("budget", "budget-x0", "no-initial",
                                    "zero"):
        kind = "y0-short"
    if kind == "budget":
        kw["n_calls"] = n_init - 1
    elif kind == "budget-x0":
        kw["n_calls"] = n_init + n_x0 - 1
        kw["x0"] = x0
    elif kind == "no-initial":
        n_init = 0
        kw["n_calls"] = 5
    elif kind == "zero":
        n_init = -int(rs.randint(0, 3))
        kw["n_calls"] = int(rs.randint(0, 5))
    elif kind == "y0-short":
        if n_x0 == 1:
            x0 = x0 * 2
        kw.update(n_calls=8, x0=x0, y0=[0.5] * (len(x0) - 1))
    elif kind == "y0-long":
        kw.update(n_calls=8, x0=x0, y0=[0.5] * (len(x0) + 1))
    elif kind == "y0-only":
        y0 = [0.5] * n_x0
        kw.update(n_calls=8, y0=y0[0] if rs.rand() < 0.3 else y0)
        if rs.rand() < 0.5:
            kw["x0"] = None
    elif kind == "outside":
        i, j = int(rs.randint(n_x0)), int(rs.randint(len(spec)))
        x0[i] = list(x0[i])
        x0[i][j] = spec[j]["high"] + 1
        kw.update(n_calls=9, x0=x0)
        if rs.rand() < 0.2:
            kw["y0"] = [0.1] * n_x0
    elif kind.startswith("dims"):
        i = int(rs.randint(n_x0))
        x0[i] = x0[i] + [x0[i][0]] if rs.rand() < 0.5 or len(spec) == 1 else \
            x0[i][:-1]
        kw.update(n_calls=9, x0=x0)
        if kind == "dims-y0":
            kw["y0"] = [0.1] * n_x0
    else:
        kw.update(n_calls=5, callback=[None, 3, "f"][rs.randint(3)] or [1])
    log = []

    def objective(x):
        log.append(gen.plain(x))
        return 0.0
    try:
        call(name, rs, objective, spec, kw, n_init)
        raised = None
    except Exception as e:
        raised = e
    mon.check(raised is not None, "refused",
              lambda: "%s with %s (n_init=%d) was accepted" % (name, kw,
                                                               n_init))
    mon.check(not log, "refused-silently",
              lambda: "%s with %s: evaluated %r before %r" % (
                  name, kw, log, raised))
    mon.nontrivial(["refuse", name, kind])


def run_report(rs, mon):
    """The verbose report tells the phases and values of the run."""
    import contextlib
    import io
    import re
    name = FUNCS[rs.randint(len(FUNCS))]
    spec = gen.space_spec(rs, max_dims=2)
    n_init = int(rs.randint(1, 5))
    n_calls = n_init + int(rs.randint(0, 4))
    if name == "dummy":
        n_init = n_calls
    stop = int(rs.randint(1, n_calls + 1)) if rs.rand() < 0.3 else None
    values, said = [], []
    out = io.StringIO()
    g = gen.objective(spec, int(rs.randint(1000)))

    def objective(x):
        said.append(out.getvalue())
        values.append(round(float(g(x)) * 100, 3))
        return values[-1]
    kw = dict(n_calls=n_calls, random_state=gen.seed(rs),
              verbose=True)
    if stop is not None:
        kw["callback"] = lambda r: len(r.x_iters) >= stop
    with contextlib.redirect_stdout(out):
        res = call(name, rs, objective, spec, kw, n_init)
    text = out.getvalue()
    n = len(values)
    mon.check(n == (stop or n_calls), "calls", lambda: "%d calls" % n)
    lines = [[l for l in text.splitlines() if p in l] for p in (
        "started", "ended", "Function value obtained", "Current minimum",
        "Time taken")]
    number = [[int(re.search(r"No: (\d+)", l).group(1)) for l in ls]
              for ls in lines[:2]]
    mon.check(number[1] == list(range(1, n + 1)) and number[0] == list(
        range(1, min(n + 1, n_calls) + 1)), "report",
        lambda: "%s: %d evaluations of %d, reported %s" % (
            name, n, n_calls, number))
    mon.check(all(("random" in l) == (k <= n_init)
                  for ls, ks in zip(lines, number) for l, k in zip(ls, ks)),
              "report", lambda: "%d initial points; %s" % (n_init, lines[:2]))
    got = [[float(l.split(":")[1]) for l in ls] for ls in lines[2:4]]
    mon.check(len(got[0]) == n and np.allclose(
        got[0], values, rtol=0, atol=6e-5), "report",
        lambda: "values %s, reported %s" % (values, got[0]))
    mon.check(len(got[1]) == n and np.allclose(
        got[1], np.minimum.accumulate(values), rtol=0, atol=6e-5), "report",
        lambda: "values %s, reported minima %s" % (values, got[1]))
    mon.check(len(lines[4]) == n and all(
        float(l.split(":")[1]) >= 0 for l in lines[4]), "report", lines[4])
    # a start is reported before, an end after the evaluation
    for k, before in enumerate(said):
        mon.check(before.count("started") == k + 1 and
                  before.count("ended") == k, "report",
                  lambda: "before evaluation %d: %r" % (k + 1, before))
    mon.check(len(res.x_iters) == n, "returned", str(n))
    mon.nontrivial(["report", name, n_init, n_calls, stop])
