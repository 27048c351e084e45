"""C11 parallel batches: complete, cached, honest lies, independent copies."""
import copy

import numpy as np
from vk import gen, opt as vo

RULE = ("a case is an optimizer with a recording surrogate and a random "
        "history; batches of 1-6 points with every strategy are asked in the "
        "initial and model phases; every fit made meanwhile is compared with "
        "the told data plus lies; copies are driven apart from their "
        "originals; non-trivial: distinct (surrogate, acquisition, strategy, "
        "size, phase)")
REQUIRED = ["size", "cached", "legal", "real-part", "lies", "time-lies",
            "no-leak", "refresh", "copy-original", "copy-copy",
            "design-batch", "other-batch"]
CONFIRM = ("copy-original",)


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["batch"] * 320 + ["copy"] * 160
            for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"batch": run_batch, "copy": run_copy}[case["kind"]](rs, mon)


def state(opt, ps):
    return (gen.plain(opt.Xi), gen.plain([list(np.ravel(y)) for y in opt.yi]),
            [id(m) for m in opt.models],
            [float(g) for g in getattr(opt, "gains_", [])])


LIE = {"cl_min": np.min, "cl_mean": np.mean, "cl_max": np.max}


def check_fits(mon, opt, fits, batch, told, strategy, ps, cfg):
    """Every fit of a batch sees the told data and lies about the batch."""
    n = len(told)
    W = opt.space.transform([x for x, _ in told] + list(batch))
    vals = np.array([vo.val(y, ps) for _, y in told], dtype=float)
    times = np.log([y[1] for _, y in told]) if ps else None
    # one fit per output, in the order (values, log times)
    for j, e in enumerate(fits):
        timed = ps and j % 2 == 1
        m = len(e["X"])
        ok = n <= m <= n + len(batch) and e["X"].shape[1] == W.shape[1] and \
            np.allclose(e["X"], W[:m], rtol=1e-12, atol=1e-12)
        mon.check(ok, "real-part",
                  lambda: "fit on %r, told and batch %r; %s" % (
                      e["X"].tolist(), W.tolist(), cfg))
        if not ok:
            return
        src = times if timed else vals
        y = np.ravel(e["y"])
        mon.check(len(y) == m and np.allclose(y[:n], src, rtol=1e-12,
                                              atol=0), "real-part",
                  lambda: "fit on %r, told %r" % (y.tolist(), src.tolist()))
        if n and m > n:
            lie = LIE[strategy](src)
            key = "time-lies" if timed else "lies"
            mon.check(np.allclose(y[n:m], lie, rtol=1e-9,
                                  atol=1e-9 * max(1, np.ptp(src))), key,
                      lambda: "%s: lies %r about observations %r; %s" % (
                          strategy, y[n:].tolist(), src.tolist(), cfg))


def run_batch(rs, mon):
    from vk import spy
    cfg = vo.config(rs, gen.FAST, n_points=30, max_init=4, max_dims=3,
                    queue=True)
    ps = vo.is_ps(cfg)
    if rs.rand() < 0.2 and not ps:
        cfg["acq"], ps = "EIps", True
    spy.reset()
    opt = vo.build(cfg, spied=True)
    spec = vo.declared(cfg, opt)
    f = vo.Values(rs, cfg)
    told = []
    if rs.rand() < 0.04:
        X = [gen.rand_point(rs, spec) for _ in range(rs.randint(30, 130))]
        told = [(x, f(x)) for x in X]
        opt.tell(X, [y for _, y in told])
        spy.reset()
    served = None               # batch already asked for in this state
    for step in range(int(rs.randint(2, 7))):
        n = int(rs.randint(1, 7))
        strategy = str(rs.choice(sorted(LIE)))
        before = state(opt, ps)
        mark = len(spy.LOG)
        batch = opt.ask(n_points=n, strategy=strategy) if rs.rand() < 0.8 or \
            strategy != "cl_min" else opt.ask(n)
        fits = spy.fits(since=mark)
        keep = copy.deepcopy(batch)
        mon.check(len(batch) == n, "size", lambda: "%d of %d; %s" % (
            len(batch), n, cfg))
        for x in batch:
            bad = gen.illegal_point(spec, x)
            mon.check(bad is None, "legal", lambda: "%r %s" % (x, bad))
        check_fits(mon, opt, fits, batch, told, strategy, ps, cfg)
        # the last point of a batch in the model phase is found by lying
        if len(told) >= cfg["n_init"] and n >= 2 and \
                served != (n, strategy):
            most = max([len(e["X"]) for e in fits] or [0])
            mon.check(most >= len(told) + n - 1, "lies",
                      lambda: "no fit knew about %d batch points" % (n - 1))
        if cfg["gen"] != "random" and len(told) < cfg["n_init"]:
            twin = vo.build(cfg)
            design = twin.ask(cfg["n_init"])
            k = min(n, cfg["n_init"] - len(told))
            mon.check(gen.same_points(batch[:k],
                                      design[len(told):len(told) + k]),
                      "design-batch", lambda: "after %d: %r, design %r" % (
                          len(told), batch, design))
        mon.check(state(opt, ps) == before, "no-leak",
                  lambda: "%s -> %s; %s" % (before, state(opt, ps), cfg))
        if opt.Xi:
            r = opt.get_result()
            mon.check(len(r.x_iters) == len(told) and
                      len(r.func_vals) == len(told), "no-leak", "result")
        for _ in range(2):
            if rs.rand() < 0.5:
                opt.ask()
                again = opt.ask(n_points=n, strategy=strategy)
                mon.check(gen.same_points(again, keep), "cached",
                          lambda: "%r then %r; %s" % (keep, again, cfg))
        asked = [(n, strategy)]
        if served:
            asked.append(served)
        while rs.rand() < 0.35:
            # other batches in the same state
            m, other = int(rs.randint(1, 7)), str(rs.choice(sorted(LIE)))
            mark = len(spy.LOG)
            more = opt.ask(n_points=m, strategy=other)
            fits = spy.fits(since=mark)
            mon.check(len(more) == m, "size", lambda: "%d of %d; %s" % (
                len(more), m, cfg))
            for x in more:
                mon.check(gen.illegal_point(spec, x) is None, "legal",
                          lambda: repr(x))
            check_fits(mon, opt, fits, more, told, other, ps, cfg)
            if len(told) >= cfg["n_init"] and m >= 2 and \
                    not any(o == other and q >= m for q, o in asked):
                most = max([len(e["X"]) for e in fits] or [0])
                mon.check(most >= len(told) + m - 1, "other-batch", lambda:
                          "%s after %s: no fit knew about %d batch points" % (
                              (m, other), asked, m - 1))
            asked.append((m, other))
            mon.check(state(opt, ps) == before, "no-leak",
                      lambda: "%s -> %s; %s" % (before, state(opt, ps), cfg))
        phase = "model" if opt.models else "initial"
        mon.nontrivial([cfg["est"], cfg["acq"], strategy, n, phase])
        mon.count("batches in %s phase" % phase)
        served = None
        # tell all, some, or something else
        u = rs.rand()
        if u < 0.5:
            X = list(batch)
        elif u < 0.8:
            X = [batch[i] for i in rs.permutation(n)[:rs.randint(1, n + 1)]]
        else:
            X = [gen.rand_point(rs, spec)]
        Y = [f(x) for x in X]
        mark = len(spy.LOG)
        if len(X) == 1 and rs.rand() < 0.5:
            opt.tell(X[0], Y[0])
        else:
            opt.tell(X, Y)
        told += list(zip(X, Y))
        fits = spy.fits(since=mark)
        check_fits(mon, opt, fits, [], told, strategy, ps, cfg)
        if fits:
            mon.check(len(fits[-1]["X"]) == len(told), "no-leak",
                      "real model on %d of %d observations" % (
                          len(fits[-1]["X"]), len(told)))
            # the next batch starts from the new suggestion
            nxt = opt.ask(2)
            served = (2, "cl_min")
            mon.check(len(nxt) == 2, "size")
            mon.check(gen.illegal_point(spec, nxt[0]) is None, "legal")
    # a batch asked before an observation is not served after it
    if rs.rand() < 0.7:
        a = opt.ask(3)
        mark = len(spy.LOG)
        x = gen.rand_point(rs, spec)
        y = f(x)
        opt.tell(x, y)
        told.append((x, y))
        mark = len(spy.LOG)
        b = opt.ask(3)
        if len(told) >= cfg["n_init"]:
            known = [len(e["X"]) for e in spy.fits(since=mark)]
            mon.check(bool(known) and min(known) >= len(told), "refresh",
                      lambda: "after an observation the batch %r was made "
                      "from fits on %s of %d observations; %s" % (
                          b, known, len(told), cfg))
            check_fits(mon, opt, spy.fits(since=mark), b, told, "cl_min", ps,
                       cfg)


def run_copy(rs, mon):
    cfg = vo.config(rs, ["rf", "et", "gp", "dummy"], n_points=30, max_init=4,
                    max_dims=3, queue=True)
    if cfg["est"] == "dummy":
        cfg["acq"] = "EI"
    ps = vo.is_ps(cfg)
    a, twin = vo.build(cfg), vo.build(cfg)  # the twin is never copied
    spec = vo.declared(cfg, a)
    f = vo.Values(rs, cfg, "smooth")
    for _ in range(int(rs.randint(0, 6))):
        x = a.ask()
        y = f(x)
        a.tell(x, y)
        twin.ask()
        twin.tell(x, y)
    c = a.copy(random_state=int(rs.randint(1000)))
    n = len(a.Xi)
    before_c = (gen.plain(c.Xi), len(c.Xi))
    mon.check(gen.same_points(c.Xi, a.Xi) and len(c.Xi) == n, "copy-copy",
              "observations of the copy")
    mon.check(len(c.models) <= len(a.models) + 1, "copy-copy", "models")
    frozen = state(a, ps)
    # drive the copy
    for _ in range(int(rs.randint(1, 4))):
        x = gen.rand_point(rs, spec) if rs.rand() < 0.5 else c.ask()
        c.tell(x, f(x))
    if rs.rand() < 0.5:
        c.ask(2)
    mon.check(state(a, ps) == frozen, "copy-original",
              lambda: "%s -> %s; %s" % (frozen, state(a, ps), cfg))
    m = len(c.Xi)
    cs = state(c, ps)
    # the original goes on as if it had not been copied
    for _ in range(int(rs.randint(1, 4))):
        x, t = a.ask(), twin.ask()
        ok = gen.same_point(x, t) or (
            cfg["est"] == "gp" and gen.near_value(list(x), list(t)))
        mon.check(ok, "copy-original",
                  lambda: "asked %r, never copied %r; %s" % (x, t, cfg))
        if not ok:
            return
        a.tell(x, f(x))
        twin.tell(x, f(x))
    mon.check(state(c, ps) == cs and len(c.Xi) == m, "copy-copy",
              "the original changed its copy; %s" % cfg)
    q = cfg["queue"]
    if q is not None:
        mon.check(len(c.models) <= q, "copy-copy", "queue of the copy")
    # gains of the portfolio travel by value
    if hasattr(a, "gains_"):
        mon.check(c.gains_ is not a.gains_, "copy-copy", "shared gains")
    for x, y in [(gen.rand_point(rs, spec), None) for _ in range(2)]:
        bad = gen.illegal_point(spec, c.ask())
        mon.check(bad is None, "copy-copy", bad)
        c.tell(x, f(x))
    mon.nontrivial(["copy", cfg["est"], cfg["acq"], str(cfg["gen"]), n])
