"""C27 diagnostic plots show the data of the result."""
import numpy as np
from vk import gen
from vk.stubs import acquisition

RULE = ("a case is a result (generated points, values, space and models, or "
        "an optimization) and a plot of it; grids, averages, curves, bars "
        "and markers are read back from the returned values and the axes and "
        "recomputed from the result; non-trivial: distinct (plot, space "
        "kinds and priors, options)")
REQUIRED = ["legend", "grid", "grid-spans", "average-1d", "average-2d", "shape-2d",
            "samples-unchanged", "x-eval", "random-average", "real-model",
            "convergence", "convergence-mean", "regret", "regret-mean",
            "true-minimum", "regret-known", "labels", "histogram",
            "histogram-total", "histogram-span", "evaluations-points",
            "evaluations-order", "evaluations-minimum", "category-labels",
            "objective-line", "objective-minimum", "objective-contour",
            "objective-points", "objective-2d", "log-scale", "bars",
            "process-mean", "process-band", "process-observations",
            "process-acquisition", "process-next", "process-objective",
            "selected-dims", "result-unchanged", "refused"]
CASE_TIMEOUT = 400


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["pd"] * 500 + ["curves"] * 160 +
            ["evaluations"] * 70 + ["objective"] * 70 +
            ["objective2d"] * 60 + ["histogram"] * 100 + ["process"] * 80 +
            ["refused"] * 6 for _ in range(k)]


def run(case, mon):
    import matplotlib.pyplot as plt
    rs = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"] % 2 ** 32)
    try:
        {"pd": run_pd, "curves": run_curves, "evaluations": run_evaluations,
         "objective": run_objective, "objective2d": run_objective_2d,
         "histogram": run_histogram, "process": run_process,
         "refused": run_refused}[case["kind"]](rs, mon)
    finally:
        plt.close("all")


# ---- results and models ---------------------------------------------------

class Wave(object):
    """Additive in the warped columns, plus products of neighbours."""

    def __init__(self, rs, n, cross=1.0, offset=0.0):
        self.a = rs.uniform(0.3, 2, n)
        self.b = rs.uniform(0.5, 3, n)
        self.c = rs.uniform(0, 6, n)
        self.cross, self.offset = cross, offset
        self.rows = 0

    def predict(self, X, return_std=False):
        X = np.asarray(X, dtype=float)
        self.rows += len(X)
        t = self.a * np.sin(self.b * X + self.c)
        out = self.offset + t.sum(axis=1)
        if self.cross and X.shape[1] > 1:
            out = out + self.cross * (t[:, 1:] * t[:, :-1]).sum(axis=1)
        if return_std:
            return out, 0.2 + np.abs(np.cos(X).sum(axis=1))
        return out


def widths(space):
    return [np.asarray(d.transform([d.rvs(1, random_state=0)[0]]),
                       dtype=float).size for d in space.dimensions]


def warped(dim, d, grid):
    """Rows of warped values of grid values (indices of categories)."""
    if d["k"] == "cat":
        c = gen.cats_of(d)
        return [np.asarray(dim.transform([c[int(k)]]), dtype=float).ravel()
                for k in grid]
    return [np.asarray(dim.transform([v]), dtype=float).ravel() for v in grid]


def pd_spec(rs, max_dims=4, min_dims=1, kinds=("real", "int", "cat"),
            names=None):
    spec = []
    for d in gen.space_spec(rs, min_dims=min_dims, max_dims=max_dims,
                            kinds=kinds, transforms=True, min_cats=2):
        # warps of extreme ranges are judged elsewhere
        if d["k"] == "cat" and len(set(map(str, gen.cats_of(d)))) < \
                len(d["cats"]):
            d["cats"], d["prior"] = ["a", "b", "c"], None
        spec.append(d)
    for i, d in enumerate(spec):
        if (names is None and rs.rand() < 0.5) or names:
            d["name"] = "p%d" % i
    return spec


def make_result(rs, spec, n=None, cross=1.0, offset=0.0, specs=None):
    from skopt.space import Space
    from skopt.utils import create_result, normalize_dimensions
    dims = gen.build_dims(spec)
    if rs.rand() < 0.4 and not any(d.get("transform") == "identity" and
                                   d["k"] == "cat" for d in spec):
        space = normalize_dimensions(dims)
    else:
        space = Space(dims)
    n = n or int(rs.choice([1, 3, 8, 25]))
    Xi = [gen.rand_point(rs, spec, 0.3) for _ in range(n)]
    yi = [float(v) for v in np.round(rs.randn(n) * 3, 1)]
    w = sum(widths(space))
    models = [Wave(rs, w, cross, offset) for _ in range(2)]
    return create_result(Xi, yi, space=space, models=models, specs=specs)


def snapshot(res):
    return ([list(x) for x in res.x_iters], list(res.func_vals),
            list(res.x), float(res.fun))


def coordinate(d, v):
    """Where the value is plotted: categories by their index."""
    if d["k"] != "cat":
        return float(v)
    return float([i for i, c in enumerate(gen.cats_of(d))
                  if gen.loose_same(v, c)][0])


def place(spec, x):
    return [coordinate(d, v) for d, v in zip(spec, x)]


def grid_of(d, n):
    if d["k"] == "cat":
        m = len(d["cats"])
        return np.linspace(0, m - 1, min(m, n)).astype(int).astype(float)
    return np.linspace(d["low"], d["high"], n)


def near(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(
        np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0)))


def near_grid(a, g):
    a, g = np.asarray(a, dtype=float), np.asarray(g, dtype=float)
    return a.shape == g.shape and np.all(
        np.abs(a - g) <= 1e-9 * max(np.max(np.abs(g)), 1e-300))


def averages(res, spec, model, i, gi, samples, j=None, gj=None):
    space = res.space
    w = np.cumsum([0] + widths(space))
    S = np.asarray(samples, dtype=float)
    wi = warped(space.dimensions[i], spec[i], gi)
    wj = [None] if j is None else warped(space.dimensions[j], spec[j], gj)
    out = []
    for a in wi:
        row = []
        for b in wj:
            T = S.copy()
            T[:, w[i]:w[i + 1]] = a
            if j is not None:
                T[:, w[j]:w[j + 1]] = b
            row.append(float(np.mean(model.predict(T))))
        out.append(row)
    out = np.array(out)
    return out[:, 0] if j is None else out


def check_grid(mon, d, got, n, what):
    g = grid_of(d, n)
    got = np.asarray(got, dtype=float)
    mon.check(near_grid(got, g), "grid", lambda:
              "%s: grid %s of %s, want %s" % (what(), got, d, g))
    lo, hi = (0, len(d["cats"]) - 1) if d["k"] == "cat" else \
        (d["low"], d["high"])
    if n > 1:
        mon.check(len(got) and near_grid(got[[0, -1]], [lo, hi]) and
                  np.all(np.diff(got) > 0),
                  "grid-spans", lambda: "%s: grid %s of %s" % (
                      what(), got, d))
    return g


# ---- partial dependence ---------------------------------------------------

def run_pd(rs, mon):
    from skopt.plots import (partial_dependence, partial_dependence_1D,
                             partial_dependence_2D)
    spec = pd_spec(rs)
    real = rs.rand() < 0.12
    if real:
        res = optimized(rs, spec)
        key1 = key2 = "real-model"
    else:
        res = make_result(rs, spec, cross=float(rs.choice([0, 1.0])))
        key1, key2 = "average-1d", "average-2d"
    model = res.models[-1]
    space = res.space
    n = int(rs.choice([2, 3, 5, 9])) if rs.rand() < 0.95 else 40
    what = lambda: "%s n_points %d" % (spec, n)
    samples = np.asarray(space.transform(
        [gen.rand_point(rs, spec) for _ in range(int(rs.choice([1, 4, 15])))]
    ), dtype=float)
    x_eval = None
    if rs.rand() < 0.25:
        x_eval = gen.rand_point(rs, spec)
        used = np.asarray(space.transform([x_eval]), dtype=float)
        key1 = key2 = "x-eval"
    else:
        used = samples
    before = samples.copy()
    i = int(rs.randint(len(spec)))
    if x_eval is not None:
        xi, yi = partial_dependence(space, model, i, n_points=n,
                                    x_eval=x_eval)
    elif rs.rand() < 0.5:
        xi, yi = partial_dependence(space, model, i, n_points=n,
                                    sample_points=samples)
    else:
        xi, yi = partial_dependence_1D(space, model, i, samples, n_points=n)
    g = check_grid(mon, spec[i], xi, n, what)
    want = averages(res, spec, model, i, g, used)
    mon.check(near(yi, want), key1, lambda:
              "%s: dimension %d averages %s, want %s" % (what(), i, yi, want))
    if len(spec) > 1:
        j = int(rs.choice([k for k in range(len(spec)) if k != i]))
        if x_eval is not None:
            a, b, z = partial_dependence(space, model, i, j, n_points=n,
                                         x_eval=x_eval)
        elif rs.rand() < 0.5:
            a, b, z = partial_dependence(space, model, i, j, n_points=n,
                                         sample_points=samples)
        else:
            a, b, z = partial_dependence_2D(space, model, i, j, samples,
                                            n_points=n)
        # columns follow dimension j, rows dimension i, as contours need
        gj = check_grid(mon, spec[j], a, n, what)
        gi = check_grid(mon, spec[i], b, n, what)
        mon.check(np.shape(z) == (len(gi), len(gj)), "shape-2d", lambda:
                  "%s: shape %s of dimensions %d %d" % (
                      what(), np.shape(z), i, j))
        want = averages(res, spec, model, i, gi, used, j, gj)
        mon.check(near(z, want), key2, lambda:
                  "%s: dimensions %d %d averages %s, want %s" % (
                      what(), i, j, z, want))
    mon.check(np.array_equal(samples, before), "samples-unchanged",
              lambda: "%s: the samples changed" % what())
    if not real and x_eval is None and model.cross == 0:
        # without products random samples only shift the curve
        m = int(rs.choice([50, 250]))
        model.rows = 0
        xi, yi = partial_dependence(space, model, i, n_points=n,
                                    n_samples=m)
        rest = np.asarray(space.transform(space.rvs(4000, random_state=1)),
                          dtype=float)
        want = averages(res, spec, model, i, g, rest)
        shift = np.asarray(yi) - want
        bound = 8 * np.std(model.predict(rest)) * np.sqrt(
            1.0 / m + 1.0 / 4000) + 1e-9
        mon.check(np.ptp(shift) <= 1e-8 * (1 + np.max(np.abs(want))) and
                  abs(shift[0]) <= bound, "random-average", lambda:
                  "%s: dimension %d random averages %s, want %s and a "
                  "shift below %g" % (what(), i, yi, want, bound))
    mon.nontrivial(["pd", [(d["k"], d.get("prior") == "log-uniform",
                            d["transform"]) for d in spec], i, n, real])


def optimized(rs, spec):
    import skopt
    f = gen.objective(spec, 7)
    dims = gen.build_dims(spec)
    name = str(rs.choice(["GP", "RF", "ET"]))
    opt = skopt.Optimizer(dims, name, n_initial_points=3,
                          acq_optimizer="sampling",
                          random_state=int(rs.randint(99)))
    for _ in range(5):
        x = opt.ask()
        opt.tell(x, f(x))
    return opt.get_result()


# ---- curves ---------------------------------------------------------------

def run_curves(rs, mon):
    import matplotlib.pyplot as plt
    from skopt.plots import plot_convergence, plot_regret
    spec = pd_spec(rs, 2)
    n = int(rs.choice([1, 2, 5, 12]))
    args, groups = [], []
    for k in range(int(rs.randint(1, 4))):
        many = rs.rand() < 0.5
        m = n if rs.rand() < 0.7 else n + k
        rs_ = [make_result(rs, spec, m) for _ in range(
            int(rs.randint(1, 4)) if many else 1)]
        arg = rs_ if many else rs_[0]
        label = None
        if rs.rand() < 0.4:
            label = "run %d" % k
            arg = (label, arg)
        args.append(arg)
        groups.append((label, many, [np.array(r.func_vals) for r in rs_]))
    lowest = min(y.min() for _, _, g in groups for y in g)
    options = [None, 0, 0.0, lowest, lowest - 2.5, -7]
    true = options[rs.randint(len(options))]
    kw = {} if true is None and rs.rand() < 0.5 else {"true_minimum": true}
    if rs.rand() < 0.2:
        kw["yscale"] = "symlog"
    fig, axes = plt.subplots(1, 2)
    which = [plot_convergence, plot_regret]
    copies = [y.copy() for _, _, g in groups for y in g]
    for f, ax, name in zip(which, axes, ("convergence", "regret")):
        if rs.rand() < 0.3:
            plt.sca(ax)
            got = f(*args, **kw)
        else:
            got = f(*args, ax=ax, **kw)
        what = lambda: "%s of %s with %s" % (name, groups, kw)
        mon.check(ax.get_yscale() == kw.get("yscale", "linear"),
                  "curve-scale", lambda: "%s: scale %s" % (
                      what(), ax.get_yscale()))
        mon.check(got is ax, "labels", lambda: "%s: other axes" % what())
        lines = [(np.asarray(l.get_xdata(), float),
                  np.asarray(l.get_ydata(), float), l.get_label())
                 for l in ax.get_lines()]
        want = []
        if name == "convergence":
            curve = lambda y: np.minimum.accumulate(y)
        else:
            base = lowest if true is None else true
            curve = lambda y: np.cumsum(y - base)
        for label, many, ys in groups:
            c = [curve(y) for y in ys]
            if many:
                want += [(v, None) for v in c]
            want.append((np.mean(c, axis=0), label))
        extra = list(lines)
        for pos, (v, label) in enumerate(want):
            hit = [l for l in extra if len(l[1]) == len(v) and
                   near(l[1], v, 1e-9) and
                   np.array_equal(l[0], np.arange(1, len(v) + 1)) and
                   (label is None or l[2] == label)]
            key = "%s%s" % (name, "-mean" if any(
                m for _, m, _ in groups) and len(want) > 1 else "")
            if name == "regret" and true is not None:
                mon.check(bool(hit), "regret-known", lambda:
                          "%s: no curve %s among %s" % (what(), v, lines))
            mon.check(bool(hit), key, lambda:
                      "%s: no curve %s %s among %s" % (
                          what(), label, v, lines))
            if hit:
                extra = [l for l in extra if l is not hit[0]]
        mon.check(bool(want), name)
        given = [label for label, _, _ in groups if label is not None]
        if given:
            legend = ax.get_legend()
            shown = [] if legend is None else [
                t.get_text() for t in legend.get_texts()]
            mon.check(set(given) <= set(shown), "legend", lambda:
                      "%s: labels %s, legend %s" % (what(), given, shown))
        flat = [l for l in extra if len(np.unique(l[1])) == 1 and
                len(l[1]) == 2]
        if name == "convergence" and true is not None:
            mon.check(len(flat) == len(extra) == 1 and flat[0][1][0] == true,
                      "true-minimum", lambda: "%s: lines %s" % (
                          what(), extra))
        else:
            mon.check(not extra, name, lambda:
                      "%s: also lines %s" % (what(), extra))
        if name == "convergence" and not any(m for _, m, _ in groups):
            mon.check(all(np.all(np.diff(l[1]) <= 0) for l in lines), name,
                      lambda: "%s: rising %s" % (what(), lines))
    now = [y for _, _, g in groups for y in g]
    mon.check(all(np.array_equal(a, b) for a, b in zip(copies, now)),
              "result-unchanged", "values changed")
    mon.nontrivial(["curves", n, [(bool(l), m, len(g))
                                  for l, m, g in groups], str(true)])


# ---- points and bars ------------------------------------------------------

def bars_of(ax):
    from matplotlib.patches import Rectangle
    return sorted((r.get_x(), r.get_x() + r.get_width(), r.get_height())
                  for r in ax.patches if isinstance(r, Rectangle))


def check_bars(mon, bars, values, what, key="histogram"):
    """Every bar counts the values inside it, every value counts once."""
    values = np.asarray(values, dtype=float)
    mon.check(abs(sum(h for _, _, h in bars) - len(values)) < 1e-9,
              "histogram-total", lambda: "%s: bars %s of %s" % (
                  what(), bars, values))
    for k, (a, b, h) in enumerate(bars):
        eps = 1e-9 * max(abs(a), abs(b), 1e-300) + 1e-6 * (b - a)
        sure = np.sum((values > a + eps) & (values < b - eps))
        may = np.sum((values >= a - eps) & (values <= b + eps))
        mon.check(sure <= h <= may, key, lambda:
                  "%s: bar %s of %s" % (what(), (a, b, h), values))
        if k:
            mon.check(bars[k - 1][1] <= a + eps, key,
                      lambda: "%s: overlapping bars %s" % (what(), bars))


def check_edges(mon, bars, d, bins, what):
    lo, hi = float(d["low"]), float(d["high"])
    got = [b[0] for b in bars] + [bars[-1][1]]
    want = np.geomspace(lo, hi, bins + 1) if d["prior"] == "log-uniform" \
        else np.linspace(lo, hi, bins + 1)
    tol = 1e-6 * (want[1] - want[0]) + 1e-12 * max(abs(lo), abs(hi))
    mon.check(len(got) == bins + 1 and
              np.all(np.abs(np.array(got) - want) <= tol * np.maximum(
                  1, np.abs(want) / max(abs(lo), 1e-300)
                  if d["prior"] == "log-uniform" else 1)),
              "histogram-span", lambda: "%s: edges %s, want %s" % (
                  what(), got, want))


def scatters(ax):
    from matplotlib.collections import PathCollection
    return [c for c in ax.collections if type(c) is PathCollection]


def axes_matrix(ax, n):
    if n == 1:
        return np.array([[ax]], dtype=object)
    return np.asarray(ax)


def pick_dims(rs, spec, space):
    """(plot_dims argument, indices shown)."""
    free = [i for i, d in enumerate(spec)
            if (len(d["cats"]) if d["k"] == "cat" else 2) > 1]
    if rs.rand() < 0.6:
        return None, free
    some = [free[i] for i in rs.permutation(len(free))[
        :int(rs.randint(1, len(free) + 1))]]
    return [spec[i]["name"] if spec[i].get("name") and rs.rand() < 0.6
            else i for i in some], some


def check_axes(mon, rs, A, spec, shown, what, labels=None):
    n = len(shown)
    names = labels or [spec[i].get("name") or "$X_{%i}$" % i for i in shown]
    for r in range(n):
        for c in range(n):
            ax = A[r, c]
            if c > r:
                continue
            di, dj = spec[shown[r]], spec[shown[c]]
            log = dj.get("prior") == "log-uniform" and dj["k"] != "cat"
            mon.check((ax.get_xscale() == "log") == log, "log-scale",
                      lambda: "%s: scale of %d %d" % (what(), r, c))
            if r > c:
                log = di.get("prior") == "log-uniform" and di["k"] != "cat"
                mon.check((ax.get_yscale() == "log") == log, "log-scale",
                          lambda: "%s: scale of %d %d" % (what(), r, c))
            if r == c:
                mon.check(ax.get_xlabel() == names[c], "labels",
                          lambda: "%s: label %r, want %r" % (
                              what(), ax.get_xlabel(), names[c]))
            if r == n - 1 and c < r:
                mon.check(ax.get_xlabel() == names[c], "labels",
                          lambda: "%s: label %r, want %r" % (
                              what(), ax.get_xlabel(), names[c]))
            if c == 0 and r > 0:
                mon.check(ax.get_ylabel() == names[r], "labels",
                          lambda: "%s: label %r, want %r" % (
                              what(), ax.get_ylabel(), names[r]))
            if dj["k"] == "cat" and r in (c, n - 1):
                f = ax.xaxis.get_major_formatter()
                cats = gen.cats_of(dj)
                mon.check([f(k, 0) for k in range(len(cats))] ==
                          [str(v) for v in cats], "category-labels",
                          lambda: "%s: %s" % (what(), [
                              f(k, 0) for k in range(len(cats))]))


def run_evaluations(rs, mon):
    from skopt.plots import plot_evaluations
    spec = pd_spec(rs, 3)
    res = make_result(rs, spec)
    dims, shown = pick_dims(rs, spec, res.space)
    bins = int(rs.choice([1, 4, 20]))
    kw = {}
    if bins != 20 or rs.rand() < 0.5:
        kw["bins"] = bins
    if dims is not None:
        kw["plot_dims"] = dims
    labels = None
    if rs.rand() < 0.2:
        labels = kw["dimensions"] = ["L%d" % i for i in shown]
    before = snapshot(res)
    A = axes_matrix(plot_evaluations(res, **kw), len(shown))
    what = lambda: "evaluations of %s at %s %s" % (spec, res.x_iters, kw)
    mon.check(snapshot(res) == before, "result-unchanged",
              lambda: "%s: the result changed" % what())
    if not mon.check(A.shape == (len(shown),) * 2, "selected-dims",
                     lambda: "%s: axes %s" % (what(), A.shape)):
        return
    P = np.array([place(spec, x) for x in res.x_iters])
    best = place(spec, res.x)
    for r in range(len(shown)):
        i = shown[r]
        bars = bars_of(A[r, r])
        check_bars(mon, bars, P[:, i], what)
        if spec[i]["k"] != "cat":
            check_edges(mon, bars, spec[i], bins, what)
        for c in range(r):
            j = shown[c]
            s = scatters(A[r, c])
            off = [np.asarray(v.get_offsets(), dtype=float) for v in s]
            all_ = [v for v, o in zip(s, off) if len(o) == len(P) and
                    near(o, P[:, [j, i]], 1e-12)]
            mon.check(len(all_) >= 1 and sum(len(o) for o in off) ==
                      len(P) + 1, "evaluations-points", lambda:
                      "%s: points %s" % (what(), off))
            if all_ and len(P) > 1:
                order = np.asarray(all_[0].get_array(), dtype=float)
                mon.check(len(order) == len(P) and
                          np.all(np.diff(order) > 0), "evaluations-order",
                          lambda: "%s: order %s" % (what(), order))
            mon.check(any(len(o) == 1 and near(o[0], [best[j], best[i]],
                                               1e-12) for o in off),
                      "evaluations-minimum", lambda: "%s: no marker at %s, "
                      "only %s" % (what(), best, off))
    check_axes(mon, rs, A, spec, shown, what, labels)
    mon.nontrivial(["evaluations", [(d["k"], d["prior"] == "log-uniform")
                                    for d in spec], len(P), str(sorted(kw))])


def run_histogram(rs, mon):
    import matplotlib.pyplot as plt
    from skopt.plots import plot_histogram
    spec = pd_spec(rs, 3)
    res = make_result(rs, spec)
    i = int(rs.randint(len(spec)))
    d = spec[i]
    bins = int(rs.choice([1, 5, 20]))
    ident = d["name"] if d.get("name") and rs.rand() < 0.6 else i
    fig, ax = plt.subplots()
    kw = {"ax": ax} if rs.rand() < 0.5 else {}
    if bins != 20:
        kw["bins"] = bins
    got = plot_histogram(res, ident, **kw)
    what = lambda: "histogram %r of %s at %s" % (ident, d, res.x_iters)
    mon.check(got is ax, "labels", "other axes")
    mon.check(ax.get_xlabel() == (d.get("name") or ""), "labels",
              lambda: "%s: label %r" % (what(), ax.get_xlabel()))
    bars = bars_of(ax)
    values = [x[i] for x in res.x_iters]
    if d["k"] != "cat":
        check_bars(mon, bars, values, what)
        check_edges(mon, bars, d, bins, what)
        log = d["prior"] == "log-uniform"
        mon.check((ax.get_xscale() == "log") == log, "log-scale",
                  lambda: "%s: scale %s" % (what(), ax.get_xscale()))
    else:
        ticks = [t.get_text() for t in ax.get_xticklabels()]
        where = ax.get_xticks()
        want = {}
        for v in values:
            want[str(v)] = want.get(str(v), 0) + 1
        seen = {}
        for (a, b, h) in bars:
            t = [k for w, k in zip(where, ticks) if a < w < b]
            if len(t) == 1 and h:
                seen[t[0]] = seen.get(t[0], 0) + h
        mon.check(seen == want, "bars", lambda: "%s: bars %s, ticks %s, "
                  "want %s" % (what(), bars, ticks, want))
        mon.check(sum(h for _, _, h in bars) == len(values),
                  "histogram-total", lambda: "%s: bars %s" % (what(), bars))
    mon.nontrivial(["histogram", d["k"], d["prior"] == "log-uniform", bins,
                    len(values)])


# ---- the objective --------------------------------------------------------

class Contours(object):
    """Records what is drawn as filled contours, per axes."""

    def __enter__(self):
        from matplotlib.axes import Axes
        self.seen = []
        self.own = "contourf" in vars(Axes)
        self.original = original = Axes.contourf
        seen = self.seen

        def contourf(ax, *args, **kw):
            seen.append((ax, args))
            return original(ax, *args, **kw)
        Axes.contourf = contourf
        return self

    def __exit__(self, *a):
        from matplotlib.axes import Axes
        Axes.contourf = self.original

    def of(self, ax):
        return [a for x, a in self.seen if x is ax]


def options(rs, res, spec, kw):
    """Sample source and minimum; returns (samples or None, minimum or
    None when it is looked for)."""
    samples = minimum = None
    cat = any(d["k"] == "cat" for d in spec)
    u = rs.rand()
    if u < 0.3:
        kw["sample_source"] = "result"
        samples = [res.x]
    elif u < 0.6:
        kw["sample_source"] = gen.rand_point(rs, spec)
        samples = [kw["sample_source"]]
    elif u < 0.7:
        kw["sample_source"] = "random"
    u = rs.rand()
    if u < 0.35:
        if u < 0.1:
            kw["minimum"] = "result"
        minimum = res.x
    elif u < 0.6:
        kw["minimum"] = minimum = gen.rand_point(rs, spec)
    elif u < 0.8 and not cat:
        kw["minimum"] = "expected_minimum"
        if rs.rand() < 0.5:
            kw["n_minimum_search"] = 4
    else:
        kw["minimum"] = "expected_minimum_random"
        if len(spec) > 2 or rs.rand() < 0.5:
            kw["n_minimum_search"] = 60
    return samples, minimum


def judge_contour(mon, rs, args, res, spec, i, j, n, samples, what,
                  key="objective-contour"):
    """z over dimension j to the right and dimension i upwards."""
    x, y, z = [np.asarray(v, dtype=float) for v in args[:3]]
    model = res.models[-1]
    gi, gj = grid_of(spec[i], n), grid_of(spec[j], n)
    if not mon.check(near_grid(x, gj) and near_grid(y, gi) and
                     z.shape == (len(gi), len(gj)), key, lambda:
                     "%s: contour over %s %s" % (what(), x, y)):
        return
    if samples is not None:
        S = np.asarray(res.space.transform(samples), dtype=float)
        want = averages(res, spec, model, i, gi, S, j, gj)
        mon.check(near(z, want), key, lambda: "%s: contour %s, want %s" % (
            what(), z, want))
    else:
        # an additive model: random samples only shift the surface
        S = np.asarray(res.space.transform(res.x_iters[:1]), dtype=float)
        want = averages(res, spec, model, i, gi, S, j, gj)
        mon.check(np.ptp(z - want) <= 1e-8 * (1 + np.max(np.abs(want))),
                  key, lambda: "%s: contour %s, want %s but for a shift" % (
                      what(), z, want))


def judge_found(mon, res, spec, at, what):
    """A minimum that was looked for (only some coordinates are seen)."""
    for i, v in at.items():
        d = spec[i]
        if d["k"] == "cat":
            ok = v in range(len(d["cats"]))
        else:
            ok = d["low"] <= v <= d["high"] and (
                d["k"] != "int" or v == round(v))
        mon.check(ok, "objective-minimum", lambda:
                  "%s: minimum at %r of %s" % (what(), v, d))


def run_objective(rs, mon):
    from skopt.plots import plot_objective
    spec = pd_spec(rs, 3)
    n = int(rs.choice([2, 4, 7]))
    kw = {"n_points": n, "n_samples": int(rs.choice([5, 40]))}
    log = rs.rand() < 0.1
    res = make_result(rs, spec, cross=0.0, offset=50.0 if log else 0.0)
    samples, minimum = options(rs, res, spec, kw)
    if samples is not None:
        res.models[-1].cross = 1.0
        if log:
            res.models[-1].offset = 200.0
    if log:
        kw["zscale"] = "log"
    dims, shown = pick_dims(rs, spec, res.space)
    if dims is not None:
        kw["plot_dims"] = dims
    points = True
    if rs.rand() < 0.2:
        points = kw["show_points"] = False
    labels = None
    if rs.rand() < 0.2:
        labels = kw["dimensions"] = ["L%d" % i for i in shown]
    before = snapshot(res)
    with Contours() as C:
        A = axes_matrix(plot_objective(res, **kw), len(shown))
    what = lambda: "objective of %s at %s %s" % (spec, res.x_iters, kw)
    mon.check(snapshot(res) == before, "result-unchanged",
              lambda: "%s: the result changed" % what())
    if not mon.check(A.shape == (len(shown),) * 2, "selected-dims",
                     lambda: "%s: axes %s" % (what(), A.shape)):
        return
    P = np.array([place(spec, x) for x in res.x_iters])
    star = None if minimum is None else place(spec, minimum)
    model = res.models[-1]
    found = {}
    for r in range(len(shown)):
        i = shown[r]
        g = grid_of(spec[i], n)
        lines = [(np.asarray(l.get_xdata(), float),
                  np.asarray(l.get_ydata(), float))
                 for l in A[r, r].get_lines()]
        upright = [l for l in lines if len(l[0]) == 2 and
                   l[0][0] == l[0][1]]
        curve = [l for l in lines if not any(l is u for u in upright)]
        if mon.check(len(upright) == 1, "objective-minimum", lambda:
                     "%s: lines %s" % (what(), lines)):
            found[i] = upright[0][0][0]
        S = np.asarray(res.space.transform(
            samples if samples is not None else res.x_iters[:1]),
            dtype=float)
        want = averages(res, spec, model, i, g, S)
        ok = len(curve) == 1 and near_grid(curve[0][0], g)
        if ok:
            miss = curve[0][1] - want
            size = 1e-8 * (1 + np.max(np.abs(want)))
            ok = np.max(np.abs(miss)) <= size if samples is not None else \
                np.ptp(miss) <= size
        mon.check(ok, "objective-line", lambda: "%s: dimension %d curve %s, "
                  "want %s %s" % (what(), i, curve, g, want))
        for c in range(r):
            j = shown[c]
            drawn = C.of(A[r, c])
            if mon.check(len(drawn) == 1, "objective-contour", lambda:
                         "%s: %d contours" % (what(), len(drawn))):
                judge_contour(mon, rs, drawn[0], res, spec, i, j, n, samples,
                              what)
            off = [np.asarray(v.get_offsets(), dtype=float)
                   for v in scatters(A[r, c])]
            single = [o for o in off if len(o) == 1]
            if star is not None:
                mon.check(any(near(o[0], [star[j], star[i]], 1e-9)
                              for o in single), "objective-minimum", lambda:
                          "%s: no marker at %s %s, only %s" % (
                              what(), star[j], star[i], single))
            else:
                mon.check(any(o[0][0] == found.get(j) and
                              o[0][1] == found.get(i, o[0][1])
                              for o in single), "objective-minimum", lambda:
                          "%s: no marker at %s" % (what(), found))
            shown_points = any(len(o) == len(P) and
                               near(o, P[:, [j, i]], 1e-12) for o in off)
            mon.check(sum(len(o) for o in off) == 1 + points * len(P) and
                      (shown_points or not points), "objective-points",
                      lambda: "%s: points %s" % (what(), off))
    if star is not None:
        mon.check(all(near([found[i]], [star[i]], 1e-9) for i in found),
                  "objective-minimum", lambda: "%s: minimum at %s, want %s"
                  % (what(), found, star))
    else:
        judge_found(mon, res, spec, found, what)
        if len(found) == len(spec) and all(
                d["k"] != "cat" for d in spec) and \
                kw["minimum"] == "expected_minimum":
            x = [int(found[i]) if spec[i]["k"] == "int" else found[i]
                 for i in range(len(spec))]
            v = float(model.predict(res.space.transform([x]))[0])
            b = float(model.predict(res.space.transform([res.x]))[0])
            mon.check(v <= b + 1e-6 * (1 + abs(b)), "objective-minimum",
                      lambda: "%s: minimum %s predicted %s, best point %s"
                      % (what(), x, v, b))
    check_axes(mon, rs, A, spec, shown, what, labels)
    mon.nontrivial(["objective", [(d["k"], d["prior"] == "log-uniform")
                                  for d in spec], sorted(
        (k, str(v)[:20]) for k, v in kw.items())])


def run_objective_2d(rs, mon):
    import matplotlib.pyplot as plt
    from skopt.plots import plot_objective_2D
    spec = pd_spec(rs, 4, 2)
    n = int(rs.choice([2, 3, 6]))
    kw = {"n_points": n, "n_samples": int(rs.choice([5, 40]))}
    res = make_result(rs, spec, cross=0.0)
    samples, minimum = options(rs, res, spec, kw)
    if samples is not None:
        res.models[-1].cross = 1.0
    a, b = [int(v) for v in rs.permutation(len(spec))[:2]]
    ident = [spec[k]["name"] if spec[k].get("name") and rs.rand() < 0.6
             else k for k in (a, b)]
    fig, ax = plt.subplots()
    if rs.rand() < 0.5:
        kw["ax"] = ax
    with Contours() as C:
        got = plot_objective_2D(res, *ident, **kw)
    what = lambda: "2D objective %s of %s at %s %s" % (
        ident, spec, res.x_iters, kw)
    mon.check(got is ax, "objective-2d", lambda: "%s: other axes" % what())
    drawn = C.of(ax)
    if mon.check(len(drawn) == 1, "objective-2d", lambda:
                 "%s: %d contours" % (what(), len(drawn))):
        judge_contour(mon, rs, drawn[0], res, spec, b, a, n, samples, what,
                      "objective-2d")
    P = np.array([place(spec, x) for x in res.x_iters])
    off = [np.asarray(v.get_offsets(), dtype=float) for v in scatters(ax)]
    mon.check(sum(len(o) for o in off) == len(P) + 1 and any(
        len(o) == len(P) and near(o, P[:, [a, b]], 1e-12) for o in off),
        "objective-points", lambda: "%s: points %s" % (what(), off))
    if minimum is not None:
        star = place(spec, minimum)
        mon.check(any(len(o) == 1 and near(o[0], [star[a], star[b]], 1e-9)
                      for o in off), "objective-minimum", lambda:
                  "%s: no marker at %s, only %s" % (what(), star, off))
    mon.check(ax.get_xlabel() == (spec[a].get("name") or "") and
              ax.get_ylabel() == (spec[b].get("name") or ""), "labels",
              lambda: "%s: labels %r %r" % (what(), ax.get_xlabel(),
                                            ax.get_ylabel()))
    for k, s in ((a, ax.get_xscale()), (b, ax.get_yscale())):
        log = spec[k]["prior"] == "log-uniform" and spec[k]["k"] != "cat"
        mon.check((s == "log") == log, "log-scale",
                  lambda: "%s: scales" % what())
    mon.nontrivial(["objective2d", [(d["k"], d["prior"] == "log-uniform")
                                    for d in spec], a, b, sorted(
        (k, str(v)[:20]) for k, v in kw.items() if k != "ax")])


# ---- one-dimensional processes --------------------------------------------

def run_process(rs, mon):
    import matplotlib.pyplot as plt
    import skopt
    from skopt.plots import plot_gaussian_process
    spec = pd_spec(rs, 1, kinds=("real", "real", "int"))
    d = spec[0]
    f = gen.objective(spec, int(rs.randint(9)))
    acq = str(rs.choice(["EI", "PI", "LCB", "gp_hedge"]))
    given = {"EI": {"xi": 0.05}, "PI": {"xi": 0.2}, "LCB": {"kappa": 0.7},
             "gp_hedge": {}}[acq] if rs.rand() < 0.5 else {}
    stub = rs.rand() < 0.6
    if stub:
        specs = {"args": {"acq_func": acq, "acq_func_kwargs": given},
                 "function": "base_minimize"}
        if rs.rand() < 0.2:
            specs, given, acq = None, {}, "EI"
        res = make_result(rs, spec, int(rs.choice([3, 8])), specs=specs)
        told = [len(res.x_iters) - 1, len(res.x_iters)]
    else:
        kw = dict(n_calls=7, n_initial_points=4, acq_func=acq, n_points=50,
                  random_state=int(rs.randint(99)), acq_optimizer="sampling")
        kw.update({k: v for k, v in given.items()})
        if d["low"] == d["high"]:
            return
        res = skopt.gp_minimize(f, gen.build_dims(spec), **kw)
        # the first model is fitted when the initial points are told
        told = list(range(4, 8))
        given = {"xi": kw.get("xi", 0.01), "kappa": kw.get("kappa", 1.96)}
    if acq == "gp_hedge":
        acq = "EI"
    n = int(rs.choice([2, 17, 60]))
    kw = {"n_points": n}
    k = -1
    if rs.rand() < 0.5:
        k = int(rs.randint(len(res.models)))
        kw["n_calls"] = k
    if not mon.check(len(told) == len(res.models), "process-observations",
                     lambda: "%d models" % len(res.models)):
        return
    model = res.models[k]
    m = len(res.x_iters) if k < 0 else told[k]
    show = {}
    for name, p in (("show_acq_func", 0.6), ("show_next_point", 0.5),
                    ("show_observations", 0.8), ("show_mu", 0.8)):
        default = name in ("show_observations", "show_mu")
        show[name] = bool(rs.rand() < p)
        if show[name] != default or rs.rand() < 0.5:
            kw[name] = show[name]
    noise = 0
    known = rs.rand() < 0.4
    if rs.rand() < 0.1:         # the acquisition alone
        show.update(show_acq_func=True, show_observations=False,
                    show_mu=False)
        kw.update({q: show[q] for q in show})
        known = False
    if known:
        kw["objective"] = lambda x: float(np.ravel(x)[0]) * 2 + 1
        if rs.rand() < 0.6:
            noise = kw["noise_level"] = 0.25
    if rs.rand() < 0.3:
        kw["show_title"] = False
    if rs.rand() < 0.3:
        kw["show_legend"] = False
    fig, ax = plt.subplots()
    if rs.rand() < 0.5:
        kw["ax"] = ax
    before = snapshot(res)
    got = plot_gaussian_process(res, **kw)
    what = lambda: "process of %s %s at %s, acquisition %s %s" % (
        spec, kw, res.x_iters, acq, given)
    mon.check(got is ax and snapshot(res) == before, "result-unchanged",
              lambda: "%s: other axes or result" % what())
    g = grid_of(d, n)
    W = np.asarray(res.space.transform([[v] for v in g]), dtype=float)
    mu, std = [np.asarray(v, dtype=float)
               for v in model.predict(W, return_std=True)]
    every = [a for a in fig.axes]
    lines = [(np.ravel(np.asarray(l.get_xdata(), float)),
              np.ravel(np.asarray(l.get_ydata(), float)))
             for a in every for l in a.get_lines()]
    left = list(lines)
    tol = 1e-6

    def take(x, y, key, text):
        hit = [l for l in left if l[0].shape == np.shape(x) and
               near_grid(l[0], x) and near(l[1], y, tol)]
        if mon.check(bool(hit), key, lambda: "%s: no %s %s %s among %s" % (
                what(), text, x, y, left)):
            left[:] = [l for l in left if l is not hit[0]]
    polygons = [np.asarray(p.get_xy(), dtype=float) for a in every
                for p in a.patches]
    bands = 0
    if known:
        y = 2 * g + 1
        take(g, y, "process-objective", "objective")
        mon.check(any(band(p, g, y - 1.96 * noise, y + 1.96 * noise)
                      for p in polygons), "process-objective", lambda:
                  "%s: no band of the objective" % what())
        bands += 1
    if show["show_mu"]:
        take(g, mu, "process-mean", "mean")
        mon.check(any(band(p, g, mu - 1.96 * std, mu + 1.96 * std)
                      for p in polygons), "process-band", lambda:
                  "%s: no band of the deviation" % what())
        bands += 1
    mon.check(len(polygons) == bands, "process-band", lambda:
              "%s: %d bands" % (what(), len(polygons)))
    if show["show_observations"]:
        take(np.array([float(x[0]) for x in res.x_iters[:m]]),
             res.func_vals[:m], "process-observations", "observations")
    if show["show_acq_func"]:
        a = -acquisition(acq, mu, std, y_opt=float(np.min(
            res.func_vals[:m])), xi=given.get("xi", 0.01),
            kappa=given.get("kappa", 1.96))
        tol = 1e-5
        take(g, a, "process-acquisition", "acquisition")
        if show["show_next_point"]:
            top = np.max(a)
            hit = [l for l in left if len(l[0]) == 1 and
                   abs(l[1][0] - top) <= 1e-5 * (1 + abs(top)) and any(
                       near_grid(l[0], g[[q]]) and
                       abs(a[q] - top) <= 1e-5 * (1 + abs(top))
                       for q in range(len(g)))]
            if mon.check(bool(hit), "process-next", lambda:
                         "%s: next point %s of %s" % (what(), left, a)):
                left[:] = [l for l in left if l is not hit[0]]
    mon.check(not left, "process-mean", lambda: "%s: also lines %s" % (
        what(), left))
    mon.nontrivial(["process", d["k"], d["prior"], acq, sorted(
        (q, str(v)[:12]) for q, v in kw.items() if q not in (
            "ax", "objective")), stub])


def band(p, g, low, high):
    """The polygon has exactly the corners of the band."""
    want = np.vstack([np.column_stack([g, low]), np.column_stack([g, high])])
    size = np.array([max(np.max(np.abs(g)), 1e-300),
                     max(np.max(np.abs(want[:, 1])), 1e-300)])

    def inside(a, b):
        return all(np.min(np.max(np.abs(b - v) / size, axis=1)) < 1e-6
                   for v in a)
    return inside(want, p) and inside(p, want)


def run_refused(rs, mon):
    from skopt.plots import plot_objective
    spec = pd_spec(rs, 2)
    spec.append(gen.cat_spec(rs, min_cats=2))
    res = make_result(rs, spec)
    for kw in ({"zscale": "cubic"}, {"minimum": "nowhere"},
               {"sample_source": "nowhere"}, {"minimum": 3},
               {"minimum": "expected_minimum"},
               {"minimum": [1.0] * 9}, {"sample_source": [1.0] * 9}):
        try:
            plot_objective(res, n_points=2, n_samples=3, **kw)
            raised = None
        except (ValueError, AssertionError) as e:
            raised = e
        mon.check(raised is not None, "refused",
                  lambda: "plot_objective accepts %s" % kw)
    mon.nontrivial(["refused", [d["k"] for d in spec]])
