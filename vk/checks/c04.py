"""C04 random sampling: count, legality, reproducibility, law of the samples."""
import numpy as np
from scipy import stats
from vk import gen

RULE = ("a case is a generated space sampled with several sizes, seeds and "
        "generator objects (legality, twins, global state), or one dimension "
        "with one transform sampled %d times against the declared law; "
        "non-trivial: distinct dimension configurations" % 6000)
REQUIRED = ["count", "legal", "same-seed", "global-rng", "law-real",
            "law-int", "law-cat", "independent", "different-seeds"]
ALPHA = 1e-9
N = 6000


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    out = [{"kind": "finding-probe"}, {"kind": "finding-probe-cat"}]
    out += [{"kind": "space"} for _ in range(800 * k)]
    out += [{"kind": "law"} for _ in range(700 * k)]
    out += [{"kind": "joint"} for _ in range(100 * k)]
    return out


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    if case["kind"] == "space":
        return run_space(rs, mon)
    if case["kind"] == "joint":
        return run_joint(rs, mon)
    if case["kind"] == "finding-probe":
        return law(rs, mon, {"k": "int", "low": 0, "high": 4,
                             "prior": "uniform", "base": 10,
                             "transform": "normalize", "dtype": "int64"})
    if case["kind"] == "finding-probe-cat":
        return law(rs, mon, {"k": "cat", "cats": ["a", "b", "c", "d"],
                             "prior": None, "tuples": False,
                             "transform": "normalize"})
    d = gen.space_spec(rs, max_dims=1, transforms=True, dtypes=True)[0]
    if d["k"] == "cat" and d["transform"] is None and rs.rand() < .3:
        d["transform"] = "string" if len(set(map(str, d["cats"]))) == \
            len(d["cats"]) else "identity"
    if d["k"] == "cat" and len(d["cats"]) > 1 and rs.rand() < .5:
        # lopsided priors: impossible, rare and nearly certain categories
        w = rs.choice([0.0, 0.0, 1e-4, 0.001, 0.004, 0.02, 1.0, 1.0, 3.0],
                      size=len(d["cats"]))
        w[rs.randint(len(w))] = 1.0
        d["prior"] = [float(v) for v in w / w.sum()]
    return law(rs, mon, d)


def run_space(rs, mon):
    spec = gen.space_spec(rs, max_dims=5, transforms=True, dtypes=True,
                          tuples=True)
    space = gen.build_space(spec)
    trs = space.get_transformer()
    declared = [dict(d, transform=t) for d, t in zip(spec, trs)]
    seed = gen.seed(rs)
    np.random.seed(seed % 1000)
    before = gen.state_of_global_rng()
    for n in (1, int(rs.randint(2, 60))):
        a = space.rvs(n, random_state=seed)
        b = gen.build_space(spec).rvs(n_samples=n, random_state=seed)
        c = space.rvs(n, random_state=np.random.RandomState(seed))
        mon.check(len(a) == n, "count", lambda: "%d of %d" % (len(a), n))
        for x in a:
            bad = gen.illegal_point(declared, x)
            mon.check(bad is None, "legal", lambda: "%r: %s" % (x, bad))
        mon.check(gen.same_points(a, b), "same-seed",
                  lambda: "%r != %r" % (a[:2], b[:2]))
        mon.check(gen.same_points(a, c), "same-seed",
                  lambda: "RandomState: %r != %r" % (a[:2], c[:2]))
    mon.check(len(space.rvs(random_state=seed)) == 1, "count")
    # a generator object is advanced, not restarted
    if any(d["k"] != "cat" and d["high"] - d["low"] > 20 or
           d["k"] == "real" for d in spec):
        r = np.random.RandomState(seed)
        x, y = space.rvs(6, random_state=r), space.rvs(6, random_state=r)
        z = space.rvs(6, random_state=seed + 1)
        mon.check(not gen.same_points(x, y) and not gen.same_points(a[:6], z)
                  and not gen.same_points(x, z), "different-seeds",
                  lambda: "%r" % (x,))
    for d, dim in zip(declared, space.dimensions):
        vals = dim.rvs(n_samples=7, random_state=seed)
        mon.check(len(vals) == 7 and
                  all(gen.why_illegal(d, v) is None for v in vals), "legal",
                  lambda: "dimension %s gave %r" % (d, vals))
    mon.check(gen.state_of_global_rng() == before, "global-rng")
    for d, t in zip(spec, trs):
        mon.nontrivial([d["k"], d.get("prior") if d["k"] != "cat" else None,
                        d.get("base"), d.get("dtype"), t])


def run_joint(rs, mon):
    """Columns are drawn independently of each other."""
    spec = gen.space_spec(rs, min_dims=2, max_dims=4, kinds=("real",),
                          transforms=True)
    X = np.array(gen.build_space(spec).rvs(
        2000, random_state=gen.seed(rs)), dtype=float)
    for i in range(len(spec)):
        for j in range(i):
            r = stats.spearmanr(X[:, i], X[:, j])[0]
            mon.check(abs(r) < 7 / np.sqrt(2000), "independent",
                      lambda: "columns %d and %d: rank correlation %.3f, %s"
                      % (i, j, r, spec))
    # and successive points are not correlated
    r = stats.spearmanr(X[1:, 0], X[:-1, 0])[0]
    mon.check(abs(r) < 7 / np.sqrt(2000), "independent")


def int_law(d):
    """Probability of each integer (or of bins of them) under the prior."""
    lo, hi = d["low"], d["high"]
    n = hi - lo + 1
    if n <= 60:
        edges = np.arange(lo, hi + 2)
    else:
        if d["prior"] == "uniform":
            e = np.linspace(lo, hi + 1, 31)
        else:
            e = np.exp(np.linspace(np.log(lo), np.log(hi + 1), 31))
        edges = np.unique(np.round(e).astype(np.int64))
    return edges


def int_probs(d, edges, half=False):
    lo, hi = d["low"], d["high"]
    if d["prior"] == "uniform" and not half:
        return np.diff(edges) / float(hi - lo + 1)
    cuts = np.clip(edges - 0.5, lo, hi).astype(float)
    if d["prior"] == "uniform":
        return np.diff(cuts) / float(hi - lo)
    return np.diff(np.log(cuts)) / (np.log(hi) - np.log(lo))


def chi2_p(counts, probs):
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    if np.any(counts[probs <= 0] > 0):
        return 0.0
    keep = probs > 0
    counts, probs = counts[keep], probs[keep]
    if len(probs) < 2:
        return 1.0
    # each bin on its own: a rare one is invisible in the sum
    one = 2 * len(probs) * min(
        min(stats.binom.cdf(c, N, p), stats.binom.sf(c - 1, N, p))
        for c, p in zip(counts, probs))
    # merge rare bins
    order = np.argsort(probs)
    c, p = [], []
    ac = ap = 0.0
    for i in order:
        ac, ap = ac + counts[i], ap + probs[i]
        if ap * N >= 8:
            c.append(ac)
            p.append(ap)
            ac = ap = 0.0
    if c:
        c[-1] += ac
        p[-1] += ap
    if len(c) < 2:
        return one
    c, p = np.array(c), np.array(p)
    x2 = np.sum((c - N * p) ** 2 / (N * p))
    return min(one, stats.chi2.sf(x2, len(c) - 1))


def law(rs, mon, d):
    space = gen.build_space([d])
    t = space.get_transformer()[0]
    seed = gen.seed(rs)
    X = [x[0] for x in space.rvs(N, random_state=seed)]
    mon.check(len(X) == N, "count")
    mon.count("samples", N)
    mon.nontrivial([d["k"], d.get("prior") if d["k"] != "cat" else
                    bool(d["prior"]), d.get("base"), d.get("dtype"), t,
                    d.get("low"), d.get("high"), d.get("cats")])
    if d["k"] == "real":
        x = np.array(X, dtype=float)
        if d["prior"] == "uniform":
            u = (x - d["low"]) / (d["high"] - d["low"])
        else:
            u = (np.log(x) - np.log(d["low"])) / (np.log(d["high"]) -
                                                  np.log(d["low"]))
        # short float types are lattices: jitter within their resolution
        if d["dtype"] in ("float16", "float32"):
            u = np.clip(u, 0, 1)
            thr = 0.06 if d["dtype"] == "float16" else 0.05
            D = stats.kstest(u, "uniform")[0]
            mon.check(D < thr, "law-real", lambda: "%s KS distance %g" % (d, D))
        else:
            p = stats.kstest(u, "uniform")[1]
            mon.check(p > ALPHA, "law-real", lambda: "%s KS p=%g" % (d, p))
    elif d["k"] == "int":
        x = np.array([int(v) for v in X])
        edges = int_law(d)
        counts = np.histogram(x, bins=np.append(edges[:-1], edges[-1]) - 0.5)[0]
        probs = int_probs(d, edges)
        p = chi2_p(counts, probs)
        half = t == "normalize" and d["prior"] == "uniform" and \
            chi2_p(counts, int_probs(d, edges, half=True)) > ALPHA
        key = "half-endpoints" if half else "law-int"
        mon.check(p > ALPHA, key,
                  lambda: "%s %s: counts %s, expected %s" % (
                      d, t, counts.tolist(), np.round(N * probs, 1).tolist()))
        if key != "law-int":
            mon.evals["law-int"] = mon.evals.get("law-int", 0) + 1
        if d["high"] - d["low"] < 40 and d["prior"] == "uniform":
            mon.check(set(x) == set(range(d["low"], d["high"] + 1)),
                      "all-reachable", lambda: "%s: %s" % (d, set(x)))
    else:
        cats = gen.cats_of(d)
        probs = np.array(d["prior"] if d["prior"] is not None
                         else [1.0 / len(cats)] * len(cats))
        counts = np.zeros(len(cats))
        for v in X:
            for i, c in enumerate(cats):
                if gen.same_cat(v, c):
                    counts[i] += 1
        mon.check(counts.sum() == N, "legal")
        p = chi2_p(counts, probs)
        half = False
        if t == "normalize" and d["prior"] is None and len(cats) > 1:
            w = np.ones(len(cats))
            w[[0, -1]] = 0.5
            h1 = chi2_p(counts, w / w.sum()) > ALPHA
            # labels may be in sorted order
            try:
                o = np.argsort(np.argsort(cats))
                h1 = h1 or chi2_p(counts[np.argsort(o)], w / w.sum()) > ALPHA
            except TypeError:
                pass
            half = h1
        key = "half-endpoints" if half else "law-cat"
        mon.check(p > ALPHA, key, lambda: "%s %s: counts %s" % (
            d, t, counts.tolist()))
        if key != "law-cat":
            mon.evals["law-cat"] = mon.evals.get("law-cat", 0) + 1
