"""C02 warp round trip: transform / inverse_transform over generated spaces."""
import numpy as np
from vk import gen

RULE = ("a case is a generated space (kinds, bounds over 20 decades, priors, "
        "bases, dtypes, category types, transforms), 30 points incl. bounds "
        "and sampled ones, and a random sequence of set_transformer calls; "
        "non-trivial: distinct (kind, prior, base, dtype, transform, "
        "category types) per dimension that went through the round trip")
REQUIRED = ["round-trip", "shape", "within-bounds", "batch-independent",
            "string-round-trip"]


def cases(tier, seed):
    n = 3000 if tier == "quick" else 60000
    return [{"kind": "space"} for _ in range(n)] + \
        [{"kind": "string"} for _ in range(n // 6)]


def value_tol(d, v):
    """How far a real value may be after the round trip."""
    eps = {"float16": 2.0 ** -10, "float32": 2.0 ** -22}.get(d["dtype"],
                                                          2.0 ** -50)
    scale = abs(v)
    if d["prior"] == "uniform":
        scale = max(abs(d["low"]), abs(d["high"]))
        return 16 * eps * scale
    # relative error grows with the magnitude of the logarithm
    width = max(abs(np.log(d["low"])), abs(np.log(d["high"])), 1.0)
    return 16 * max(eps, 2.0 ** -50 * width) * scale


def same_after(d, v, w, loose=False):
    if d["k"] == "real":
        return isinstance(w, (float, np.floating)) and \
            abs(float(v) - float(w)) <= value_tol(d, float(v))
    if d["k"] == "int":
        return isinstance(w, (int, np.integer)) and int(v) == int(w)
    return (gen.loose_same if loose else gen.same_cat)(w, v)


def representable(d, v):
    if d["k"] == "real" and d["dtype"] in ("float16", "float32"):
        t = np.dtype(d["dtype"]).type
        w = float(t(v))
        if w < d["low"]:
            w = float(np.nextafter(t(v), t(np.inf)))
        if w > d["high"]:
            w = float(np.nextafter(t(v), t(-np.inf)))
        return w
    return v


def sig(d, t):
    return [d["k"], d.get("prior") if d["k"] != "cat" else None,
            d.get("base"), d.get("dtype"), t,
            sorted(set(type(c).__name__ for c in d.get("cats", [])))]


def check_round(mon, spec, space, X, tag):
    trs = space.get_transformer()
    Xt = space.transform(X)
    mon.check(isinstance(Xt, np.ndarray) and
              Xt.shape == (len(X), space.transformed_n_dims), "shape",
              lambda: "%s columns %s, advertised %s (%s)" % (
                  tag, getattr(Xt, "shape", None), space.transformed_n_dims,
                  spec))
    if Xt.ndim != 2 or len(Xt) != len(X):
        return
    bounds = list(space.transformed_bounds)
    mon.check(len(bounds) == Xt.shape[1], "shape",
              lambda: "%d bounds for %d columns" % (len(bounds), Xt.shape[1]))
    if len(bounds) == Xt.shape[1]:
        for j, (lo, hi) in enumerate(bounds):
            col = Xt[:, j].astype(float)
            tol = 1e-9 * max(abs(lo), abs(hi), 1e-300)
            if hi - lo < 1:
                tol = max(tol, 1e-12)
            mon.check(np.all(col >= lo - tol) and np.all(col <= hi + tol),
                      "within-bounds",
                      lambda: "%s column %d in [%r, %r], bounds (%r, %r), %s"
                      % (tag, j, col.min(), col.max(), lo, hi, spec))
    X2 = space.inverse_transform(Xt)
    mon.check(len(X2) == len(X), "round-trip",
              lambda: "%d points became %d" % (len(X), len(X2)))
    for x, y in zip(X, X2):
        ok = len(y) == len(x)
        if ok:
            for d, t, v, w in zip(spec, trs, x, y):
                if not same_after(d, v, w, loose=t == "identity"):
                    ok = False
                    break
        mon.check(ok, "round-trip",
                  lambda: "%s: %r -> %r; %s %s" % (tag, x, y, trs, spec))
        bad = gen.illegal_point([dict(d, transform=t)
                                 for d, t in zip(spec, trs)], list(y))
        mon.check(bad is None, "kind-kept", bad)
    # values of short float types are warped in their own precision
    column_tol = []
    for d, t in zip(spec, trs):
        tol = 1e-12 * 20
        if d["k"] == "real" and d["dtype"] in ("float16", "float32"):
            eps = 2.0 ** (-9 if d["dtype"] == "float16" else -21)
            tol = 8 * eps * max(1.0, max(abs(d["low"]), abs(d["high"])) /
                                (d["high"] - d["low"]))
        elif d["k"] != "cat" and t != "normalize" and d["prior"] == "uniform":
            tol = 1e-12 * max(abs(d["low"]), abs(d["high"]))
        n = 1
        if d["k"] == "cat" and t == "onehot" and len(d["cats"]) > 2:
            n = len(d["cats"])
        column_tol += [tol] * n
    column_tol = np.array(column_tol)
    for k in (0, len(X) - 1):
        row = space.transform([X[k]])
        mon.check(row.shape == (1, Xt.shape[1]) and
                  np.all(np.abs(row[0].astype(float) - Xt[k].astype(float)) <=
                         column_tol),
                  "batch-independent",
                  lambda: "%r alone -> %r, in a batch -> %r" % (
                      X[k], row.tolist(), Xt[k].tolist()))
    # decoding rows one at a time and in another grouping
    for k in sorted({0, 1, len(X) // 2, len(X) - 1}):
        one = space.inverse_transform(Xt[k:k + 1])
        mon.check(len(one) == 1 and len(one[0]) == len(spec) and all(
            same_after(d, v, w, loose=t == "identity")
            for d, t, v, w in zip(spec, trs, X[k], one[0])),
            "batch-independent", lambda: "%r alone comes back as %r; %s %s" % (
                X[k], one, trs, spec))
    for d, t in zip(spec, trs):
        mon.nontrivial(sig(d, t))
    mon.count("points", len(X))


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    if case["kind"] == "string":
        return run_string(rs, mon)
    spec = gen.space_spec(rs, transforms=True, dtypes=True, tuples=True)
    for d in spec:
        if d["k"] == "cat" and d["transform"] is None and rs.rand() < 0.2 and \
                all(type(c) in (int, float) for c in d["cats"]):
            d["transform"] = "identity"
    space = gen.build_space(spec)
    X = [[representable(d, gen.rand_value(rs, d, 0.3)) for d in spec]
         for _ in range(20)]
    X += [list(x) for x in space.rvs(10, random_state=rs.randint(2 ** 31))]
    mon.sample({"spec": spec, "point": gen.plain(X[0])})
    check_round(mon, spec, space, X, "declared")
    for _ in range(rs.randint(3)):
        if rs.rand() < 0.5:
            space.set_transformer("normalize")
        else:
            space.set_transformer([
                ["onehot", "label", "normalize"][rs.randint(3)]
                if d["k"] == "cat" else ["identity", "normalize"][rs.randint(2)]
                for d in spec])
        check_round(mon, spec, space, X, "after set_transformer")
    # per dimension: the same laws without packing
    for d, dim in zip(spec, space.dimensions):
        vals = [x[spec.index(d)] for x in X[:6]]
        back = dim.inverse_transform(dim.transform(vals))
        mon.check(len(back) == len(vals) and all(
            same_after(d, v, w, loose=True) for v, w in zip(vals, back)),
            "round-trip", lambda: "dimension %s: %r -> %r" % (d, vals, back))
        for v in vals[:3]:
            back = dim.inverse_transform(dim.transform([v]))
            mon.check(len(back) == 1 and same_after(d, v, back[0], loose=True),
                      "round-trip",
                      lambda: "dimension %s: [%r] -> %r" % (d, v, back))


def run_string(rs, mon):
    pool = [c for c in gen.CATS if len(set(str(v) for v in c)) == len(c)]
    d = gen.cat_spec(rs, transform="string", pool=pool)
    dim = gen.build_dim(d)
    cats = gen.cats_of(d)
    vals = [cats[rs.randint(len(cats))] for _ in range(8)] + cats
    warped = dim.transform(vals)
    mon.check(len(warped) == len(vals) and
              all(isinstance(w, str) for w in warped), "string-round-trip",
              lambda: "warped %r" % (warped,))
    back = dim.inverse_transform(warped)
    mon.check(len(back) == len(vals) and all(
        gen.same_cat(w, v) for v, w in zip(vals, back)), "string-round-trip",
        lambda: "%r -> %r -> %r" % (vals, list(warped), list(back)))
    mon.nontrivial(["string", sorted(set(type(c).__name__ for c in cats))])
