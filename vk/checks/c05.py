"""C05 membership, distance, equality and shorthand inference."""
import numpy as np
from vk import gen

RULE = ("a case is a generated space with points inside, on, just outside "
        "and far outside each bound, foreign categories, missing/extra "
        "values; triples for the metric; mutated copies for equality; or a "
        "shorthand description; non-trivial: distinct dimension kinds x "
        "kinds of outside value / mutation / shorthand form")
REQUIRED = ["member", "non-member", "metric", "distance-sum",
            "outside-distance-refused", "outside-warp-refused", "equal", "unequal", "shorthand"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    return [{"kind": "member"} for _ in range(1500 * k)] + \
        [{"kind": "metric"} for _ in range(1000 * k)] + \
        [{"kind": "equal"} for _ in range(1000 * k)] + \
        [{"kind": "short"} for _ in range(1500 * k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"member": run_member, "metric": run_metric, "equal": run_equal,
     "short": run_short}[case["kind"]](rs, mon)


def outsiders(rs, d):
    """Values that are not in the dimension, with a tag."""
    if d["k"] == "cat":
        cats = gen.cats_of(d)
        pool = ["zzz", "A", -12345, 0.123456, "aa", 77]
        return [("foreign", v) for v in pool
                if not any(v == c for c in cats)]
    lo, hi = d["low"], d["high"]
    span = hi - lo
    if d["k"] == "int":
        vals = [lo - 1, hi + 1, lo - span - 5, hi + span + 5,
                np.int64(hi + 1), float(hi) + 1.0]
    else:
        vals = [float(np.nextafter(lo, -np.inf)),
                float(np.nextafter(hi, np.inf)), lo - span, hi + span * 2,
                np.float64(hi + span), -np.inf, np.inf]
    return [("below" if v < lo else "above", v) for v in vals]


def variant(rs, d, v):
    """The same value in another guise."""
    if d["k"] == "int":
        return [v, np.int64(v), int(v)][rs.randint(3)]
    if d["k"] == "real":
        return [v, np.float64(v)][rs.randint(2)]
    return v


def run_member(rs, mon):
    spec = gen.space_spec(rs, max_dims=4, transforms=True, dtypes=True,
                          tuples=True)
    space = gen.build_space(spec)
    for _ in range(8):
        x = [variant(rs, d, gen.rand_value(rs, d, 0.5)) for d in spec]
        mon.check(x in space, "member", lambda: "%r not in %s" % (x, spec))
        for d, v, dim in zip(spec, x, space.dimensions):
            mon.check(v in dim, "member", lambda: "%r not in %s" % (v, d))
        j = rs.randint(len(spec))
        outs = outsiders(rs, spec[j])
        if outs:
            tag, v = outs[rs.randint(len(outs))]
            y = list(x)
            y[j] = v
            mon.check(y not in space, "non-member",
                      lambda: "%r in %s" % (y, spec))
            mon.check(v not in space.dimensions[j], "non-member",
                      lambda: "%r in %s" % (v, spec[j]))
            mon.nontrivial([spec[j]["k"], tag, len(spec), j])
            try:
                dist = space.distance(x, y)
                mon.check(False, "outside-distance-refused",
                          "distance(%r, %r) = %r" % (x, y, dist))
            except RuntimeError:
                mon.check(True, "outside-distance-refused")
            try:
                dist = space.distance(y, x)
                mon.check(False, "outside-distance-refused",
                          "distance(%r, %r) = %r" % (y, x, dist))
            except RuntimeError:
                mon.check(True, "outside-distance-refused")
        warp_outside(rs, mon, spec[j], x[j])
        y = x[:-1] if rs.rand() < 0.5 else x + [x[-1]]
        mon.check(y not in space, "non-member", lambda: "%r in %s" % (y, spec))
        try:
            space.distance(x, y)
            mon.check(False, "outside-distance-refused", "length %r" % (y,))
        except RuntimeError:
            mon.check(True, "outside-distance-refused")


def warp_outside(rs, mon, d, inside):
    """A normalised numeric dimension does not warp what is outside it."""
    if d["k"] == "cat":
        return
    dim = gen.build_dims([dict(d, transform="normalize")])[0]
    span = d["high"] - d["low"]
    far = d["high"] + max(1, span)
    if d["prior"] == "uniform" and rs.rand() < 0.5:
        far = d["low"] - max(1, span)
    values = [inside] * rs.randint(3) + [far] + [inside] * rs.randint(3)
    try:
        out = dim.transform(values)
        mon.check(False, "outside-warp-refused", lambda: "%s: %r became %r" % (
            d, values, out))
    except ValueError:
        mon.check(True, "outside-warp-refused")
    values = [0.5] * rs.randint(3) + [[-0.5, 1.5][rs.randint(2)]] + \
        [0.5] * rs.randint(3)
    try:
        out = dim.inverse_transform(np.array(values))
        mon.check(False, "outside-warp-refused", lambda: "%s: warped %r "
                  "became %r" % (d, values, out))
    except ValueError:
        mon.check(True, "outside-warp-refused")


def model_distance(spec, a, b):
    total = 0.0
    for d, v, w in zip(spec, a, b):
        if d["k"] == "cat":
            total += 0 if gen.same_cat(v, w) or v == w else 1
        elif d["k"] == "int":
            total += abs(int(v) - int(w))
        else:
            total += abs(float(v) - float(w))
    return total


def run_metric(rs, mon):
    spec = gen.space_spec(rs, max_dims=4, transforms=True, dtypes=True,
                          tuples=True)
    space = gen.build_space(spec)
    pts = [list(p) for p in space.rvs(4, random_state=rs.randint(2 ** 31))]
    pts += [gen.rand_point(rs, spec, 0.4) for _ in range(2)]
    pts.append(list(pts[0]))
    p = list(pts[0])
    j = rs.randint(len(spec))
    p[j] = gen.rand_value(rs, spec[j], 0.4)
    pts.append(p)
    D = np.array([[float(space.distance(a, b)) for b in pts] for a in pts])
    n = len(pts)
    for i in range(n):
        for k in range(n):
            e = model_distance(spec, pts[i], pts[k])
            mon.check(abs(D[i, k] - e) <= 1e-3 * e * any(
                d.get("dtype") in ("float16", "float32") for d in spec) +
                1e-9 * e, "distance-sum",
                lambda: "d(%r, %r) = %r, expected %r" % (pts[i], pts[k],
                                                         D[i, k], e))
            mon.check(D[i, k] >= 0 and D[i, k] == D[k, i], "metric",
                      lambda: "d(%r, %r) = %r, reversed %r" % (
                          pts[i], pts[k], D[i, k], D[k, i]))
            same = gen.same_points([pts[i]], [pts[k]]) or e == 0
            mon.check((D[i, k] == 0) == same, "metric",
                      lambda: "d(%r, %r) = %r" % (pts[i], pts[k], D[i, k]))
            for m in range(n):
                mon.check(D[i, k] <= (D[i, m] + D[m, k]) * 1.003 + 1e-9,
                          "metric", lambda: "triangle %r %r %r" % (
                              pts[i], pts[m], pts[k]))
    mon.nontrivial([[d["k"], d.get("dtype")] for d in spec])


def mutate(rs, spec):
    """A clearly different spec and what was done to it."""
    out = [dict(d) for d in spec]
    j = rs.randint(len(spec))
    d = out[j]
    ops = ["drop", "append", "kind"]
    if d["k"] != "cat":
        ops += ["low", "high", "both"]
        if d["low"] > 0:
            ops += ["prior"] * 2
    else:
        if len(d["cats"]) > 1:
            ops += ["fewer", "weights"]
        ops += ["more", "rename"]
    if len(out) > 1 and gen.plain(out[0]) != gen.plain(out[-1]):
        ops.append("swap")
    op = ops[rs.randint(len(ops))]
    if op == "drop":
        if len(out) == 1:
            out.append(dict(out[0]))
        else:
            out.pop(-1 if rs.rand() < .6 else j)
            if len(out) == len(spec):
                out.pop()
    elif op == "append":
        out.append(dict(out[rs.randint(len(out))]))
    elif op == "kind":
        if d["k"] == "cat":
            out[j] = {"k": "int", "low": 0, "high": 3, "prior": "uniform",
                      "base": 10, "transform": None, "dtype": "int64"}
        elif d["k"] == "real":
            out[j] = {"k": "int", "low": 1, "high": 7, "prior": "uniform",
                      "base": 10, "transform": None, "dtype": "int64"}
        else:
            out[j] = {"k": "real", "low": float(d["low"]),
                      "high": float(d["high"]), "prior": d["prior"],
                      "base": 10, "transform": None, "dtype": "float"}
    elif op in ("low", "high", "both"):
        w = d["high"] - d["low"]
        if d["k"] == "int":
            step = int(rs.choice([1, 1, max(1, w // 7)]))
            if op == "low" and w > step:
                d["low"] += step
            else:
                d["high"] += step
                op = "high"
            if op == "both":
                d["high"] += 1
        else:
            f = w * float(rs.choice([1e-3, 0.1, 0.5]))
            if op in ("low", "both"):
                d["low"] = d["low"] + f
            if op in ("high", "both"):
                d["high"] = d["high"] + f
    elif op == "prior":
        d["prior"] = "uniform" if d["prior"] == "log-uniform" else \
            "log-uniform"
    elif op == "fewer":
        d["cats"] = d["cats"][:-1]
        d["prior"] = None
    elif op == "more":
        d["cats"] = d["cats"] + ([[9, 9]] if d.get("tuples") else ["extra"])
        d["prior"] = None
    elif op == "rename":
        d["cats"] = d["cats"][:-1] + ([[8, 8]] if d.get("tuples") else
                                      ["other"])
    elif op == "weights":
        p = np.arange(1.0, len(d["cats"]) + 1)
        if d["prior"] is not None and np.argmax(d["prior"]) == len(p) - 1:
            p = p[::-1]
        d["prior"] = [float(v) for v in p / p.sum()]
    elif op == "swap":
        out[0], out[-1] = out[-1], out[0]
    return out, op


def strip(d):
    if d["k"] == "cat":
        return ["cat", gen.plain(d["cats"]), d["prior"] or [
            1.0 / len(d["cats"])] * len(d["cats"])]
    return [d["k"], d["low"], d["high"], d["prior"]]


def run_equal(rs, mon):
    spec = gen.space_spec(rs, max_dims=4, tuples=True)
    a, b = gen.build_space(spec), gen.build_space(spec)
    mon.check(a == b and b == a and a == a, "equal", lambda: str(spec))
    mon.check(not (a != b), "equal", lambda: str(spec))
    if rs.rand() < 0.3:          # the same transform on both sides
        a.set_transformer("normalize")
        b.set_transformer("normalize")
        mon.check(a == b, "equal", lambda: str(spec))
    for _ in range(4):
        other, op = mutate(rs, spec)
        if [strip(d) for d in other] == [strip(d) for d in spec]:
            continue
        c = gen.build_space(other)
        if a.get_transformer() != gen.build_space(spec).get_transformer():
            c.set_transformer("normalize")
        mon.check(not (a == c) and not (c == a) and a != c, "unequal",
                  lambda: "%s: %s == %s" % (op, spec, other))
        mon.nontrivial([op, [d["k"] for d in spec]])


def run_short(rs, mon):
    from skopt.space import Categorical, Integer, Real, Space
    from skopt.space.space import check_dimension
    lo = int(rs.randint(1, 50))
    hi = lo + int(rs.randint(1, 100))
    flo = float(np.round(10 ** rs.uniform(-6, 2), 9))
    fhi = float(flo * 10 ** rs.uniform(0.2, 4))
    forms = [
        ("int2", (lo, hi), ("int", lo, hi, "uniform", 10)),
        ("int2neg", (-hi, lo), ("int", -hi, lo, "uniform", 10)),
        ("int2np", (np.int64(lo), np.int32(hi)), ("int", lo, hi, "uniform",
                                                  10)),
        ("real2", (flo, fhi), ("real", flo, fhi, "uniform", 10)),
        ("real2neg", (-fhi, flo), ("real", -fhi, flo, "uniform", 10)),
        ("real2mix", (lo, hi + 0.5), ("real", lo, hi + 0.5, "uniform", 10)),
        ("real2mix'", (lo - 0.5, hi), ("real", lo - 0.5, hi, "uniform", 10)),
        ("real2np", (np.float64(flo), fhi), ("real", flo, fhi, "uniform",
                                             10)),
        ("int3", (lo, hi, "uniform"), ("int", lo, hi, "uniform", 10)),
        ("int3log", (lo, hi, "log-uniform"), ("int", lo, hi, "log-uniform",
                                              10)),
        ("real3", (flo, fhi, "uniform"), ("real", flo, fhi, "uniform", 10)),
        ("real3log", (flo, fhi, "log-uniform"), ("real", flo, fhi,
                                                 "log-uniform", 10)),
        ("mix3log", (flo, int(fhi) + 1, "log-uniform"),
         ("real", flo, int(fhi) + 1, "log-uniform", 10)),
        ("mix3log'", (lo, hi + 0.25, "log-uniform"),
         ("real", lo, hi + 0.25, "log-uniform", 10)),
        ("int4", (lo, hi, "log-uniform", 2), ("int", lo, hi, "log-uniform",
                                              2)),
        ("real4", (flo, fhi, "log-uniform", 2), ("real", flo, fhi,
                                                 "log-uniform", 2)),
        ("mix4", (flo, int(fhi) + 1, "log-uniform", 3),
         ("real", flo, int(fhi) + 1, "log-uniform", 3)),
        ("cat1", ("x%d" % lo,), ("cat", ("x%d" % lo,))),
        ("cat1num", (lo,), ("cat", (lo,))),
        ("cat2", ("a", "b%d" % lo), ("cat", ("a", "b%d" % lo))),
        ("cat2bool", (True, False), ("cat", (True, False))),
        ("cat2mix", ("a", lo), ("cat", ("a", lo))),
        ("cat2npbool", (np.True_, np.False_), ("cat", (np.True_,
                                                       np.False_))),
        ("cat3bool", (False, True, lo + 1), ("cat", (False, True, lo + 1))),
        ("cat3", ("a", "b", "c%d" % hi), ("cat", ("a", "b", "c%d" % hi))),
        ("cat3num", (lo, hi, hi + 3), ("cat", (lo, hi, hi + 3))),
        ("cat4", (lo, hi, hi + 3, hi + 9), ("cat", (lo, hi, hi + 3, hi + 9))),
        ("cat4f", (0.5, flo + 1, fhi + 2, 9e9),
         ("cat", (0.5, flo + 1, fhi + 2, 9e9))),
        ("cat5", tuple("abcd") + ("e%d" % lo,),
         ("cat", tuple("abcd") + ("e%d" % lo,))),
        ("catstr3", ("1", "2", "uniform"), ("cat", ("1", "2", "uniform"))),
    ]
    for _ in range(4):
        tag, desc, want = forms[rs.randint(len(forms))]
        if rs.rand() < 0.4:
            desc = list(desc)
        dim = check_dimension(desc) if rs.rand() < 0.5 else \
            Space([desc]).dimensions[0]
        cls = {"int": Integer, "real": Real, "cat": Categorical}[want[0]]
        ok = type(dim) is cls
        if ok and want[0] == "cat":
            ok = tuple(dim.categories) == want[1] and all(
                type(p) is type(q) for p, q in zip(dim.categories, want[1]))
        elif ok:
            ok = (dim.low == want[1] and dim.high == want[2] and
                  dim.prior == want[3] and dim.base == want[4])
        mon.check(ok, "shorthand", lambda: "%s %r became %r (base %s)" % (
            tag, desc, dim, getattr(dim, "base", None)))
        mon.nontrivial([tag, type(desc).__name__])
    d = check_dimension(dim)
    mon.check(d is dim or d == dim, "shorthand")
    bad = [(hi, lo), (fhi, flo), (2.5, 2.5), "abc", 3.0, None,
           {"a": 1}][rs.randint(7)]
    try:
        r = check_dimension(bad)
        mon.check(False, "bad-shorthand-refused", "%r became %r" % (bad, r))
    except (ValueError, TypeError):
        mon.check(True, "bad-shorthand-refused")
