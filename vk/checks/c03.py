"""C03 warped bounds describe exactly the whole space."""
import numpy as np
from vk import gen
from vk.checks.c02 import same_after, representable, sig

RULE = ("a case is a generated numeric or mixed space; warped points are "
        "drawn inside the box, on its corners and faces, and a rounding error "
        "outside; or an Optimizer run with a monotone stub surrogate whose "
        "optimum is a corner of the box; non-trivial: distinct dimension "
        "configurations and corners")
ASSUMPTIONS = ["categories with the identity transform have no warped box; "
               "only the suggestion of each of them is checked"]
REQUIRED = ["bounds-are-images", "bounds-match-declared", "box-point-legal",
            "reachable", "corner-suggested",
            "category-suggested"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    return [{"kind": "space"} for _ in range(2500 * k)] + \
        [{"kind": "corner"} for _ in range(500 * k)] + \
        [{"kind": "category"} for _ in range(300 * k)]


def expected_bounds(d, t):
    if t == "normalize":
        return 0.0, 1.0
    if d["prior"] == "uniform":
        return float(d["low"]), float(d["high"])
    return (np.log(d["low"]) / np.log(d["base"]),
            np.log(d["high"]) / np.log(d["base"]))


def close(a, b, span):
    return abs(a - b) <= 1e-9 * max(span, abs(a), abs(b)) + 1e-300


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    if case["kind"] == "corner":
        return run_corner(rs, mon)
    if case["kind"] == "category":
        return run_category(rs, mon)
    spec = gen.space_spec(rs, transforms=True, dtypes=True)
    space = gen.build_space(spec)
    if rs.rand() < 0.3:
        space.set_transformer("normalize")
    trs = space.get_transformer()
    for d, t, dim in zip(spec, trs, space.dimensions):
        if d["k"] == "cat":
            continue
        lo, hi = [float(v) for v in dim.transformed_bounds]
        img = [float(v) for v in np.ravel(dim.transform([d["low"],
                                                         d["high"]]))]
        span = max(abs(lo), abs(hi))
        mon.check(close(lo, img[0], span) and close(hi, img[1], span),
                  "bounds-are-images", lambda: "%s: bounds %r, images %r" % (
                      d, (lo, hi), img))
        e = expected_bounds(d, t)
        mon.check(close(lo, e[0], span) and close(hi, e[1], span),
                  "bounds-match-declared",
                  lambda: "%s: bounds %r, declared %r" % (d, (lo, hi), e))
        mon.check(tuple(dim.bounds) == (d["low"], d["high"]),
                  "bounds-kept", lambda: "%s: %r" % (d, dim.bounds))
        mon.nontrivial(sig(d, t))
    bounds = np.array([(float(a), float(b))
                       for a, b in space.transformed_bounds])
    lo, hi = bounds[:, 0], bounds[:, 1]
    k = 40
    U = rs.rand(k, len(lo))
    for r in range(k):
        m = rs.rand(len(lo))
        U[r, m < 0.2] = 0.0
        U[r, m > 0.8] = 1.0
    Z = lo + U * (hi - lo)
    Z[U == 1.0] = np.broadcast_to(hi, Z.shape)[U == 1.0]
    for r in range(0, k, 4):       # a rounding error outside
        f = rs.rand(len(lo)) < 0.5
        Z[r] = np.where(f & (U[r] == 0), np.nextafter(lo, -np.inf), Z[r])
        Z[r] = np.where(f & (U[r] == 1), np.nextafter(hi, np.inf), Z[r])
    declared = [dict(d, transform=t) for d, t in zip(spec, trs)]
    for z, x in zip(Z, space.inverse_transform(Z)):
        bad = gen.illegal_point(declared, list(x))
        mon.check(bad is None, "box-point-legal",
                  lambda: "warped %r -> %r: %s" % (z.tolist(), x, bad))
    mon.count("box points", k)
    X = [[representable(d, gen.rand_value(rs, d, 0.5)) for d in spec]
         for _ in range(15)]
    X.append([representable(d, d["low"] if d["k"] != "cat"
                            else gen.cats_of(d)[0]) for d in spec])
    X.append([representable(d, d["high"] if d["k"] != "cat"
                            else gen.cats_of(d)[-1]) for d in spec])
    Xc = np.clip(space.transform(X).astype(float), lo, hi)
    for x, y in zip(X, space.inverse_transform(Xc)):
        mon.check(all(same_after(d, v, w, loose=True)
                      for d, v, w in zip(spec, x, y)), "reachable",
                  lambda: "%r, inside the box, becomes %r (%s)" % (x, y, spec))
    mon.sample({"spec": spec, "box": bounds.tolist()})


def make_stub(w, lo):
    from vk import stubs
    return stubs.LinearModel(w=tuple(w), lo=tuple(lo))


def run_corner(rs, mon):
    """With a linear model the best suggestion is a corner of the space."""
    from skopt import Optimizer
    spec = gen.space_spec(rs, max_dims=3, kinds=("real", "int"),
                          transforms=True)
    # the search effort of L-BFGS is limited: no axes of extreme length
    spec = [d for d in spec if 1e-3 <= np.diff(expected_bounds(
        d, d["transform"]))[0] <= 200] or [
            {"k": "real", "low": 0.01, "high": 50.0, "prior": "log-uniform",
             "base": 2, "transform": None, "dtype": "float"}]
    space = gen.build_space(spec)
    b = np.array([expected_bounds(d, t) for d, t in
                  zip(spec, space.get_transformer())])
    sign = rs.choice([-1.0, 1.0], len(spec))
    w = sign / (b[:, 1] - b[:, 0])
    opt = Optimizer(gen.build_dims(spec), make_stub(w, b[:, 0]), n_initial_points=2,
                    acq_func=str(rs.choice(["LCB", "EI"])),
                    acq_optimizer="lbfgs",
                    random_state=gen.seed(rs),
                    acq_optimizer_kwargs={"n_points": 60,
                                          "n_restarts_optimizer": 2})
    for _ in range(2):
        x = opt.ask()
        opt.tell(x, float(rs.rand() * 2))
    x = opt.ask()
    want = [d["high"] if s < 0 else d["low"] for d, s in zip(spec, sign)]
    for d, v, e, s in zip(spec, x, want, sign):
        tol = 0 if d["k"] == "int" else 1e-6 * abs(
            (d["high"] - d["low"]) if d["prior"] == "uniform" else e)
        mon.check(abs(float(v) - float(e)) <= tol, "corner-suggested",
                  lambda: "model decreasing towards %r of %s, suggested %r"
                  % (e, d, v))
        mon.nontrivial(["corner", sig(d, d["transform"]), float(s)])


def run_category(rs, mon):
    """With a model that prefers one category, that category is suggested."""
    from skopt import Optimizer
    cat = gen.cat_spec(rs, priors=False, min_cats=2, transform=[
        None, "onehot", "label", "identity"][rs.randint(4)])
    if cat["transform"] == "identity" and \
            not all(type(c) in (int, float) for c in cat["cats"]):
        cat["transform"] = "label"
    other = gen.real_spec(rs) if rs.rand() < 0.6 else gen.int_spec(rs)
    spec = [other, cat] if rs.rand() < 0.5 else [cat, other]
    space = gen.build_space(spec)
    at = spec.index(cat)
    cats = gen.cats_of(cat)
    images = []
    for c in cats:
        img = np.ravel(space.dimensions[at].transform([c])).astype(float)
        images.append(img)
    images = np.array(images)
    weights = rs.randn(images.shape[1])
    score = images.dot(weights)
    order = np.argsort(score)
    gap = score[order[1]] - score[order[0]]
    if not gap > 1e-3:
        weights = np.ones(images.shape[1])
        if images.shape[1] > 1:
            weights[-1] = -1.0
            weights[:-1] = np.linspace(1, 2, images.shape[1] - 1)
        score = images.dot(weights)
        order = np.argsort(score)
        gap = score[order[1]] - score[order[0]]
    want = cats[int(order[0])]
    e = expected_bounds(other, "identity")
    w_other = 0.5 * gap / (e[1] - e[0])
    w = [w_other] + list(weights) if at == 1 else list(weights) + [w_other]
    lo = [e[0]] + [0.0] * len(weights) if at == 1 else \
        [0.0] * len(weights) + [e[0]]
    opt = Optimizer(gen.build_dims(spec), make_stub(w, lo),
                    n_initial_points=1, acq_func="LCB",
                    acq_optimizer="sampling",
                    random_state=gen.seed(rs),
                    acq_optimizer_kwargs={"n_points": 500})
    opt.tell(opt.ask(), float(rs.rand()))
    x = opt.ask()
    mon.check(gen.loose_same(x[at], want), "category-suggested",
              lambda: "model prefers %r, suggested %r (%s)" % (want, x[at],
                                                               spec))
    mon.nontrivial(["category", sig(cat, cat["transform"]), int(order[0])])
