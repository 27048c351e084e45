"""C06 initial designs: count, legality, determinism, untouched arguments."""
import numpy as np
from vk import gen
from vk.checks.designs import build_design, gen_design

RULE = ("a case is a generator with options, a generated space (all kinds, "
        "1-6 dimensions, transforms) and a size 0-70; spaces of 7-300 dimensions; also generators that "
        "must raise; non-trivial: distinct (generator, options, dimension "
        "kinds, size)")
REQUIRED = ["count", "legal", "same-seed", "reuse", "transformers-kept",
            "dims-kept", "global-rng", "kept-after-error", "other-seed",
            "optimizer-design"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    return [{"kind": "design"} for _ in range(1500 * k)] + \
        [{"kind": "raise"} for _ in range(150 * k)] + \
        [{"kind": "optimizer"} for _ in range(200 * k)] + \
        [{"kind": "wide"} for _ in range(20 * k)]


def freeze(dims):
    return [(type(d).__name__, d.transform_, d.name, gen.plain(d.bounds),
             repr(d.prior), gen.plain(np.ravel(
                 np.asarray(d.transform([d.bounds[0]]), dtype=float))))
            for d in dims]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"design": run_design, "raise": run_raise, "wide": run_wide,
     "optimizer": run_optimizer}[case["kind"]](rs, mon)


def run_design(rs, mon):
    spec = gen.space_spec(rs, max_dims=6 if rs.rand() < 0.3 else 3,
                          transforms=True, dtypes=True, tuples=True,
                          names=rs.rand() < 0.3)
    g = gen_design(rs, len(spec))
    n = int([rs.randint(1, 70), 1, 0, 2 ** rs.randint(0, 6),
             rs.randint(1, 12)][rs.randint(5)])
    if g["k"] == "grid" and len(spec) > 4:
        spec = spec[:4]
        if all(d.get("tuples") for d in spec):
            spec[0] = gen.real_spec(rs)
    if g["k"] == "sobol" and rs.rand() < 0.2 and n > 0:
        g["o"]["skip"] = 2 ** int(np.ceil(np.log2(n)) + rs.randint(0, 3))
    seed = gen.seed(rs)
    dims = gen.build_dims(spec)
    before = freeze(dims)
    np.random.seed(seed % 977)
    rng = gen.state_of_global_rng()
    gentor = build_design(g)
    X = gentor.generate(dims, n, random_state=seed)
    mon.check(gen.state_of_global_rng() == rng, "global-rng",
              lambda: "%s changed the global state" % g)
    mon.check(len(X) == n, "count", lambda: "%s gave %d of %d points in %s"
              % (g, len(X), n, spec))
    for x in X:
        bad = gen.illegal_point([dict(d, transform=None) for d in spec],
                                list(x))
        mon.check(bad is None, "legal", lambda: "%s: %r: %s" % (g, x, bad))
    after = freeze(dims)
    mon.check([a[1] for a in before] == [a[1] for a in after],
              "transformers-kept", lambda: "%s: %s -> %s" % (
                  g, [a[1] for a in before], [a[1] for a in after]))
    mon.check(before == after, "dims-kept", lambda: "%s: %s -> %s" % (
        g, before, after))
    Y = build_design(g).generate(gen.build_dims(spec), n, random_state=seed)
    mon.check(gen.same_points(X, Y), "same-seed",
              lambda: "%s: %r != %r" % (g, X[:3], Y[:3]))
    Z = build_design(g).generate(dims, n,
                                 random_state=np.random.RandomState(seed))
    mon.check(gen.same_points(X, Z), "same-seed",
              lambda: "%s: with RandomState %r != %r" % (g, X[:3], Z[:3]))
    if not g["o"].get("skip"):
        # used for something else in between
        other = gen.space_spec(rs, max_dims=3, kinds=("real", "int"))
        if "primes" not in g["o"] or len(other) <= len(g["o"]["primes"]):
            gentor.generate(gen.build_dims(other), int(rs.randint(1, 9)),
                            random_state=3)
        W = gentor.generate(dims, n, random_state=seed)
        mon.check(gen.same_points(X, W), "reuse",
                  lambda: "%s: second use %r != %r" % (g, X[:3], W[:3]))
    random = g["k"] == "lhs" or g["o"].get("randomize")
    if random and n >= 4 and any(d["k"] == "real" for d in spec):
        V = build_design(g).generate(dims, n, random_state=seed + 1)
        if g["o"].get("lhs_type") != "centered" or n >= 12:
            mon.check(not gen.same_points(X, V), "other-seed", str(g))
    mon.nontrivial([g, [d["k"] for d in spec], n])
    mon.sample({"design": g, "n": n, "first": gen.plain(X[0]) if n else None})


def run_wide(rs, mon):
    """Spaces of many dimensions, for the designs that have no grid."""
    name = ["halton", "hammersly", "lhs", "sobol"][rs.randint(4)]
    top = {"sobol": 40, "lhs": 80}.get(name, 300)
    n_dims = int([rs.randint(7, top + 1), rs.randint(30, 41), top][
        rs.randint(3)])
    kinds = ("real", "int", "cat") if n_dims <= 60 else ("real", "int")
    spec = []
    while len(spec) < n_dims:
        spec += gen.space_spec(rs, max_dims=4, kinds=kinds)
    spec = spec[:n_dims]
    n = int(rs.randint(1, 9))
    g = {"k": name, "o": {"criterion": None} if name == "lhs" else {}}
    dims = gen.build_dims(spec)
    seed = gen.seed(rs)
    X = build_design(g).generate(dims, n, random_state=seed)
    mon.check(len(X) == n, "count", lambda: "%s gave %d of %d points in %d "
              "dimensions" % (g, len(X), n, n_dims))
    for x in X:
        bad = gen.illegal_point([dict(d, transform=None) for d in spec],
                                list(x))
        mon.check(bad is None, "legal", lambda: "%s: %r: %s" % (g, x, bad))
    Y = build_design(g).generate(gen.build_dims(spec), n, random_state=seed)
    mon.check(gen.same_points(X, Y), "same-seed", lambda: str((g, n_dims)))
    mon.nontrivial(["wide", name, n_dims])


def run_raise(rs, mon):
    """A generator that refuses leaves the caller's dimensions alone."""
    spec = gen.space_spec(rs, max_dims=3, transforms=True)
    g = [{"k": "grid", "o": {"border": "nowhere"}},
         {"k": "grid", "o": {"append_border": "nowhere", "border": "exclude"}},
         {"k": "lhs", "o": {"criterion": "best"}},
         {"k": "lhs", "o": {"lhs_type": "other", "criterion": None}},
         {"k": "sobol", "o": {"skip": 5}},
         {"k": "sobol", "o": {}},
         {"k": "halton", "o": {"primes": [1] * 5}},
         ][rs.randint(7)]
    if g["k"] == "sobol" and not g["o"]:
        spec = spec + [gen.real_spec(rs, "identity") for _ in range(41)]
    dims = gen.build_dims(spec)
    before = freeze(dims)
    np.random.seed(rs.randint(1000))
    rng = gen.state_of_global_rng()
    try:
        X = build_design(g).generate(dims, 13 if len(spec) != 1 else 11,
                                     random_state=rs.randint(2 ** 31))
        mon.count("did not raise")
        mon.check(len(X) in (11, 13), "count", str(g))
    except Exception:
        mon.count("raised")
        mon.nontrivial(["raise", g])
    mon.check(freeze(dims) == before, "kept-after-error",
              lambda: "%s: %s -> %s" % (g, before, freeze(dims)))
    mon.check(gen.state_of_global_rng() == rng, "global-rng")


def run_optimizer(rs, mon):
    """The optimizer hands out the design's points, in its space."""
    from skopt import Optimizer
    spec = gen.space_spec(rs, max_dims=4, transforms=True)
    g = gen_design(rs, len(spec))
    if g["k"] == "lhs":
        g["o"]["iterations"] = 5
    n = int(rs.randint(1, 12))
    dims = gen.build_dims(spec)
    before = freeze(dims)
    arg = build_design(g) if rs.rand() < 0.6 else g["k"]
    opt = Optimizer(dims, "dummy", n_initial_points=n,
                    initial_point_generator=arg, acq_optimizer="sampling",
                    random_state=gen.seed(rs))
    mon.check(freeze(dims) == before, "dims-kept",
              lambda: "Optimizer with %s: %s -> %s" % (g, before,
                                                       freeze(dims)))
    declared = [dict(d, transform=t)
                for d, t in zip(spec, opt.space.get_transformer())]
    seen = []
    for i in range(n + 2):
        x = opt.ask()
        bad = gen.illegal_point(declared, x)
        mon.check(bad is None, "optimizer-design",
                  lambda: "%s: %r: %s" % (g, x, bad))
        seen.append(x)
        opt.tell(x, float(rs.rand()))
    if g["k"] in ("halton", "hammersly", "grid", "sobol") and \
            not g["o"].get("randomize") and g["k"] != "grid" and \
            g["o"].get("min_skip", 0) == g["o"].get("max_skip", 0) and \
            not isinstance(arg, str):
        X = build_design(g).generate(gen.build_dims(spec), n, random_state=0)
        mon.check(gen.same_points(X, seen[:n]), "optimizer-design",
                  lambda: "%s: %r, design %r" % (g, seen[:n], X))
    mon.nontrivial(["opt", g, [d["k"] for d in spec], n])
