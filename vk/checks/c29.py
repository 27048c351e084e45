"""C29 a space's summary describes its dimensions, and only what is named changes."""
import numpy as np
from vk import gen

RULE = ("a case is a generated space (0-3 constant or named dimensions, all "
        "kinds, priors and transforms, up to 50 dimensions) whose counts, "
        "bounds, names, kinds and printed form are compared with the "
        "declaration, before and after a sequence of transformer changes by "
        "list, by name and by type; non-trivial: distinct (kinds, transforms, "
        "operations)")
REQUIRED = ["counts", "bounds", "names", "kinds", "constants", "iteration",
            "columns", "by-type", "by-list", "by-name", "repr", "repr-long",
            "copy-of-space", "shared-not-changed", "points-same", "repr-prior",
            "normalized"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    return [{"kind": "space"} for _ in range(1500 * k)] + \
        [{"kind": "long"} for _ in range(100 * k)]


def columns(d, t):
    if d["k"] == "cat" and t == "onehot":
        return len(d["cats"]) if len(d["cats"]) != 2 else 1
    return 1


def judge(mon, spec, trs, space, what):
    from skopt.space import Categorical, Integer, Real
    n = len(spec)
    kinds = {"real": Real, "int": Integer, "cat": Categorical}
    info = lambda: "%s: %s %s" % (what, spec, trs)
    mon.check(space.n_dims == n and len(list(space)) == n and
              len(space.dimensions) == n, "counts", info)
    mon.check(all(type(a) is kinds[d["k"]] for a, d in zip(space, spec)),
              "iteration", info)
    b = space.bounds
    ok = len(b) == n
    for d, got in zip(spec, b):
        if d["k"] == "cat":
            want = gen.cats_of(d)
            ok = ok and len(got) == len(want) and all(
                gen.same_cat(x, y) for x, y in zip(got, want))
        else:
            ok = ok and tuple(got) == (d["low"], d["high"])
    mon.check(ok, "bounds", lambda: "%r; %s" % (b, info()))
    mon.check(list(space.dimension_names) == [
        d["name"] if d.get("name") is not None else "X_%d" % i
        for i, d in enumerate(spec)], "names",
        lambda: "%s; %s" % (space.dimension_names, info()))
    cat = [d["k"] == "cat" for d in spec]
    mon.check(bool(space.is_real) == all(d["k"] == "real" for d in spec) and
              bool(space.is_categorical) == all(cat) and
              bool(space.is_partly_categorical) == any(cat), "kinds",
              lambda: "%s %s %s; %s" % (
                  space.is_real, space.is_categorical,
                  space.is_partly_categorical, info()))
    const = [len(d["cats"]) == 1 if d["k"] == "cat" else False for d in spec]
    mon.check(space.n_constant_dimensions == sum(const) and
              [bool(d.is_constant) for d in space] == const, "constants",
              lambda: "%s; %s" % (space.n_constant_dimensions, info()))
    mon.check(list(space.get_transformer()) == trs, "columns",
              lambda: "%s; %s" % (space.get_transformer(), info()))
    cols = [columns(d, t) for d, t in zip(spec, trs)]
    mon.check([d.transformed_size for d in space] == cols and
              space.transformed_n_dims == sum(cols) ==
              len(space.transformed_bounds), "columns",
              lambda: "%s %s; %s" % (space.transformed_n_dims,
                                     space.transformed_bounds, info()))


def default(d):
    return d["transform"] or ("onehot" if d["k"] == "cat" else "identity")


def run(case, mon):
    from skopt import Space
    from skopt.space import Categorical, Integer, Real
    from skopt.utils import normalize_dimensions
    rs = np.random.RandomState(case["seed"])
    if case["kind"] == "long":
        spec = []
        while len(spec) < 50:
            spec += gen.space_spec(rs, max_dims=5, transforms=True,
                                   names=rs.rand() < 0.5)
        for i, d in enumerate(spec):
            if d.get("name") is not None:
                d["name"] = "%s_%d" % (d["name"], i)
        spec = spec[:rs.randint(28, 51)]
    else:
        spec = gen.space_spec(rs, max_dims=6, transforms=True, tuples=True,
                              names=rs.rand() < 0.6)
    dims = gen.build_dims(spec)
    space = Space(dims)
    trs = [default(d) for d in spec]
    judge(mon, spec, trs, space, "declared")
    check_repr(mon, spec, space)
    if rs.rand() < 0.2:
        check_priors(rs, mon)
    normal = normalize_dimensions(dims if rs.rand() < 0.5 else space)
    judge(mon, spec, ["normalize"] * len(spec), normal, "normalized")
    U = normal.transform(normal.rvs(5, random_state=2))
    mon.check(list(normal.get_transformer()) == ["normalize"] * len(spec) and
              U.shape == (5, len(spec)) and np.all(U >= -1e-9) and
              np.all(U <= 1 + 1e-9), "normalized",
              lambda: "%s %s; %s" % (normal.get_transformer(), U, spec))
    mon.check(list(space.get_transformer()) == trs, "shared-not-changed",
              lambda: "normalize_dimensions changed the caller's dimensions: "
              "%s; %s" % (space.get_transformer(), spec))
    ops = []
    X = space.rvs(3, random_state=1)
    for _ in range(rs.randint(1, 4)):
        op = ["by-type", "by-list", "by-name"][rs.randint(3)]
        if op == "by-type":
            k = ["real", "int", "cat"][rs.randint(3)]
            t = ["onehot", "label", "normalize"][rs.randint(3)] \
                if k == "cat" else ["identity", "normalize"][rs.randint(2)]
            space.set_transformer_by_type(
                t, {"real": Real, "int": Integer, "cat": Categorical}[k])
            trs = [t if d["k"] == k else u for d, u in zip(spec, trs)]
        elif op == "by-list":
            trs = [["onehot", "label", "normalize"][rs.randint(3)]
                   if d["k"] == "cat" else
                   ["identity", "normalize"][rs.randint(2)] for d in spec]
            space.set_transformer(list(trs))
        else:
            space.set_transformer("normalize")
            trs = ["normalize"] * len(spec)
        ops.append(op)
        mon.check(list(space.get_transformer()) == trs, op,
                  lambda: "%s, expected %s; %s" % (space.get_transformer(),
                                                   trs, spec))
        judge(mon, spec, trs, space, "after " + op)
        # the points of the space are what they were
        mon.check(all(x in space for x in X), "points-same",
                  lambda: "%r; %s %s" % (X, trs, spec))
    # a space made of a space has the same dimensions
    other = Space(space)
    mon.check(other == space and other.n_dims == space.n_dims and
              list(other.bounds) == list(space.bounds), "copy-of-space",
              lambda: str(spec))
    twin = Space(gen.build_dims(spec))
    mon.check(twin.get_transformer() == [default(d) for d in spec],
              "shared-not-changed", "a new space has the transformers of "
              "another one")
    mon.nontrivial([[(d["k"], t) for d, t in zip(spec, trs)][:8], ops])


def check_priors(rs, mon):
    """Priors can be lists, tuples and arrays; all of them print."""
    from skopt.space import Categorical
    n = int(rs.randint(2, 12))
    p = rs.dirichlet(np.ones(n))
    cats = ["c%d" % i for i in range(n)]
    for kind in (list, tuple, np.array):
        d = Categorical(cats, prior=kind(p))
        text = repr(d)
        mon.check(text.startswith("Categorical(") and repr(cats[0]) in text and
                  repr(cats[-1]) in text and
                  ("..." in text) == (n > 7), "repr-prior",
                  lambda: "%s: %s" % (kind, text))
        mon.check(np.allclose(d.prior_, p, rtol=1e-12), "repr-prior", text)


def check_repr(mon, spec, space):
    """Short spaces print as what makes them, long ones are abbreviated."""
    import skopt.space as names
    text = repr(space)
    mon.check(text == str(space), "repr", text)
    if len(spec) <= 31:
        if all(len(d["cats"]) <= 7 for d in spec if d["k"] == "cat"):
            scope = {k: getattr(names, k)
                     for k in ("Space", "Real", "Integer", "Categorical")}
            back = eval(text, scope)
            ok = back.n_dims == len(spec)
            for d, a, b in zip(spec, space, back):
                ok = ok and type(a) is type(b) and \
                    list(a.bounds) == list(b.bounds)
                if d["k"] != "cat":
                    ok = ok and a == b
                else:
                    ok = ok and np.allclose(a.prior_, b.prior_)
            mon.check(ok, "repr", lambda: "%s; %s" % (text, spec))
        for d in space:
            mon.check(str(d) in text, "repr", lambda: "%s not in %s" % (d,
                                                                       text))
    else:
        mon.check(str(space.dimensions[0]) in text and
                  str(space.dimensions[14]) in text and
                  str(space.dimensions[-1]) in text and
                  str(space.dimensions[-15]) in text and "..." in text,
                  "repr-long", lambda: text)
