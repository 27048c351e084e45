"""C25 named arguments, dicts and config files keep names and values paired."""
import functools
import os
import tempfile

import numpy as np
import yaml
from vk import gen

RULE = ("a case is a set of named dimensions in a generated order with "
        "points, or a configuration file; the pairing of names and values "
        "is kept by the harness and compared with what the objective, the "
        "dictionaries and the space show; non-trivial: distinct (names in "
        "order, kinds, callable form or file layout)")
REQUIRED = ["named", "returned", "raises", "wrong-length", "unnamed",
            "not-dimensions", "metadata", "in-minimize", "asdict", "aslist",
            "round-trip", "dims-list", "yaml", "yaml-order",
            "yaml-namespace", "yaml-refused", "lookup", "lookup-index",
            "lookup-list", "lookup-missing", "lookup-refused", "normalized",
            "unchanged", "renamed"]

NAMES = ["a", "b", "c", "alpha", "beta", "x1", "x10", "x2", "X", "_u",
         "lr", "n_estimators", "kernel", "é", "aa", "Z", "func", "x",
         "value", "dim", "index", "self_", "name", "wrapped", "dimensions",
         "svc__C", "svc__gamma", "pca__n__c", "est__", "X_0", "X_7"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    return [{"kind": t} for t in ["named"] * 500 + ["minimize"] * 60 +
            ["dicts"] * 300 + ["yaml"] * 400 + ["lookup"] * 300
            for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"named": run_named, "minimize": run_minimize, "dicts": run_dicts,
     "yaml": run_yaml, "lookup": run_lookup}[case["kind"]](rs, mon)


def named_spec(rs, max_dims=6, transforms=False):
    spec = gen.space_spec(rs, max_dims=max_dims, transforms=transforms)
    pick = rs.permutation(len(NAMES))[:len(spec)]
    for d, i in zip(spec, pick):
        d["name"] = NAMES[i]
    return spec


def raises(kinds, f, *a, **k):
    try:
        f(*a, **k)
    except kinds:
        return True
    return False


class Boom(Exception):
    pass


def run_named(rs, mon):
    from skopt.utils import use_named_args
    spec = named_spec(rs)
    dims = gen.build_dims(spec)
    names = [d["name"] for d in spec]
    seen = []
    token = object()
    answers = [1.5, -3, np.float64(2.0), (0.5, 2.0), None, "text", token,
               np.array([1.0, 2.0]), [1], float("inf"), 0.0, np.array(4.0)]
    answer = answers[rs.randint(len(answers))]
    fail = [False]

    def body(**kw):
        seen.append(kw)
        if fail[0]:
            raise Boom("objective failed")
        return answer
    form = str(rs.choice(["kwargs", "explicit", "method", "partial",
                          "callable", "defaults"]))
    if form == "kwargs":
        f = body
    elif form in ("explicit", "defaults"):
        # a function with parameters in another order
        order = [names[i] for i in rs.permutation(len(names))]
        tail = "=99" if form == "defaults" else ""
        star = "*, " if rs.rand() < 0.4 else ""
        env = {"body": body}
        exec("def objective(%s%s):\n    'About it.'\n    return body(%s)" % (
            star, ", ".join(n + tail for n in order),
            ", ".join("%s=%s" % (n, n) for n in order)), env)
        f = env["objective"]
    elif form == "method":
        class Holder(object):
            def objective(self, **kw):
                return body(**kw)
        f = Holder().objective
    elif form == "partial":
        f = functools.partial(lambda fixed__, **kw: body(**kw), 7)
    else:
        class Call(object):
            def __call__(self, **kw):
                return body(**kw)
        f = Call()
    if rs.rand() < 0.5:
        wrapped = use_named_args(dims)(f)
    else:
        wrapped = use_named_args(dimensions=dims)(f)
    what = lambda: "%s of %s" % (form, names)
    if form == "explicit":
        mon.check(wrapped.__name__ == "objective" and
                  wrapped.__doc__ == "About it.", "metadata",
                  lambda: "%s: %s" % (what(), wrapped))
    for _ in range(4):
        x = gen.rand_point(rs, spec)
        u = rs.rand()
        given = list(x) if u < 0.6 else tuple(x)
        if u > 0.8:
            given = np.empty(len(x), dtype=object)
            given[:] = x
        keep = list(given)
        out = wrapped(given)
        mon.check(len(seen) == 1 and set(seen[0]) == set(names) and all(
            seen[0][n] is v or gen.same_value(seen[0][n], v)
            for n, v in zip(names, x)), "named",
            lambda: "%s: %s became %s" % (what(), x, seen))
        mon.check(out is answer, "returned",
                  lambda: "%s: %r became %r" % (what(), answer, out))
        mon.check(len(given) == len(keep) and all(
            a is b for a, b in zip(given, keep)), "unchanged",
            lambda: "%s: the point became %s" % (what(), given))
        del seen[:]
        bad = [x + [x[0]], x[:-1], x + x, []][rs.randint(4)]
        mon.check(raises(ValueError, wrapped, bad) and not seen,
                  "wrong-length", lambda: "%s: %d values accepted" % (
                      what(), len(bad)))
        del seen[:]
    fail[0] = True
    mon.check(raises(Boom, wrapped, x), "raises",
              lambda: "%s: the failure of the objective vanished" % what())
    # unnamed and foreign dimensions
    i = int(rs.randint(len(spec)))
    blank = [dict(d) for d in spec]
    blank[i]["name"] = None
    del seen[:]

    def use(ds):
        use_named_args(ds)(body)(x)
    mon.check(raises(ValueError, use, gen.build_dims(blank)) and not seen,
              "unnamed", lambda: "%s without the name %d accepted" % (
                  what(), i))
    foreign = gen.build_dims(spec)
    foreign[i] = [(0, 1), ["u", "v"], None, "dim", 3][rs.randint(5)]
    mon.check(raises(ValueError, use, foreign) and not seen,
              "not-dimensions", lambda: "%s with %r accepted" % (
                  what(), foreign[i]))
    mon.nontrivial([names, [d["k"] for d in spec], form, str(type(answer))])


def run_minimize(rs, mon):
    """The decorated objective in an optimization."""
    import skopt
    from skopt.utils import use_named_args
    spec = named_spec(rs, 4)
    dims = gen.build_dims(spec)
    names = [d["name"] for d in spec]
    log = []
    value = gen.objective(spec, 5)

    @use_named_args(dims)
    def f(**kw):
        log.append(kw)
        return value([kw[n] for n in names])
    n = 6
    if rs.rand() < 0.6:
        res = skopt.dummy_minimize(f, dims, n_calls=n, random_state=1)
    else:
        res = skopt.forest_minimize(f, dims, n_calls=n, n_initial_points=4,
                                    n_points=50, random_state=1)
    what = lambda: "%s" % names
    mon.check(len(log) == n and all(
        set(kw) == set(names) and all(gen.same_value(kw[m], v)
                                      for m, v in zip(names, x))
        for kw, x in zip(log, res.x_iters)), "in-minimize",
        lambda: "%s: objective saw %s, result %s" % (what(), log,
                                                     res.x_iters))
    mon.check([d.name for d in res.space.dimensions] == names, "in-minimize",
              lambda: "%s: %s" % (what(), res.space))
    for i, m in enumerate(names):
        j, d = res.space[m]
        mon.check(j == i and d.name == m, "lookup",
                  lambda: "%s in %s: %s" % (m, names, (j, d)))
    mon.nontrivial(["minimize", names])


def run_dicts(rs, mon):
    from skopt.utils import dimensions_aslist, point_asdict, point_aslist
    spec = named_spec(rs)
    dims = gen.build_dims(spec)
    names = [d["name"] for d in spec]
    space = dict(zip(names, dims))
    keys = list(space)
    order = sorted(names)
    by = dict(zip(names, spec))
    what = lambda: "%s" % names
    as_list = dimensions_aslist(space)
    mon.check(len(as_list) == len(names) and all(
        d is space[n] for n, d in zip(order, as_list)), "dims-list",
        lambda: "%s: %s" % (what(), as_list))
    for _ in range(4):
        p = {n: gen.rand_value(rs, by[n])
             for n in [names[i] for i in rs.permutation(len(names))]}
        x = point_aslist(space, p)
        mon.check(len(x) == len(names) and all(
            v is p[n] for n, v in zip(order, x)), "aslist",
            lambda: "%s: %s became %s" % (what(), p, x))
        q = point_asdict(space, x)
        mon.check(list(q) == order and all(q[n] is p[n] for n in p),
                  "round-trip", lambda: "%s: %s became %s" % (what(), p, q))
        y = [gen.rand_value(rs, by[n]) for n in order]
        given = tuple(y) if rs.rand() < 0.3 else list(y)
        r = point_asdict(space, given)
        mon.check(isinstance(r, dict) and set(r) == set(names) and all(
            r[n] is v for n, v in zip(order, y)), "asdict",
            lambda: "%s: %s became %s" % (what(), y, r))
        back = point_aslist(space, r)
        mon.check(len(back) == len(y) and all(
            a is b for a, b in zip(back, y)), "round-trip",
            lambda: "%s: %s became %s" % (what(), y, back))
        # the values belong to the dimensions of the list at their places
        mon.check(all(v in d for v, d in zip(x, as_list)), "dims-list",
                  lambda: "%s: %s not in %s" % (what(), x, as_list))
    mon.check(list(space) == keys, "unchanged",
              lambda: "%s became %s" % (keys, list(space)))
    short = dict(p)
    gone = names[rs.randint(len(names))]
    del short[gone]
    mon.check(raises(KeyError, point_aslist, space, short), "aslist",
              lambda: "%s: a point without %s accepted" % (what(), gone))
    mon.nontrivial([names, [d["k"] for d in spec]])


def run_yaml(rs, mon):
    from skopt.space import Categorical, Integer, Real, Space
    spec = gen.space_spec(rs, max_dims=6, transforms=True)
    used = rs.permutation(len(NAMES))
    for i, d in enumerate(spec):
        d["name"] = NAMES[used[i]] if rs.rand() < 0.7 else None
    case = lambda s: [s, s.lower(), s.upper(), s.title()][rs.randint(4)]

    def describe(d):
        o = []
        if d["k"] == "cat":
            o.append(("categories", d["cats"]))
            if d["prior"] is not None:
                o.append(("prior", d["prior"]))
        else:
            o += [("low", d["low"]), ("high", d["high"])]
            if d["prior"] != "uniform" or rs.rand() < 0.3:
                o.append(("prior", d["prior"]))
            if d["base"] != 10 or rs.rand() < 0.1:
                o.append(("base", d["base"]))
        if d["transform"] is not None:
            o.append(("transform", d["transform"]))
        if d["name"] is not None:
            o.append(("name", d["name"]))
        label = {"real": "Real", "int": "Integer", "cat": "Categorical"}
        return {case(label[d["k"]]): {
            case(o[i][0]): o[i][1] for i in rs.permutation(len(o))}}
    options = [describe(d) for d in spec]
    other = [describe(d) for d in gen_named(rs)]
    layout = str(rs.choice(["list", "single", "first", "second", "named"]))
    ns = None
    names = [["Space", "one", "two", "ab", "zero", "B", "3", "_"][k]
             for k in rs.permutation(8)]
    if layout == "list":
        data = options
    elif layout == "single":
        data = {names[0]: options}
    elif layout == "first":
        data = {n: other for n in names[:1 + rs.randint(1, 4)]}
        data[names[0]] = options
    else:
        data = {n: other for n in names[:3]}
        ns = names[1]
        data[ns] = options
    fd, path = tempfile.mkstemp(".yml", dir=os.environ.get("VK_SCRATCH"))
    with os.fdopen(fd, "w", encoding="utf-8") as f:
        yaml.safe_dump(data, f, sort_keys=False,
                       allow_unicode=bool(rs.rand() < 0.5),
                       default_flow_style=[None, True, False][rs.randint(3)])
    text = open(path, "rb").read()
    what = lambda: "%s %s" % (layout, text.decode("utf-8"))
    try:
        got = Space.from_yaml(path) if ns is None and rs.rand() < 0.5 else \
            Space.from_yaml(path, namespace=ns)
        mon.check(open(path, "rb").read() == text, "unchanged",
                  "the file changed")
        if layout == "named" or ns:
            mon.check(raises((KeyError, ValueError), Space.from_yaml, path,
                             "absent"), "yaml-refused",
                      "an absent namespace was accepted")
        with open(path, "w") as f:
            f.write(["just text\n", "3\n", "null\n"][rs.randint(3)])
        mon.check(raises((TypeError, ValueError), Space.from_yaml, path),
                  "yaml-refused", "a file without any space was accepted")
    finally:
        os.unlink(path)
    kinds = {"real": Real, "int": Integer, "cat": Categorical}
    if not mon.check(len(got.dimensions) == len(spec) and all(
            type(d) is kinds[s["k"]]
            for d, s in zip(got.dimensions, spec)),
            "yaml-namespace" if len(data) > 1 and layout != "list"
            else "yaml-order", lambda: "%s became %s" % (what(), got)):
        return
    mon.check(True, "yaml-order")
    want = gen.build_dims(spec)
    for d, w, s in zip(got.dimensions, want, spec):
        same = d == w and d.name == s["name"]
        if s["k"] == "cat":
            same = same and len(d.categories) == len(s["cats"]) and all(
                gen.same_cat(a, b) for a, b in zip(d.categories, s["cats"]))
            p = s["prior"] or [1.0 / len(s["cats"])] * len(s["cats"])
            same = same and np.allclose(d.prior_ if s["prior"] is None
                                        else d.prior, p)
        else:
            same = same and (d.low, d.high, d.prior) == (
                s["low"], s["high"], s["prior"])
            if s["prior"] != "uniform":
                same = same and d.base == s["base"]
        mon.check(same, "yaml", lambda: "%s became %s (%s, not %s)" % (
            what(), got, d, w))
        mon.check(d.transform_ == w.transform_, "yaml",
                  lambda: "%s: transform %s" % (what(), d.transform_))
    u = gen.build_space(spec)
    a = u.rvs(3, random_state=4)
    b = got.rvs(3, random_state=4)
    mon.check(gen.same_points(a, b) and np.array_equal(
        u.transform(a), got.transform(b)), "yaml",
        lambda: "%s: samples %s, of the same dimensions %s" % (
            what(), b, a))
    mon.nontrivial([layout, [d["k"] for d in spec],
                    [d["name"] for d in spec]])


def gen_named(rs):
    spec = gen.space_spec(rs, max_dims=3)
    for d in spec:
        d["name"] = "other%d" % rs.randint(99)
    return spec


def run_lookup(rs, mon):
    from skopt.space import Space
    from skopt.utils import normalize_dimensions
    spec = named_spec(rs, 6, transforms=True)
    for d in spec:
        if rs.rand() < 0.2:
            d["name"] = None
    names = [d["name"] for d in spec]
    dims = gen.build_dims(spec)
    s = Space(dims)
    what = lambda: "%s" % names
    for label, space in (("", s), ("normalized", normalize_dimensions(dims))):
        own = list(space.dimensions)
        mon.check([d.name for d in own] == names,
                  label or "lookup", lambda: "%s: %s" % (what(), space))
        for i, n in enumerate(names):
            if n is not None:
                r = space[n]
                mon.check(isinstance(r, tuple) and r[0] == i and
                          r[1] is own[i], label or "lookup",
                          lambda: "%s: %r is %s" % (what(), n, r))
            r = space[i]
            mon.check(r[0] == i and r[1] is own[i], label or "lookup-index",
                      lambda: "%s: %r is %s" % (what(), i, r))
            # what is looked up describes what was declared
            d, w = r[1], spec[i]
            mon.check((list(d.categories) == gen.cats_of(w))
                      if w["k"] == "cat" else
                      (d.low, d.high) == (w["low"], w["high"]),
                      label or "lookup", lambda: "%s: %s" % (what(), d))
        near = []
        for n in names:
            if n is not None:
                near += [n[:-1], n[1:], n.upper(), n.capitalize(), n + "_",
                         n + "0", " " + n, n.split("__")[0],
                         n.split("_")[0], n.split("__")[-1]]
        near = [n for n in near if n not in names]
        for absent in ["nope", "A", "", len(names), len(names) + 3] + near:
            r = space[absent]
            mon.check(tuple(r) == (None, None), "lookup-missing",
                      lambda: "%s: %r is %s" % (what(), absent, r))
        some = [n for n in names if n is not None] + \
            list(range(len(names)))
        pick = [some[i] for i in rs.permutation(len(some))[:4]]
        where = [names.index(p) if isinstance(p, str) else p for p in pick]
        pick.append("nope")
        r = space[pick if rs.rand() < 0.5 else tuple(pick)]
        mon.check(len(r) == len(pick) and all(
            q[0] == i and q[1] is own[i] for q, i in zip(r, where)) and
            tuple(r[-1]) == (None, None), "lookup-list",
            lambda: "%s: %s is %s" % (what(), pick, r))
    for bad in (1.5, None, {"a": 1}, {1, 2}):
        mon.check(raises(ValueError, lambda: s[bad]), "lookup-refused",
                  lambda: "%s: looked up %r" % (what(), bad))
    # a new name takes effect, at that dimension only
    i = int(rs.randint(len(names)))
    new = "renamed%d" % rs.randint(9)
    s.dimensions[i].name = new
    mon.check(s[new][0] == i and [d.name for d in s.dimensions] ==
              names[:i] + [new] + names[i + 1:], "renamed",
              lambda: "%s: %d renamed to %s: %s" % (what(), i, new, s))
    if names[i] is not None:
        mon.check(tuple(s[names[i]]) == (None, None), "renamed",
                  lambda: "%s: %s still found" % (what(), names[i]))
    mon.check(raises(ValueError, setattr, s.dimensions[i], "name", 3) and
              s.dimensions[i].name == new, "renamed", "a number as a name")
    mon.nontrivial(["lookup", names])
