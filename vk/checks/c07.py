"""C07 structure of the initial designs, against independent definitions."""
import itertools

import numpy as np
from scipy.spatial.distance import pdist
from vk import gen
from vk.checks.designs import build_design, gen_design

RULE = ("a case is a generator with options, 1-8 (Sobol up to 40) real "
        "dimensions (unit or arbitrary, uniform or log-uniform), a size and "
        "seed, used once or repeatedly; coordinates are mapped back to the "
        "unit cube by the harness; non-trivial: distinct (generator, options, "
        "dimensions, size)")
REQUIRED = ["lhs-strata", "lhs-centered", "lhs-criterion", "sobol-net",
            "sobol-recurrence", "sobol-skip", "sobol-shift", "sobol-pair", "halton", "hammersly",
            "grid-full", "grid-lattice", "grid-random", "lhs-offset-law"]
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    out = [{"kind": t} for t in ["lhs"] * 500 + ["sobol"] * 200 +
           ["halton"] * 400 + ["hammersly"] * 400 + ["grid"] * 500 +
           ["criterion"] * 60 + ["offset"] * 20 +
           ["grid-random"] * 40 + ["recurrence"] * 6 for _ in range(k)]
    return out


def real_dims(rs, n):
    out = []
    for _ in range(n):
        if rs.rand() < 0.5:
            out.append({"k": "real", "low": 0.0, "high": 1.0, "base": 10,
                        "prior": "uniform", "transform": None,
                        "dtype": "float"})
        else:
            d = gen.real_spec(rs)
            if abs(d["low"]) > 1e4 * (d["high"] - d["low"]):
                d["low"], d["high"], d["prior"] = -3.0, 5.0, "uniform"
            out.append(d)
    return out


def to_unit(spec, X):
    X = np.array(X, dtype=float).reshape(-1, len(spec))
    U = np.empty_like(X)
    for j, d in enumerate(spec):
        if d["prior"] == "uniform":
            U[:, j] = (X[:, j] - d["low"]) / (d["high"] - d["low"])
        else:
            lo, hi = np.log(d["low"]), np.log(d["high"])
            U[:, j] = (np.log(X[:, j]) - lo) / (hi - lo)
    return U


def radical_inverse(i, base):
    f, r = 1.0, 0.0
    while i > 0:
        f /= base
        r += f * (i % base)
        i //= base
    return r


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"lhs": run_lhs, "criterion": run_criterion, "offset": run_offset,
     "sobol": run_sobol, "halton": run_halton, "hammersly": run_halton,
     "grid": run_grid, "grid-random": run_grid_random,
     "recurrence": run_recurrence}[case["kind"]](rs, mon, case["kind"])


def check_strata(mon, U, g, key="lhs-strata"):
    n = len(U)
    S = np.sort(U, axis=0)
    k = np.arange(n)[:, None]
    ok = np.all(S >= k / n - 1e-9) and np.all(S <= (k + 1) / n + 1e-9)
    mon.check(ok, key, lambda: "%s: %s" % (g, S.tolist()))
    if g["o"]["lhs_type"] == "centered":
        mon.check(np.allclose(S, (k + 0.5) / n, atol=1e-9, rtol=0), "lhs-centered",
                  lambda: "%s: %s" % (g, S.tolist()))


def run_lhs(rs, mon, kind):
    spec = real_dims(rs, rs.randint(1, 6))
    g = gen_design(rs, len(spec), ("lhs",))
    n = int(rs.randint(1, 40))
    gentor = build_design(g)
    for rep in range(2):
        X = gentor.generate(gen.build_dims(spec), n,
                            random_state=gen.seed(rs))
        check_strata(mon, to_unit(spec, X), g)
    mon.nontrivial([g, len(spec), n])


def goodness(U, criterion):
    if criterion == "maximin":
        return np.min(pdist(U))
    if criterion == "ratio":
        p = pdist(U)
        return -np.max(p) / max(np.min(p), 1e-8)
    r = np.corrcoef(U.T)
    return -np.max(np.abs(r - np.eye(len(r))))


def run_criterion(rs, mon, kind):
    """An optimized hypercube beats typical unoptimized ones."""
    d, n = int(rs.randint(2, 6)), int(rs.randint(3, 16))
    spec = real_dims(rs, d)
    g = {"k": "lhs", "o": {"lhs_type": str(rs.choice(["classic",
                                                      "centered"])),
                           "criterion": ["correlation", "maximin",
                                         "ratio"][rs.randint(3)],
                           "iterations": 200}}
    X = build_design(g).generate(gen.build_dims(spec), n,
                                 random_state=gen.seed(rs))
    U = to_unit(spec, X)
    check_strata(mon, U, g)
    mine = goodness(U, g["o"]["criterion"])
    ref = []
    for _ in range(60):
        if g["o"]["lhs_type"] == "classic":
            u = rs.rand(n, d)
        else:
            u = np.full((n, d), 0.5)
        V = np.array([(rs.permutation(n) + u[:, j]) / n
                      for j in range(d)]).T
        ref.append(goodness(V, g["o"]["criterion"]))
    worse = np.mean(np.array(ref) <= mine + 1e-12)
    mon.check(worse >= 0.8, "lhs-criterion",
              lambda: "%s n=%d d=%d: better than only %.0f%% of random "
              "hypercubes" % (g, n, d, 100 * worse))
    mon.nontrivial([g, d, n])


def run_offset(rs, mon, kind):
    """Classic: uniform offset within the stratum, independent columns."""
    from scipy import stats
    spec = real_dims(rs, 3)
    for d in spec:
        d["low"], d["high"], d["prior"] = 0.0, 1.0, "uniform"
    n = 400
    g = {"k": "lhs", "o": {"lhs_type": "classic", "criterion": None}}
    U = to_unit(spec, build_design(g).generate(
        gen.build_dims(spec), n, random_state=gen.seed(rs)))
    check_strata(mon, U, g)
    off = (U * n) % 1
    p = stats.kstest(off.ravel(), "uniform")[1]
    mon.check(p > 1e-9, "lhs-offset-law", lambda: "p=%g" % p)
    for i in range(3):
        r = np.corrcoef(np.arange(n), U[:, i])[0, 1]
        mon.check(abs(r) < 7 / np.sqrt(n), "lhs-offset-law",
                  lambda: "column %d is ordered: %g" % (i, r))
        for j in range(i):
            r = np.corrcoef(U[:, i], U[:, j])[0, 1]
            mon.check(abs(r) < 7 / np.sqrt(n), "lhs-offset-law",
                      lambda: "columns %d, %d: %g" % (i, j, r))
    mon.nontrivial(["offset", n])


def run_sobol(rs, mon, kind):
    d = int(rs.randint(1, 9)) if rs.rand() < 0.85 else int(rs.randint(9, 41))
    spec = real_dims(rs, d)
    m = int(rs.randint(1, 7))
    n = 2 ** m if rs.rand() < 0.7 else int(rs.randint(1, 70))
    sob = build_design({"k": "sobol", "o": {"randomize": False}})
    if rs.rand() < 0.5:         # a generator that was used before
        sob.generate([(0.0, 1.0)] * int(rs.randint(1, 5)),
                     int(rs.randint(1, 20)))
    U = to_unit(spec, sob.generate(gen.build_dims(spec), n, random_state=1))
    mon.check(np.all(U > -1e-9) and np.all(U < 1), "sobol-net",
              "coordinates outside [0, 1)")
    k = 0
    while 2 ** (k + 1) <= n:
        k += 1
        size = 2 ** k
        for start in range(0, n - size + 1, size):
            B = U[start:start + size]
            cells = np.floor(B * size + 1e-6).astype(int)
            ok = np.all(np.sort(cells, axis=0) == np.arange(size)[:, None])
            mon.check(ok, "sobol-net",
                      lambda: "d=%d block [%d, %d): %s" % (
                          d, start, start + size, cells.tolist()))
            if d >= 2 and size <= 64:
                # the first two coordinates form a (0, 2)-sequence
                for a in range(k + 1):
                    c = np.floor(B[:, :2] * [2 ** a, 2 ** (k - a)] + 1e-6)
                    c = c[:, 0] * 2 ** (k - a) + c[:, 1]
                    mon.check(len(set(c.astype(int))) == size, "sobol-pair",
                              lambda: "block [%d, %d), cells 2^%d x 2^%d" % (
                                  start, start + size, a, k - a))
    if n >= 32 and 2 <= d <= 8:
        mon.check(len(set(tuple(np.round(c, 9)) for c in U.T)) == d,
                  "sobol-columns", lambda: "equal columns among %d" % d)
    if d <= 6 and n >= 2 ** d:
        # property A: one point in each binary orthant
        c = np.floor(U[:2 ** d] * 2 + 1e-6).astype(int)
        mon.check(len(set(map(tuple, c))) == 2 ** d, "sobol-orthants",
                  lambda: "d=%d %s" % (d, c.tolist()))
    # skipping is the tail of the sequence
    s = 2 ** int(np.ceil(np.log2(n)) + rs.randint(0, 2))
    tail = to_unit(spec, build_design({"k": "sobol", "o": {"skip": s,
                                                   "randomize": False}})
                   .generate(gen.build_dims(spec), n, random_state=1))
    whole = to_unit(spec, build_design({"k": "sobol", "o": {"randomize": False}})
                    .generate(gen.build_dims(spec), s + n, random_state=1))
    mon.check(np.allclose(tail, whole[s:], atol=1e-9, rtol=0), "sobol-skip",
              lambda: "skip=%d n=%d d=%d" % (s, n, d))
    mon.check(np.allclose(U, whole[:n], atol=1e-9, rtol=0), "sobol-skip",
              lambda: "prefix n=%d of %d" % (n, s + n))
    # a random shift preserves differences modulo one
    sh = build_design({"k": "sobol", "o": {"randomize": True}})
    seed = gen.seed(rs)
    R = to_unit(spec, sh.generate(gen.build_dims(spec), n, random_state=seed))
    diff = (R - U) % 1.0
    # compare on the circle
    e = np.abs(diff - diff[0])
    e = np.minimum(e, 1 - e)
    mon.check(np.all(e < 1e-7), "sobol-shift",
              lambda: "shifts %s" % diff.tolist())
    R2 = to_unit(spec, build_design({"k": "sobol", "o": {"randomize": True}})
                 .generate(gen.build_dims(spec), n, random_state=seed + 1))
    mon.check(not np.allclose(R, R2), "sobol-shift", "same shift for two seeds")
    if d > 1:
        mon.check(np.ptp(diff[0]) > 1e-9, "sobol-shift",
                  "the same shift in every dimension")
    mon.nontrivial(["sobol", d, n, s])


def run_halton(rs, mon, kind):
    d = int(rs.randint(1, 9))
    spec = real_dims(rs, d)
    g = gen_design(rs, d, (kind,))
    n = int(rs.randint(1, 60) if rs.rand() < 0.95 else rs.randint(300, 2500))
    o = g["o"]
    if rs.rand() < 0.1:
        o["min_skip"] = o["max_skip"] = int(10 ** rs.uniform(2, 7.5))
    gentor = build_design(g)
    h = d if kind == "halton" or d == 1 else d - 1
    bases = list(o.get("primes", PRIMES))[:h]
    lo, hi = o.get("min_skip", 0), o.get("max_skip", 0)
    if lo == hi:
        skips = [lo]
    elif lo < 0 and hi < 0:
        skips = [max(bases)]
    elif lo < 0 or hi < 0:
        skips = [max(lo, hi)]
    else:
        skips = range(lo, hi + 1)
    picked = set()
    for rep in range(2):
        U = to_unit(spec, gentor.generate(
            gen.build_dims(spec), n, random_state=gen.seed(rs)))
        found = None
        for s in skips:
            R = np.array([[radical_inverse(i + s, b) for b in bases]
                          for i in range(n)])
            if np.allclose(U[:, :h], R, atol=1e-8, rtol=0):
                found = s
                break
        mon.check(found is not None, kind,
                  lambda: "%s d=%d n=%d: %s is no radical inverse in bases %s"
                  % (g, d, n, U[:5].tolist(), bases))
        picked.add(found)
        if h < d:
            mon.check(np.allclose(U[:, d - 1], np.arange(n) / n, atol=1e-8, rtol=0),
                      kind, lambda: "%s: last coordinate %s" % (
                          g, U[:, d - 1].tolist()))
    mon.see("skips", sorted(map(str, picked)))
    mon.nontrivial([g, d, n])


def lattice(values, d):
    return set(itertools.product(values, repeat=d))


def key(u):
    return tuple(int(round(v * 27720 * 1000)) for v in u)


def on_border_only(U, n):
    """all coordinates but the last are 0 or 1, the last on a lattice."""
    if not np.all((np.abs(U[:, :-1]) < 1e-9) | (np.abs(U[:, :-1] - 1) < 1e-9)):
        return False
    for m in range(2, n + 3):
        v = U[:, -1] * (m - 1)
        if np.all(np.abs(v - np.round(v)) < 1e-7):
            return True
    return False


def levels(kind, order):
    if kind == "include":
        return [i / (order - 1.0) for i in range(order)]
    return [i / (order + 1.0) for i in range(1, order + 1)]


def run_grid(rs, mon, kind):
    d = int(rs.randint(1, 5))
    spec = real_dims(rs, d)
    g = gen_design(rs, d, ("grid",))
    n = int(rs.randint(1, 45))
    if rs.rand() < 0.35:
        n = int(rs.randint(1, 5 if d < 4 else 3)) ** d
    o = g["o"]
    U = to_unit(spec, build_design(g).generate(
        gen.build_dims(spec), n, random_state=gen.seed(rs)))
    mon.check(len(U) == n, "grid-count")
    mon.nontrivial([g, d, n])
    if o["border"] == "only":
        if o["append_border"] == "only" or 2 ** (d - 1) * 2 >= n:
            inner = U
        else:
            inner = U[[on_border_only(u[None], n) for u in U]]
            mon.check(len(inner) >= min(n, 2 ** d), "grid-lattice",
                      lambda: "%s n=%d d=%d: %s" % (g, n, d, U.tolist()))
        mon.check(np.all([np.all((np.abs(u[:-1]) < 1e-9) |
                                 (np.abs(u[:-1] - 1) < 1e-9))
                          for u in inner]), "grid-lattice",
                  lambda: "%s n=%d d=%d: %s" % (g, n, d, U.tolist()))
        ends = 2 ** (d - 1)
        k = n // ends
        if o["use_full_layout"] and k >= 2:
            # the largest layout that fits is there as a whole
            full = list(itertools.product(*([[0, 1]] * (d - 1) + [
                [i / (k - 1.0) for i in range(k)]])))
            absent = [f for f in full
                      if not np.any(np.all(np.abs(U - f) < 1e-7, axis=1))]
            mon.check(not absent, "grid-full", lambda: "%s n=%d d=%d: %s "
                      "missing from %s" % (g, n, d, absent, U.tolist()))
        elif not o["use_full_layout"] and n >= 2 * ends:
            k = -(-n // ends)
            v = U[:, -1] * (k - 1)
            mon.check(np.all(np.abs(v - np.round(v)) < 1e-6) and
                      len(set(tuple(np.round(u, 6)) for u in U)) == n,
                      "grid-lattice", lambda: "%s n=%d d=%d: %s" % (
                          g, n, d, U.tolist()))
        return
    order = 1
    while (order + 1) ** d <= n:
        order += 1
    least = 2 if o["border"] == "include" else 1
    keys = [key(u) for u in U]
    if o["use_full_layout"] and order >= least:
        full = set(key(u) for u in lattice(levels(o["border"], order), d))
        have = list(keys)
        missing = []
        for f in full:
            near = [h for h in have if max(abs(a - b) for a, b in
                                           zip(h, f)) <= 30]
            if near:
                have.remove(near[0])
            else:
                missing.append(f)
        mon.check(not missing, "grid-full",
                  lambda: "%s n=%d d=%d: %d of the %d points of the full "
                  "layout are missing: %s" % (g, n, d, len(missing),
                                              len(full), U.tolist()))
        rest = np.array([[v / 27720000.0 for v in h] for h in have])
        if len(rest) and not missing:
            rest = rest.reshape(-1, d)
            if o["append_border"] == "only":
                ok = np.all((rest[:, :-1] < 1e-6) | (rest[:, :-1] > 1 - 1e-6))
            else:
                m = 1
                while m ** d < len(rest):
                    m += 1
                if o["append_border"] == "include":
                    m = max(m, 2)
                lv = np.array(levels(o["append_border"], m))
                ok = np.all(np.min(np.abs(rest[:, :, None] - lv), axis=2) <
                            1e-6)
            mon.check(ok, "grid-lattice",
                      lambda: "%s n=%d d=%d: added points %s" % (
                          g, n, d, rest.tolist()))
    else:
        m = order if order ** d >= n else order + 1
        m = max(m, least)
        lv = np.array(levels(o["border"], m))
        ok = np.all(np.min(np.abs(U[:, :, None] - lv), axis=2) < 1e-6)
        mon.check(ok, "grid-lattice", lambda: "%s n=%d d=%d order %d: %s" % (
            g, n, d, m, U.tolist()))
        mon.check(len(set(tuple(np.round(u, 6)) for u in U)) == n,
                  "grid-lattice",
                  lambda: "%s n=%d d=%d: repeated points" % (g, n, d))


def run_grid_random(rs, mon, kind):
    """Points are randomly selected from a layout larger than needed."""
    d = int(rs.randint(1, 4))
    spec = real_dims(rs, d)
    border = str(rs.choice(["include", "exclude"]))
    order = int(rs.randint(2, {1: 20, 2: 7, 3: 4}[d]))
    # more than the next smaller layout, at least two short of this one
    low, high = order ** d + 1, (order + 1) ** d - 2
    if low > high:
        return
    n = int(rs.randint(low, high + 1))
    from skopt.sampler import Grid
    sets = []
    for _ in range(10):
        U = to_unit(spec, Grid(border=border, use_full_layout=False).generate(
            gen.build_dims(spec), n, random_state=gen.seed(rs)))
        sets.append(frozenset(key(np.round(u, 6)) for u in U))
    mon.check(len(set(sets)) > 1, "grid-random",
              lambda: "border=%s n=%d d=%d: ten seeds select the same points "
              "of the layout" % (border, n, d))
    mon.nontrivial([border, d, n])


def primitive(p):
    """Whether a polynomial over GF(2), as bits, is primitive."""
    q = p.bit_length() - 1
    if q == 1:
        return p == 3
    x = 1
    for k in range(1, 2 ** q):
        x <<= 1
        if x >> q:
            x ^= p
        if x == 1:
            return k == 2 ** q - 1
    return False


def follows(p, m):
    """Whether direction numbers obey the recurrence of a polynomial."""
    q = p.bit_length() - 1
    for j in range(q, len(m)):
        v = m[j - q]
        for k in range(1, q + 1):
            if p >> (q - k) & 1:
                v ^= m[j - k] << k
        if v != m[j]:
            return False
    return True


def run_recurrence(rs, mon, kind):
    """The direction numbers, read off the points, are Sobol's."""
    d = 40 if rs.rand() < 0.4 else int(rs.randint(2, 41))
    J = 12
    U = np.array(build_design({"k": "sobol", "o": {"randomize": False}})
                 .generate([(0.0, 1.0)] * d, 2 ** J), dtype=float) * 2 ** J
    I = np.round(U).astype(int)
    if not mon.check(np.all(np.abs(U - I) < 1e-6), "sobol-recurrence",
                     "more digits than points"):
        return
    prims = [p for p in range(3, 2 ** 9, 2) if primitive(p)]
    used = {}
    for s in range(d):
        # the point after number 2^j - 1 differs from it by direction j
        v = [int(I[2 ** j - 1, s] ^ I[2 ** j, s]) for j in range(J)]
        m = [v[j] >> (J - j - 1) for j in range(J)]
        mine = [p for p in prims if follows(p, m)]
        ok = all(v[j] == m[j] << (J - j - 1) and m[j] & 1 for j in range(J))
        if s == 0 and all(x == 1 for x in m):
            mine = [1]          # van der Corput's sequence
        mon.check(ok and len(mine) == 1 and mine[0] not in used,
                  "sobol-recurrence", lambda: "dimension %d of %d: direction "
                  "numbers %s, primitive polynomials %s (used: %s)" % (
                      s, d, m, mine, used))
        used.update((p, s) for p in mine)
    mon.nontrivial(["recurrence", d])
