"""C23 acquisition values and gradients match their definitions."""
import math

import numpy as np
from scipy.special import ndtr

RULE = ("a case is a model (a stub with prescribed smooth mean and "
        "deviation, or a fitted process or ensemble), an acquisition, "
        "its parameters and query points; values are compared with closed "
        "forms of the predictions, gradients with the analytic derivative "
        "and with central differences; non-trivial: distinct (model, "
        "acquisition, parameters)")
REQUIRED = ["value", "shape", "direct", "zero-deviation", "grad-analytic",
            "grad-numeric", "grad-zero-deviation", "wrapper", "same-value",
            "kappa-inf", "rows", "refused", "unchanged", "process-value",
            "process-grad", "optimizer-value", "extreme"]

NAMES = ["EI", "PI", "LCB", "EIps", "PIps"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    return [{"kind": t} for t in ["stub"] * 1400 + ["process"] * 60 +
            ["optimizer"] * 40 + ["refused"] * 20 for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"stub": run_stub, "process": run_process, "optimizer": run_optimizer,
     "refused": run_refused}[case["kind"]](rs, mon)


class Smooth(object):
    """mean a + b.x + c sin(w.x), deviation s (1 + 0.5 cos(v.x)) or 0."""

    def __init__(self, rs, d, scale=None, dtype=float):
        e = rs.choice([0, 0, 0, 1, -1, 3, -3, 6, -6])
        self.scale = 10.0 ** e if scale is None else scale
        self.a = rs.uniform(-1, 1) * rs.choice([0, 1, 10])
        self.b, self.w, self.v = rs.uniform(-2, 2, (3, d))
        self.c = rs.uniform(-1, 1)
        self.s = float(10.0 ** rs.choice([0, 0, 0, -1, -2, -4, 1]))
        self.zero = None
        self.dtype = dtype
        self.calls = []

    def deviation(self, X):
        s = np.array([self.s * (1 + 0.5 * math.cos(along(x, self.v)))
                      for x in X])
        if self.zero is not None:
            s = np.where(self.zero(X), 0.0, s)
        return s * self.scale

    def mean(self, X):
        # row by row, so that it is the same to the bit in every batch
        return np.array([self.scale * (
            self.a + along(x, self.b) +
            self.c * math.sin(along(x, self.w))) for x in X])

    def mean_grad(self, x):
        return self.scale * (self.b + self.c * np.cos(x.dot(self.w)) * self.w)

    def std_grad(self, x):
        return -self.scale * self.s * 0.5 * np.sin(x.dot(self.v)) * self.v

    def predict(self, X, return_std=False, return_mean_grad=False,
                return_std_grad=False, return_cov=False):
        self.calls.append((np.shape(X), return_std, return_mean_grad))
        X = np.asarray(X, dtype=float)
        m = self.mean(X).astype(self.dtype)
        if not return_std:
            return m
        out = [m, self.deviation(X)]
        if return_mean_grad:
            out.append(self.mean_grad(X[0]))
            if return_std_grad:
                out.append(self.std_grad(X[0]))
        return tuple(out)


def along(x, w):
    return math.fsum(float(a) * float(b) for a, b in zip(x, w))


class Pair(object):
    def __init__(self, *models):
        self.estimators_ = list(models)


def phi(u):
    with np.errstate(over="ignore"):
        return np.exp(-0.5 * u * u) / np.sqrt(2 * np.pi)


def reference(name, mu, std, y_opt, kw, clock=None):
    """(values to be minimized, size of the terms) per point."""
    mu, std = np.asarray(mu, float), np.asarray(std, float)
    if name == "LCB":
        k = kw.get("kappa", 1.96)
        if isinstance(k, str):
            return -std, std
        return mu - k * std, np.abs(mu) + np.abs(k * std)
    I = y_opt - kw.get("xi", 0.01) - mu
    pos = std > 0
    with np.errstate(all="ignore"):
        u = np.where(pos, I / np.where(pos, std, 1), 0)
        if name.startswith("EI"):
            v, t = I * ndtr(u) + std * phi(u), \
                np.abs(I) * ndtr(u) + std * phi(u)
        else:
            v, t = ndtr(u), ndtr(u)
    v, t = np.where(pos, -v, 0.0), np.where(pos, t, 0.0)
    if name.endswith("ps"):
        m, s = clock
        v, t = v * np.exp(0.5 * s ** 2 - m), t * np.exp(0.5 * s ** 2 - m)
    return v, t


def reference_grad(name, mu, std, dmu, dstd, y_opt, kw, clock=None):
    """(gradient, size of the terms) at one point with std > 0."""
    if name == "LCB":
        k = kw.get("kappa", 1.96)
        if isinstance(k, str):
            return -dstd, np.abs(dstd)
        return dmu - k * dstd, np.abs(dmu) + np.abs(k * dstd)
    I = y_opt - kw.get("xi", 0.01) - mu
    u = I / std
    if name.startswith("EI"):
        v = I * ndtr(u) + std * phi(u)
        g = dstd * phi(u) - dmu * ndtr(u)
        t = np.abs(dstd) * phi(u) + np.abs(dmu) * ndtr(u) + \
            (1 + u * u) * phi(u) * (np.abs(dmu) + np.abs(dstd))
    else:
        v = ndtr(u)
        g = -(dmu + u * dstd) * phi(u) / std
        t = (np.abs(dmu) + np.abs(u * dstd)) * phi(u) / std
    g, v = -g, -v
    if name.endswith("ps"):
        m, s, dm, ds = clock
        w = np.exp(0.5 * s ** 2 - m)
        g = w * (g + v * (s * ds - dm))
        t = w * (t + np.abs(v) * (np.abs(s * ds) + np.abs(dm)))
        t = t + w * (std * phi(u) + abs(I) * ndtr(u)) * np.abs(
            s * ds - dm) if name.startswith("EI") else t
    return g, t


def close(a, b, size, rtol=1e-9):
    return np.shape(a) == np.shape(b) and np.all(np.isfinite(a)) and np.all(
        np.abs(np.asarray(a) - b) <= rtol * size + 1e-300)


def parameters(rs, name, m, x):
    """(y_opt, kwargs); y_opt often so that improvement is in doubt."""
    kw = {}
    if name == "LCB":
        u = rs.rand()
        if u < 0.7:
            kw["kappa"] = [0, 0.0, 1.0, 2, 5.5, 1e6, -1.5, 0.01, "inf",
                           "inf", np.float64(3.0)][rs.randint(11)]
        return None if rs.rand() < 0.5 else 0.3, kw
    mu, s = m.mean(x[None])[0], m.deviation(x[None])[0]
    if rs.rand() < 0.7:
        kw["xi"] = [0, 0.0, 0.01, 1.0, -0.5, 10.0, 1e-6, np.float64(0.1)][
            rs.randint(8)]
        if rs.rand() < 0.5:
            kw["xi"] = kw["xi"] * m.scale
    u = rs.rand()
    if u < 0.7:
        y = mu + kw.get("xi", 0.01) + s * rs.uniform(-3, 3)
    elif u < 0.85:
        y = mu + s * rs.choice([-1, 1]) * 10.0 ** rs.uniform(0, 3)
    else:
        y = [0.0, 0, -1.0, 1e3][rs.randint(4)]
    return y, kw


def values_of(name, X, model, y_opt, kw, default):
    """The public functions called directly (as they are: EI, PI up)."""
    from skopt.acquisition import gaussian_ei, gaussian_pi, gaussian_lcb
    if name == "LCB":
        return gaussian_lcb(X, model, **kw)
    f = gaussian_ei if name == "EI" else gaussian_pi
    if default and y_opt == 0:
        return -f(X, model, **kw)
    return -f(X, model, y_opt, **kw)


def run_stub(rs, mon):
    from skopt.acquisition import (_gaussian_acquisition,
                                   gaussian_acquisition_1D, gaussian_ei,
                                   gaussian_pi, gaussian_lcb)
    d = int(rs.randint(1, 5))
    name = NAMES[rs.randint(5)]
    m = Smooth(rs, d, dtype=int if rs.rand() < 0.05 else float)
    if m.dtype is int:
        m.a = m.a * 5
        m.c = m.c * 5
    extreme = rs.rand() < 0.1
    if extreme:
        m.scale = 10.0 ** rs.choice([-100, -30, -12, 12, 30, 100])
        if rs.rand() < 0.5:
            m.s = 10.0 ** rs.choice([-12, -8, 8, 12])
    n = int(rs.choice([1, 2, 5, 20]))
    X = rs.uniform(-1, 2, (n, d))
    clock = Smooth(rs, d, scale=1.0)
    clock.s = float(rs.choice([0.1, 0.5, 1.0, 2.0]))
    if extreme:
        clock.a = float(rs.choice([-20, 20]))
    zero = rs.rand() < 0.25
    if zero:
        cut = float(rs.choice([-2, 0.4, 0.4, 5]))
        m.zero = lambda X: X[:, 0] > cut
    if rs.rand() < 0.1:
        clock.zero = lambda X: X[:, 0] > 0
    ps = name.endswith("ps")
    model = Pair(m, clock) if ps else m
    y_opt, kw = parameters(rs, name, m, X[0])
    what = lambda: "%s %s y_opt=%r scale=%g s=%g d=%d n=%d%s" % (
        name, kw, y_opt, m.scale, m.s, d, n, " zero" if zero else "")
    mu, std = m.predict(X, return_std=True)
    times = clock.predict(X, return_std=True)
    want, size = reference(name, mu, std, y_opt, kw, times)
    # values of several points
    asked = X.tolist() if rs.rand() < 0.2 else X
    before = X.copy()
    kw0 = dict(kw)
    given = None if not kw and rs.rand() < 0.5 else kw
    got = _gaussian_acquisition(asked, model, y_opt, name,
                                acq_func_kwargs=given)
    key = "kappa-inf" if kw.get("kappa") == "inf" else "value"
    if mon.check(np.shape(got) == (n,), "shape",
                 lambda: "%s: shape %s" % (what(), np.shape(got))):
        mon.check(close(got, want, size), "extreme" if extreme else key,
                  lambda: "%s: %s, closed form %s (mu %s std %s)" % (
                      what(), got, want, mu, std))
        if name != "LCB" and np.any(std == 0):
            mon.check(np.all(np.asarray(got)[std == 0] == 0),
                      "zero-deviation", lambda: "%s: %s with deviations %s"
                      % (what(), got, std))
    mon.check(np.array_equal(X, before) and kw == kw0, "unchanged",
              lambda: "%s: arguments changed to %s %s" % (what(), X, kw))
    if not ps:
        v = values_of(name, X, model, y_opt, kw, rs.rand() < 0.5)
        mon.check(close(v, want, size), "direct",
                  lambda: "%s: %s, closed form %s" % (what(), v, want))
    if n > 1:
        i = rs.permutation(n)
        r = _gaussian_acquisition(X[i], model, y_opt, name,
                                  acq_func_kwargs=kw)
        mon.check(close(r, want[i], size[i]), "rows",
                  lambda: "%s: permuted rows %s, want %s" % (
                      what(), r, want[i]))
    # one point with gradient
    x = X[0]
    f = lambda z, grad=False: gaussian_acquisition_1D(
        z, model, y_opt, name, kw, grad)
    v = f(x)
    mon.check(close(np.ravel(v), want[:1], size[:1]) and np.size(v) == 1,
              "wrapper", lambda: "%s: %s, closed form %s" % (
                  what(), v, want[:1]))
    if m.dtype is int:
        return
    xg = x.tolist() if rs.rand() < 0.2 else x
    default = rs.rand() < 0.3
    v2, g = gaussian_acquisition_1D(xg, model, y_opt, name, kw) if default \
        else gaussian_acquisition_1D(xg, model, y_opt, acq_func=name,
                                     acq_func_kwargs=kw, return_grad=True)
    mon.check(close(np.ravel(v2), want[:1], size[:1]), "same-value",
              lambda: "%s: with gradient %s, closed form %s" % (
                  what(), v2, want[:1]))
    g = np.asarray(g, dtype=float)
    if not mon.check(g.shape == (d,), "shape",
                     lambda: "%s: gradient of shape %s" % (what(), g.shape)):
        return
    if std[0] == 0 and name != "LCB":
        mon.check(np.all(g == 0), "grad-zero-deviation",
                  lambda: "%s: gradient %s without deviation" % (what(), g))
    else:
        ds = m.std_grad(x)
        cs = clock.std_grad(x)
        wg, sg = reference_grad(
            name, mu[0], std[0], m.mean_grad(x), ds, y_opt, kw,
            (times[0][0], times[1][0], clock.mean_grad(x), cs))
        mon.check(close(g, wg, sg), "grad-analytic",
                  lambda: "%s: gradient %s, derivative %s" % (what(), g, wg))
        if std[0] > 0 and times[1][0] > 0 and not extreme:
            numeric(mon, f, x, g, m, what)
        if not ps:
            h = {"EI": gaussian_ei, "PI": gaussian_pi, "LCB": gaussian_lcb}[
                name]
            a = dict(kw) if name == "LCB" else dict(kw, y_opt=y_opt)
            dv, dg = h(x[None], model, return_grad=True, **a)
            sign = 1 if name == "LCB" else -1
            mon.check(close(sign * np.ravel(dv), want[:1], size[:1]) and
                      close(sign * np.ravel(dg), wg, sg), "direct",
                      lambda: "%s: %s %s, want %s %s" % (
                          what(), dv, dg, want[:1], wg))
    mon.nontrivial([name, sorted((k, str(v)) for k, v in kw.items()), n, d,
                    zero, m.scale, m.s])


def numeric(mon, f, x, g, m, what, key="grad-numeric", noise=0.0,
            rel=2e-3):
    """Central differences of the values; judged where they settle."""
    for j in range(len(x)):
        est = []
        for h in (1e-3, 3e-4, 1e-4, 3e-5):
            a, b = x.copy(), x.copy()
            a[j] += h
            b[j] -= h
            est.append(float(np.ravel(f(a))[0] - np.ravel(f(b))[0]) /
                       (a[j] - b[j]))
        size = max(abs(e) for e in est)
        # three estimates in a row have to agree
        i, spread = min(((i, np.ptp(est[i:i + 3])) for i in range(2)),
                        key=lambda p: p[1])
        val = abs(float(np.ravel(f(x))[0]))
        floor = 1e-11 * max(val, 1e-300) + noise
        if spread > 1e-3 * size + floor or size <= 1e3 * floor or \
                size < 1e-250:
            mon.count("derivatives not resolved")
            continue
        mon.count("derivatives compared")
        mon.check(abs(g[j] - est[i + 1]) <= 3 * spread + rel * size + floor,
                  key, lambda: "%s: gradient %s, differences %s along %d" % (
                      what(), g, est, j))


def run_process(rs, mon):
    """Fitted processes: values follow the predictions, gradients the values."""
    from skopt.acquisition import gaussian_acquisition_1D, \
        _gaussian_acquisition
    from skopt.learning import GaussianProcessRegressor as GP
    from skopt.learning.gaussian_process import kernels as K
    d = int(rs.randint(1, 4))
    n = int(rs.choice([3, 6, 12]))
    X = rs.rand(n, d)
    y = np.sin(5 * X.sum(axis=1)) + X[:, 0]
    if rs.rand() < 0.3:
        y = 100 * y - 30

    def kernel():
        k = [K.RBF(rs.uniform(0.2, 1, d)),
             K.Matern(rs.uniform(0.3, 1, d), nu=2.5),
             K.Matern(0.5, nu=1.5), K.RationalQuadratic(),
             K.RBF(0.4) + K.DotProduct()][rs.randint(5)]
        return K.ConstantKernel(np.var(y)) * k
    kw = dict(normalize_y=bool(rs.rand() < 0.6),
              n_restarts_optimizer=0, random_state=1, alpha=1e-3)
    if rs.rand() < 0.5:
        kw["optimizer"] = None
    if rs.rand() < 0.3:
        kw["noise"] = "gaussian"
    m = GP(kernel=kernel(), **kw).fit(X, y)
    t = GP(kernel=K.RBF(0.5), alpha=1e-4, optimizer=None,
           normalize_y=True).fit(X, np.log(0.1 + rs.rand(n)))
    for name in NAMES:
        model = Pair(m, t) if name.endswith("ps") else m
        Q = rs.rand(4, d)
        mu, std = m.predict(Q, return_std=True)
        clock = t.predict(Q, return_std=True)
        y_opt = mu[0] + std[0] * rs.uniform(-1, 2)
        akw = {"xi": float(rs.choice([0, 0.01]))} if name != "LCB" else \
            {"kappa": ["inf", 1.96, 10.0][rs.randint(3)]}
        what = lambda: "%s %s on %s" % (name, akw, m.kernel_)
        want, size = reference(name, mu, std, y_opt, akw, clock)
        got = _gaussian_acquisition(Q, model, y_opt, name,
                                    acq_func_kwargs=akw)
        mon.check(close(got, want, size), "process-value",
                  lambda: "%s: %s, closed form %s" % (what(), got, want))
        f = lambda z: gaussian_acquisition_1D(z, model, y_opt, name, akw,
                                              False)
        v, g = gaussian_acquisition_1D(Q[0], model, y_opt, name, akw)
        mon.check(close(np.ravel(v), want[:1], size[:1], 1e-6),
                  "process-value", lambda: "%s: %s, closed form %s" % (
                      what(), v, want))
        _, _, a, b = m.predict(Q[:1], return_std=True, return_mean_grad=True,
                               return_std_grad=True)
        _, _, ca, cb = t.predict(Q[:1], return_std=True,
                                 return_mean_grad=True, return_std_grad=True)
        if std[0] < 1e-4 * np.std(y):
            mon.count("deviation too small")
            continue
        wg, sg = reference_grad(name, mu[0], std[0], a, b, y_opt, akw,
                                (clock[0][0], clock[1][0], ca, cb))
        mon.check(close(g, wg, sg, 1e-6), "process-grad",
                  lambda: "%s: %s, derivative of the prediction %s" % (
                      what(), g, wg))
        numeric(mon, f, Q[0], np.asarray(g, float), m, what, "process-grad",
                noise=1e-5 * np.max(np.abs(sg)), rel=5e-3)
        mon.nontrivial([name, str(m.kernel), str(akw), n])


def run_optimizer(rs, mon):
    """Models of an optimizer, through the wrapper the optimizer uses."""
    from skopt import Optimizer
    from skopt.acquisition import _gaussian_acquisition, \
        gaussian_acquisition_1D
    base = str(rs.choice(["GP", "GP", "RF", "ET", "GBRT"]))
    name = NAMES[rs.randint(5)]
    dims = [(0.0, 1.0), (1, 9), ["a", "b"]][:int(rs.randint(1, 4))]
    opt = Optimizer(dims, base, n_initial_points=4, acq_func=name,
                    acq_optimizer="sampling", random_state=int(
                        rs.randint(10 ** 6)))
    for i in range(5):
        x = opt.ask()
        v = float(np.sin(3 * x[0]) + len(x))
        opt.tell(x, (v, 0.1 + i) if name.endswith("ps") else v)
    model = opt.models[-1]
    Q = np.asarray(opt.space.transform(opt.space.rvs(6, random_state=1)),
                   dtype=float)
    ps = name.endswith("ps")
    m, t = model.estimators_ if ps else (model, None)
    mu, std = m.predict(Q, return_std=True)
    clock = t.predict(Q, return_std=True) if ps else None
    y_opt = float(np.median(mu))
    want, size = reference(name, mu, std, y_opt, {}, clock)
    got = _gaussian_acquisition(Q, model, y_opt, name)
    mon.check(close(got, want, size), "optimizer-value",
              lambda: "%s %s: %s, closed form %s" % (base, name, got, want))
    one = gaussian_acquisition_1D(Q[0], model, y_opt, name,
                                  return_grad=False)
    mon.check(close(np.ravel(one), want[:1], size[:1]), "optimizer-value",
              lambda: "%s %s: %s, closed form %s" % (base, name, one, want))
    mon.nontrivial(["optimizer", base, name, len(dims)])


def run_refused(rs, mon):
    from skopt.acquisition import _gaussian_acquisition, gaussian_ei, \
        gaussian_pi
    m = Smooth(rs, 2)
    bad = str(rs.choice(["UCB", "ei", "", "EIPS", "LCBps", "gp_hedge"]))

    class Column(Smooth):
        def predict(self, X, **kw):
            out = Smooth.predict(self, X, **kw)
            return tuple(v[:, None] for v in out[:2]) + tuple(out[2:])
    c = Column(rs, 2)
    x = rs.rand(3, 2)
    for label, f in [
            ("acq_func %r" % bad, lambda: _gaussian_acquisition(
                x, Pair(m, m), 0.0, bad)),
            ("1-D points", lambda: _gaussian_acquisition(
                x[0], m, 0.0, "EI")),
            ("3-D points", lambda: _gaussian_acquisition(
                x[None], m, 0.0, "EI")),
            ("2-D mean", lambda: gaussian_ei(x, c)),
            ("2-D mean", lambda: gaussian_pi(x, c))]:
        try:
            v = f()
            raised = None
        except ValueError as e:
            raised = e
        except AttributeError as e:
            raised = e if label.startswith("acq") else None
        mon.check(raised is not None, "refused",
                  lambda: "%s accepted" % label)
    mon.nontrivial(["refused", bad])
