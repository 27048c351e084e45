"""C14 the portfolio follows the accumulated gains."""
import numpy as np
from vk import gen, opt as vo
from vk.stubs import Hill, model_acquisition

RULE = ("a case is a hedging optimizer (real or analytic surrogate) driven "
        "through tells; reference gains are accumulated from the model's own "
        "predictions; choices of many seeds are compared with softmax "
        "probabilities; non-trivial: distinct (surrogate, dimension kinds, "
        "exploration parameters, number of tells)")
REQUIRED = ["gains", "gains-start", "one-of-proposals", "proposals",
            "choice-law", "hopeless"]
NAMES = ["EI", "LCB", "PI"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    return [{"kind": t} for t in ["gains"] * 260 + ["law"] * 60
            for _ in range(k)]


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    {"gains": run_gains, "law": run_law}[case["kind"]](rs, mon)


def proposals(opt):
    return [np.array(p, dtype=float).ravel() for p in opt.next_xs_]


def run_gains(rs, mon):
    cfg = vo.config(rs, ["rf", "et", "gbrt", "gp", "gp"], acqs=["gp_hedge"],
                    n_points=150, max_init=3, max_dims=3, queue=True)
    opt = vo.build(cfg)
    spec = vo.declared(cfg, opt)
    f = vo.Values(rs, cfg)
    mon.check(np.array_equal(np.asarray(opt.gains_, float), np.zeros(3)),
              "gains-start", lambda: repr(opt.gains_))
    told, tells = [], 0
    ref, props = np.zeros(3), None
    if rs.rand() < 0.15:
        # a long history
        B = [gen.rand_point(rs, spec) for _ in range(rs.randint(30, 130))]
        told = [f(b) for b in B]
        opt.tell(B, list(told), fit=False)
    for step in range(int(rs.randint(4, 9))):
        x = opt.ask() if len(told) < cfg["n_init"] or props is not None else \
            gen.rand_point(rs, spec)
        fit = bool(rs.rand() < 0.85)
        if rs.rand() < 0.2 and (props is not None):
            opt.ask(2)              # fantasies earn the original nothing
        before = np.array(opt.gains_, dtype=float)
        mon.check(np.allclose(before, ref, rtol=1e-9, atol=1e-9), "gains",
                  lambda: "between tells %r -> %r" % (ref, before))
        B = [x] + ([gen.rand_point(rs, spec)] if rs.rand() < 0.2 else [])
        Y = [f(b) for b in B]
        opt.tell(B if len(B) > 1 else x, Y if len(B) > 1 else Y[0], fit=fit)
        told += Y
        if len(told) < cfg["n_init"] or not fit:
            mon.check(np.array_equal(before, np.asarray(opt.gains_, float)),
                      "gains", "changed without a model")
            continue
        tells += 1
        model = opt.models[-1]
        if props is not None:
            ref = before - np.asarray(model.predict(np.vstack(props)))
        tol = 1e-7 * max(1.0, np.max(np.abs(ref)))
        mon.check(np.allclose(opt.gains_, ref, rtol=1e-7, atol=tol), "gains",
                  lambda: "%r -> %r, the new model says %r; %s" % (
                      before, opt.gains_, ref, cfg))
        ref = np.array(opt.gains_, dtype=float)
        props = proposals(opt)
        mon.check(len(props) == 3, "proposals", "%d" % len(props))
        nxt = opt.ask()
        back = [opt.space.inverse_transform(p.reshape(1, -1))[0]
                for p in props]
        mon.check(any(gen.same_point(nxt, b) for b in back),
                  "one-of-proposals", lambda: "%r is none of %r; %s" % (
                      nxt, back, cfg))
        # each proposal optimises its own acquisition
        fresh = np.asarray(opt.space.transform(opt.space.rvs(
            300, random_state=gen.seed(rs))), dtype=float)
        for name, p in zip(NAMES, props):
            both = np.vstack([p, fresh])
            a = model_acquisition(name, model, both, min(told),
                                  cfg["acq_kwargs"])
            # 150 candidates: P(true share better > 0.2) < 1e-14
            worse = np.mean(a[1:] < a[0] - 1e-7 * max(np.ptp(a), 1e-12))
            mon.check(worse < 0.35, "proposals",
                      lambda: "%s proposed %r, %g of random points are "
                      "better; %s" % (name, p, worse, cfg))
    if tells:
        mon.nontrivial([cfg["est"], [d["k"] for d in spec], cfg["acq_kwargs"],
                        tells])
    mon.count("gain updates", max(0, tells - 1))


def run_law(rs, mon):
    from skopt import Optimizer
    d = int(rs.randint(1, 3))
    # gains far apart from each other, too
    scale = float(rs.choice([1.0, 1.0, 30.0, 1e4]))
    hill = Hill(c=tuple(float(v) for v in rs.uniform(0.2, 0.8, d)),
                amp=float(rs.uniform(0.5, 3)) * scale,
                dev=float(rs.uniform(0.2, 1.5)) * scale,
                step=float(rs.choice([0.0, 0.05, 0.5, 20.0])) * scale)
    eta = float(rs.choice([0.2, 1.0, 3.0]))
    kw = {"eta": eta} if rs.rand() < 0.7 else None
    if kw is None:
        eta = 1.0
    diff, var, n_hopeless, used = np.zeros(3), np.zeros(3), 0, 0
    for i in range(60):
        opt = Optimizer([(0.0, 1.0)] * d, hill, n_initial_points=1,
                        acq_func="gp_hedge", acq_optimizer="sampling",
                        acq_func_kwargs=kw,
                        acq_optimizer_kwargs={"n_points": 25},
                        random_state=int(rs.randint(2 ** 31)))
        ref, props = np.zeros(3), None
        for t in range(3):
            x = opt.ask()
            opt.tell(x, float(0.2 * scale * np.sum(x)))
            if props is not None:
                ref = ref - opt.models[-1].predict(np.vstack(props))
            props = proposals(opt)
            back = [opt.space.inverse_transform(p.reshape(1, -1))[0]
                    for p in props]
            if len(set(map(tuple, back))) < 3:
                mon.count("coinciding proposals")
                groups = [[j for j in range(3) if back[j] == b] for b in back]
            else:
                groups = [[j] for j in range(3)]
            p = np.exp(eta * (ref - ref.max()))
            p = p / p.sum()
            nxt = opt.ask()
            hit = np.array([b == nxt for b in back], dtype=float)
            mon.check(hit.any(), "one-of-proposals", repr((nxt, back)))
            prob = np.array([sum(p[j] for j in g) for g in groups])
            prob = np.clip(prob, 0, 1)
            diff += hit - prob
            var += prob * (1 - prob)
            used += 1
            for j in range(3):
                if prob[j] < 1e-13:
                    n_hopeless += 1
                    mon.check(not hit[j], "hopeless",
                              lambda: "gains %r chose %s" % (ref, NAMES[j]))
    for j in range(3):
        mon.check(abs(diff[j]) <= 6.5 * np.sqrt(var[j]) + 4, "choice-law",
                  lambda: "%s was chosen %+.1f times more than softmax(%g * "
                  "gains) implies in %d choices (deviation %.1f); %s" % (
                      NAMES[j], diff[j], eta, used, np.sqrt(var[j]), hill))
    mon.count("choices", used)
    mon.count("hopeless proposers", n_hopeless)
    mon.nontrivial(["law", d, eta, scale, hill.step / scale])
