"""Optimizer configurations as JSON, and a driver of ask/tell histories."""
import math

import numpy as np
from vk import gen
from vk.checks.designs import build_design, gen_design

ALL_ACQ = ["gp_hedge", "EI", "LCB", "PI", "EIps", "PIps"]


def config(rs, surrogates=("rf", "et", "gbrt", "gp"), acqs=ALL_ACQ,
           max_init=5, n_points=150, dims=None, designs=True, queue=False,
           **space_kw):
    cfg = {"est": str(surrogates[rs.randint(len(surrogates))]),
           "acq": str(acqs[rs.randint(len(acqs))]),
           "n_init": int(rs.randint(1, max_init + 1)),
           "n_points": int(n_points), "restarts": int(rs.randint(1, 4)),
           "rs": gen.seed(rs), "queue": None, "gen": "random",
           "acq_kwargs": None}
    if dims is None:
        space_kw.setdefault("max_dims", 4)
        space_kw.setdefault("transforms", True)
        dims = gen.space_spec(rs, **space_kw)
    cfg["space"] = dims
    if cfg["est"] in ("gp", "GP"):
        cfg["acq_opt"] = str(rs.choice(["auto", "lbfgs", "sampling"]))
        if cfg["est"] == "GP" and all(d["k"] == "cat" for d in dims):
            cfg["acq_opt"] = "auto"
    else:
        cfg["acq_opt"] = str(rs.choice(["auto", "sampling"]))
    if designs and rs.rand() < 0.5:
        g = gen_design(rs, len(dims))
        if g["k"] == "lhs":
            g["o"]["iterations"] = 5
        if g["k"] == "grid" and len(dims) > 4:
            g = {"k": "sobol", "o": {}}
        cfg["gen"] = g if rs.rand() < 0.5 else g["k"]
    if queue and rs.rand() < 0.5:
        cfg["queue"] = int(rs.randint(1, 4))
    if rs.rand() < 0.5:
        cfg["acq_kwargs"] = {
            "xi": float(rs.choice([0.0, 0.01, 0.3, 2.0])),
            "kappa": [0.0, 0.5, 1.96, 10.0, "inf"][rs.randint(5)],
            "eta": float(rs.choice([0.1, 1.0, 5.0]))}
    return cfg


def optimizer_kwargs(cfg):
    kw = dict(n_initial_points=cfg["n_init"], acq_func=cfg["acq"],
              acq_optimizer=cfg["acq_opt"], random_state=cfg["rs"],
              acq_optimizer_kwargs={"n_points": cfg["n_points"],
                                    "n_restarts_optimizer": cfg["restarts"]})
    if cfg.get("jobs"):
        kw["acq_optimizer_kwargs"]["n_jobs"] = cfg["jobs"]
        kw["n_jobs"] = cfg["jobs"]
    if cfg["acq_kwargs"] is not None:
        kw["acq_func_kwargs"] = dict(cfg["acq_kwargs"])
    if cfg["queue"] is not None:
        kw["model_queue_size"] = cfg["queue"]
    g = cfg["gen"]
    kw["initial_point_generator"] = build_design(g) if isinstance(g, dict) \
        else g
    return kw


def build(cfg, spied=False, dims=None):
    from skopt import Optimizer
    if spied and cfg["est"] in gen.FAST:
        from vk import spy
        est = spy.make(cfg["est"], cfg["rs"] % 1000)
    else:
        est = gen.make_surrogate(cfg["est"], cfg["rs"] % 1000)
    return Optimizer(gen.build_dims(cfg["space"]) if dims is None else dims,
                     est, **optimizer_kwargs(cfg))


def declared(cfg, opt):
    """Specs with the transform each dimension has in the optimizer."""
    return [dict(d, transform=t)
            for d, t in zip(cfg["space"], opt.space.get_transformer())]


def is_ps(cfg):
    return cfg["acq"].endswith("ps")


class Values(object):
    """Deterministic values for told points, of several temperaments."""

    KINDS = ["smooth", "smooth", "steps", "const", "large", "small",
             "negative", "ints", "outlier"]

    def __init__(self, rs, cfg, kind=None):
        self.kind = kind or self.KINDS[rs.randint(len(self.KINDS))]
        self.f = gen.objective(cfg["space"], int(rs.randint(2 ** 31)))
        self.ps = is_ps(cfg)
        self.n = 0

    def __call__(self, x):
        v = self.f(x)
        self.n += 1
        k = self.kind
        if k == "steps":
            v = float(np.round(v * 2) / 2)
        elif k == "const":
            v = 1.5
        elif k == "large":
            v = 1e6 * v - 3e5
        elif k == "small":
            v = 1e-3 * v
        elif k == "negative":
            v = -2.0 - v
        elif k == "ints":
            v = int(round(3 * v))
        elif k == "outlier" and self.n % 5 == 0:
            v = v + 1e3
        if self.ps:
            return (v, float(math.exp(1 - v if abs(v) < 3 else 0.3)))
        return v


def val(y, ps):
    return y[0] if ps else y


def steps(rs, cfg, low, high, share=0.05):
    """A number of steps; a few runs are long, with a cheap surrogate."""
    if rs.rand() < share:
        if cfg["est"] != "dummy":
            cfg["est"] = "rf"
            if cfg["acq_opt"] == "lbfgs":
                cfg["acq_opt"] = "sampling"
        cfg["n_points"] = min(cfg["n_points"], 30)
        return int(rs.randint(60, 120))
    return int(rs.randint(low, high))
