"""Initial-point generators and their options, as JSON specs."""
import numpy as np


def gen_design(rs, n_dims, kinds=("sobol", "lhs", "halton", "hammersly",
                                  "grid")):
    k = kinds[rs.randint(len(kinds))]
    o = {}
    if k == "sobol":
        o["randomize"] = bool(rs.rand() < 0.4)
    elif k == "lhs":
        o["lhs_type"] = str(rs.choice(["classic", "centered"]))
        o["criterion"] = [None, "correlation", "maximin",
                          "ratio"][rs.randint(4)]
        o["iterations"] = int(rs.choice([1, 5, 30]))
    elif k in ("halton", "hammersly"):
        u = rs.rand()
        if u < 0.2:
            o["min_skip"] = o["max_skip"] = int(rs.randint(0, 300))
        elif u < 0.4:
            o["min_skip"] = int(rs.randint(0, 20))
            o["max_skip"] = o["min_skip"] + int(rs.randint(1, 200))
        elif u < 0.5:
            o["min_skip"], o["max_skip"] = -1, -5
        elif u < 0.6:
            o["min_skip"], o["max_skip"] = -1, int(rs.randint(0, 40))
        if rs.rand() < 0.4:
            m = int(rs.randint(n_dims, n_dims + 3))
            pool = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 4, 6]
            rs.shuffle(pool)
            o["primes"] = [int(v) for v in pool[:m]]
    else:
        o["border"] = str(rs.choice(["exclude", "include", "only"]))
        o["use_full_layout"] = bool(rs.rand() < 0.6)
        o["append_border"] = str(rs.choice(["exclude", "include", "only"]))
    return {"k": k, "o": o}


def build_design(g):
    from skopt.sampler import Grid, Halton, Hammersly, Lhs, Sobol
    cls = {"sobol": Sobol, "lhs": Lhs, "halton": Halton,
           "hammersly": Hammersly, "grid": Grid}[g["k"]]
    o = dict(g["o"])
    if "primes" in o:
        o["primes"] = tuple(o["primes"])
    return cls(**o)
