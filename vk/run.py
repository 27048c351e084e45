"""python -m vk.run C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--serial]

Decides one property against /repo's working tree. Exit 0 held on everything
explored, 1 violated (VIOLATION line), 2 inconclusive.
"""
import argparse
import os
import sys

FIXED_ENV = {"PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
             "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
             "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "agg",
             "PYTHONWARNINGS": "ignore"}


def main():
    if any(os.environ.get(k) != v for k, v in FIXED_ENV.items()):
        os.environ.update(FIXED_ENV)
        os.execv(sys.executable, [sys.executable, "-m", "vk.run"] +
                 sys.argv[1:])
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int,
                   default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--replay")
    p.add_argument("--serial", action="store_true")
    p.add_argument("--limit", type=int)
    p.add_argument("--stop-first", action="store_true",
                   help="shuffle the cases and stop at the first violation")
    p.add_argument("--workers", type=int, default=8)
    a = p.parse_args()
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix="vk-")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["VK_SCRATCH"] = scratch
    os.environ["JOBLIB_TEMP_FOLDER"] = scratch
    try:
        code = decide(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


_module = None
_timeout = None


def _one(case):
    from vk import core
    return core.run_case(_module, case, _timeout)


def decide(a, scratch):
    global _module, _timeout
    import collections
    import importlib
    import json
    import multiprocessing
    import time
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    from vk import core

    t0 = time.time()
    sys.path.insert(0, core.REPO)
    _module = m = importlib.import_module("vk.checks." + a.prop.lower())
    if not getattr(m, "LAZY_SKOPT", False):
        import skopt
        assert skopt.__file__.startswith(core.REPO + "/skopt/"), \
            skopt.__file__
    _timeout = getattr(m, "CASE_TIMEOUT", {"quick": 240, "thorough": 900})
    if isinstance(_timeout, dict):
        _timeout = _timeout[a.tier]

    if a.replay:
        with open(a.replay) as f:
            cases = [json.load(f)["case"]]
    else:
        cases = list(m.cases(a.tier, a.seed))
        for i, c in enumerate(cases):
            c.setdefault("seed", core.case_seed(a.prop, a.seed, i))
        if a.stop_first:
            import random
            random.Random(a.seed).shuffle(cases)
        if a.limit:
            cases = cases[:a.limit]

    outs, broken = [], None
    if a.serial or a.replay:
        outs = [_one(c) for c in cases]
    else:
        workers = min(getattr(m, "WORKERS", 8), a.workers, max(1, len(cases)))
        with ProcessPoolExecutor(
                workers, mp_context=multiprocessing.get_context("fork")) as ex:
            try:
                chunk = max(1, min(8, len(cases) // (workers * 8)))
                if a.stop_first:
                    known = core.load_known(a.prop)
                    for out in ex.map(_one, cases, chunksize=chunk):
                        outs.append(out)
                        if any(k not in known
                               for k, _ in out["mon"].violations):
                            ex.shutdown(wait=False, cancel_futures=True)
                            break
                else:
                    outs = list(ex.map(_one, cases, chunksize=chunk))
            except BrokenProcessPool as e:
                broken = repr(e)

    evals, counts = collections.Counter(), collections.Counter()
    distinct = collections.defaultdict(set)
    nontriv, samples, errors, violations = set(), [], [], []
    timeouts, longest = 0, 0
    for case, out in zip(cases, outs):
        mon = out["mon"]
        evals.update(mon.evals)
        counts.update(mon.counts)
        for k, v in mon.distinct.items():
            distinct[k] |= v
        nontriv |= mon.nontriv
        if len(samples) < 3 and mon.nontriv:
            samples.append({"case": core.short(case),
                            "observed": mon.samples})
        if out["error"]:
            errors.append((case, out["error"]))
        timeouts += out["timeout"]
        longest = max(longest, out.get("cpu", 0))
        violations += [(case, k, d) for k, d in mon.violations]

    known = core.load_known(a.prop)
    fresh, listed = [], {}
    for case, key, detail in violations:
        if key in known:
            listed.setdefault(key, (case, detail))
        else:
            fresh.append((case, key, detail))

    required = getattr(m, "REQUIRED", [])
    missing = [k for k in required if not evals.get(k)]
    inconclusive = []
    if broken:
        inconclusive.append("worker died: %s" % broken)
    if errors:
        inconclusive.append("%d harness errors" % len(errors))
    if timeouts:
        inconclusive.append("%d cases hit the watchdog" % timeouts)
    if missing and not a.replay and not a.limit:
        inconclusive.append("monitors never reached: %s" % missing)
    if not evals and not fresh:
        inconclusive.append("nothing observed")

    if not a.replay:
        evidence = {
            "property": a.prop, "tier": a.tier, "seed": a.seed,
            "level": getattr(m, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": evals[m.EVALUATION] if hasattr(
                    m, "EVALUATION") else len(outs),
                "distinct_nontrivial": len(nontriv),
                "rule": m.RULE,
                "samples": samples,
                "oracle_evaluations": dict(sorted(evals.items())),
                "events": dict(sorted(counts.items())),
                "distinct": {k: len(v) for k, v in sorted(distinct.items())},
                "known_findings_seen": sorted(listed),
                "inconclusive": inconclusive,
            },
            "assumptions": getattr(m, "ASSUMPTIONS", []),
            "longest_case_cpu_s": round(longest, 2),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence",
                               a.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")

    for key in sorted(known):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, known[key]))
    if fresh:
        by_key = {}
        for case, key, detail in fresh:
            by_key.setdefault(key, []).append((case, detail))
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        for key in sorted(by_key):
            case, detail = by_key[key][0]
            path = os.path.join(core.VERIF, "replays", "%s-%s.json" % (
                a.prop, core.digest([key, case])))
            if not a.replay:
                with open(path, "w") as f:
                    json.dump({"property": a.prop, "key": key,
                               "detail": detail, "case": case}, f, indent=1)
            else:
                path = a.replay
            core.info("-- %s (%d times): %s\n   case: %s" % (
                key, len(by_key[key]), detail, json.dumps(case)[:600]))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if inconclusive:
        for case, text in errors[:3]:
            core.info("harness error in case", json.dumps(case)[:600])
            core.info(text)
        core.info("INCONCLUSIVE %s: %s" % (a.prop, "; ".join(inconclusive)))
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %d oracle evaluations"
          " in %.1f s" % (a.prop, len(outs), len(nontriv),
                          sum(evals.values()), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
