"""C19 a crash never costs more than the last checkpoint."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from vk import core, faultserver as fs, gen

RULE = ("an evaluation is one optimization with a checkpoint during which the "
        "process is killed, interrupted, or a file operation of the "
        "checkpoint fails, at one enumerated operation; the file left behind "
        "is loaded and compared with the results of the iterations; "
        "non-trivial: distinct (configuration, fault, operation)")
REQUIRED = ["after-every-iteration", "survives", "never-broken", "next-run",
            "kill", "error", "interrupt", "unstorable", "objective",
            "at-return"]
EVALUATION = "survives"
LEVEL = "fault_enumeration"

EXTS = ["", ".pkl", ".gz", ".z", ".bz2", ".xz", ".lzma", ".a.pkl"]


def cases(tier, seed):
    n = 32 if tier == "quick" else 160
    modes = [fs.KILL, fs.HALF, fs.ONCE, fs.FULL, fs.INTERRUPT, fs.SHORT, 7,
             8, 9]
    out = []
    for i in range(n):
        out.append({"modes": modes, "i": i,
                    "most": 16 if tier == "quick" else 400})
    return out


def build_shim(place):
    so = os.path.join(place, "faultio-%d.so" % os.getpid())
    if not os.path.exists(so):
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so,
                        os.path.join(core.VERIF, "vk", "faultio.c"), "-ldl"],
                       check=True)
    return so


def run(case, mon):
    rs = np.random.RandomState(case["seed"])
    i = case["i"]
    spec = gen.space_spec(rs, max_dims=3, transforms=False)
    ext = EXTS[i % len(EXTS)]
    options = {}
    if ext in ("", ".pkl", ".a.pkl") and rs.rand() < 0.3:
        options["compress"] = int(rs.randint(1, 10))
    if rs.rand() < 0.25:
        options["store_objective"] = False
    # in memory where possible: the journal of a disk makes renames slow
    root = tempfile.mkdtemp(prefix="vk-c19-", dir="/dev/shm" if os.access(
        "/dev/shm", os.W_OK) else os.environ["VK_SCRATCH"])
    req = {"repo": core.REPO, "verif": core.VERIF, "root": root,
           "spec": spec, "ext": ext, "options": options,
           "func": ["dummy", "forest", "dummy", "gp"][(i // 2) % 4],
           "kind": ["str", "path", "relative", "symlink"][(i // 3) % 4],
           "old": bool((i // 2) % 2), "n_calls": 4,
           "stop": [None, None, 3, None, 4][i % 5],
           "payload": int(rs.choice([0, 10, 30000, 300000])),
           "seed": int(rs.randint(10 ** 6)), "modes": case["modes"],
           "most": case["most"]}
    if "store_objective" in options:
        req["modes"] = [m for m in req["modes"] if m != 7]
    if req["payload"] > 10000 and (options.get("compress") or ext not in (
            "", ".pkl", ".a.pkl")):
        req["payload"] = 3000
    env = dict(os.environ, LD_PRELOAD=build_shim(os.environ["VK_SCRATCH"]))
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", "-m",
                            "vk.faultserver"], input=json.dumps(req) + "\n",
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, env=env, cwd=core.VERIF)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    lines = [s for s in p.stdout.splitlines() if s.startswith("RESULT ")]
    if not lines:
        text = p.stderr[-3000:]
        if core.REPO + "/skopt/" in text:
            # the fault-free run failed
            mon.violate("crash", text)
            return
        raise RuntimeError("server: %s" % text)
    got = json.loads(lines[0][7:])
    judge(req, got["plan"], got["runs"], mon)


def judge(req, plan, runs, mon):
    what = {k: req[k] for k in ("func", "ext", "options", "kind", "old",
                                "payload", "stop")}
    states = plan["states"]      # [0] before the run, [k] after iteration k
    n_calls = req["stop"] or req["n_calls"]
    mon.check(len(states) == n_calls + 1, "after-every-iteration",
              lambda: "%d checkpoints of %d iterations" % (
                  len(states) - 1, n_calls))
    for k, (state, detail) in enumerate(plan["files"], 1):
        mon.check(state == states[k], "after-every-iteration",
                  lambda: "%s: after iteration %d the file holds %s %s" % (
                      what, k, name_of(state, states), detail))
    mon.check(plan["at_return"][0] == plan["final"], "at-return",
              lambda: "%s: at the end the file holds %s" % (
                  what, name_of(plan["at_return"][0], states)))
    ops = plan["log"].split()
    mon.see("operation sequences", plan["log"])
    mon.count("file operations per run", plan["ops"])
    for r in runs:
        for e in r["events"]:
            if e[0] == "harness":
                raise RuntimeError(e[1])
        mode, n = r["mode"], r["n"]
        where = "%s %d" % (fs.NAMES[mode], n)
        if mode <= fs.SHORT:
            where += " (%s)" % (ops[n - 1] if n <= len(ops) else "?")
        done = [e for e in r["events"] if e[0] == "done"]
        started = [e[1] for e in r["events"] if e[0] == "start"]
        last = done[-1][1] if done else 0
        allowed = {states[last]}
        if started and started[-1] > last:
            allowed.add(states[started[-1]])
            allowed.add(states[started[-1] - 1])
        for e in done:
            ok = {states[e[1]]}
            if e[4]:
                ok.add(states[e[1] - 1])
                if e is done[-1]:
                    allowed |= ok
            mon.check(e[2] in ok, "after-every-iteration",
                      lambda: "%s, %s: after iteration %d the file holds %s"
                      % (what, where, e[1], name_of(e[2], states)))
        state, detail = r["state"]
        mon.check(state != "broken", "never-broken",
                  lambda: "%s, %s: the file cannot be loaded: %s" % (
                      what, where, detail))
        mon.check(state in allowed, "survives",
                  lambda: "%s, %s: %d iterations were completed, the file "
                  "holds %s (%s)" % (what, where, last,
                                     name_of(state, states), r["events"]))
        if r["again"] is not None:
            mon.check(r["again"] is True, "next-run",
                      lambda: "%s, %s: the next run: %s" % (
                          what, where, r["again"]))
        key = {fs.KILL: "kill", fs.HALF: "kill", fs.ONCE: "error",
               fs.FULL: "error", fs.SHORT: "error", fs.INTERRUPT: "interrupt",
               7: "unstorable", 8: "objective", 9: "objective"}[mode]
        # the oracle is reached only if the fault really happened
        if r["killed"] or any(e[0] == "raised" for e in r["events"]) or \
                any(e[0] == "done" and e[4] for e in r["events"]):
            mon.check(True, key)
            mon.count("faults that struck")
        else:
            mon.count("faults without effect")
        mon.nontrivial([what, where])


def name_of(state, states):
    if state in states:
        return "the result of iteration %d" % states.index(state)
    return state
