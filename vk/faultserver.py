"""Runs checkpointed optimizations in forked children, one fault in each.

Started by the check of C19 with the shim of faultio.c preloaded; reads one
JSON request, prints one JSON line with what was observed.
"""
import ctypes
import hashlib
import json
import os
import shutil
import signal
import sys
import threading
import traceback

COUNT, KILL, HALF, ONCE, FULL, INTERRUPT, SHORT = range(7)
NAMES = {COUNT: "none", KILL: "killed before", HALF: "killed after half of",
         ONCE: "error in", FULL: "disk full from", INTERRUPT: "interrupted in",
         SHORT: "short then failed", 7: "unpicklable from call",
         8: "killed in objective call", 9: "objective raises in call"}


class Objective(object):
    """Becomes impossible to store, dies or raises at a given call."""

    def __init__(self, spec, payload=0, bad=None, at=None):
        import numpy as np
        self.spec, self.calls, self.bad, self.at = spec, 0, bad, at
        self.payload = np.arange(payload)

    def __getstate__(self):
        # the same bytes whichever fault is injected
        return {"spec": self.spec, "payload": self.payload,
                "lock": self.__dict__.get("lock")}

    def __call__(self, x):
        from vk import gen
        self.calls += 1
        if self.calls == self.at:
            if self.bad == 7:
                self.lock = threading.Lock()
            elif self.bad == 8:
                os.kill(os.getpid(), signal.SIGKILL)
            elif self.bad == 9:
                raise RuntimeError("planned")
        return gen.objective(self.spec, 3)(x)


class Hook(object):
    """A callback that stores as nothing."""

    def __init__(self, fn):
        self.fn = fn

    def __reduce__(self):
        return (Hook, (None,))

    def __call__(self, res):
        return self.fn(res)


def digest(res):
    from vk.checks import c18
    d = c18.picture(res)
    d.pop("arg values", None)
    d["args"] = [a for a in d.get("args", []) if a != "func"]
    return hashlib.md5(repr(sorted(d.items(), key=str)).encode()).hexdigest()


def read(path):
    """(state, detail) of the checkpoint file."""
    import skopt
    if not os.path.exists(path):
        return "absent", ""
    try:
        return digest(skopt.load(path)), ""
    except Exception as e:
        return "broken", repr(e)[:200]


def main():
    shim = ctypes.CDLL(None)
    shim.vk_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
    shim.vk_log.restype = ctypes.c_char_p
    req = json.loads(sys.stdin.readline())
    sys.path[:0] = [req["repo"], req["verif"]]
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import skopt
    from skopt.callbacks import CheckpointSaver
    from vk import gen
    skopt.load, np.random
    root = req["root"]
    spec = req["spec"]

    def optimize(path, callbacks, func, n_calls, seed):
        kw = {}
        if req["func"] != "dummy":
            kw = {"base_estimator": gen.make_surrogate(
                {"forest": "rf", "gp": "gp"}[req["func"]]),
                "n_initial_points": 2, "n_points": 20, "acq_func": "EI"}
        if req["func"] == "gp":
            kw["acq_optimizer"] = "sampling"
        return getattr(skopt, req["func"] + "_minimize")(
            func, gen.build_dims(spec), n_calls=n_calls, callback=callbacks,
            random_state=seed, **kw)

    def stops(res):
        # asked for before the checkpoint is written
        if req["stop"]:
            return len(res.x_iters) >= req["stop"]

    def prepare(place):
        """A fresh directory; returns (checkpoint path as given, real)."""
        os.makedirs(os.path.join(place, "sub"))
        name = "chk" + req["ext"]
        real = os.path.join(place, "sub", name)
        given = real
        if req["kind"] == "symlink":
            given = os.path.join(place, "link" + req["ext"])
            os.symlink(real, given)
            if not req["old"]:
                skopt.dump(skopt.dummy_minimize(
                    len, [(0, 1)], n_calls=1, random_state=0), real)
                os.remove(real)
        elif req["kind"] == "relative":
            given = os.path.join("sub", name)
        elif req["kind"] == "path":
            import pathlib
            given = pathlib.Path(real)
        if req["old"]:
            shutil.copy(os.path.join(root, "old"), real)
        return given, real

    def dry():
        """States of the file after each iteration, operations."""
        place = os.path.join(root, "dry")
        given, real = prepare(place)
        states, files = [read(real)[0]], []

        def before(res):
            shim.vk_resume()
            return stops(res)

        def after(res):
            shim.vk_disarm()
            states.append(digest(res))
            files.append(read(real))
            mem.append(res)
        mem = []
        os.chdir(place)
        shim.vk_arm(place.encode(), -1, COUNT)
        shim.vk_disarm()
        res = optimize(given, [Hook(before), CheckpointSaver(given, **options),
                               Hook(after)], Objective(spec, req["payload"]),
                       req["n_calls"], req["seed"])
        n, log = shim.vk_ops(), shim.vk_log().decode()
        final = digest(res)
        left = sorted(os.listdir(os.path.dirname(real)))
        os.chdir(root)
        at_return = read(real)
        shutil.rmtree(place)
        return {"states": states, "files": files, "ops": n, "log": log,
                "final": final, "at_return": at_return, "left": left}

    def faulty(mode, n):
        place = os.path.join(root, "f")
        given, real = prepare(place)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                say = lambda *a: os.write(w, (json.dumps(a) + "\n").encode())

                def before(res):
                    say("start", len(res.x_iters))
                    shim.vk_resume()
                    return stops(res)

                def after(res):
                    shim.vk_disarm()
                    state = read(real)
                    say("done", len(res.x_iters), state[0], state[1],
                        shim.vk_tripped())
                os.chdir(place)
                bad = mode if mode > SHORT else None
                func = Objective(spec, req["payload"], bad, n)
                if bad is None:
                    shim.vk_arm(place.encode(), n, mode)
                else:
                    shim.vk_arm(place.encode(), -1, COUNT)
                shim.vk_disarm()
                try:
                    optimize(given, [Hook(before), CheckpointSaver(
                        given, **options), Hook(after)], func, req["n_calls"],
                        req["seed"])
                    say("returned")
                except BaseException as e:
                    shim.vk_disarm()
                    say("raised", repr(e)[:200])
            except BaseException:
                os.write(w, (json.dumps(["harness", traceback.format_exc()])
                             + "\n").encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            events = [json.loads(s) for s in f.read().splitlines()]
        status = os.waitpid(pid, 0)[1]
        state = read(real)
        again = None
        if n % 3 == 0:
            # the next run can use the place
            os.chdir(place)
            try:
                res = optimize(given, [CheckpointSaver(given, **options)],
                               Objective(spec, req["payload"]), 2,
                               req["seed"])
                again = read(real)[0] == digest(res)
            except Exception as e:
                again = repr(e)
        os.chdir(root)
        shutil.rmtree(place)
        return {"mode": mode, "n": n, "events": events,
                "killed": os.WIFSIGNALED(status), "state": state,
                "again": again}

    options = req["options"]
    if req["old"]:
        old = skopt.dummy_minimize(Objective(spec), gen.build_dims(spec),
                                   n_calls=3, random_state=req["seed"] + 1)
        tmp = os.path.join(root, "old" + req["ext"])
        skopt.dump(old, tmp)
        os.rename(tmp, os.path.join(root, "old"))
    plan = dry()
    runs = []
    points = list(range(1, plan["ops"] + 1))
    rs = np.random.RandomState(req["seed"])
    for mode in req["modes"]:
        ns = points if mode <= SHORT else range(
            1, (req["stop"] or req["n_calls"]) + 1)
        if len(ns) > req["most"]:
            ns = sorted(rs.choice(ns, req["most"], replace=False))
        for n in ns:
            runs.append(faulty(mode, int(n)))
    print("RESULT " + json.dumps({"plan": plan, "runs": runs}))
    sys.stdout.flush()


if __name__ == "__main__":
    main()
