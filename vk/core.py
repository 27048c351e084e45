"""Monitors, verdicts and the case runner shared by all checks."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

# (the override only serves trials of planted changes in scratch copies)
REPO = os.environ.get("VK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    """The watchdog of a case fired (inconclusive, never a violation)."""


class CaseHang(BaseException):
    """The case used far more processor time than any case needs."""


HANG = 200          # seconds of processor time; cases need a few
# Errors of code which uses what the code under test returned.
UNUSABLE = (ArithmeticError, AssertionError, AttributeError, LookupError,
            NameError, TypeError, ValueError, RecursionError)


class Monitor(object):
    """Records what was observed in one case, and the violations found.

    check(cond, key, detail): one evaluation of the deciding oracle `key`.
    count(name): something that happened; see(name, value): distinct values.
    nontrivial(sig): the case (or part) exercised the property, signature sig.
    """

    def __init__(self, case=None):
        self.case = case
        self.evals = {}
        self.counts = {}
        self.distinct = {}
        self.nontriv = set()
        self.violations = []
        self.samples = []

    def check(self, cond, key, detail=None):
        self.evals[key] = self.evals.get(key, 0) + 1
        if not cond:
            if callable(detail):
                detail = detail()
            self.violate(key, detail)
        return bool(cond)

    def violate(self, key, detail=None):
        if len(self.violations) < 20:
            self.violations.append((key, str(detail)[:2000]))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def see(self, name, value):
        s = self.distinct.setdefault(name, set())
        if len(s) < 100000:
            s.add(digest(value))

    def nontrivial(self, sig):
        self.nontriv.add(digest(sig))
        if len(self.samples) < 2:
            self.sample(sig)

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(short(x))


def short(x, n=1200):
    s = json.dumps(x, default=str)
    if len(s) <= n:
        return json.loads(s)
    return s[:n] + "..."


def digest(value):
    if not isinstance(value, str):
        value = json.dumps(value, sort_keys=True, default=str)
    return hashlib.md5(value.encode()).hexdigest()[:12]


def case_seed(prop, seed, index):
    h = hashlib.sha256(("%s/%s/%s" % (prop, seed, index)).encode()).digest()
    return int.from_bytes(h[:4], "little") % (2 ** 31 - 1)


def blame(exc):
    """Innermost frame of the exception that lies in the code under test."""
    where = None
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        f = frame.f_code.co_filename
        if f.startswith(REPO + "/skopt/"):
            where = "%s:%s" % (os.path.relpath(f, REPO), frame.f_code.co_name)
    return where


def run_case(module, case, timeout):
    """As run_once; violations with a key in module.CONFIRM must recur.

    Twin runs are compared exactly, but the last bits of numerical results
    depend on how arrays happen to be aligned in memory.
    """
    out = run_once(module, case, timeout)
    confirm = getattr(module, "CONFIRM", ())
    for _ in range(2):
        doubtful = [v for v in out["mon"].violations if v[0] in confirm]
        if not doubtful:
            break
        again = run_once(module, case, timeout)
        keys = set(k for k, _ in again["mon"].violations)
        if again["timeout"] or again["error"]:
            break
        for v in doubtful:
            if v[0] not in keys:
                out["mon"].violations.remove(v)
                out["mon"].count("unconfirmed differences")
    return out


def run_once(module, case, timeout):
    """Returns a dict with everything the parent needs (picklable)."""
    import warnings
    mon = Monitor(case)
    out = {"mon": mon, "error": None, "timeout": False}

    def on_alarm(signum, frame):
        raise CaseTimeout()

    def on_cpu(signum, frame):
        raise CaseHang()
    flag = os.path.join(os.environ.get("VK_SCRATCH", "/nonexistent"), "hang")
    if os.path.exists(flag):
        mon.count("cases skipped after one that did not end")
        return out
    old = signal.signal(signal.SIGALRM, on_alarm)
    old_cpu = signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    signal.setitimer(signal.ITIMER_PROF, HANG)
    started = time.process_time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            module.run(case, mon)
    except CaseTimeout:
        out["timeout"] = True
    except CaseHang as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        mon.violate("hang", "no end after %d s of processor time, in\n%s" % (
            HANG, "".join(traceback.format_tb(e.__traceback__))[-2000:]))
        if os.path.isdir(os.path.dirname(flag)):
            open(flag, "w").close()
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        where = blame(e)
        text = "".join(traceback.format_exception(type(e), e,
                                                  e.__traceback__))[-3000:]
        if where is not None:
            # the code under test failed on valid use
            mon.violate("crash:%s" % type(e).__name__, where + "\n" + text)
        elif isinstance(e, UNUSABLE):
            # what it returned, or its public parts, could not be used
            mon.violate("unusable:%s" % type(e).__name__, text)
        else:
            out["error"] = text
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGPROF, old_cpu)
        out["cpu"] = time.process_time() - started
        stop_loky()
    return out


def stop_loky():
    """End idle worker processes of joblib, which linger for minutes."""
    m = sys.modules.get("joblib.externals.loky.reusable_executor")
    executor = getattr(m, "_executor", None)
    if executor is not None:
        try:
            executor.shutdown(wait=True, kill_workers=True)
        except Exception:
            pass


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {f["key"]: f["what"] for f in data["findings"]
            if f["property"] == prop}


def info(*args):
    print(*args, file=sys.stderr, flush=True)
