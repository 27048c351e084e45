"""tools/cover.py OUT.json ID...: which lines of skopt the quick checks execute.

Lists the lines no check reached, per file (a view of what the monitors cannot
have judged). Uses sys.monitoring, so it costs little.
"""
import ast
import importlib
import json
import multiprocessing
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.update(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MPLBACKEND="agg",
                  OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
from vk import core  # noqa: E402

hit = set()


def on_line(code, line):
    if "/skopt/" in code.co_filename and "/tests/" not in code.co_filename:
        hit.add((code.co_filename.split("/skopt/", 1)[1], line))
    return sys.monitoring.DISABLE


def work(case):
    try:
        core.run_case(module, case, 240)
    except Exception:
        pass
    out = set(hit)
    hit.clear()
    return out


def code_lines(path):
    out = set()

    def walk(code):
        out.update(l for _, _, l in code.co_lines() if l)
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                walk(c)
    walk(compile(open(path).read(), path, "exec"))
    return out


if __name__ == "__main__":
    sys.path.insert(0, core.REPO)
    os.environ["VK_SCRATCH"] = tempfile.mkdtemp(prefix="vk-")
    mon = sys.monitoring
    mon.use_tool_id(3, "vkcover")
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)
    import skopt  # noqa: F401
    everything = {}
    for prop in sys.argv[2:]:
        module = importlib.import_module("vk.checks." + prop.lower())
        cases = list(module.cases("quick", 1))
        for i, c in enumerate(cases):
            c.setdefault("seed", core.case_seed(prop, 1, i))
        with multiprocessing.get_context("fork").Pool(8) as pool:
            for got in pool.imap_unordered(work, cases, chunksize=4):
                for f, l in got:
                    everything.setdefault(f, {}).setdefault(l, set()).add(prop)
        print(prop, "done", flush=True)
    for f, l in hit:
        everything.setdefault(f, {}).setdefault(l, set()).add("import")
    json.dump({f: {str(l): sorted(p) for l, p in v.items()}
               for f, v in everything.items()}, open(sys.argv[1], "w"))
    root = os.path.join(core.REPO, "skopt")
    for dirpath, _, names in sorted(os.walk(root)):
        for n in sorted(names):
            path = os.path.join(dirpath, n)
            rel = os.path.relpath(path, root)
            if not n.endswith(".py") or "tests" in rel:
                continue
            src = open(path).read().splitlines()
            miss = sorted(code_lines(path) - set(everything.get(rel, {})))
            miss = [l for l in miss if src[l - 1].strip() and
                    not src[l - 1].strip().startswith(('"""', "def ", "class ",
                                                       "import ", "from "))]
            for l in miss:
                print("%s:%d: %s" % (rel, l, src[l - 1]))
