"""tools/plant.py ID... [--fast] [--keep]: try planted changes in scratch copies.

For each: the patch applies, everything imports, the stable tests pass, the
demo fails with the patch and passes without, and what the check says.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="agg",
           MPLCONFIGDIR="/opt/vp/mpl")


def sh(cmd, cwd, timeout=1200, env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV,
                           timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def trial(pid, fast, tier="quick", only_check=False):
    d = os.path.join(HERE, "seeded", pid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    root = "/tmp/plant-%s" % pid
    shutil.rmtree(root, ignore_errors=True)
    repo = root + "/repo"
    os.makedirs(root)
    sh("cp -a /repo %s" % repo, "/")
    try:
        code, out = sh("git apply %s/patch.diff" % d, repo)
        if code:
            return "PATCH does not apply: " + out
        notes = []
        if not only_check:
            demo = root + "/demo"
            shutil.copytree(d, demo)
            for f in ("patch.diff", "meta.json"):
                os.unlink(os.path.join(demo, f))
            a, oa = sh("bash %s/demo.sh" % demo, "/repo", 300)
            b, ob = sh("bash %s/demo.sh" % demo, repo, 300)
            notes.append("demo %s/%s" % (a, b))
            if a != 0:
                notes.append("DEMO FAILS UNPATCHED " + oa[-800:])
            if b == 0:
                notes.append("DEMO PASSES PATCHED " + ob[-800:])
            else:
                notes.append("[" + ob.strip()[-150:].replace("\n", " ") + "]")
        if not fast and not only_check:
            code, out = sh(
                "%s -m pytest -q -n 8 -p no:cacheprovider --timeout=300 "
                "--tb=line -o junit_family=xunit2 --basetemp=%s/pt "
                "--junitxml=%s/junit.xml" % (PY, root, root), repo)
            sh("python3 /opt/vp/results.py %s/t.json junit:%s/junit.xml" % (
                root, root), repo)
            got = json.load(open(root + "/t.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [t for t in base if t not in got["passed"]]
            notes.append("TESTS FAIL %s" % bad[:4] if bad else "tests ok")
        code, out = sh("%s -m vk.run %s --tier %s --seed 1" % (
            PY, meta["property"], tier), HERE, 900,
            dict(ENV, VK_REPO=repo, VERIF_SEED="1"))
        keys = sorted(set(l.split("(")[0] for l in out.splitlines()
                          if l.startswith("-- ")))
        notes.append("check %s exit %d %s" % (
            meta["property"], code, "CAUGHT " + " ".join(keys)[:150]
            if code == 1 else "MISSED " + out[-300:]))
        return "; ".join(notes)
    finally:
        shutil.rmtree(root, ignore_errors=True)


args = [a for a in sys.argv[1:] if not a.startswith("--")]
for p in args or sorted(os.listdir(os.path.join(HERE, "seeded"))):
    print(p, "::", trial(p, "--fast" in sys.argv,
                         "thorough" if "--thorough" in sys.argv else "quick",
                         "--check" in sys.argv), flush=True)
