"""tools/mutate.py COV.json OUT.jsonl [--jobs N] [--n N] [--seed S] [FILE...]

Small random changes to skopt, each tried against the quick checks which
execute the changed line (stopping at the first violation). The survivors are
read by hand: equivalent, outside every property, or a gap in a check.
"""
import argparse
import ast
import atexit
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = ["acquisition.py", "callbacks.py", "plots.py", "searchcv.py",
         "utils.py", "learning/forest.py", "learning/gbrt.py",
         "learning/gaussian_process/gpr.py",
         "learning/gaussian_process/kernels.py", "optimizer/base.py",
         "optimizer/dummy.py", "optimizer/forest.py", "optimizer/gbrt.py",
         "optimizer/gp.py", "optimizer/optimizer.py", "sampler/grid.py",
         "sampler/halton.py", "sampler/hammersly.py", "sampler/lhs.py",
         "sampler/sobol.py", "sampler/sampler_utils.py", "sampler/base.py",
         "space/space.py", "space/transformers.py"]
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin",
         "mean": "median", "sum": "max", "any": "all", "all": "any",
         "append": "extend", "floor": "ceil", "ceil": "floor",
         "minimum": "maximum", "maximum": "minimum", "copy": None,
         "round": "floor", "log10": "log", "log": "log10", "sqrt": "abs",
         "abs": "negative", "exp": "expm1", "clip": None}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv,
       ast.Pow: ast.Mult, ast.MatMult: ast.Mult}


def candidates(tree):
    """(node index, operator) pairs, node index in ast.walk order."""
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Raise) or (
                isinstance(node, ast.Call) and "warn" in ast.dump(node.func)):
            skip.update(id(n) for n in ast.walk(node))
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            skip.add(id(node))
    for i, node in enumerate(ast.walk(tree)):
        if id(node) in skip or not hasattr(node, "lineno"):
            continue
        if isinstance(node, ast.Compare):
            yield i, "cmp"
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            yield i, "bin"
        elif isinstance(node, ast.BoolOp):
            yield i, "bool"
            yield i, "drop"
        elif isinstance(node, ast.UnaryOp) and isinstance(
                node.op, (ast.Not, ast.USub)):
            yield i, "unary"
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                yield i, "flip"
            elif isinstance(node.value, (int, float)):
                yield i, "num"
        elif isinstance(node, (ast.If, ast.IfExp)):
            yield i, "iftrue"
            yield i, "iffalse"
        elif isinstance(node, ast.Attribute) and node.attr in NAMES and \
                NAMES[node.attr]:
            yield i, "name"
        elif isinstance(node, ast.Call):
            if len(node.args) > 1:
                yield i, "swap"
            if node.keywords and node.keywords[-1].arg:
                yield i, "dropkw"
            if len(node.args) == 1 and not node.keywords:
                yield i, "unwrap"
        elif isinstance(node, (ast.AugAssign, ast.Assign)):
            yield i, "delete"
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            yield i, "delete"


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


def mutate(tree, i, op):
    node = list(ast.walk(tree))[i]
    old = ast.unparse(node).splitlines()[0][:90]
    new = node
    if op == "cmp":
        node.ops[0] = CMP[type(node.ops[0])]()
    elif op == "bin":
        node.op = BIN[type(node.op)]()
    elif op == "bool":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif op == "drop":
        new = node.values[0]
    elif op == "unary":
        new = node.operand
    elif op == "flip":
        node.value = not node.value
    elif op == "num":
        node.value = node.value + 1 if isinstance(node.value, int) else (
            node.value * 1.5 if node.value else 0.1)
    elif op in ("iftrue", "iffalse"):
        node.test = ast.Constant(op == "iftrue")
    elif op == "name":
        node.attr = NAMES[node.attr]
    elif op == "swap":
        node.args[0], node.args[1] = node.args[1], node.args[0]
    elif op == "dropkw":
        node.keywords.pop()
    elif op == "unwrap":
        new = node.args[0]
    elif op == "delete":
        new = ast.Pass()
    if new is not node:
        ast.copy_location(new, node)
        tree = Replace(node, new).visit(tree)
    ast.fix_missing_locations(tree)
    return tree, node.lineno, old, ast.unparse(new).splitlines()[0][:90]


def trial(job):
    k, f, i, op, checks, a = job
    root = "/tmp/mut-%d" % k
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree(a.base, root + "/skopt")
    path = os.path.join(root, "skopt", f)
    src = open(path).read()
    tree, line, old, new = mutate(ast.parse(src), i, op)
    rec = {"file": f, "line": line, "op": op, "old": old, "new": new,
           "node": i}
    open(path, "w").write(ast.unparse(tree))
    env = dict(os.environ, VK_REPO=root, PYTHONDONTWRITEBYTECODE="1")
    rec["verdict"] = "SURVIVED"
    rec["tried"] = []
    try:
        for c in checks:
            cmd = [PY, "-m", "vk.run", c, "--stop-first", "--workers", "2",
                   "--seed", str(a.seed)]
            if a.limit:
                cmd += ["--limit", str(a.limit)]
            try:
                r = subprocess.run(cmd, cwd=HERE, env=env, timeout=600,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                code, out = r.returncode, r.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                code, out = 124, "timeout"
            rec["tried"].append([c, code])
            if code == 1 and "VIOLATION" in out:
                rec["verdict"] = "caught by " + c
                break
            if code not in (0, 2) or (code == 2 and "harness" in out) or \
                    (code == 2 and "monitors never" not in out):
                rec["verdict"] = "no answer from %s (%d): %s" % (
                    c, code, out[-300:])
                if code == 1:
                    rec["verdict"] = "crash in " + c + out[-200:]
                    break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    with open(a.out, "a") as o:
        o.write(json.dumps(rec) + "\n")
    return rec


def main():
    p = argparse.ArgumentParser()
    p.add_argument("cov")
    p.add_argument("out")
    p.add_argument("--jobs", type=int, default=4)
    p.add_argument("--n", type=int, default=100)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--limit", type=int)
    p.add_argument("--maxchecks", type=int, default=4)
    p.add_argument("files", nargs="*")
    a = p.parse_args()
    # mutants of the tree as it is now, whatever happens to it meanwhile
    a.base = tempfile.mkdtemp(prefix="mutbase-") + "/skopt"
    atexit.register(shutil.rmtree, os.path.dirname(a.base))
    shutil.copytree("/repo/skopt", a.base, ignore=
                    shutil.ignore_patterns("__pycache__", "tests"))
    cov = json.load(open(a.cov))
    size = {}
    for f in cov:
        for l, ps in cov[f].items():
            for q in ps:
                size[q] = size.get(q, 0) + 1
    # how much of its work a check does in this file
    def rank(f, line):
        ps = [q for q in cov.get(f, {}).get(str(line), []) if q != "import"]
        share = {q: sum(q in v for v in cov[f].values()) / size[q]
                 for q in ps}
        return sorted(ps, key=lambda q: -share[q])
    jobs = []
    for f in a.files or FILES:
        path = os.path.join(a.base, f)
        if not os.path.exists(path):
            continue
        tree = ast.parse(open(path).read())
        nodes = list(ast.walk(tree))
        for i, op in candidates(tree):
            ps = rank(f, nodes[i].lineno)
            if ps:
                jobs.append((f, i, op, ps[:a.maxchecks]))
    rnd = random.Random(a.seed)
    rnd.shuffle(jobs)
    print(len(jobs), "mutants in all")
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r["file"], r["node"], r["op"]))
    jobs = [j for j in jobs if j[:3] not in done][:a.n]
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(trial, [(k,) + j + (a,) for k, j in enumerate(jobs)]):
            print(r["verdict"][:100], r["file"], r["line"], r["op"], "|",
                  r["old"], "->", r["new"], flush=True)


main()
