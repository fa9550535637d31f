"""Mutation campaign:  python tools/mutate.py OUT.jsonl [FILE ...] [--shard i/n]

Makes every small change (swapped operators, constants, arguments, dropped
statements, forced branches) to the source files, one at a time, in a scratch
copy and runs the checks related to the file until one reports a violation.
Survivors are run against the repository's tests; those that survive these too
are what has to be looked at: equivalent changes or holes of the checks.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AEMCMC_REPO", "/repo")
PY = "/opt/venv/bin/python"
ALL = [f"C{i:02d}" for i in range(1, 22)]
FIRST = {
    "dists": ["C07", "C18", "C04"], "ffbs": ["C08"], "conjugates": ["C03", "C15", "C17", "C10"],
    "gibbs": ["C05", "C06", "C04", "C19", "C17", "C11", "C10"], "nuts": ["C09", "C10", "C01", "C11", "C12"],
    "rewriting": ["C14", "C01", "C21", "C17", "C12", "C11", "C19"], "sample": ["C13"], "transforms": ["C15"],
    "types": ["C01", "C12"], "utils": ["C16", "C13", "C11"], "basic": ["C01", "C10", "C11", "C12", "C21"],
}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: ast.Mult}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def sites(tree):
    """(line, description, function that changes a node in place) in order."""
    out = []
    for node in ast.walk(tree):
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            out.append((line, "operator", lambda n: setattr(n, "op", BIN[type(n.op)]())))
        if isinstance(node, ast.Compare):
            for alt in CMP.get(type(node.ops[0]), []):
                out.append((line, f"comparison {alt.__name__}", lambda n, alt=alt: n.ops.__setitem__(0, alt())))
        if isinstance(node, ast.BoolOp):
            out.append((line, "and/or", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            for i in range(len(node.values)):
                if len(node.values) > 1:
                    out.append((line, f"dropped condition {i}", lambda n, i=i: n.values.pop(i)))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            out.append((line, "unary dropped", "replace"))
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            out.append((line, "constant + 1", lambda n: setattr(n, "value", n.value + 1)))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((line, "flag", lambda n: setattr(n, "value", not n.value)))
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            for i in range(len(node.args) - 1):
                out.append((line, f"arguments {i} and {i + 1}", lambda n, i=i: n.args.__setitem__(slice(i, i + 2), [n.args[i + 1], n.args[i]])))
        if isinstance(node, ast.Call) and node.keywords:
            for i in range(len(node.keywords)):
                out.append((line, f"dropped keyword {node.keywords[i].arg}", lambda n, i=i: n.keywords.pop(i)))
        if isinstance(node, ast.If):
            out.append((line, "never", lambda n: setattr(n, "test", ast.Constant(False))))
            out.append((line, "always", lambda n: setattr(n, "test", ast.Constant(True))))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("sqrt", "square", "log", "exp", "reciprocal", "sum", "abs", "T") and node.args:
            out.append((line, f"{node.func.attr} dropped", "argument"))
        if hasattr(node, "body") and isinstance(node.body, list):
            for i, st in enumerate(node.body):
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) or isinstance(st, ast.AugAssign):
                    out.append((st.lineno, "statement dropped", lambda n, i=i: n.body.__setitem__(i, ast.Pass())))
    return out


class Swap(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        return self.new if node is self.target else self.generic_visit(node)


def mutants(src):
    n = len(sites(ast.parse(src)))
    for i in range(n):
        tree = ast.parse(src)
        found = []
        # the same walk again, keeping the nodes
        k = 0
        for node in ast.walk(tree):
            sub = sites_of(node)
            for s in sub:
                if k == i:
                    found = [node, s]
                k += 1
        node, (line, what, f) = found
        if f == "replace":
            tree = Swap(node, node.operand).visit(tree)
        elif f == "argument":
            tree = Swap(node, node.args[0]).visit(tree)
        else:
            f(node)
        try:
            new = ast.unparse(ast.fix_missing_locations(tree))
        except Exception:
            continue
        if new != ast.unparse(ast.parse(src)):
            yield i, line, what, new


def sites_of(node):
    """The sites of one node only."""
    bare = copy.copy(node)
    real = ast.walk
    try:
        ast.walk = lambda t: [t]
        return sites(bare if False else node)
    finally:
        ast.walk = real


def caught(checks, ver, work):
    """The first check that reports a violation."""
    for c in checks:
        try:
            p = subprocess.run([PY, "-W", "ignore", "mc/run.py", c, "--first"], cwd=ver, capture_output=True, text=True, timeout=300,
                               env=dict(os.environ, AEMCMC_REPO=work, MC_JOBS=os.environ.get("MC_JOBS", "4"), PYTHONDONTWRITEBYTECODE="1"))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 124
        if rc:
            return c if rc == 1 else f"{c} rc={rc}"
    return None


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    part = next((a.split("=")[1] for a in sys.argv if a.startswith("--shard=")), "0/1")
    lo, hi = map(int, part.split("/"))
    out = args[0]
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["i"]) for d in map(json.loads, open(out))}
    tmp = tempfile.mkdtemp(prefix="mutate-", dir="/tmp")
    try:
        work, ver = os.path.join(tmp, "repo"), os.path.join(tmp, "verif")
        shutil.copytree(REPO, work, symlinks=True)
        shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        for name in args[1:] or list(FIRST):
            path = os.path.join(work, "aemcmc", name + ".py")
            src = open(os.path.join(REPO, "aemcmc", name + ".py")).read()
            for i, line, what, new in mutants(src):
                if i % hi != lo or (name, i) in done:
                    continue
                with open(path, "w") as f:
                    f.write(new)
                rec = dict(file=name, i=i, line=line, what=what, src=src.splitlines()[line - 1].strip() if line else "")
                rec["by"] = caught(FIRST[name], ver, work)
                if rec["by"] is None:
                    p = subprocess.run(f"{PY} -m pytest -q -x -p no:cacheprovider -n 4 --timeout=300 --tb=line tests", cwd=work, shell=True, capture_output=True, text=True,
                                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                                                AESARA_FLAGS="compiledir=/opt/aesara-cache,blas__ldflags=-lopenblas,gcc__cxxflags=-pipe -march=x86-64,compile__timeout=600"))
                    rec["tests"] = p.stdout.strip().splitlines()[-1][:200] if p.stdout.strip() else str(p.returncode)
                    if p.returncode == 0 and "--rest" in sys.argv:
                        rec["by"] = caught([c for c in ALL if c not in FIRST[name]], ver, work)
                with open(out, "a") as f:
                    f.write(json.dumps(rec) + "\n")
            with open(path, "w") as f:
                f.write(src)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
