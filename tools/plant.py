"""Confirm planted bugs:  python tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts: id, property, file, edits [(old, new)],
needs, breaks, demo (source of demo.py).  A bug is kept in seeded/<id>/ once
the repository's tests pass with it and the demonstration tells the two trees
apart; then the property's check is run against the changed tree.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export AESARA_FLAGS="cxx=,blas__ldflags=,compiledir=$d"
/opt/venv/bin/python -W ignore "$here/demo.py" 2>/dev/null
"""
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport aesara\nimport aesara.tensor as at\nfrom aesara.tensor.random import RandomStream\n"


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, **env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        return (lambda o: (p.returncode, o))(p.communicate(timeout=timeout)[0])
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"


def tests(cwd):
    rc, out = sh(
        f"{PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=600 --tb=line tests", cwd,
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        AESARA_FLAGS="compiledir=/opt/aesara-cache,blas__ldflags=-lopenblas,gcc__cxxflags=-pipe -march=x86-64,compile__timeout=600")
    m = re.search(r"(\d+) passed", out)
    f = re.search(r"(\d+) failed", out)
    return (int(m.group(1)) if m else 0), (int(f.group(1)) if f else 0), out


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try:
            cp = os.path.join(tmp, "repo")
            subprocess.check_call(["cp", "-a", "/repo", cp])
            subprocess.check_call(["git", "-C", cp, "checkout", "-q", "--", "."])
            for e in b["edits"]:
                fn, old, new = (b["file"], *e) if len(e) == 2 else e
                p = os.path.join(cp, fn)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", cp, "diff"], text=True)
            bl = []  # are original lines changed?
            for fn in {e[0] if len(e) == 3 else b["file"] for e in b["edits"]}:
                removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
                blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", fn], text=True)
                orig = {re.sub(r"^\S+\s+(?:\S+\s+)?\d+\) ?", "", l) for l in blame.splitlines() if l.startswith("^8fb4a59") or "8fb4a59" in l[:10]}
                bl += [l in orig for l in removed]
            d = os.path.join(tmp, "demo")
            os.makedirs(d)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].lstrip("\n"))
            c0, o0 = sh(f"bash {d}/demo.sh", "/repo", 300)
            c1, o1 = sh(f"bash {d}/demo.sh", cp, 300)
            line = f"{b['id']} ({b['property']}): original lines {sum(bl)}/{len(bl)} demo clean={c0} patched={c1}"
            if c0 != 0 or c1 == 0:
                print(line, "DEMO BAD", flush=True)
                for t in ("/repo",) if c0 else (cp,):
                    print(sh(f"cd {t} && AESARA_FLAGS=cxx=,blas__ldflags=,compiledir={tmp}/cd {PY} -W ignore {d}/demo.py", t, 300)[1][-1500:])
                continue
            ok, bad, out = tests(cp)
            line += f" tests {ok}/{bad}"
            if bad or ok < 43:
                print(line, "TESTS CATCH IT", re.findall(r"FAILED (\S+)", out)[:5], flush=True)
                continue
            dst = os.path.join(ROOT, "seeded", b["id"])
            os.makedirs(dst, exist_ok=True)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(os.path.join(d, f), dst)
            open(os.path.join(dst, "patch.diff"), "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(dst, "meta.json"), "w"), indent=1)
            props = [b["property"]] + b.get("also", [])
            for p in props:
                rc, out = sh(f"{PY} mc/run.py {p} --tier quick", ROOT, 900, AEMCMC_REPO=cp)
                line += f" {p}:{'CAUGHT' if rc == 1 else 'missed' if rc == 0 else rc}"
            print(line, flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
