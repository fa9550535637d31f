"""Run checks against the planted bugs:  python tools/recheck.py [ID ...] [--props C01,C02]

Every bug of seeded/ is applied to a copy of /repo; its property's check (or
the given ones) is run against the copy.  Prints caught / missed.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def main():
    args = [a for a in sys.argv[1:]]
    props = None
    if "--props" in args:
        i = args.index("--props")
        props = args[i + 1].split(",")
        del args[i:i + 2]
    for b in sorted(args or os.listdir(f"{ROOT}/seeded")):
        d = f"{ROOT}/seeded/{b}"
        meta = json.load(open(f"{d}/meta.json"))
        tmp = tempfile.mkdtemp(prefix="recheck-", dir="/tmp")
        try:
            cp = f"{tmp}/repo"
            subprocess.check_call(["cp", "-a", "/repo", cp])
            subprocess.check_call(["git", "-C", cp, "apply", f"{d}/patch.diff"])
            res = []
            for p in props or [meta["property"]]:
                r = subprocess.run([PY, "mc/run.py", p], cwd=ROOT, env=dict(os.environ, AEMCMC_REPO=cp), capture_output=True, text=True)
                hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
                n = [l for l in r.stdout.splitlines() if l.startswith(f"{p} quick")]
                res.append(f"{p}={'caught' if hit else 'MISSED rc=%d' % r.returncode} {n[0].split('wall=')[-1] if n else ''}")
            print(b, *res, flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
