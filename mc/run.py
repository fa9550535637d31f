"""Run one property's check:  python -m mc.run C03 [--replay FILE]

Tasks (finite, enumerated, independent) are explored by a pool of processes.
Exit 0: the property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<file>" names a task that can be replayed.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

KNOWN_FILE = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
LIMIT = {"quick": 780.0, "thorough": 6 * 3600.0}
MODULE = None


def known_entries(prop):
    out = set()
    with open(KNOWN_FILE) as f:
        for line in f:
            if line.startswith("known:") and f"property={prop} " in line:
                out.add(line.split("key=", 1)[1].split()[0])
    return out


def work(task):
    from mc.report import Result, Skip

    t = time.time()
    r = Result()
    try:
        MODULE.run_task(task, r)
    except Skip as e:
        r.skipped.append(str(e))
    except BaseException as e:  # the system under check failed
        if isinstance(e, KeyboardInterrupt):
            raise
        r.bad(f"{type(e).__name__}: {str(e)[:600]}", traceback=traceback.format_exc()[-1500:])
    return task, r, time.time() - t


def main():
    global MODULE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--first", action="store_true", help="stop at the first violation")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = a.prop
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    rep = os.path.join(rdir, f"{prop}.json")

    viol, known, done, nskip, times = [], {}, 0, [], []
    tot = dict(states=0, transitions=0, validated=0)
    outcomes, samples = set(), []
    assumptions, extra, timed_out, total = [], {}, False, 0
    try:
        import mc.env  # noqa: F401

        MODULE = importlib.import_module(f"mc.props.{prop.lower()}")
    except Exception as e:
        viol.append(dict(task=None, msg=f"cannot import the system under check: {e}", info={"traceback": traceback.format_exc()[-1500:]}))
    if MODULE is not None:
        assumptions = list(getattr(MODULE, "ASSUMPTIONS", []))
        if a.replay:
            with open(a.replay) as f:
                tasks = [json.load(f)["task"]]
        else:
            tasks = list(MODULE.tasks(tier))
        tasks = [json.loads(json.dumps(t)) for t in tasks]
        total = len(tasks)
        # longest first where the module knows it; the seed only permutes ties
        import random

        random.Random(seed).shuffle(tasks)
        tasks.sort(key=lambda t: -t.get("cost", 1))
        ctx = mp.get_context("fork")
        jobs = max(1, min(a.jobs, len(tasks)))
        pool = ctx.Pool(jobs)
        try:
            it = pool.imap_unordered(work, tasks)
            for _ in tasks:
                left = LIMIT[tier] - (time.time() - t0)
                try:
                    task, r, dt = it.next(timeout=max(0.1, left))
                except mp.TimeoutError:
                    timed_out = True
                    break
                done += 1
                times.append((dt, task))
                tot["states"] += r.states
                tot["transitions"] += r.transitions
                tot["validated"] += r.validated
                outcomes |= r.outcomes
                nskip += r.skipped
                if len(samples) < 6:
                    samples += r.samples[:2]
                for k, w in r.known.items():
                    known.setdefault(k, (task, w))
                for v in r.violations:
                    viol.append(dict(task=task, **v))
                if viol and a.first:
                    break
                if a.verbose:
                    print(f"{dt:6.2f} {task} {[v['msg'][:200] for v in r.violations]}", file=sys.stderr)
        finally:
            pool.terminate()
            pool.join()
    if timed_out:
        viol.append(dict(task=None, msg=f"no answer: {total - done} of {total} tasks did not finish within {LIMIT[tier]:.0f} s", info={}))

    listed = known_entries(prop)
    for k, (task, w) in sorted(known.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {k}: {w}"[:900])
        else:
            viol.append(dict(task=task, msg=f"{k}: {w}", info={}))

    if not a.replay:
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": tot["states"], "transitions": tot["transitions"],
                "traces_validated_against_impl": tot["validated"],
                "tasks": done, "distinct_outcomes": len(outcomes),
                "exhaustive": bool(done == total and not nskip),
                "bounds": getattr(MODULE, "BOUNDS", {}).get(tier, "") if MODULE else "",
                "skipped": nskip[:20], "samples": samples[:6], **extra,
            },
            "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(
        f"{prop} {tier}: {done}/{total} tasks, states={tot['states']} transitions={tot['transitions']} "
        f"validated={tot['validated']} distinct_outcomes={len(outcomes)} skipped={len(nskip)} wall={time.time() - t0:.1f}s"
    )
    if a.verbose:
        for dt, t in sorted(times, key=lambda x: -x[0])[:8]:
            print(f"  {dt:.1f}s {t}", file=sys.stderr)
    if viol:
        viol.sort(key=lambda v: len(json.dumps(v["task"])) if v["task"] else 10**9)
        v = viol[0]
        if not a.replay:
            with open(rep, "w") as f:
                json.dump({"property": prop, **v, "all": [x["msg"][:300] for x in viol[:50]],
                           "how": f"/opt/venv/bin/python /verif/mc/run.py {prop} --replay <this file>"}, f, indent=1)
        for x in viol[:5]:
            print(f"  {json.dumps(x['task'])}: {x['msg'][:500]}")
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
