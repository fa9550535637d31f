"""C20: breadth-first exploration of chains of the real sampler."""
import numpy as np

from mc import engine, models, modelrun
from mc.blocks import Pinned
from mc.engine import close, nuts_policy
from mc.props.c01 import support_bad, unreachable

ASSUMPTIONS = [
    "every draw takes one of the enumerated quantile patterns, the NUTS kernel one of the enumerated answers",
    "observations and inputs stay the same along a chain",
]
BOUNDS = {
    "quick": "76 models: chains of up to 3 sweeps over 2 draw levels x 2 kernel answers (all of 2 sweeps, the first 24 states), exactness at every state reached after 1 sweep and 2 after 3, and after 12 sweeps along 2 chains of alternating choices",
    "thorough": "the full catalogue: all chains of 4 sweeps over 3 draw levels x 3 kernel answers (first 400 states) from 3 initial states, exactness at 40 of the states of every depth, 40 sweeps along 4 chains",
}


def chosen():
    """One model of every kind for the quick tier."""
    names = list(modelrun.catalogue("quick"))
    seen, out = {}, []
    for n in names:
        stem = "-".join(n.split("-")[:2])
        e = modelrun.model(n).meta.get("expect") or {}
        key = (stem, tuple(sorted(set(e.values()))))
        if seen.setdefault(key, 0) < 1:
            seen[key] += 1
            out.append(n)
    return out


def tasks(tier):
    deep = tier == "thorough"
    for n in (list(modelrun.catalogue(tier)) if deep else chosen()):
        big = n.startswith("large-") and not deep
        yield {"name": n, "depth": 4 if deep else 3, "levels": [0, 1, 3] if deep else [0, 1], "answers": [0, 1, 3] if deep else [1, 3],
               "starts": [[0, 0], [2, 1], [5, 2]] if deep else [[0, 0]], "from": [[0, 0], [5, 2]] if deep else [[2, 1]], "cap": 400 if deep else 24,
               "exact": 40 if deep else 1 if big else 2, "long": 40 if deep else 12, "walks": 4 if deep else 1 if big else 2, "cost": 20 if big else 3 if "nuts" in n or "hs" in n else 1}


def key(lat):
    return tuple(np.round(np.ravel(v), 9).tobytes() for v in lat.values())


def run_task(t, r):
    prog = modelrun.model(t["name"])
    sysm = engine.System(prog)
    moves = [(lev, a) for lev in t["levels"] for a in (t["answers"] if sysm.nuts_names else [0])]

    def ctl(m):
        return Pinned(level=m[0], policy={"nuts_probe": nuts_policy(modelrun.ANSWERS[m[1]])})

    def legal(lat, out, path, obs, data):
        """True, None for a position NUTS never returns, or False."""
        for n in sysm.names:
            if out[n].shape != np.shape(lat[n]):
                r.bad(f"{prog.name} after {path}: {n} has shape {out[n].shape}, expected {np.shape(lat[n])}", start=lat, path=path)
                return False
        tr = prog.trace(out, obs, data)
        ok = True
        for n in sysm.names:
            b = support_bad(tr.supports[n][0], tr.supports[n][1], out[n])
            r.validated += 1
            if b and unreachable(n, sysm, tr, out):
                return None
            if b:
                r.bad(f"{prog.name} after {path}: {n} is {b}: {out[n].tolist()}", start=lat, path=path)
                ok = False
        return ok

    sysm.reset()
    live = [sysm.memory()]

    def same(lat, ran, fresh, cr, cf, path, how):
        for n in sysm.names:
            if ran[n].shape != fresh[n].shape or not np.array_equal(ran[n], fresh[n], equal_nan=True):
                r.bad(f"{prog.name} after {path}{how}: {n} becomes {ran[n].tolist()}, a new sampler in the same state gives {fresh[n].tolist()}", state=lat, path=path)
                return False
        # what NUTS was given: step size, mass matrix, densities, gradients
        for a, b in zip(cr.extra, cf.extra):
            if not all(close(x, y, rtol=1e-9) or np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)):
                r.bad(f"{prog.name} after {path}{how}: NUTS is given {[np.asarray(x).tolist() for x in a]}, by a new sampler in the same state {[np.asarray(x).tolist() for x in b]}", state=lat, path=path)
                return False
        if len(cr.extra) != len(cf.extra):
            r.bad(f"{prog.name} after {path}{how}: NUTS runs {len(cr.extra)} times, in a new sampler {len(cf.extra)}", state=lat, path=path)
            return False
        return True

    def step(lat, m, path, obs, data):
        """One more sweep of the running sampler, compared with a sweep of a
        sampler that was just set up in this state."""
        sysm.recall(live[0])
        cr, cf = ctl(m), ctl(m)
        ran = sysm.run(lat, obs, data, cr, reset=False)
        live[0] = sysm.memory()
        fresh = sysm.run(lat, obs, data, cf, reset=True)
        r.transitions += 2
        r.validated += 1
        if not same(lat, ran, fresh, cr, cf, path, ""):
            return False
        ok = legal(lat, fresh, path + [m], obs, data)
        return fresh if ok else ok

    def counters(lat, obs, data):
        """What a sampler remembers besides its generators and its inputs is
        counted on for a long time."""
        m = moves[-1]
        hidden = sysm.hidden()
        if not hidden:
            return True
        vals = [[np.array(v.get_value()) for v in hidden]]
        sysm.reset()
        for _ in range(3):
            sysm.run(lat, obs, data, ctl(m), reset=False)
            vals.append([np.array(v.get_value()) for v in hidden])
        cf = ctl(m)
        fresh = sysm.run(lat, obs, data, cf)
        sysm.reset()
        start = [np.array(v.get_value()) for v in hidden]
        for v, a, b, c, d in zip(hidden, start, *vals[1:]):
            inc = b - a
            if a.ndim or not inc or c - b != inc or d - c != inc:
                continue
            for times in (10, 33, 100, 333, 1000, 3333, 10**4, 10**5, 10**6, 10**7):
                sysm.reset()
                v.set_value(np.asarray(a + times * inc, dtype=a.dtype))
                cr = ctl(m)
                ran = sysm.run(lat, obs, data, cr, reset=False)
                r.states += 1
                r.transitions += 1
                if not same(lat, ran, fresh, cr, cf, [], f"{times} sweeps (counted by {v})"):
                    return False
        return True

    def exact(lat, path, obs, data, m):
        if m[1] and step(lat, m, path, obs, data) is None:
            m = (m[0], 0)
        modelrun.check_state(prog, sysm, lat, obs, data, m[0], r, tag=path, probe=modelrun.ANSWERS[m[1]])

    left = modelrun.kinds(prog, sysm)
    if left:
        r.bad(f"{prog.name}: {left} is left to NUTS although its specialised update applies")
    if not counters(*prog.concrete(0, 0)):
        return
    for k, ok in t["starts"]:
        lat, obs, data = prog.concrete(k, ok)
        front, seen = [(lat, [])], {key(lat)}
        for depth in range(t["depth"]):
            nxt = []
            for cur, path in front:
                for m in moves:
                    out = step(cur, m, path, obs, data)
                    if out is False:
                        return
                    if out is None:
                        continue
                    h = key(out)
                    r.outcome(f"{prog.name}{hash(h) & 0xFFFFFFFF}")
                    if h not in seen and len(seen) < t["cap"]:
                        seen.add(h)
                        nxt.append((out, path + [m]))
                        r.states += 1
            last = depth == t["depth"] - 1
            n = len(nxt) if depth == 0 else t["exact"] if last else 0 if t["exact"] < 10 else t["exact"]
            for i in range(0, len(nxt), max(1, len(nxt) // n if n else len(nxt) + 1)):
                if n:
                    exact(nxt[i][0], [[k, ok]] + nxt[i][1], obs, data, nxt[i][1][-1])
            front = nxt
    for k, ok in t["from"]:
        lat, obs, data = prog.concrete(k, ok)
        for w in range(t["walks"]):
            cur, path = lat, []
            for i in range(t["long"]):
                m = moves[(i * (w + 1) + i // len(moves) + w) % len(moves)]
                out = step(cur, m, path, obs, data)
                if out is False:
                    return
                if out is not None:
                    cur, path = out, path + [m]
            exact(cur, [[k, ok], f"walk {w}", t["long"]], obs, data, (path or moves)[-1])
    r.sample(model=prog.name, start=lat, reached=cur)
