"""C05: negative binomial dispersion and its table counts."""
import itertools

import aesara.tensor as at
import numpy as np

from mc import engine, models, modelrun, ref
from mc.blocks import Pinned
from mc.draws import explore
from mc.props.lib import typed, Fn, get, stream

ASSUMPTIONS = [
    "table count probabilities come from unsigned Stirling numbers of the first kind",
    "the stand-alone function is checked in the parameterisation its derivation documents (prior scale b, counts with log(1 - p))",
    "known finding dispersion-complement: construct_sampler hands it the complement of that probability",
]
BOUNDS = {
    "quick": "table counts: all y in 0..6, 11 (pairs up to 4), counts of 33 and 130 through the extreme outcomes, 7 dispersions from 1e-3 to 2e3, every outcome of every Bernoulli draw; dispersion: y in {0,1,3}^2 x 7 h x 2 priors x 2 p, and 1, 4, 5 observations with extreme p and priors; 6 sampler models x 2 states, y in {0,1,2}^2; argument types",
    "thorough": "y up to 9, pairs up to 6, 10 dispersions; 27 models x 5 states (two of them with scales stretched or shrunk by 40 to 50)",
}


def tasks(tier):
    deep = tier == "thorough"
    hs = [1e-3, 0.05, 0.7, 1.0, 4.2, 75.0, 2e3] + ([0.3, 13.0, 60.0] if deep else [])
    for h in hs:
        yield {"kind": "crt", "h": h, "top": 9 if deep else 6, "pair": 6 if deep else 4, "far": [33, 130] if not deep else [20, 60, 129, 300], "cost": 4}
        yield {"kind": "fn", "h": h, "ys": [0, 1, 3] if not deep else [0, 1, 2, 4], "cost": 5}
    for i in range(4):
        yield {"kind": "types", "case": i, "cost": 30}
    states = [[0, 0, 0], [1, 2, 1]] + ([[2, 1, 0]] if deep else [])
    for p in models.disp_catalogue(deep) + [q for q in models.large() + models.typed(deep) + models.derived(deep) if "-gamma" in q.name or "-disp-" in q.name] + [q for q in models.shared_data() if "nbinom" in q.name]:
        yield {"kind": "model", "name": p.name, "states": states, "cost": 5}
    yield {"kind": "ygrid", "ys": [0, 1, 2] if not deep else [0, 1, 2, 3], "cost": 8}
    for n in ("mutant-disp-vector", "mutant-disp-scaled", "mutant-disp-exponential", "mutant-disp-shifted", "mutant-disp-used-twice", "comp-shared-dispersion"):
        yield {"kind": "model", "name": n, "states": [[0, 0, 0]], "cost": 5}


def far(f, y, h, r):
    """A count too large for all outcomes: the probabilities of 1, 2, y - 1 and
    y tables, from the outcomes that differ from none or all in one draw.  Only
    for implementations that make one binary draw per further customer."""
    seen = {}

    def run(prefix=()):
        c = Pinned(vary={"bernoulli", "categorical", "binomial"}, prefix=prefix)
        l = int(np.ravel(f(c, np.array([y]), h))[0])
        if any(d.name != "bernoulli" for d in c.log):
            return []
        logw = 0.0
        for d in c.log:
            p, v = np.ravel(d.params[0]).astype(float), np.ravel(d.value)
            with np.errstate(divide="ignore"):
                logw += float(np.sum(np.where(v == 1, np.log(p), np.log1p(-p))))
        seen[tuple(c.taken)] = (sum(bin(k).count("1") for k in c.taken), l, logw)
        return [k.bit_length() - 1 for k in c.points]

    sizes = run()
    k = sum(sizes)
    if not k:
        r.outcome("other algorithm for large counts")
        return
    for flips in [()] + [(i,) for i in range(k)]:
        for full in (0, 1):
            bits = [full ^ (i in flips) for i in range(k)]
            prefix = []
            for m in sizes:
                prefix.append(sum(bit << j for j, bit in enumerate(bits[:m])))
                bits = bits[m:]
            run(tuple(prefix))
    if any(ones + 1 != l for ones, l, _ in seen.values()):
        r.outcome("other algorithm for large counts")
        return
    if k != y - 1:
        r.bad(f"table counts for y={y}, h={h}: {k} draws, one per table after the first, so never more than {k + 1} tables", y=y, h=h)
        return
    seen = {key: v[1:] for key, v in seen.items()}
    by = {}
    for key, (l, w) in seen.items():
        by.setdefault(l, []).append(w)
    # unnormalised: h^l |s(y, l)|, relative to y tables
    i = np.arange(1.0, y)
    for l, log_s in ((1, np.sum(np.log(i))), (2, np.sum(np.log(i)) + np.log(np.sum(1 / i))), (y - 1, np.log(np.sum(i))), (y, 0.0)):
        want = l * np.log(h) + log_s - np.sum(np.log(h + np.arange(y)))
        got = float(np.logaddexp.reduce(by[l]))
        r.validated += 1
        if abs(got - want) > 1e-8 * (1 + abs(want)):
            r.bad(f"{l} tables for y={y}, h={h} have log probability {got}, exact {want}", y=y, h=h)
    r.states += 1
    r.outcome(f"far{y}{h}")


def run_task(t, r):
    if t["kind"] == "model":
        modelrun.run_model(t["name"], t["states"], r)
        return
    if t["kind"] == "ygrid":
        prog = models.reg("nbinom", "inp", "gamma-inp", 2, 1)
        sysm = engine.System(prog)
        left = modelrun.kinds(prog, sysm)
        if left:
            r.bad(f"{prog.name}: {left} left to NUTS")
        for ys in itertools.product(t["ys"], repeat=2):
            lat, obs, data = prog.concrete()
            obs["Y"] = np.array(ys, float)
            modelrun.check_state(prog, sysm, lat, obs, data, 0, r, tag=dict(y=ys))
        return
    srng = stream()
    if t["kind"] == "types":
        types(t, r, srng)
        return
    if t["kind"] == "crt":
        fn = get("aemcmc.gibbs", "sample_CRT")
        h = at.scalar("h")
        for nd in (1, 2):
            y = at.lvector("y") if nd == 1 else at.lmatrix("y")
            out, upd = fn(srng, y, h)
            f = Fn([y, h], out, updates=upd)
            cases = [(v,) for v in list(range(t["top"] + 1)) + [11]] + list(itertools.product(range(t["pair"] + 1), repeat=2)) + [(0, 0, 2, 1, 3, 0)] if nd == 1 else [(0, 2, 3, 1)]
            for ys in cases:
                yv = np.array(ys, dtype="int64").reshape((-1,) if nd == 1 else (2, 2))
                pmf = {}

                def run(prefix):
                    c = Pinned(vary={"bernoulli", "categorical", "binomial"}, prefix=prefix)
                    l = tuple(np.ravel(f(c, yv, t["h"])).astype(int).tolist())
                    if len(l) != len(ys):
                        raise ValueError(f"{len(l)} counts for {len(ys)} observations")
                    pmf[l] = pmf.get(l, 0.0) + float(np.prod([d.weight for d in c.log]))
                    return c.points, c.taken

                n, capped = explore(run, max_exec=20000)
                want = {}
                for l in itertools.product(*[ref.crt_pmf(int(v), t["h"]).items() for v in ys]):
                    want[tuple(k for k, _ in l)] = float(np.prod([q for _, q in l]))
                r.states += 1
                r.validated += len(want)
                r.outcomes |= {f"{ys}{k}" for k in pmf}
                keys = set(pmf) | set(want)
                worst = max(abs(pmf.get(k, 0) - want.get(k, 0)) for k in keys)
                r.sample(y=ys, h=t["h"], pmf={str(k): v for k, v in pmf.items()}, outcomes=n)
                if worst > 1e-9 or capped:
                    r.bad(f"table counts for y={ys}, h={t['h']}: {pmf}, exact {want}", y=ys, h=t["h"])
            if nd == 1:
                for y1 in t["far"]:
                    far(f, y1, t["h"], r)
            r.transitions += f.execs
        return
    fn = get("aemcmc.gibbs", "nbinom_dispersion_posterior")
    h, p, a, b, y = at.scalar("h"), at.vector("p"), at.scalar("a"), at.scalar("b"), at.lvector("y")
    out, upd = fn(srng, h, p, a, b, y)
    f = Fn([h, p, a, b, y], out, updates=upd)
    grid = list(itertools.product(
        itertools.product(t["ys"], repeat=2), [(2.3, 0.7), (0.6, 3.0)], [(0.3, 0.8), (0.9, 0.05)]
    ))
    grid += list(itertools.product([(2,), (0,), (8,)], [(0.02, 1e-3), (35.0, 400.0), (900.0, 1e7), (0.3, 1e-7)], [(1e-7,), (0.5,), (1 - 1e-6,)]))
    grid += list(itertools.product([(0, 2, 1, 3), (0, 0, 0, 0, 0)], [(2.3, 0.7), (0.02, 50.0)], [(0.2,)]))
    grid += list(itertools.product([(0, 1, 1) * 13 + (3,), (1,) * 150], [(2.3, 0.7)], [(0.3, 0.6, 0.1) * 50]))
    for ys, (av, bv), pv in grid:
        pv = (tuple(pv) * len(ys))[:len(ys)]
        ys_, pv_ = np.array(ys, dtype="int64"), np.array(pv)
        cands = {}
        for lev in (0, 1):
            def run(prefix):
                c = Pinned(level=lev, vary={"bernoulli", "categorical", "binomial"}, prefix=prefix)
                hv = float(f(c, t["h"], pv_, av, bv, ys_))
                w = float(np.prod([d.weight for d in c.log]))
                for d in c.log:
                    g = ref.gamma_pivot(d)
                    if g is not None and np.size(g[1]) == 1:
                        m = cands.setdefault((lev, d.site), {})
                        key = (float(np.ravel(g[0])[0]), float(np.ravel(g[1])[0]) / hv)
                        m[key] = m.get(key, 0.0) + w
                return c.points, c.taken

            explore(run, max_exec=20000)
        rate = 1 / bv - float(np.sum(np.log1p(-pv_)))
        want = {(av + l, rate): w for l, w in ref.crt_sum_pmf(ys, t["h"]).items() if w > 0}
        r.states += 1
        r.validated += len(want)
        r.outcome(f"{ys}{av}{pv}{len(want)}")
        r.sample(y=ys, h=t["h"], p=pv, a=av, b=bv, mixture={str(k): v for k, v in want.items()})
        sites = {s for _, s in cands}
        if not any(all(ref.same_mixture(cands.get((lev, s), {}), want) for lev in (0, 1)) for s in sites):
            r.bad(f"dispersion for y={ys}, h={t['h']}, p={pv}, prior ({av}, {bv}): mixture {list(cands.values())[:1]}, exact {want}", y=ys, h=t["h"], p=pv)
    r.transitions += f.execs


def types(t, r, srng):
    """Arguments of other types; the counts are integers of any width."""
    ints = ("int64", "int32", "int16", "int8", "uint8", "uint16")
    nums = ("float64", "float32", "int64", "int8", "uint8")
    vary = {"bernoulli"}
    if t["case"] < 2:
        y, h = (([3, 0, 2], 2), ([5], 120))[t["case"]]
        fn = get("aemcmc.gibbs", "sample_CRT")
        typed("table counts", lambda a, b: fn(srng, a, b), [np.array(y), h], [ints, nums], r, vary)
        return
    fn = get("aemcmc.gibbs", "nbinom_dispersion_posterior")
    h, a, b = ((2, 3, 1), (120, 127, 2))[t["case"] - 2]
    typed("dispersion posterior", lambda *q: fn(srng, *q), [h, np.array([0.3, 0.6]), a, b, np.array([3, 1])],
          [nums, ("float64", "float32"), nums, nums, ints], r, vary)
