"""C09: the target, the start and the answer of the NUTS kernel."""
import itertools

import numpy as np

from mc import blocks, engine, models, modelrun
from mc.engine import nuts_policy

ASSUMPTIONS = [
    "aehmc's kernel itself is an environment that may answer any position; the check covers what AeMCMC hands over and takes back",
    "Jacobians and gradients by central differences of the real map and density",
]
BOUNDS = {
    "quick": "nuts, hierarchical, fallback, shared-data and composite models and the family grammar (about 20 families, simplex, vector and circular variables x shapes, all parent/child scale pairs) x 1-2 states, 6 positions each (distance up to 2.2 per coordinate); the NUTS functions on their own for subsets of the variables in several orders; returning to values from 1e-15 to 1e15; data of several types",
    "thorough": "as quick, all mutants and the full parameter grammar, 4 states",
}

blocks.FAR = (1.5, -2.2)


def names(tier):
    ps = models.nuts_catalogue() + models.conj_hier() + models.conj_fallback() + models.multi() + models.shared_data() + models.composite()
    ps += models.grammar(tier == "thorough") + models.vectors() + models.hs_only() + [q for q in models.large() + models.typed() if "large" in q.name or q.name == "typed-nuts"] + [q for q in models.derived() if "nuts" in q.meta["expect"].values()]
    if tier == "thorough":
        ps += models.mutants()
    return [p.name for p in ps]


def tasks(tier):
    for n in names(tier):
        e = modelrun.model(n).meta.get("expect")
        if e is not None and "nuts" not in e.values():
            continue
        st = [[0, 0, 0], [3, 1, 1], [100, 2, 0], [201, 1, 1]] if n.startswith(("nuts-", "multi", "comp")) else [[1, 2, 0], [201, 0, 1]]
        if tier == "thorough":
            st = [[0, 0, 0], [1, 2, 1], [3, 1, 0], [5, 3, 2], [100, 2, 0], [201, 1, 1], [103, 0, 0], [204, 3, 1]]
        yield {"name": n, "states": st, "cost": len(st)}
        yield {"kind": "far", "name": n, "state": [1, 0], "cost": 1}
    deep = tier == "thorough"
    some = [q for q in models.vectors() if deep or q.name.endswith(("mixed", "mvn-scaled", "dirichlet-scaled-2", "dirichlet-gamma-poisson"))]
    for p in models.nuts_catalogue() + models.conj_fallback() + models.multi() + models.composite() + models.chains(deep) + models.conj_hier() + some:
        m = len(p.concrete()[0])
        if m > (5 if deep else 4) or p.name == "multi-observed-parent":  # 0 * y: aeppl fails
            continue
        yield {"kind": "partial", "name": p.name, "states": [[1, 0, 0]] if not deep else [[1, 0, 0], [4, 1, 1]], "stride": 1 if deep or m < 3 else 2,
               "api": ["construct_sampler", "step"] if deep or m == 1 else ["construct_sampler"] if len(p.name) % 2 else ["step"], "cost": 2**m / 4}


def parts(names):
    """Non-empty proper and improper subsets, small ones first."""
    return [list(c) for c in engine.subsets(names) if c]


def partial(t, r):
    """NUTS for some of the variables, given values of all others."""
    prog = modelrun.model(t["name"])
    allof = list(prog.concrete()[0])
    for i, chosen in enumerate(parts(allof)[:: -t.get("stride", 1)]):
        for api, turned in itertools.product(t["api"], (i % 3,) if len(chosen) < 2 else (0, 1, 2) if len(chosen) == len(allof) else (i % 2, 2)):
            sysm = engine.NutsOnly(prog, chosen, api, turned=turned)
            for k, ok, lev in t["states"]:
                lat, obs, data = prog.concrete(k, ok)
                node, blks, orders = modelrun.check_state(prog, sysm, lat, obs, data, lev, r, tag=dict(sampled=chosen, api=api, order=turned))
                for n in sysm.fixed:
                    if not engine.close(node.base[n], lat[n]):
                        r.bad(f"{prog.name}: {n} is not sampled but changes", model=prog.name)


SCALES = {"real": (-1e9, -1e3, 1e-6, 1e6), "pos": (1e-15, 1e-6, 1e6, 1e15), "unit": (1e-15, 1e-6, 1 - 1e-6)}


def far(t, r):
    """The answer 'stay' returns the current values, however far they are."""
    prog = modelrun.model(t["name"])
    sysm = engine.System(prog)
    lat, obs, data = prog.concrete(*t["state"])
    sups = prog.trace(lat, obs, data).supports
    for n in sysm.nuts_names:
        for v in SCALES.get(sups[n][0], ()):
            x = dict(lat)
            i = np.arange(np.size(lat[n])).reshape(np.shape(lat[n]))
            x[n] = v * (1 - 0.1 * (i % 3)) if v != 1 - 1e-6 else v - 1e-7 * (i % 3)
            with np.errstate(all="ignore"):
                terms = prog.trace(x, obs, data).terms
            if any(not np.isfinite(terms[m]) for m in lat if m != n):
                continue  # outside the support of a variable that depends on it
            c = blocks.Pinned(policy={"nuts_probe": nuts_policy(lambda q: q)})
            try:
                out = sysm.run(x, obs, data, c)
            except Exception as e:
                if "ParameterValueError" in type(e).__name__:
                    continue  # a check of the log density of another variable
                raise
            r.states += 1
            r.transitions += 1
            for m in sysm.nuts_names:
                r.validated += 1
                if not engine.close(out[m], x[m], 1e-6, 0.0):
                    r.bad(f"{prog.name}: the kernel stays at the current values, but {m} = {np.ravel(x[m]).tolist()} becomes {np.ravel(out[m]).tolist()}",
                          model=prog.name, state=x, sweep=out)


def run_task(t, r):
    if t.get("kind") == "far":
        far(t, r)
        return
    if t.get("kind") == "partial":
        partial(t, r)
        return
    sysm = modelrun.run_model(t["name"], t["states"], r)
    prog = modelrun.model(t["name"])
    e = prog.meta.get("expect") or {}
    if any(k == "nuts" for k in e.values()) and not sysm.nuts_names:
        r.outcome("exact without NUTS")
