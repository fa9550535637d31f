"""C03: conjugate conditionals."""
import itertools

import numpy as np

from mc import engine, models, modelrun

ASSUMPTIONS = [
    "densities are compared on a grid of support points per component (a difference of log densities that is constant there is taken as proportionality)",
    "draws are owned at RandomVariable.perform; every family's sampler is trusted to follow its parameters",
]
BOUNDS = {
    "quick": "all catalogue conjugate/hierarchical/fallback/multi models and models with hyperparameters and data that are expressions x 5 states (two of them with scales stretched or shrunk by 40 to 50); grids: 5 alphas x 5 betas (0.05 to 40) x counts 0..3, 37, 1200 x n 1..3, 50, 1500 and n 0.5, 2.5, 40.75; hyperparameters 1e-6 to 3e6 with counts up to 1e9; data and hyperparameters of 8 data types",
    "thorough": "as quick with 8 states per model and 9x9 hyperparameters (0.05 to 900) x counts 0..8, 37, 1200 x n 1..8, 50, 1500, vectors of 3 with all 3^3 counts",
}


def tasks(tier):
    deep = tier == "thorough"
    states = modelrun.STATES3 + ([[k, ok, lev] for k in range(1, 6) for ok in (0, 3) for lev in (0, 2)] if deep else [])
    names = [p.name for p in models.conj_catalogue() + models.conj_hier() + models.conj_fallback() + models.multi() + [q for q in models.large() + models.typed(tier == "thorough") + models.derived() if "conj" in q.name]]
    names += ["shared-gamma-poisson", "shared-gamma-poisson-vector", "shared-beta-binomial"]
    for n in names:
        yield {"kind": "model", "name": n, "states": states, "cost": 3 if "nuts" in str(modelrun.model(n).meta.get("expect")) else 1}
    hyp = [0.05, 0.3, 1.0, 2.5, 40.0] if not deep else [0.05, 0.3, 0.9, 1.0, 2.0, 2.5, 7.0, 40.0, 900.0]
    ys = list(range(4 if not deep else 9)) + [37, 1200]
    ns = list(range(1, 4 if not deep else 9)) + [50, 1500]
    for kind, how in (("gp", "const"), ("bb", "inp"), ("bnb", "inp"), ("bnb", "frac")):
        for a in hyp:
            yield {"kind": "grid", "conj": kind, "n": how, "a": a, "bs": hyp, "ys": ys, "ns": ns if how != "frac" else [0.5, 2.5, 40.75], "cost": 4}
        far = [0.02, 1.5, 1e5]
        for a in far:
            yield {"kind": "grid", "conj": kind, "n": how, "a": a, "bs": [1e-6, 1.5, 3e6] if kind == "gp" else [0.2, 1.5, 1e5],
                   "ys": [0, 1, 10**6, 10**9], "ns": [1, 10**6, 2 * 10**9] if how != "frac" else [1e-3, 1e4 + 0.5], "cost": 3}
        if how != "frac":
            yield {"kind": "vgrid", "conj": kind, "ys": [0, 1, 3] if deep else [0, 2], "cost": 4}


def run_task(t, r):
    if t["kind"] == "model":
        modelrun.run_model(t["name"], t["states"], r)
        return
    kind = t["conj"]
    if t["kind"] == "grid":
        prog = models.conj(kind, ("inp", "inp"), (), t["n"])
        sysm = engine.System(prog)
        left = modelrun.kinds(prog, sysm)
        if left:
            r.bad(f"{prog.name}: {left} left to NUTS")
        for b, n, y in itertools.product(t["bs"], t["ns"] if kind != "gp" else [1], t["ys"]):
            if kind == "bb" and y > n:
                continue
            lat, obs, data = prog.concrete()
            data.update(a=np.float64(t["a"]), b=np.float64(b))
            if "n_Y" in data:
                data["n_Y"] = np.float64(n) if t["n"] == "frac" else np.int64(n)
            obs["Y"] = np.array(float(y))
            modelrun.check_state(prog, sysm, lat, obs, data, y % 2, r, tag=dict(a=t["a"], b=b, n=n, y=y))
        return
    prog = models.conj(kind, ("vec", "vec"), (3,), "const" if kind == "gp" else "vec", sized=False)
    sysm = engine.System(prog)
    left = modelrun.kinds(prog, sysm)
    if left:
        r.bad(f"{prog.name}: {left} left to NUTS")
    for ys in itertools.product(t["ys"], repeat=3):
        lat, obs, data = prog.concrete()
        obs["Y"] = np.array(ys, float)
        modelrun.check_state(prog, sysm, lat, obs, data, 0, r, tag=dict(y=ys))
