"""C06: horseshoe shrinkage parameters."""
import itertools

import aesara.tensor as at
import numpy as np

from mc import models, modelrun, ref
from mc.blocks import Pinned
from mc.props.lib import typed, Fn, get, stream

ASSUMPTIONS = [
    "each gamma-type draw is reduced to a standard gamma pivot; the new scales must be the documented functions of the pivots for one assignment of draws to roles",
]
BOUNDS = {
    "quick": "all horseshoe models x 5 states (two of them with scales stretched or shrunk by 40 to 50); posterior function: 1..5 coefficients, 5 coefficient patterns (zeros, 1e-7 to 3e3), local and global scales 1e-9 to 1e8, noise variances 0.4/1/2.5, scalar and length-1 global scales, 3 draw alternatives; argument types",
    "thorough": "full catalogue x 6 states; 1..9 coefficients, 6 draw alternatives",
}


def tasks(tier):
    deep = tier == "thorough"
    states = modelrun.STATES3 + ([[2, 3, 2], [4, 0, 1], [5, 4, 3]] if deep else [])
    for p in models.hs_catalogue(deep) + models.hs_only() + [q for q in models.large() + models.typed() + models.derived(deep) if "-hs-" in q.name and "gamma" not in q.name] + [q for q in models.shared_data() if "horseshoe" in q.name]:
        yield {"kind": "model", "name": p.name, "states": states, "cost": 4}
    for p in models.mutants():
        if p.name.startswith("mutant-hs-"):
            yield {"kind": "model", "name": p.name, "states": [[0, 0, 0]], "cost": 3}
    for p in (1, 3):
        for i in (0, 1):
            yield {"kind": "types", "p": p, "case": i, "cost": 40}
    for p in list(range(1, (9 if deep else 5) + 1)) + [12, 40]:
        for tk in ("scalar", "shape1"):
            yield {"kind": "fn", "p": p, "tau": tk, "levels": 6 if deep else 3, "cost": 2}


def run_task(t, r):
    if t["kind"] == "model":
        modelrun.run_model(t["name"], t["states"], r)
        return
    fn = get("aemcmc.gibbs", "horseshoe_posterior")
    srng = stream()
    p = t["p"]
    if t["kind"] == "types":
        nums = ("float64", "float32", "int64", "int8", "uint8")
        for tau in ((np.array([4]), 2)[t["case"]],):
            typed("horseshoe posterior", lambda *a: (fn(srng, *a), None), [3 - 2 * np.arange(p), 2, 1 + 4 * np.arange(p), tau], [nums[:4], nums, nums, nums], r)
        return
    beta, lam2, s2 = at.vector("beta"), at.vector("lam2"), at.scalar("s2")
    tau2 = at.scalar("tau2") if t["tau"] == "scalar" else at.tensor("float64", (True,), name="tau2")
    outs = fn(srng, beta, s2, lam2, tau2)
    f = Fn([beta, s2, lam2, tau2], list(outs))
    k = np.arange(p)
    scales = (1.0, 1e-5, 1e-9, 1e4, 1e8) if t["levels"] < 4 else (1.0, 1e-2, 1e-5, 1e-9, 30.0, 1e4, 1e8)
    for (j, sv, lev), ls, ts in itertools.product(itertools.product(range(5), (0.4, 1.0, 2.5), range(t["levels"])), scales, scales):
        if (ls, ts) != (1.0, 1.0) and sv == 2.5:
            continue
        if p > 9 and (j + lev) % 3:
            continue
        bv = [(0.7 - 0.5 * (k % 7)), np.where(k % 2 == 0, 0.0, -1.3), 10.0 ** (k % 3 - 1.0), 1e-7 * (1.0 + k), 3e3 * (-1.0) ** k][j]
        lv = (0.4 + 0.9 * ((k + j) % 4)) * ls
        tv = (0.3 + 0.8 * (j % 3)) * ts
        c = Pinned(level=lev)
        ln, tn = f(c, bv, sv, lv**2, np.float64(tv**2) if t["tau"] == "scalar" else np.array([tv**2]))
        r.states += 1
        r.validated += 1
        # the noise variance scales the coefficients: beta^2 / sigma^2
        msg = ref.horseshoe_explained({}, bv / np.sqrt(sv), lv, tv, ln, tn, c.log)
        r.outcome(f"{p}{np.round(np.ravel(tn), 6).tolist()}")
        r.sample(beta=bv, sigma2=sv, lam=lv, tau=tv, lam_new=ln, tau_new=tn)
        if msg:
            r.bad(f"horseshoe posterior with beta={bv.tolist()}, sigma2={sv}, lambda={lv.tolist()}, tau={tv}: {msg}", beta=bv, sigma2=sv, lam=lv, tau=tv)
    r.transitions += f.execs
