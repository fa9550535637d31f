"""C04: logistic regression coefficients."""
import itertools

import aesara.tensor as at
import numpy as np

from mc import engine, models, modelrun
from mc.blocks import Pinned
from mc.engine import close
from mc.models import xmat
from mc.props.lib import typed, Fn, affine, get, stream

ASSUMPTIONS = [
    "the Polya-Gamma sampler is trusted to follow its shape and tilt (see C18 for its interface)",
    "the reference recovers the linear predictor from the model's joint density, checks the Polya-Gamma identity against it and solves the normal equations",
]
BOUNDS = {
    "quick": "all regression models of the catalogue, and those with designs, scales and dispersions that are expressions, x 5 states (two of them with scales stretched or shrunk by 40 to 50); all 0/1 vectors (3 observations) and all counts in {0,1,4}^3; counts up to 900, predictors and prior scales over 3 orders of magnitude; posterior functions on all shapes 1..4 x 1..4 and {12, 40} x {2, 11, 17} in 7 regimes (typical, far, tight, loose, large counts, zero) with scalar/vector scales and dispersions; designs, data and scales of 8 data types",
    "thorough": "the full catalogue (all prior x dispersion x shape combinations) x 6 states; shapes 1..6 x 1..6",
}


def tasks(tier):
    deep = tier == "thorough"
    states = modelrun.STATES3 + ([[2, 3, 2], [4, 0, 1], [5, 4, 3]] if deep else [])
    names = [p.name for p in models.reg_catalogue(deep)]
    names += ["shared-bernoulli-regression", "mutant-bernoulli-prior-sd-input-matrix-free", "mutant-nbinom-prior-sd-input-matrix-free"]
    names += [p.name for p in models.large() if p.name.startswith("reg-") and "gamma" not in p.name]
    names += [p.name for p in models.typed(deep) if p.name.startswith("typed-reg") and "gamma" not in p.name and "-hs-" not in p.name]
    names += [p.name for p in models.derived(deep) if ("-reg-" in p.name or "-scale-" in p.name) and "-gamma-" not in p.name and "-hs-" not in p.name]
    names += [p.name for p in models.composite() if "reg-" in p.name and "gamma" not in p.name]
    for n in names:
        yield {"kind": "model", "name": n, "states": states, "cost": 2}
    m = 6 if deep else 4
    for (n, p), sd, h in itertools.product(((2, 2), (3, 1), (1, 3)), ("scalar", "vec"), (None, "scalar", "vec")):
        if deep or (n, p) == (2, 2) or sd == h or (n == 1 and h is None):
            yield {"kind": "types", "n": n, "p": p, "scale": sd, "h": h, "cost": 40}
    for fam in ("bernoulli", "nbinom"):
        yield {"kind": "ygrid", "fam": fam, "cost": 6}
        for sc in ("scalar", "vec"):
            for hk in (("scalar", "vec") if fam == "nbinom" else ("scalar",)):
                for n in range(1, m + 1):
                    yield {"kind": "fn", "fam": fam, "scale": sc, "h": hk, "n": n, "ps": list(range(1, m + 1)), "cost": 4}
                for n in (12, 40, 120) if deep else (12, 40):
                    yield {"kind": "fn", "fam": fam, "scale": sc, "h": hk, "n": n, "ps": [2, 11, 17, 50] if deep else [2, 11, 17], "far": True, "cost": 6}


def run_task(t, r):
    if t["kind"] == "model":
        modelrun.run_model(t["name"], t["states"], r)
        return
    if t["kind"] == "ygrid":
        fam = t["fam"]
        prog = models.reg(fam, "inp", "inp", 3, 2)
        sysm = engine.System(prog)
        left = modelrun.kinds(prog, sysm)
        if left:
            r.bad(f"{prog.name}: {left} left to NUTS")
        for ys in list(itertools.product([0, 1] if fam == "bernoulli" else [0, 1, 4], repeat=3)) + ([] if fam == "bernoulli" else [(60, 0, 900), (300, 25, 2)]):
            lat, obs, data = prog.concrete()
            obs["Y"] = np.array(ys, float)
            modelrun.check_state(prog, sysm, lat, obs, data, 0, r, tag=dict(y=ys))
        for c, b in itertools.product((0.02, 1.0, 12.0), (-1000.0, -100.0, -10.0, -3.0, 3.0, 10.0, 100.0, 1000.0)):
            # prior scales and predictors over several orders of magnitude
            lat, obs, data = prog.concrete()
            for q, v in data.items():
                if q.startswith("sd"):
                    data[q] = v * c
            bn = next(n for n in lat if n.startswith("beta"))
            lat[bn] = lat[bn] * b
            modelrun.check_state(prog, sysm, lat, obs, data, 1, r, tag=dict(sd=c, beta=b))
        return
    if t["kind"] == "types":
        types(t, r)
        return
    direct(t, r)


def types(t, r):
    n, p = t["n"], t["p"]
    srng = stream()
    nums = ("float64", "float32", "int64", "int8", "uint8")
    beta, X, y = 1 - np.arange(p), (1 + np.arange(n)[:, None] + np.arange(p)) % 2, np.arange(n) % 2
    sd = 3 if t["scale"] == "scalar" else 2 + np.arange(p)
    if t["h"] is None:
        fn = get("aemcmc.gibbs", "bern_normal_posterior")
        typed("bernoulli regression posterior", lambda *a: (fn(srng, *a), None), [beta, sd, X, y], [nums[:4], nums, nums + ("bool",), nums + ("bool",)], r)
        return
    fn = get("aemcmc.gibbs", "nbinom_normal_posterior")
    h = 2 if t["h"] == "scalar" else 1 + np.arange(n)
    typed("negative binomial regression posterior", lambda *a: (fn(srng, *a), None), [beta, sd, X, h, 4 * y], [nums[:4], nums, nums, nums[:4], nums], r)


def direct(t, r):
    fam, n = t["fam"], t["n"]
    srng = stream()
    beta, X, y = at.vector("beta"), at.matrix("X"), at.vector("y")
    sd = at.scalar("sd") if t["scale"] == "scalar" else at.vector("sd")
    h = at.scalar("h") if t["h"] == "scalar" else at.vector("h")
    if fam == "nbinom":
        fn = get("aemcmc.gibbs", "nbinom_normal_posterior")
        f = Fn([beta, sd, X, h, y], fn(srng, beta, sd, X, h, y))
    else:
        fn = get("aemcmc.gibbs", "bern_normal_posterior")
        f = Fn([beta, sd, X, h, y], fn(srng, beta, sd, X, y))
    for p in t["ps"]:
        for j in (0, 1, 3, 7) if t.get("far") else range(9):
            i, k = np.arange(n), np.arange(p)
            Xv = xmat(n, p, j)
            bv = (0.6 - 0.5 * (k % 5)) * (-1) ** j
            sv = np.float64(1.3 + j % 2) if t["scale"] == "scalar" else 0.6 + 0.5 * ((k + j) % 3)
            hv = np.float64(1.8 + 2 * (j % 2)) if t["h"] == "scalar" else 0.7 + 0.6 * ((i + j) % 4)
            yv = ((i + j) % 2 if fam == "bernoulli" else np.array([2, 0, 5, 1])[(i + j) % 4]).astype(float)
            # far regimes: large predictors, tight and loose priors, extreme counts and dispersions
            if j == 2:
                bv = bv * 25
            elif j == 3:
                sv, bv = sv * 1e-2, bv * 1e-2
            elif j == 4:
                sv, hv = sv * 1e2, hv * 1e-2
            elif j == 5:
                hv, yv = hv * 100, (yv if fam == "bernoulli" else yv * 150)
            elif j == 6:
                bv, Xv, yv = 0 * bv, Xv * (1 + 4 * (k % 2)), 0 * yv
            elif j == 7:  # predictors of several hundreds
                bv = bv * 300
            elif j == 8:  # data in other units
                Xv, bv, sv = Xv * 1e3, bv * 10, sv * 1e-3
            logs = []

            def go(pol):
                c = Pinned(level=j, policy=pol)
                out = f(c, bv, sv, Xv, hv, yv)
                logs.append(c.log)
                return out

            m, V, _ = affine(go, "beta")
            pgs = [d for d in logs[0] if d.name == "polyagamma"]
            r.states += 1
            r.validated += 3
            info = dict(fam=fam, beta=bv, sd=sv, X=Xv, h=hv, y=yv)
            want_n = np.ones(n) if fam == "bernoulli" else yv + hv
            kappa = yv - 0.5 if fam == "bernoulli" else 0.5 * (yv - hv)
            psi = Xv @ bv
            bad = "no Polya-Gamma draw was made"
            for d in pgs:
                hh, zz = [np.ravel(np.asarray(q, float)) for q in d.params]
                if hh.size != n or not close(hh, want_n) or not close(np.abs(zz), np.abs(psi)):
                    bad = f"Polya-Gamma drawn with shape {hh.tolist()} and tilt {zz.tolist()}; required {want_n.tolist()} and {psi.tolist()}"
                    continue
                w = np.ravel(d.value)
                cov = np.linalg.inv(Xv.T @ np.diag(w) @ Xv + np.diag(np.broadcast_to(sv, (p,)) ** -2.0))
                mean = cov @ Xv.T @ kappa
                if not close(m, mean, 1e-6, 1e-8):
                    bad = f"mean {m.tolist()}, exact {mean.tolist()}"
                elif not close(V, cov, 1e-6, 1e-8):
                    bad = f"covariance {V.tolist()}, exact {cov.tolist()}"
                else:
                    bad = None
                    break
            r.outcome(f"{fam}{np.round(m, 6).tolist()}")
            r.sample(**info, mean=m, cov=V)
            if bad:
                r.bad(f"{fam} regression posterior: {bad}", **info)
    r.transitions += f.execs
