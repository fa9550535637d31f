"""C02: updates read the given state, data and parameters only."""
import aesara
import aesara.tensor as at
import numpy as np

from mc import dsl, engine, modelrun
from mc.blocks import Pinned
from mc.draws import rng_key
from mc.engine import close, nuts_policy

ASSUMPTIONS = [
    "non-interference is decided by two runs per model that differ in the model's generators only, plus the provenance of every draw",
    "FAST_RUN without a C compiler (the draws are owned at the Python level)",
]
BOUNDS = {
    "quick": "every catalogue model x 2 states x 3 settings of the model's generators; 24 models x 3 compilation modes x 2 states; every model with Gibbs steps and a fifth of the others with computed observations or with data set after the construction (half each)",
    "thorough": "the full catalogue x 4 states; every quick catalogue model x 3 compilation modes x 3 states",
}
MODES = [
    "conj-gp-inp/inp-0-const-size", "conj-bb-vec/const-3-vec-nosize", "conj-bnb-inp/inp-0-inp-size", "conj-gp-const/rv-0-const-size",
    "multi-shared-hyper", "multi-three-kinds", "fallback-gp-shared-latent", "fallback-gp-latent-child",
    "reg-nbinom-inp-inp-3x2-inp", "reg-bernoulli-vec--2x3-inp", "reg-nbinom-vec-gamma-inp-2x3-inp", "reg-nbinom-inp-gamma-inp-3x2-inp",
    "reg-bernoulli-hs--3x2-inp-lam*tau-None", "reg-nbinom-hs-gamma-inp-3x2-inp-lam*tau-None", "comp-shared-scale",
    "reg-bernoulli-rvvec--3x2-inp", "comp-regression-conjugate", "hs-linear", "nuts-uniform_bounds", "nuts-matrix", "nuts-unordered_names",
    "shared-nbinom-regression", "shared-horseshoe", "shared-normal", "mutant-hs-three-factors",
]


def tasks(tier):
    deep = tier == "thorough"
    cat = list(modelrun.catalogue(tier))
    for n in cat:
        yield {"kind": "model", "name": n, "states": [[0, 0, 0], [1, 2, 1]] if not deep else [[0, 0, 0], [1, 2, 1], [3, 1, 2], [5, 3, 3]],
               "cost": 2 if "nuts" in n or "hs" in n else 1}
    for i, n in enumerate(cat):
        for how in ["expr", "later", "const", "shared"] if deep else ["expr", "later"][i % 2 :][:1] if "nuts" not in n or i % 5 < 2 else []:
            yield {"kind": "held", "name": n, "how": how, "states": [[1, 2, 1]], "cost": 2 if "nuts" in n or "hs" in n else 1}
    for n in list(modelrun.catalogue("quick")) if deep else [n for n in MODES if n in modelrun.catalogue("quick")]:
        yield {"kind": "modes", "name": n, "states": [[0, 0, 0], [2, 1, 1]] + ([[4, 2, 2]] if deep else []), "cost": 8}


def ctl(lev):
    return Pinned(level=lev, policy={"nuts_probe": nuts_policy(lambda q: q + 0.31 + 0.07 * np.arange(q.size))})


def run_task(t, r):
    prog = modelrun.model(t["name"])
    if t["kind"] == "modes":
        outs = {}
        for m in (None, "FAST_COMPILE", "FAST_RUN"):
            sysm = engine.System(prog, mode=m)
            for k, ok, lev in t["states"]:
                lat, obs, data = prog.concrete(k, ok)
                out = sysm.run(lat, obs, data, ctl(lev))
                r.transitions += 1
                key = (k, ok, lev)
                if m is None:
                    r.states += 1
                    outs[key] = out
                else:
                    r.validated += 1
                    for n in out:
                        if not close(out[n], outs[key][n], 1e-6, 1e-9):
                            r.bad(f"{prog.name}: under {m} {n} becomes {out[n].tolist()}, as built {outs[key][n].tolist()}", model=prog.name, state=lat, observed=obs)
                r.outcome(f"{prog.name}{m}{key}")
        return
    # what is only needed for its shape is optimised away by users' modes
    how = t.get("how")
    if how and not engine.System(prog, compile=False).g.obs:
        return
    first = type(r)()
    explore(prog, t, first, None, how)
    if first.violations:
        explore(prog, t, r, "FAST_COMPILE", how)
    else:
        for k in ("states", "transitions", "validated", "outcomes", "samples"):
            setattr(r, k, getattr(first, k))


class LaterB(dsl.GraphB):
    """A model whose shared data gets its values after the construction."""

    def __init__(self, seed):
        super().__init__(seed)
        self.later = []

    def shared(self, name, val):
        v = super().shared(name, val)
        self.later.append((v, v.get_value()))
        v.set_value((v.get_value() * 2 + 1).astype(v.type.dtype))
        return v


def hold(prog, obs, how):
    """The model with its observations as constants, shared variables or computed values."""
    g = LaterB(0)
    prog.fn(g)
    held = {}
    if how == "later":
        for n, rv in g.obs.items():
            held[n] = aesara.shared(np.zeros_like(obs[n]).astype(rv.type.dtype), name=n)
            g.later.append((held[n], np.asarray(obs[n]).astype(rv.type.dtype)))
        return {"graph": g, "held": held}
    for v, val in g.later:
        v.set_value(val)
    for n, rv in g.obs.items():
        v = np.asarray(obs[n]).astype(rv.type.dtype)
        held[n] = at.as_tensor(v) if how == "const" else aesara.shared(v, name=n)
        if how == "expr":
            held[n] = at.concatenate([held[n][:1], held[n][1:]]) if v.ndim else (held[n] + np.ones((), v.dtype) - np.ones((), v.dtype)).astype(v.dtype)
    return {"graph": g, "held": held}


def explore(prog, t, r, mode, how=None):
    kw = hold(prog, prog.concrete(*t["states"][0][:2])[1], how) if how else {}
    sysm = engine.System(prog, mode=mode, compile=False, **kw)
    if how == "later":
        for v, val in kw["graph"].later:
            v.set_value(val)
    sysm.compile(mode)
    given = engine.System(prog, mode=mode) if how == "later" else None
    rngs = {n: v for n, v in sysm.model_rngs.items() if hasattr(v, "set_value")}
    save = {n: v.get_value(borrow=False) for n, v in rngs.items()}
    for k, ok, lev in t["states"]:
        lat, obs, data = prog.concrete(k, ok)
        base = None
        for setting in range(3):
            sysm.reset()
            for j, (n, v) in enumerate(rngs.items()):
                if setting == 1:
                    v.set_value(np.random.default_rng(99991 + j))
                elif setting == 2 and j == 0:
                    v.set_value(np.random.default_rng(777))
                else:
                    v.set_value(save[n], borrow=False)
            states = {rng_key(v.get_value(borrow=False)): n for n, v in rngs.items()}
            c = ctl(lev)
            out = sysm.run(lat, obs, data, c, reset=False)
            r.transitions += 1
            r.states += 1
            for d in c.log:
                r.validated += 1
                if d.state in states or d.state in sysm.model_rng_states:
                    n = states.get(d.state) or sysm.model_rng_states.get(d.state)
                    r.bad(f"{prog.name}: the update draws {d.name} with the model's generator of {n}", model=prog.name, state=lat, draw=repr(d))
            if given is not None and base is None:
                want = given.run(lat, obs, data, ctl(lev))
                for n in out:
                    r.validated += 1
                    if not close(out[n], want[n], 1e-9, 1e-12):
                        r.bad(f"{prog.name}: with data set after the construction {n} becomes {out[n].tolist()}, with the data as inputs {want[n].tolist()}", model=prog.name, state=lat)
            if base is None:
                base = out
                continue
            for n in out:
                r.validated += 1
                if not (out[n].shape == base[n].shape and np.array_equal(out[n], base[n])):
                    r.bad(f"{prog.name}: {n} depends on the state of the model's generators: {base[n].tolist()} / {out[n].tolist()}", model=prog.name, state=lat)
        r.outcome(f"{prog.name}{k}{ok}{[np.round(v, 6).tolist() for v in base.values()]}")
        r.sample(model=prog.name, state=lat, draws=[repr(d)[:120] for d in c.log[:5]])
    for n, v in rngs.items():
        v.set_value(save[n])
