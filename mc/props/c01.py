"""C01: one update and one initial value per unobserved variable."""
import aesara
import aesara.tensor as at
import numpy as np

from mc import dsl, engine, models, modelrun
from mc.engine import close, nuts_policy
from mc.blocks import Pinned

ASSUMPTIONS = [
    "unobserved variables are continuous (the fallback needs gradients) and of families aeppl has log densities for",
    "the NUTS kernel is an environment that may answer any position of positive density",
]
BOUNDS = {
    "quick": "every catalogue model x 2 states x 2 draw levels x 2 kernel answers and a far one; observations held as constants, shared variables and expressions, and variables without names or of one name for 1 state (alternating over the NUTS models); single precision models and data",
    "thorough": "the full catalogue x 5 states x 3 draw levels x 4 kernel answers",
}


def FAR(q):
    """A kernel that went far in every direction."""
    return q + 6.0 * (-1.0) ** np.arange(q.size)


def tasks(tier):
    deep = tier == "thorough"
    names = list(modelrun.catalogue(tier))
    for i, n in enumerate(names):
        e = modelrun.model(n).meta.get("expect")
        big = e is None or "nuts" in e.values() or n.startswith("mutant")
        held = ["const", "shared", "expr", "unnamed", "alike"] if deep or not big else [["const"], ["unnamed"], ["shared"], ["expr"], ["alike"]][i % 5]
        yield {"kind": "model", "name": n, "states": [[0, 0], [1, 2]] if not deep else [[0, 0], [1, 2], [3, 1], [4, 4], [6, 3]],
               "levels": [0, 2] if not deep else [0, 2, 3], "answers": 2 if not deep else 4,
               "held": held, "cost": 2 if "nuts" in n or "hs" in n else 1}
        if not n.startswith("spelled") and (deep or i % 2 == 0 or n.startswith("typed")) and not n.startswith(("vectors-dirichlet", "vectors-mixed", "vectors-categorical")):  # aeppl fails for single precision simplices
            yield {"kind": "floatX", "name": n, "data": (["float32", "float64"] if deep else [["float32", "float64"][i // 2 % 2]]), "cost": 1}
    yield {"kind": "none"}


def support_bad(sup, ps, v):
    v = np.asarray(v, float)
    if not np.all(np.isfinite(v)):
        return "not finite"
    if sup == "pos" and not np.all(v > 0):
        return "not positive"
    if sup == "lowpos" and not np.all(v >= np.asarray(ps[0], float) - 1e-12):
        return "below the lower bound"
    if sup == "unit" and not np.all((v >= 0) & (v <= 1)):
        return "outside (0, 1)"
    if sup == "interval" and not np.all((v >= np.asarray(ps[0], float) - 1e-12) & (v <= np.asarray(ps[1], float) + 1e-12)):
        return "outside the interval"
    if sup == "simplex" and not (np.all(v >= 0) and np.allclose(v.sum(-1), 1)):
        return "not a probability vector"
    if sup == "circle" and not np.all(np.abs(v) <= np.pi + 1e-12):
        return "not an angle"
    return None


def unreachable(n, sysm, tr, out):
    """The environment answered for the kernel with a position of zero density,
    which NUTS never returns: a half-normal or half-Cauchy variable is sampled on
    the log scale, whatever its location."""
    return n in sysm.nuts_names and tr.supports[n][0] == "lowpos" and bool(np.all(out[n] > 0))


def structure(prog, sysm, r):
    g, s = sysm.g, sysm.sampler
    rvs = set(g.rvs.values())
    obs = set(g.obs.values())
    nm = {v: k for k, v in list(g.rvs.items()) + list(g.obs.items())}
    for what, d in (("updates", s.sample_steps), ("initial values", sysm.init)):
        extra, missing = set(d) - rvs, rvs - set(d)
        if extra or missing:
            r.bad(f"{prog.name}: {what} for {sorted(nm.get(v, str(v)) for v in extra)} but not for {sorted(nm[v] for v in missing)}", model=prog.name)
    if set(s.sample_steps) & obs:
        r.bad(f"{prog.name}: an observed variable is updated", model=prog.name)
    if len(set(sysm.init.values())) != len(rvs):
        r.bad(f"{prog.name}: {len(set(sysm.init.values()))} initial-value variables for {len(rvs)} variables", model=prog.name)
    for n, rv in g.rvs.items():
        for what, v in (("update", s.sample_steps.get(rv)), ("initial value", sysm.init.get(rv))):
            if v is None:
                continue
            if v.type.dtype != rv.type.dtype or v.type.ndim != rv.type.ndim:
                r.bad(f"{prog.name}: the {what} of {n} has type {v.type}, the variable {rv.type}", model=prog.name)
        iv = sysm.init.get(rv)
        if iv is not None and iv.owner is not None:
            r.bad(f"{prog.name}: the initial value of {n} is not a free variable", model=prog.name)
    staged = [v for vs in s.stages.values() for v in vs]
    if len(staged) != len(set(staged)) or set(staged) != rvs:
        r.bad(f"{prog.name}: stages {[[nm.get(v) for v in vs] for vs in s.stages.values()]} do not partition {sorted(g.rvs)}", model=prog.name)
    for kernel, vs in s.stages.items():
        for v in vs:
            step = s.sample_steps.get(v)
            if step is not None and (step.owner is None or not (step.owner.op == kernel)):
                r.bad(f"{prog.name}: the stage of {nm.get(v)} is reported as {type(kernel).__name__} of {[nm.get(x) for x in vs]}, which is not the kernel of its update", model=prog.name)
    exp = prog.meta.get("expect")
    if exp is not None:
        want = any(k == "nuts" for k in exp.values())
        if want and not s.parameters:
            r.bad(f"{prog.name}: NUTS is needed but no parameters are reported", model=prog.name)
    if len(s.parameters) > 1:
        r.bad(f"{prog.name}: {len(s.parameters)} parameterised kernels", model=prog.name)
    for op, ps in s.parameters.items():
        if op not in s.stages:
            r.bad(f"{prog.name}: parameters for a kernel that is no stage", model=prog.name)
        if len(ps) != 2 or ps[0].type.ndim != 0 or ps[1].type.ndim != 1:
            r.bad(f"{prog.name}: parameters {[str(p.type) for p in ps]}, expected a step size and an inverse mass matrix diagonal", model=prog.name)


def run_task(t, r):
    if t["kind"] == "none":
        nothing(r)
        return
    prog = modelrun.model(t["name"])
    if t["kind"] == "floatX":
        single(t, prog, r)
        return
    sysm = engine.System(prog)
    structure(prog, sysm, r)
    ref = None
    for k, ok in t["states"]:
        lat, obs, data = prog.concrete(k, ok)
        for lev in t["levels"]:
            far = [-1] if (k, ok, lev) == (*t["states"][0], t["levels"][0]) else []
            for a in [*range(t["answers"]), *far]:
                if a and not sysm.nuts_names:
                    continue
                f = FAR if a < 0 else modelrun.ANSWERS[a]
                c = Pinned(level=lev, policy={"nuts_probe": nuts_policy(f)})
                try:
                    out = sysm.run(lat, obs, data, c)
                except Exception as e:
                    if a < 0 and type(e).__name__ == "ParameterValueError":  # a parameter rounds to zero or overflows so far out
                        r.outcome(f"{prog.name} far")
                        continue
                    raise
                if ref is None:
                    ref = (lat, obs, data, lev, f, out)
                r.states += 1
                r.transitions += 1
                for n in sysm.names:
                    r.validated += 1
                    if out[n].shape != np.shape(lat[n]):
                        r.bad(f"{prog.name}: the update of {n} has shape {out[n].shape}, the variable {np.shape(lat[n])}", model=prog.name, state=lat, sweep=out)
                        continue
                tr = prog.trace({**lat, **{n: out[n] for n in sysm.names if out[n].shape == np.shape(lat[n])}}, obs, data)
                for n in sysm.names:
                    b = support_bad(tr.supports[n][0], tr.supports[n][1], out[n])
                    if b and not unreachable(n, sysm, tr, out):
                        r.bad(f"{prog.name}: the update of {n} is {b}: {out[n].tolist()}", model=prog.name, state=lat, observed=obs)
                r.outcome(f"{prog.name}{k}{ok}{lev}{a}{[np.round(o, 5).tolist() for o in out.values()]}")
        r.sample(model=prog.name, state=lat, observed=obs, sweep=out)
    if t.get("held") and sysm.g.obs:
        lat, obs, data, lev, f, out = ref
        for how in t["held"]:
            g = dsl.GraphB(0)
            prog.fn(g)
            held = {}
            if how in ("unnamed", "alike"):
                for v in [*g.rvs.values(), *g.obs.values(), *g.vv.values(), *g.inputs.values()]:
                    v.name = None if how == "unnamed" else "x"
            for n, rv in g.obs.items() if how in ("const", "shared", "expr") else ():
                v = np.asarray(obs[n]).astype(rv.type.dtype)
                held[n] = at.as_tensor(v) if how == "const" else aesara.shared(v, name=n)
                if how == "expr":  # computed from other data
                    held[n] = at.concatenate([held[n][:1], held[n][1:]]) if v.ndim else (held[n] + np.ones((), v.dtype) - np.ones((), v.dtype)).astype(v.dtype)
            s2 = engine.System(prog, graph=g, held=held)
            out2 = s2.run(lat, obs, data, Pinned(level=lev, policy={"nuts_probe": nuts_policy(f)}))
            r.states += 1
            r.transitions += 1
            r.validated += 1
            for n in sysm.names:
                if not close(out[n], out2[n], 1e-9, 1e-12):
                    r.bad(f"{prog.name}: with {'variables' if how in ('unnamed', 'alike') else 'observations held as'} {how} {n} becomes {out2[n].tolist()}, as inputs {out[n].tolist()}", model=prog.name)


def nothing(r):
    """Models without unobserved variables."""
    from aesara.tensor.random.utils import RandomStream

    for n in (1, 2):
        srng = RandomStream(1)
        ys = [srng.normal(0, 1, name=f"y{i}") for i in range(n)]
        s, init = engine.aemcmc.construct_sampler({y: y.clone() for y in ys}, srng)
        r.states += 1
        r.validated += 1
        if s.sample_steps or init or s.parameters or s.stages:
            r.bad(f"steps {s.sample_steps} for a model with observed variables only")
    r.transitions += 2


def single(t, prog, r):
    """The model under floatX=float32: the updates have the variables' types and
    are, up to rounding, those of the default precision."""
    pol = {"nuts_probe": nuts_policy(modelrun.ANSWERS[1])}
    sys64 = engine.System(prog)
    lat, obs, data = prog.concrete(1, 0)
    want = sys64.run(lat, obs, data, Pinned(level=1, policy=pol))
    for dt in t["data"]:
        try:
            with aesara.config.change_flags(floatX="float32"):
                dsl.DATA_DTYPE = dt
                sysm = engine.System(prog)
                structure(prog, sysm, r)
                out = sysm.run(lat, obs, data, Pinned(level=1, policy=pol))
        finally:
            dsl.DATA_DTYPE = None
        r.states += 1
        r.transitions += 2
        info = dict(model=prog.name, floatX="float32", data=dt, state=lat)
        if sorted(sysm.nuts_names) != sorted(sys64.nuts_names):
            r.bad(f"{prog.name}: with floatX=float32 NUTS updates {sysm.nuts_names}, by default {sys64.nuts_names}", **info)
        for n in sysm.names:
            r.validated += 1
            if out[n].shape != want[n].shape or not close(out[n], want[n], 2e-3, 1e-4):
                r.bad(f"{prog.name}: with floatX=float32 and {dt} data the update of {n} is {out[n].tolist()}, in double precision {want[n].tolist()}", **info)
        r.outcome(f"{prog.name}{dt}{[str(np.round(out[n], 3).tolist()) for n in sysm.names]}")
