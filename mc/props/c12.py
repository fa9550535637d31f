"""C12: construction is reproducible and leaves the user's model alone."""
import json
import os
import subprocess
import sys

import aesara
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import ancestors

from mc import dsl, engine, modelrun
from mc.draws import control, rng_key

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ASSUMPTIONS = [
    "the generators' own draws, with a stand-in for the NUTS kernel that answers from its generators",
    "processes differ in hash seed and address layout",
]
BOUNDS = {
    "quick": "44 models x 2 hash seeds x 3 steps in separate processes; 120 catalogue models: 3 constructions, graph identity, model draws before and after; the same without names, from one dictionary of shared and computed observations",
    "thorough": "every quick catalogue model x 6 hash seeds x 5 steps; the full catalogue in process",
}
EXTRA = [
    "multi-", "nuts-", "reg-nbinom-hs-gamma-inp", "reg-bernoulli-hs--3x2", "comp-", "hs-linear", "fallback-product", "fallback-gp-latent", "conj-gp-vec/vec", "conj-bb-inp/inp-0-inp", "shared-horse",
]


def tasks(tier):
    deep = tier == "thorough"
    cat = list(modelrun.catalogue("quick"))
    names = cat if deep else [n for n in cat if any(n.startswith(e) for e in EXTRA)]
    names = sorted(names)
    k = 8 if not deep else 24
    for i in range(k):
        yield {"kind": "processes", "names": names[i::k], "seeds": [1, 4242] if not deep else [0, 1, 2, 3, 4242, 99], "steps": 3 if not deep else 5, "cost": 50}
    for i, n in enumerate(sorted(modelrun.catalogue(tier))):
        if not deep and i % 3 and n.split("-")[0] in ("conj", "mutant", "reg", "gram", "chain"):
            continue
        yield {"kind": "model", "name": n, "cost": 1}


def sequence(prog, seed, steps, graph=None):
    """Everything observable about a construction and its first draws."""
    sysm = engine.System(prog, seed=seed, graph=graph)
    g = sysm.g
    inv = {rv: n for n, rv in g.rvs.items()}
    out = {
        "steps": [inv.get(rv, str(rv)) for rv in sysm.steps],
        "stages": [[inv.get(rv, str(rv)) for rv in vs] for vs in sysm.sampler.stages.values()],
        "init": [inv.get(rv, str(rv)) for rv in sysm.init],
        "parameters": [[str(p) for p in ps] for _, ps in sysm.params],
        "values": [],
    }
    lat, obs, data = prog.concrete()
    cur = lat
    sysm.reset()
    for _ in range(steps):
        with control(None):
            vals = sysm.fn(*sysm.args(cur, obs, data))
        cur = dict(zip(sysm.names, [np.array(v) for v in vals]))
        out["values"].append({n: [float(f"{x:.9e}") for x in np.ravel(v)] for n, v in cur.items()})
        if not all(np.all(np.isfinite(v)) for v in cur.values()):
            break
    return out, sysm


def structure(g, more=()):
    """The user's graph: identity of every node's operator and inputs."""
    out = {}
    roots = list(g.rvs.values()) + list(g.obs.values()) + list(more)
    for v in ancestors(roots):
        if v.owner is not None:
            out[id(v)] = (v, id(v.owner), v.owner.op, tuple(id(i) for i in v.owner.inputs), v.name, v.type)
        else:
            # `OpFromGraph` gives every shared variable inside it a placeholder
            # update; for data it has no effect
            gen = isinstance(v, SharedVariable) and hasattr(v.get_value(borrow=True), "bit_generator")
            upd = v.default_update if gen else None
            state = rng_key(v.get_value(borrow=True)) if gen else np.array(v.get_value(borrow=True)).tobytes() if isinstance(v, SharedVariable) else None
            out[id(v)] = (v, None, None, id(upd) if upd is not None else None, v.name, v.type, state)
    return out


def model_draws(g, data):
    rngs = [v for v in ancestors(list(g.rvs.values()) + list(g.obs.values())) if isinstance(v, SharedVariable) and hasattr(v.get_value(borrow=True), "bit_generator")]
    keep = [v.get_value(borrow=False) for v in rngs]
    fn = aesara.function(list(g.inputs.values()), list(g.rvs.values()) + list(g.obs.values()),
                         on_unused_input="ignore", mode=engine.PLAIN, no_default_updates=True)
    with control(None):
        out = [np.array(v) for v in fn(*[np.asarray(data[n]) for n in g.inputs])]
    for v, k in zip(rngs, keep):
        v.set_value(k)
    return out


def held_objects(prog, obs, r):
    """The user's own objects: an unnamed graph, computed observations, the
    dictionary of observations and the stream."""
    from aemcmc import construct_sampler
    from aemcmc.rewriting import construct_ir_fgraph

    g = dsl.GraphB(11)
    prog.fn(g)
    if not g.obs:
        return
    for v in ancestors(list(g.rvs.values()) + list(g.obs.values())):
        v.name = None
    vals = {}
    for i, (n, rv) in enumerate(g.obs.items()):
        v = np.asarray(obs[n]).astype(rv.type.dtype)
        vals[n] = [aesara.shared(v), aesara.shared(v) + np.zeros((), v.dtype), rv.type()][i % 3]
    given = {g.obs[n]: vals[n] for n in g.obs}
    keys, values = list(given), list(given.values())
    before, ups = structure(g, values), list(g.srng.state_updates)
    order = None
    for what in ("construct_ir_fgraph", "construct_sampler", "construct_sampler"):
        with aesara.config.change_flags(on_opt_error="raise"):
            if what == "construct_ir_fgraph":
                construct_ir_fgraph(given)
            else:
                s, init = construct_sampler(given, g.srng)
                inv = {rv: n for n, rv in g.rvs.items()}
                now = [[inv.get(v, "other") for v in vs] for vs in (*s.stages.values(), init)]
                if order is not None and now != order:
                    r.bad(f"{prog.name}: constructing again with the same dictionary gives stages and initial values {now}, at first {order}")
                order = now
        r.states += 1
        r.transitions += 1
        r.validated += len(before) + len(keys)
        if len(given) != len(keys) or not all(a is b for a, b in zip(given, keys)) or not all(a is b for a, b in zip(given.values(), values)):
            r.bad(f"{prog.name}: {what} altered the given dictionary of observations")
            return
        after = structure(g, values)
        if after.keys() != before.keys():
            r.bad(f"{prog.name}: {what} altered the variables of the model")
            return
        diff = [before[i][0] for i in before if after[i][1:] != before[i][1:]]
        if diff:
            r.bad(f"{prog.name}: {what} altered {diff[:3]} in the model's graph without names")
            return
        su = g.srng.state_updates
        if len(su) < len(ups) or not all(a[0] is b[0] and a[1] is b[1] for a, b in zip(ups, su)):
            r.bad(f"{prog.name}: {what} altered the stream's earlier generators")
            return


def worker():
    """Runs in its own process: names and steps on stdin, results on stdout."""
    spec = json.loads(sys.stdin.read())
    res = {}
    for n in spec["names"]:
        try:
            res[n] = sequence(modelrun.model(n), 11, spec["steps"])[0]
        except Exception as e:
            res[n] = {"error": f"{type(e).__name__}: {str(e)[:300]}"}
    print("RESULT " + json.dumps(res))


def run_task(t, r):
    if t["kind"] == "processes":
        res = {}
        for s in t["seeds"]:
            env = dict(os.environ, PYTHONHASHSEED=str(s))
            p = subprocess.run(
                [sys.executable, "-c", f"import sys; sys.path.insert(0, {ROOT!r}); import mc.env; from mc.props.c12 import worker; worker()"],
                input=json.dumps({"names": t["names"], "steps": t["steps"]}), capture_output=True, text=True, env=env, cwd=ROOT)
            line = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
            if not line:
                raise RuntimeError("worker failed: " + p.stderr[-600:])
            res[s] = json.loads(line[0][7:])
            r.transitions += t["steps"] * len(t["names"])
        first = res[t["seeds"][0]]
        for n in t["names"]:
            r.states += 1
            r.outcome(f"{n}{first[n].get('values', [])[:1]}")
            r.sample(model=n, first=first[n].get("values", [])[:1], order=first[n].get("steps"))
            if "error" in first[n]:
                r.bad(f"{n}: {first[n]['error']}")
                continue
            for s in t["seeds"][1:]:
                r.validated += 1
                for k in first[n]:
                    if res[s][n].get(k) != first[n][k]:
                        r.bad(f"{n}: {k} under hash seed {s} {json.dumps(res[s][n].get(k, res[s][n]))[:200]}, under {t['seeds'][0]} {json.dumps(first[n][k])[:200]}", model=n)
                        break
        return
    prog = modelrun.model(t["name"])
    lat, obs, data = prog.concrete()
    g = dsl.GraphB(11)
    prog.fn(g)
    before, drawn = structure(g), model_draws(g, data)
    # the same seed gives the same sequence
    a, sysm = sequence(prog, 11, 2, graph=g)
    b, _ = sequence(prog, 11, 2)
    r.states += 3
    r.transitions += 6
    r.validated += len(before) + 3
    r.outcome(f"{prog.name}{a['values'][:1]}")
    r.sample(model=prog.name, values=a["values"], order=a["steps"])
    if a != b:
        k = next(k for k in a if a[k] != b[k])
        r.bad(f"{prog.name}: two constructions with one seed differ in {k}: {json.dumps(a[k])[:200]} / {json.dumps(b[k])[:200]}")
    # the model is as it was
    after = structure(g)
    names = {id(v): n for n, v in list(g.rvs.items()) + list(g.obs.items())}
    for i, e in before.items():
        f = after.get(i)
        if f is None:
            r.bad(f"{prog.name}: construction removed {e[0]} from the model's graph")
            break
        if f[1:] != e[1:]:
            r.bad(f"{prog.name}: construction altered {names.get(i, e[0])} in the model's graph: {e[2:]} became {f[2:]}"[:600])
            break
    if set(after) - set(before):
        v = after[next(iter(set(after) - set(before)))][0]
        r.bad(f"{prog.name}: construction added {v} to the model's graph")
    redrawn = model_draws(g, data)
    for n, x, y in zip(list(g.rvs) + list(g.obs), drawn, redrawn):
        if not (x.shape == y.shape and np.array_equal(x, y, equal_nan=True)):
            r.bad(f"{prog.name}: after construction the model draws {n} = {y.tolist()}, before {x.tolist()}")
    # and can be used for another construction
    again = engine.System(prog, graph=g, compile=False)
    inv = {rv: n for n, rv in g.rvs.items()}
    st = [[inv.get(rv, str(rv)) for rv in vs] for vs in again.sampler.stages.values()]
    order = [inv.get(rv, str(rv)) for rv in again.steps]
    if st != a["stages"] or order != a["steps"]:
        r.bad(f"{prog.name}: constructing again gives stages {st} and order {order}, at first {a['stages']} and {a['steps']}")
    if any(again.steps[rv] is sysm.steps[rv] for rv in g.rvs.values()):
        r.bad(f"{prog.name}: constructing again returns steps of the first construction")
    held_objects(prog, obs, r)
