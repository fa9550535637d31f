"""C14: the intermediate representation computes the same values as the model."""
import itertools

import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.basic import ancestors
from aesara.tensor.random.op import RandomVariable

from mc import dsl, engine, modelrun
from mc.draws import control
from mc.engine import close
from mc.props.lib import get

ASSUMPTIONS = [
    "one fixed draw per generator state, mapped through the quantile function of the parameters",
    "values compared to 1e-7 (canonicalization may reassociate)",
]
BOUNDS = {
    "quick": "30 operands of 0 to 3 dimensions: every second of all unary applications (7) and pairs (4 operations), 400 evenly spaced expressions of depth 3; every second catalogue model; 3 stages each",
    "thorough": "all triples of operands with 4 x 3 operations, all catalogue models",
}


def operands(srng):
    """name -> (expression, is it built from random variables)"""
    s = srng.normal(0.3, 0.5, name="s")
    v = srng.normal(np.array([0.2, -0.4, 0.9]), 0.7, name="v")
    m = srng.normal(0.1, 0.6, size=(3, 3), name="m")
    g = srng.gamma(2.0, 1.5, size=3, name="g")
    one = srng.normal(0.0, 1.0, size=(1,), name="one")
    t3 = srng.normal(0.2, 0.8, size=(2, 3, 3), name="t3")
    x, X = at.vector("x"), at.matrix("X")
    c3 = at.constant(np.array([1.5, -0.5, 0.8]))
    sh = aesara.shared(np.array([0.7, -1.2, 0.4]), name="sh")
    shs = aesara.shared(1.3, name="shs")
    shm = aesara.shared(np.array([[0.2, 1.1, -0.3], [0.6, 0.1, 0.9], [-0.7, 0.5, 1.2]]), name="shm")
    ops = {
        "s": s, "v": v, "m": m, "g": g, "one": one, "t3": t3, "t3.T": t3.dimshuffle(2, 0, 1), "m_x10": m.dimshuffle("x", 1, 0), "X_x10": X.dimshuffle("x", 1, 0), "v_xx0": v.dimshuffle("x", "x", 0),
        "one_drop": one.dimshuffle(()) if one.type.broadcastable[0] else one, "x": x, "X": X, "2": at.constant(2.0), "c3": c3,
        "sh": sh, "shs": shs, "shm": shm,
        "v_col": v[:, None], "v_row": v[None, :], "m.T": m.T, "X.T": X.T, "x_col": x[:, None],
        "s_11": s.dimshuffle("x", "x"), "sum": m.sum(axis=0), "v_mid": v.dimshuffle("x", 0, "x")[0],
        "c_col": c3[:, None], "sh_col": sh.dimshuffle(0, "x"), "shm.T": shm.T, "m_diag": at.diagonal(m),
    }
    ins = {"x": (x, np.array([0.4, -0.9, 1.1])), "X": (X, np.array([[0.5, -0.2, 0.3], [1.0, 0.7, -0.6], [0.8, -1.1, 0.25]]))}
    return ops, [s, v, m, g, one, t3], ins


BINARY = {
    "+": lambda a, b: a + b, "*": lambda a, b: a * b, "-": lambda a, b: a - b,
    "?": lambda a, b: at.switch(at.gt(a, 0.1), b, a),
}
UNARY = {
    "neg": lambda a: -a, "sigmoid": at.sigmoid, "exp": lambda a: at.exp(0.3 * a), "T": lambda a: a.T,
    "pad": at.shape_padleft, "twice": lambda a: a + a, "scaled": lambda a: 2.0 * a * 0.5,
}
TERNARY = {
    "a*b+c": lambda a, b, c: a * b + c, "a+b*c": lambda a, b, c: a + b * c, "(a+b).T*c": lambda a, b, c: (a + b).T * c,
    "mul3": lambda a, b, c: at.mul(a, b, c), "add3": lambda a, b, c: at.add(a, b, c),
}
CHUNK = 24


def cases(tier):
    names = list(operands(at.random.RandomStream(0))[0])
    out = []
    for u in UNARY:
        out += [("u", u, (n,)) for n in names]
    for b in BINARY:
        out += [("b", b, p) for p in itertools.product(names, repeat=2)]
    tern = [("t", o, p) for o in TERNARY for p in itertools.product(names, repeat=3)]
    if tier == "thorough":
        return out + tern
    return out[:: 2] + tern[:: len(tern) // 400]


def tasks(tier):
    cs = cases(tier)
    for i in range(0, len(cs), CHUNK):
        yield {"kind": "exprs", "lo": i, "tier": tier, "cost": 10}
    for i, n in enumerate(sorted(modelrun.catalogue(tier))):
        if tier == "thorough" or i % 2 == 0:
            yield {"kind": "model", "name": n, "cost": 1}


def run_task(t, r):
    if t["kind"] == "model":
        prog = modelrun.model(t["name"])
        g = dsl.GraphB(5)
        prog.fn(g)
        lat, obs, data = prog.concrete()
        pairs = [(v, np.asarray(data[n])) for n, v in g.inputs.items()]
        compare(prog.name, {g.obs[n]: g.vv[n] for n in g.obs}, pairs, g.srng, r)
        return
    for kind, op, ns in cases(t["tier"])[t["lo"]: t["lo"] + CHUNK]:
        srng = at.random.RandomStream(5)
        ops, rvs, ins = operands(srng)
        args = [ops[n] for n in ns]
        try:
            f = {"u": UNARY, "b": BINARY, "t": TERNARY}[kind][op]
            e = f(*args)
            Y = srng.normal(e, 1.0, name="Y")
        except Exception:  # not a valid expression
            continue
        if not any(v.owner is not None and isinstance(v.owner.op, RandomVariable) for v in ancestors([e])):
            Y = srng.normal(e + ops["s"], 1.0, name="Y")
        vv = Y.clone()
        label = f"{op}({', '.join(ns)})"
        try:
            compare(label, {Y: vv}, list(ins.values()), srng, r)
        except Exception as err:
            if type(err).__name__ == "Skip":
                raise
            r.bad(f"{label}: {type(err).__name__}: {str(err)[:300]}")


def values(outs, pairs):
    f = aesara.function([v for v, _ in pairs], list(outs), mode=engine.PLAIN, on_unused_input="ignore", no_default_updates=True)
    with control(engine.Keyed(levels=7)):
        return [np.array(o) for o in f(*[x for _, x in pairs])]


def compare(label, obs, pairs, srng, r):
    ir = get("aemcmc.rewriting", "construct_ir_fgraph")
    tracker = get("aemcmc.rewriting", "SamplerTracker")
    db = get("aemcmc.rewriting", "sampler_rewrites_db")
    import aemcmc.basic  # noqa: F401  (registers the rewrites)

    old = [v for v in ancestors(list(obs)) if v.owner is not None and isinstance(v.owner.op, RandomVariable) and v.owner.outputs[1] is v]
    try:
        want = dict(zip(old, values(old, pairs)))
    except Exception:  # shapes that do not broadcast
        return
    with aesara.config.change_flags(on_opt_error="raise"):
        fg, new_obs, memo, n2o = ir(obs)
    r.states += 1
    # the mappings
    news = list(n2o)
    if set(news) != set(fg.outputs) or len(fg.outputs) != len(old) or sorted(map(id, n2o.values())) != sorted(map(id, old)):
        r.bad(f"{label}: new variables are related to {[str(v) for v in n2o.values()]}, the model's are {[str(v) for v in old]}")
        return
    for n, o in n2o.items():
        if type(n.owner.op) is not type(o.owner.op) or n.owner.inputs[0] is not o.owner.inputs[0] or n.name != o.name:
            r.bad(f"{label}: {n} ({n.owner.op}) is related to {o} ({o.owner.op})")
            return
    o2n = {o: n for n, o in n2o.items()}
    for o, val in obs.items():
        n = o2n[o]
        if new_obs.get(n) is not val:
            r.bad(f"{label}: the observed {o} has the value {new_obs.get(n)}")
    if len(new_obs) != len(obs):
        r.bad(f"{label}: {len(new_obs)} observed variables, {len(obs)} were given")

    def same(stage, outs):
        got = values(outs, pairs)
        r.transitions += 1
        for o, v in zip(n2o.values(), got):
            r.validated += 1
            if not close(v, want[o], 1e-7, 1e-9):
                r.bad(f"{label}: {stage} {o} is {v.tolist()}, in the model {want[o].tolist()}")
                return False
        return True

    ok = same("in the intermediate form", news)
    with aesara.config.change_flags(on_opt_error="raise"):
        fg.attach_feature(tracker(srng))
        db.query("+basic").rewrite(fg)
    if len(fg.outputs) != len(news):
        r.bad(f"{label}: {len(fg.outputs)} variables after the sampler rewrites")
        return
    ok = ok and same("after the sampler rewrites", fg.outputs)
    # the user's own graph
    again = values(old, pairs)
    if ok and not all(np.array_equal(a, want[o]) for o, a in zip(old, again)):
        r.bad(f"{label}: the model itself computes other values afterwards")
    r.outcome(f"{label}{[np.round(v, 6).tolist() for v in want.values()]}"[:400])
    r.sample(expression=label, value=want[list(obs)[0]], random_variables=[str(o) for o in old])
