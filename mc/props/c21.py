"""C21: user-registered finders take part in the sampler like the built-in ones."""
import itertools
from contextlib import contextmanager

import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.rewriting.basic import in2out
from aesara.tensor.random.basic import ExponentialRV, GammaRV, NormalRV, PoissonRV
from aesara.tensor.random.op import RandomVariable

from mc import engine, models, modelrun
from mc.dsl import Program
from mc.models import xmat
from mc.props import c11
from mc.props.lib import get
from mc.report import Skip

ASSUMPTIONS = [
    "the finders of the check are exact: each derives the conditional distribution of a variable with one dependent",
    "finders are registered in `sampler_finder_db`, tagged 'basic', and withdrawn after each construction",
]
BOUNDS = {
    "quick": "11 models x every subset of up to 3 of the applicable finders (9 kinds: without and with updates, two variables at once, found from the prior or the observation, duplicates of built-in ones, finders of the same name, own sampling steps, finders that decline) x registered before or after the built-in ones; 2 states, histories of 3 calls",
    "thorough": "as quick, 5 states, every order of registration",
}


# -------------------------------------------------------------- the finders
def dependents(fgraph, rv):
    out, todo, seen = set(), [rv], {rv}
    while todo:
        for client, _ in fgraph.clients[todo.pop()]:
            if client == "output":
                continue
            if isinstance(client.op, RandomVariable):
                out.add(client)
                continue
            for o in client.outputs:
                if o not in seen:
                    seen.add(o)
                    todo.append(o)
    return out


def is_rv(v, cls):
    return v.owner is not None and isinstance(v.owner.op, cls)


def normal_pair(fgraph, node):
    """(latent, its mean and deviation, the observation's deviation, value)."""
    y = node.outputs[1]
    m, s = node.inputs[3:]
    if not is_rv(m, NormalRV) or m.type.ndim != y.type.ndim or m.type.broadcastable != y.type.broadcastable or dependents(fgraph, m) != {node}:
        return None
    m0, s0 = m.owner.inputs[3:]
    return m, m0, s0, s, y


def law(m0, s0, s, y):
    prec = s0**-2.0 + s**-2.0
    return (m0 * s0**-2.0 + y * s**-2.0) / prec, prec**-0.5


def nn(fgraph, node, srng):
    q = normal_pair(fgraph, node)
    if q is None:
        return None
    mean, sd = law(*q[1:])
    return [(q[0], srng.normal(mean, sd), None)]


def nn_scan(fgraph, node, srng):
    """Draws in a loop, which has its own updates."""
    q = normal_pair(fgraph, node)
    if q is None:
        return None
    mean, sd = law(*q[1:])
    zs, ups = aesara.scan(lambda m, s: srng.normal(m, s), non_sequences=[mean, sd], n_steps=2)
    return [(q[0], zs[-1], ups)]


def nn_step(fgraph, node, srng):
    """An own kind of sampling step."""
    q = normal_pair(fgraph, node)
    if q is None:
        return None
    step = get("aemcmc.types", "SamplingStep")

    class NormalNormalGibbsKernel(step):
        pass

    from aesara.graph.basic import Constant

    mean, sd = law(*q[1:])
    ins = [v for v in dict.fromkeys(q[1:]) if not isinstance(v, Constant)]
    return [(q[0], NormalNormalGibbsKernel(ins, [srng.normal(mean, sd)])(*ins), None)]


def sum_pair(fgraph, node, srng):
    """Y ~ N(a + b, s): first a given b, then b given the new a."""
    y = node.outputs[1]
    m, s = node.inputs[3:]
    if m.owner is None or len(m.owner.inputs) != 2:
        return None
    a, b = m.owner.inputs
    if getattr(getattr(m.owner.op, "scalar_op", None), "name", None) != "add" or type(m.owner.op).__name__ != "Elemwise":
        return None
    if not all(is_rv(v, NormalRV) and v.type.broadcastable == y.type.broadcastable and dependents(fgraph, v) == {node} for v in (a, b)):
        return None
    am, asd = law(*a.owner.inputs[3:], s, y - b)
    anew = srng.normal(am, asd)
    bm, bsd = law(*b.owner.inputs[3:], s, y - anew)
    return [(a, anew, None), (b, srng.normal(bm, bsd), None)]


def one_of_two(i):
    """Y ~ N(a + b, s): one of the two given the other; both finders bear the same name."""
    def finder(fgraph, node, srng):
        y = node.outputs[1]
        m, s = node.inputs[3:]
        if m.owner is None or len(m.owner.inputs) != 2:
            return None
        ab = m.owner.inputs
        if getattr(getattr(m.owner.op, "scalar_op", None), "name", None) != "add" or type(m.owner.op).__name__ != "Elemwise":
            return None
        if not all(is_rv(v, NormalRV) and v.type.broadcastable == y.type.broadcastable and dependents(fgraph, v) == {node} for v in ab):
            return None
        mean, sd = law(*ab[i].owner.inputs[3:], s, y - ab[1 - i])
        return [(ab[i], srng.normal(mean, sd), None)]

    return finder


def both(fgraph, node, srng):
    """Y ~ N(a + b, s): each given the other's current value."""
    steps = [one_of_two(i)(fgraph, node, srng) for i in (0, 1)]
    return None if None in steps else steps[0] + steps[1]


def down(fgraph, node, srng):
    """Found from the prior: exponential rate of one Poisson count."""
    e = node.outputs[1]
    ds = dependents(fgraph, e)
    if len(ds) != 1:
        return None
    (c,) = ds
    if not isinstance(c.op, PoissonRV) or c.inputs[3] is not e:
        return None
    return [(e, srng.gamma(1.0 + c.outputs[1], 1.0 / node.inputs[3] + 1.0), None)]


def gp(fgraph, node, srng):
    """The relation AeMCMC knows, derived again."""
    g = node.inputs[3]
    if not is_rv(g, GammaRV) or g.type.broadcastable != node.outputs[1].type.broadcastable or dependents(fgraph, g) != {node}:
        return None
    a, scale = g.owner.inputs[3:]
    return [(g, srng.gamma(a + node.outputs[1], 1.0 / scale + 1.0), None)]


def declines(fgraph, node, srng):
    return None


def empty(fgraph, node, srng):
    return []


FINDERS = {
    "nn": (nn, [NormalRV]), "nn_scan": (nn_scan, [NormalRV]), "nn_step": (nn_step, [NormalRV]), "sum_pair": (sum_pair, [NormalRV]), "left": (one_of_two(0), [NormalRV]), "right": (one_of_two(1), [NormalRV]), "both": (both, [NormalRV]), "down": (down, [ExponentialRV]),
    "gp": (gp, [PoissonRV]), "declines": (declines, [NormalRV, PoissonRV, GammaRV]), "empty": (empty, [NormalRV, ExponentialRV]),
}
COUNT = itertools.count()


@contextmanager
def registered(names, when):
    import aemcmc.rewriting as rw

    if not hasattr(rw, "sampler_finder_db") or not hasattr(rw, "sampler_finder"):
        raise Skip("aemcmc.rewriting.sampler_finder_db")
    db, done = rw.sampler_finder_db, []
    try:
        for i, n in enumerate(names):
            f, tracks = FINDERS[n]
            nm = f"check_{n}_{next(COUNT)}"
            kw = {} if when == "after" else {"position": -10.0 + i} if when == "before" else {"position": 50.0 - i}
            db.register(nm, in2out(rw.sampler_finder(tracks)(f), name=nm), "basic", **kw)
            done.append(nm)
        yield
    finally:
        for nm in done:
            db.remove_tags(nm, "basic")


# --------------------------------------------------------------- the models
def catalogue():
    out = []

    def add(name, fn, finders, kernels=(), **expect):
        out.append((Program("finder-" + name, fn, kernels=list(kernels)), finders, expect))

    N = ("nn", "nn_scan", "nn_step")

    def scalar(B):
        m = B.rv("m", "normal", B.inp("m0", 0.3), B.inp("s0", 1.2))
        B.obsrv("Y", "normal", m, B.inp("s", 0.8))

    add("normal", scalar, N, m=N)

    def vector(B):
        m = B.rv("m", "normal", 0.3, B.inp("s0", np.array([1.2, 0.4])), size=2)
        B.obsrv("Y", "normal", m, B.shared("s", np.array([0.8, 1.5])))

    add("normal-vector", vector, N, m=N)

    def nested(B):
        mu = B.rv("mu", "normal", 0.2, 1.5)
        m = B.rv("m", "normal", mu, 1.1)
        B.obsrv("Y", "normal", m, 0.8)

    add("nested", nested, N, m=N, mu=N)

    def scale(B):
        t = B.rv("t", "halfnormal", 0.0, 1.3)
        m = B.rv("m", "normal", 0.3, t, size=2)
        B.obsrv("Y", "normal", m, 0.8)

    add("scale", scale, N, m=N)

    def noise(B):
        s = B.rv("s", "exponential", 1.3)
        m = B.rv("m", "normal", 0.3, 1.2)
        B.obsrv("Y", "normal", m, s)
        g = B.rv("g", "gamma", 2.0, s)
        B.obsrv("C", "poisson", g)

    add("noise", noise, ("nn", "nn_scan", "gp"), m=N, g=None)

    def pair(B):
        a = B.rv("a", "normal", 0.3, 1.2)
        b = B.rv("b", "normal", -0.1, B.inp("sb", 0.7))
        B.obsrv("Y", "normal", a + b, 0.9)

    add("pair", pair, ("sum_pair", "left", "right", "both"), a=("sum_pair", "left", "both"), b=("sum_pair", "right", "both"))

    def pairv(B):
        t = B.rv("t", "halfnormal", 0.0, 1.3)
        a = B.rv("a", "normal", 0.3, t, size=2)
        b = B.rv("b", "normal", -0.1, 0.7, size=2)
        B.obsrv("Y", "normal", a + b, t)

    add("pair-vector", pairv, ("sum_pair", "left", "right", "both", "nn"), a=("sum_pair", "left", "both"), b=("sum_pair", "right", "both"))

    def fromprior(B):
        e = B.rv("e", "exponential", B.inp("c", 1.4))
        B.obsrv("Y", "poisson", e)

    add("from-prior", fromprior, ("down",), e=("down",))

    def mixed(B):
        e = B.rv("e", "exponential", 1.4, size=2)
        B.obsrv("C", "poisson", e)
        m = B.rv("m", "normal", 0.0, 1.0)
        B.obsrv("Y", "normal", m, 1.2)
        g = B.rv("g", "gamma", 2.0, 1.3)
        B.obsrv("D", "poisson", g)

    add("mixed", mixed, ("down", "nn_scan", "gp"), e=("down",), m=N, g=None)

    def hyper(B):
        # the rate of a built-in update is updated by a registered finder
        m = B.rv("m", "normal", 0.4, 0.8)
        g = B.rv("g", "gamma", 2.0, B.exp(m))
        B.obsrv("C", "poisson", g)
        k = B.rv("k", "normal", m, 1.0)
        B.obsrv("Y", "normal", k, 1.2)

    add("hyper", hyper, ("nn", "nn_step", "gp"), k=N, g=None)

    def regression(B):
        X = B.inp("X", xmat(3, 2))
        t = B.rv("t", "halfnormal", 0.0, 1.0)
        beta = B.rv("beta", "normal", 0.0, t, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))
        m = B.rv("m", "normal", 0.0, t)
        B.obsrv("W", "normal", m, 0.7)

    add("regression", regression, ("nn", "nn_scan"), [models.REG], beta=None, m=N)
    return out


def tasks(tier):
    deep = tier == "thorough"
    for p, finders, expect in catalogue():
        pool = list(finders)
        subsets = [c for k in range(0, 4) for c in itertools.combinations(pool + ["declines", "empty"], k) if k < 3 or not {"declines", "empty"} <= set(c)]
        # the two steps of `sum_pair` belong together: another finder's step for one of the two variables would part them
        subsets = [c for c in subsets if not ("sum_pair" in c and {"left", "right", "both"} & set(c))]
        for c in subsets:
            orders = list(itertools.permutations(c)) if deep else [c]
            yield {"model": p.name, "orders": orders, "states": [[0, 0, 0], [1, 2, 1]] if not deep else modelrun.STATES3, "calls": 3,
                   "when": ["before", "after", "turned"] if c else ["after"], "cost": 2 + len(c)}


def run_task(t, r):
    p, _, expect = next(q for q in catalogue() if q[0].name == t["model"])
    for c, when in itertools.product(t["orders"], t["when"]):
        label = f"{p.name} with {list(c)} registered {when} the built-in finders"
        with registered(c, when):
            sysm = engine.System(p)
        info = dict(model=p.name, finders=c, when=when)
        for n in sysm.names:
            by = expect.get(n, ())
            found = by is None or any(f in c for f in by)
            if found == (n in sysm.nuts_names):
                r.bad(f"{label}: {n} is {'left to' if found else 'not updated by'} NUTS", **info)
        if bool(sysm.sampler.parameters) != bool(sysm.nuts_names):
            r.bad(f"{label}: parameters {list(sysm.sampler.parameters)} for the NUTS variables {sysm.nuts_names}", **info)
        flat = [v for vs in sysm.sampler.stages.values() for v in vs]
        if len(flat) != len(set(flat)) or set(flat) != set(sysm.g.rvs.values()):
            r.bad(f"{label}: the stages do not partition the variables", **info)
        pos = {n: flat.index(v) for n, v in sysm.g.rvs.items() if v in flat}
        for k, ok, lev in t["states"]:
            lat, obs, data = p.concrete(k, ok)
            node, blks, orders = modelrun.check_state(p, sysm, lat, obs, data, lev, r, tag=[list(c), when, k, ok, lev])
            rep = tuple(sorted(range(len(blks)), key=lambda i: min(pos.get(n, 99) for n in blks[i][1])))
            reps = [rep]
            if "sum_pair" in c:  # the two variables of one finder are one stage
                ia, ib = (next(i for i, b in enumerate(blks) if n in b[1]) for n in "ab")
                reps.append(tuple({ia: ib, ib: ia}.get(i, i) for i in rep))
            if orders and not any(node.explains(o) for o in reps):
                r.bad(f"{label}: the reported scan order {[blks[i][1] for i in rep]} does not explain the sweep", **info)
        lat, obs, data = p.concrete()
        sysm.reset()
        cur = [lat]

        def call(ctl, i):
            cur[0] = sysm.run(cur[0], obs, data, ctl, reset=False)

        c11.history(call, t["calls"], label, r, False)
    # without the finders the sampler is the usual one
    sysm = engine.System(p)
    left = [n for n, by in expect.items() if by is not None and n not in sysm.nuts_names]
    if left:
        r.bad(f"{p.name}: {left} still updated by finders that are not registered", model=p.name)
