"""C13: prior sampling draws fresh joint samples from the model."""
import itertools

import aesara
import aesara.tensor as at
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import ancestors

from mc import draws, dsl, engine, modelrun
from mc.draws import Controller, control, rng_key
from mc.dsl import Program
from mc.engine import close
from mc.props.lib import get

ASSUMPTIONS = [
    "the generator of each random variable is the one the model was defined with, advanced once per draw",
    "reference: parents' values of the same sample determine the parameters of every draw",
]
BOUNDS = {
    "quick": "13 model graphs + 30 catalogue models, all requests of 1 variable, ordered pairs and everything (capped at 13 per model), 1 and 3 samples, 2 calls, 4 ways of storing the generators' updates, symbolic and constant counts of several integer types; 1031 samples of everything in the 13 graphs",
    "thorough": "all catalogue models, all ordered requests of up to 3 variables, up to 5 samples, 3 calls; 257, 1031 and 4099 samples of the 13 graphs",
}


def dags():
    def chain(B):
        mu = B.rv("mu", "normal", 0.0, 1.0)
        s = B.rv("s", "gamma", 2.0, 3.0)
        y = B.rv("y", "normal", mu, s, size=(2,))
        B.rv("z", "normal", y, 0.5)

    def diamond(B):
        a = B.rv("a", "normal", 1.0, 2.0)
        b = B.rv("b", "normal", a, 1.0)
        c = B.rv("c", "normal", 2 * a, 0.3)
        B.rv("d", "normal", b - c, 0.7)

    def separate(B):
        B.rv("a", "normal", 0.0, 1.0)
        B.rv("b", "normal", 0.0, 1.0)
        B.rv("c", "exponential", 2.0, size=(3,))

    def discrete(B):
        p = B.rv("p", "beta", 2.0, 3.0, size=(3,))
        B.rv("k", "binomial", B.const(4), p)
        lam = B.rv("lam", "gamma", 1.5, 0.5)
        B.rv("n", "poisson", lam)

    def regression(B):
        X = B.inp("X", np.array([[1.0, 0.2], [0.3, -1.0], [0.5, 0.5]]))
        beta = B.rv("beta", "normal", 0.0, 2.0, size=(2,))
        B.rv("y", "bernoulli", B.sigmoid(B.dot(X, beta)))

    def deep(B):
        x = B.rv("x0", "normal", 0.0, 1.0)
        for i in range(1, 5):
            x = B.rv(f"x{i}", "normal", 0.5 * x, 1.0)

    def wide(B):
        m = B.rv("m", "normal", 0.0, 1.0)
        for i in range(4):
            B.rv(f"w{i}", "normal", m, 1.0 + i)

    def many(B):  # more variables than any small bound
        x = B.rv("a0", "normal", 0.0, 1.0)
        for i in range(1, 7):
            B.rv(f"b{i}", "gamma", 1.0 + i, 2.0)
            x = B.rv(f"a{i}", "normal", 0.7 * x, 0.5)
        B.rv("end", "normal", x, 1.0, size=(2,))

    def matrix(B):
        s = B.rv("s", "halfcauchy", 0.0, 1.0)
        M = B.rv("M", "normal", 0.0, s, size=(2, 3))
        B.rv("r", "normal", B.sum(M), 1.0)

    def bounds(B):
        lo = B.rv("lo", "uniform", 0.0, 1.0)
        hi = B.rv("hi", "uniform", lo, 2.0)
        B.rv("u", "uniform", lo, hi, size=(2,))

    def scalar(B):
        B.rv("only", "invgamma", 3.0, 2.0)

    def observed(B):
        m = B.rv("m", "normal", 0.0, 1.0)
        B.obsrv("Y", "normal", m, 1.0, size=(2,))

    def shared(B):
        x = B.shared("x", np.array([0.1, 0.9]))
        b = B.rv("b", "laplace", x, 1.0)
        B.rv("e", "normal", b * x, 2.0)

    return [Program("prior-" + f.__name__, f) for f in (chain, diamond, separate, discrete, regression, deep, wide, many, matrix, bounds, scalar, observed, shared)]


PICK = ("multi-", "comp-", "nuts-", "hs-", "chain-")


def tasks(tier):
    deep = tier == "thorough"
    for i in range(len(dags())):
        yield {"src": "dag", "i": i, "deep": deep, "cost": 5}
        for n in (4099, 1031, 257) if deep else (1031,):
            yield {"src": "dag", "i": i, "n": n, "full": deep and n < 300 or n < 1100 and i in (0, 2, 10), "deep": deep, "cost": 6}
    for n in modelrun.catalogue(tier):
        if deep or n.startswith(PICK):
            yield {"src": "cat", "name": n, "deep": deep, "cost": 5}
    for kind in ("own", "input", "mixed"):
        yield {"src": "gen", "kind": kind, "deep": deep, "cost": 1}


class Model:
    def __init__(self, prog, storing):
        self.prog = prog
        self.g = dsl.GraphB(5)
        prog.fn(self.g)
        self.rvs = {**self.g.rvs, **self.g.obs}
        self.names = list(self.rvs)
        if storing == "no-default":  # updates only in the stream
            for rv in self.rvs.values():
                rv.owner.inputs[0].default_update = None
        elif storing == "default-only":  # updates only on the generators
            self.g.srng.state_updates.clear()
        elif storing == "mixed":
            for rv in list(self.rvs.values())[::2]:
                rv.owner.inputs[0].default_update = None
        self.lat, self.obs, self.data = prog.concrete()
        self.ins = list(self.g.inputs.values())
        self.args = [np.asarray(self.data[n]) for n in self.g.inputs]
        self.gens = {n: rv.owner.inputs[0] for n, rv in self.rvs.items()}
        self.start = {n: v.get_value(borrow=False) for n, v in self.gens.items()}

    def reset(self):
        for n, v in self.gens.items():
            v.set_value(self.start[n], borrow=False)

    def parents(self, req):
        anc = set(ancestors([self.rvs[n] for n in req]))
        return [n for n in self.names if self.rvs[n] in anc]

    def states(self, n, k):
        """Generator states of the first k draws of one variable."""
        from copy import deepcopy

        rng, out = deepcopy(self.start[n]), []
        for _ in range(k):
            out.append(rng_key(rng))
            draws._advance(rng)
        return out


def user_params(name, ps):
    ps = [np.asarray(p, float) for p in ps]
    return [ps[0], 1.0 / ps[1]] if name == "gamma" else ps


def requests(names, deep):
    out = [(n,) for n in names]
    pairs = list(itertools.permutations(names, 2))
    out += pairs if deep else pairs[:: max(1, len(pairs) // 4)]
    out.append(tuple(names))
    out.append(tuple(reversed(names)))
    if deep:
        out += list(itertools.permutations(names, 3))[:20]
    else:
        out = [o for i, o in enumerate(out) if i < 8 or i >= len(out) - 5]
    return list(dict.fromkeys(out))


def check(m, req, fn, n, calls, label, r, single, joint=True):
    """Calls of `fn`, each returning n stacked samples of `req`."""
    need = m.parents(req)
    m.reset()
    states = {q: m.states(q, n * calls) for q in need}
    for c in range(calls):
        ctl = engine.Keyed(levels=5)
        with control(ctl):
            out = fn(*m.args)
        out = [np.array(o) for o in (out if isinstance(out, (list, tuple)) else [out])]
        r.transitions += 1
        if ctl.conflicts:
            a, b = ctl.conflicts[0]
            r.bad(f"{label}: {ctl.log[a]!r} and {ctl.log[b]!r} share a generator state"[:400])
        by = {}
        for d in ctl.log:
            by.setdefault(d.state, d)
        used = set()
        for i in range(n):
            vals = {}
            for q in need:
                d = by.get(states[q][c * n + i])
                if d is None:
                    r.bad(f"{label}: sample {i} of call {c} does not draw {q} with its generator's state after {c * n + i} draws")
                    return
                used.add(d.state)
                vals[q] = d
            tr = m.prog.trace({**m.lat, **{q: d.value for q, d in vals.items() if q in m.lat}},
                              {**m.obs, **{q: d.value for q, d in vals.items() if q in m.obs}}, m.data)
            for q in need:
                fam, ps = tr.params[q]
                got = user_params(fam, vals[q].params)
                r.validated += 1
                if not all(close(a, np.broadcast_to(np.asarray(b, float), np.shape(a)), 1e-9, 1e-12) for a, b in zip(got, ps)):
                    r.bad(f"{label}: sample {i} of call {c} draws {q} with parameters {[np.asarray(a).tolist() for a in got]}, its parents' values in that sample give {[np.asarray(b).tolist() for b in ps]}")
                    return
            for q, o in zip(req, out):
                v = o[i] if not single else o
                r.validated += 1
                if not (v.shape == vals[q].value.shape and np.array_equal(v, vals[q].value)):
                    r.bad(f"{label}: sample {i} of call {c} of {q} is {v.tolist()}, drawn {vals[q].value.tolist()}")
                    return
        extra = set(by) - used
        if extra:
            r.bad(f"{label}: draws {by[next(iter(extra))]!r} that no requested variable depends on"[:400])
            return
        if not single and any(o.shape[0] != n for o in out):
            r.bad(f"{label}: {[o.shape for o in out]} for {n} samples")
            return
    r.states += 1
    r.outcome(f"{label}{[np.round(o, 5).tolist() for o in out]}")
    r.sample(request=req, samples=n, first=[o.tolist() for o in out][:2])


def run_task(t, r):
    upd_fn = get("aemcmc.utils", "get_rv_updates")
    sample_prior = get("aemcmc.sample", "sample_prior")
    if t["src"] == "gen":
        return generators(t["kind"], upd_fn, sample_prior, r)
    prog = dags()[t["i"]] if t["src"] == "dag" else modelrun.model(t["name"])
    if "n" in t:
        return many(prog, t["n"], t["full"], upd_fn, sample_prior, r)
    calls = 3 if t["deep"] else 2
    names = Model(prog, "plain").names
    for j, req in enumerate(requests(names, t["deep"])):
        storing = ("plain", "no-default", "default-only", "mixed")[j % 4]
        m = Model(prog, storing)
        rvs = [m.rvs[q] for q in req]
        label = f"{prog.name} {list(req)} ({storing})"
        # the updates are exactly those of the generators in use
        upd = upd_fn(m.g.srng, *rvs)
        want = {m.gens[q] for q in m.parents(req)}
        if set(upd) != want:
            inv = {v: q for q, v in m.gens.items()}
            r.bad(f"{label}: updates of the generators of {sorted(inv.get(v, str(v)) for v in upd)}, in use are those of {sorted(inv[v] for v in want)}")
        r.validated += len(want)
        if j < 3 or t["deep"]:
            fn = aesara.function(m.ins, rvs, updates=upd, no_default_updates=True, on_unused_input="ignore", mode=engine.PLAIN)
            check(m, req, fn, 1, calls + 1, label + " one sample", r, True)
        for n in ((3,) if not t["deep"] else (1, 3, 5)) + ((1,) if j == 0 else ()):
            sym = j % 2 == 0
            kind = (at.iscalar, at.lscalar, at.bscalar, at.wscalar)[(j // 2 + n) % 4]
            ns = kind("n") if sym else (n, at.as_tensor(n), np.int64(n))[(j // 2) % 3]
            samples, updates = sample_prior(m.g.srng, ns, *rvs)
            f = aesara.function(([ns] if sym else []) + m.ins, samples, updates=updates, no_default_updates=True, on_unused_input="ignore", mode=engine.PLAIN)
            call = (lambda *a, f=f, n=n: f(n, *a)) if sym else f
            check(m, req, call, n, calls, f"{label} {n} samples", r, False)
            if j < 2:
                # the generators' own draws: the same as calling the model n times
                m.reset()
                one = aesara.function(m.ins, rvs, updates=upd, no_default_updates=True, on_unused_input="ignore", mode=engine.PLAIN)
                seq = [[np.array(v) for v in one(*m.args)] for _ in range(n * calls)]
                m.reset()
                for c in range(calls):
                    out = call(*m.args)
                    out = out if isinstance(out, (list, tuple)) else [out]
                    for i in range(n):
                        for q, o, e in zip(req, out, seq[c * n + i]):
                            r.validated += 1
                            if not np.array_equal(o[i], e, equal_nan=True):
                                r.bad(f"{label}: sample {i} of call {c} of {q} is {np.asarray(o[i]).tolist()}, the model drawn repeatedly gives {e.tolist()}")
                                return


def many(prog, n, every, upd_fn, sample_prior, r):
    """Many samples: all of them against repeated draws, some in full."""
    m = Model(prog, "plain")
    rvs = list(m.rvs.values())
    ns = at.lscalar("n")
    samples, updates = sample_prior(m.g.srng, ns, *rvs)
    f = aesara.function([ns] + m.ins, samples, updates=updates, no_default_updates=True, on_unused_input="ignore", mode=engine.PLAIN)
    one = aesara.function(m.ins, rvs, updates=upd_fn(m.g.srng, *rvs), no_default_updates=True, on_unused_input="ignore", mode=engine.PLAIN)
    m.reset()
    seq = [[np.array(v) for v in one(*m.args)] for _ in range(n + 3)]
    m.reset()
    out = f(n, *m.args)
    more = f(3, *m.args)
    r.states += 1
    r.transitions += 2
    for q, o, e in zip(m.names, *[x if isinstance(x, (list, tuple)) else [x] for x in (out, more)]):
        k = m.names.index(q)
        got = np.concatenate([o, e])
        want = np.array([s[k] for s in seq])
        r.validated += n + 3
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
            r.bad(f"{prog.name}: {n} and 3 more samples of {q} have shapes {o.shape} and {e.shape} or differ from the model drawn {n + 3} times")
            return
        r.outcome(f"{prog.name}{q}{n}{float(np.sum(got))}")
    if every:
        names = tuple(m.names)
        check(m, names, lambda *a: f(n, *a), n, 1, f"{prog.name} {n} samples", r, False)


def generators(kind, upd_fn, sample_prior, r):
    """Random variables whose generators the stream does not know."""
    srng = at.random.RandomStream(3)
    a = srng.normal(0, 1, name="a")
    own = aesara.shared(np.random.default_rng(77), name="own")
    other = aesara.shared(np.random.default_rng(78), name="other")
    inp = at.random.type.random_generator_type("gen")
    if kind == "own":
        y = at.random.normal(a, 1.0, rng=own, name="y")
        own.default_update = y.owner.outputs[0]
        args, want = [], {a.owner.inputs[0], own}
    elif kind == "input":
        y = at.random.normal(a, 1.0, rng=inp, name="y")
        args, want = [inp], {a.owner.inputs[0]}
    else:
        b = at.random.normal(a, 1.0, rng=own, name="b")
        own.default_update = b.owner.outputs[0]
        y = at.random.normal(b, 1.0, rng=other, name="y")  # never updated
        args, want = [], {a.owner.inputs[0], own}
    upd = upd_fn(srng, y)
    r.states += 1
    r.validated += 1
    if set(upd) != want:
        r.bad(f"{kind}: updates for {[str(v) for v in upd]}, expected {[str(v) for v in want]}")
    f = aesara.function(args, y, updates=upd, no_default_updates=True, mode=engine.PLAIN)
    gens = [v for v in want]
    keep = [v.get_value(borrow=False) for v in gens]
    vals = [float(f(*[np.random.default_rng(5)] * len(args))) for _ in range(3)]
    r.transitions += 3
    r.outcome(f"{kind}{vals}")
    r.sample(kind=kind, values=vals)
    if len(set(vals)) != 3:
        r.bad(f"{kind}: successive draws {vals}")
    for v, k in zip(gens, keep):
        v.set_value(k)
    if kind == "own":
        samples, updates = sample_prior(srng, 3, y)
        f3 = aesara.function([], samples, updates=updates, no_default_updates=True, mode=engine.PLAIN)
        got = np.array(f3()).tolist()
        r.transitions += 1
        r.validated += 1
        if not np.allclose(got, vals):
            r.bad(f"{kind}: three samples {got}, three draws {vals}")
