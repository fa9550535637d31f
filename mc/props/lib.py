"""Driving stand-alone sampler functions under controlled draws."""
import aesara
import numpy as np
from aesara.tensor.random.utils import RandomStream

from mc import draws, engine  # noqa: F401  (installs the draw hook)
from mc.blocks import Pinned
from mc.draws import control, explore
from mc.engine import Fail, close
from mc.report import Skip


def get(mod, name):
    import importlib

    m = importlib.import_module(mod)
    if not hasattr(m, name):
        raise Skip(f"{mod}.{name}")
    return getattr(m, name)


class Fn:
    """A compiled function whose generators are reset before every execution."""

    def __init__(self, ins, outs, updates=None, mode=None, givens=None):
        self.fn = aesara.function(ins, outs, updates=updates, on_unused_input="ignore", mode=mode)
        self.snap = [(v, v.get_value(borrow=False)) for v in self.fn.get_shared()]
        self.execs = 0

    def __call__(self, ctl, *args, reset=True):
        self.execs += 1
        if reset:
            for v, val in self.snap:
                v.set_value(val, borrow=False)
        with control(ctl):
            out = self.fn(*args)
        return [np.array(o) for o in out] if isinstance(out, (list, tuple)) else np.array(out)


def affine(go, name="output", level=0):
    """(mean, covariance, number of standard normal draws) of the first value
    `go(policy)` returns, as a function of its normal draws."""
    store = {}

    def pol(active):
        def f(ctl, d):
            store[d.site] = int(np.prod(d.shape)) if d.shape else 1
            z = np.zeros(d.shape)
            for s, i, v in active:
                if s == d.site:
                    z.reshape(-1)[i] = v
            if d.name == "multivariate_normal":
                return d.params[0] + z @ np.linalg.cholesky(d.params[1]).T
            return d.params[0] + d.params[1] * z

        return {"normal": f, "multivariate_normal": f}

    m = np.ravel(go(pol(())))
    basis = [(s, i) for s in sorted(store) for i in range(store[s])]
    if not basis:
        return m, np.zeros((m.size, m.size)), 0
    M = np.stack([np.ravel(go(pol([(s, i, 1.0)]))) - m for s, i in basis], axis=-1)
    z = np.array([0.5 + 0.3 * ((7 * j) % 5) * (-1) ** j for j in range(len(basis))])
    got = np.ravel(go(pol([(s, i, z[j]) for j, (s, i) in enumerate(basis)])))
    if not close(got, m + M @ z, rtol=1e-6, atol=1e-7):
        raise Fail(f"{name} is not an affine function of its Gaussian draws")
    return m, M @ M.T, len(basis)


def stream(seed=7):
    return RandomStream(seed)


def signatures(kinds):
    """Argument types: one argument of another type at a time, neighbouring
    pairs, and all of one type.  `kinds`: the types each argument may have, the
    default one first."""
    base = tuple(k[0] for k in kinds)
    out = []
    for i, k in enumerate(kinds):
        for d in k[1:]:
            out.append(base[:i] + (d,) + base[i + 1:])
            if i + 1 < len(kinds):
                for e in kinds[i + 1][1:]:
                    out.append(base[:i] + (d, e) + base[i + 2:])
    for d in ("float32", "float64", "int64", "int8", "uint8"):
        out.append(tuple(d if d in k else k[0] for k in kinds))
    return base, list(dict.fromkeys(out))


def typed(what, build, vals, kinds, r, vary=(), mode=None):
    """`build(*inputs)` -> (outputs, updates) must give, for every combination of
    argument types, the outcomes (and their probabilities) of the default types."""
    import aesara.tensor as at

    def law(sig):
        ins = [at.tensor(d, [False] * np.ndim(v)) for d, v in zip(sig, vals)]
        outs, ups = build(*ins)
        f = Fn(ins, list(outs) if isinstance(outs, (list, tuple)) else [outs], updates=ups, mode=mode)
        args = [np.asarray(v).astype(d) for d, v in zip(sig, vals)]
        res = {}
        for lev in (0, 1):
            def run(prefix):
                c = Pinned(level=lev, vary=set(vary), prefix=prefix)
                o = [np.ravel(q).astype(float) for q in f(c, *args)]
                w = float(np.prod([d.weight for d in c.log if d.name in vary])) if vary else 1.0
                res[lev, tuple(c.taken)] = (o, w)
                return c.points, c.taken

            explore(run, max_exec=3000)
        r.transitions += f.execs
        return res

    base, sigs = signatures(kinds)
    want = law(base)
    for sig in sigs:
        info = dict(types=sig, values=vals)
        try:
            got = law(sig)
        except Exception as e:
            r.bad(f"{what} with arguments of types {sig}: {type(e).__name__}: {str(e)[:200]}", **info)
            continue
        r.states += 1
        r.validated += len(want)
        r.outcome(f"{what}{sig}")
        bad = set(got) ^ set(want)
        for k in set(got) & set(want):
            (o, w), (o2, w2) = got[k], want[k]
            if abs(w - w2) > 1e-4 or len(o) != len(o2) or any(a.shape != b.shape or not close(a, b, 1e-3, 1e-4) for a, b in zip(o, o2)):
                bad.add(k)
        if bad:
            k = sorted(bad, key=str)[0]
            r.bad(f"{what} with arguments of types {sig} gives {got.get(k)}, with {base} {want.get(k)}", **info)
