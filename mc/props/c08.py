"""C08: forward-filtering backward-sampling draws from the exact path posterior."""
import itertools

import aesara.tensor as at
import numpy as np
from scipy.special import logsumexp

from mc import engine
from mc.draws import Controller, explore
from mc.props.lib import Fn, get, stream, typed

ASSUMPTIONS = [
    "path posterior by summing the joint over all M^N paths in log space",
    "at every time some state reachable under the transitions has positive likelihood (otherwise the posterior is undefined)",
]
BOUNDS = {
    "quick": "M <= 3, N <= 4 (N <= 6 for M = 2), (M, N) = (4, 3), (5, 2), deterministic chains of 20 and 75 steps, banded chains of 300 states; every categorical outcome; 6 initial x 7 transition x 8 likelihood patterns, 3 precision bounds; argument types",
    "thorough": "M <= 4, N <= 5 (N <= 9 for M = 2), all patterns crossed",
}
INF = np.inf


class Paths(Controller):
    """Enumerates the outcomes of positive probability of every categorical."""

    def decide(self, d, rng, inputs, params, size):
        if d.name == "categorical":
            p = np.atleast_2d(np.asarray(d.params[0], float))
            p = p.reshape(-1, p.shape[-1])
            vals, w = [], 1.0
            n = int(np.prod(d.shape)) if d.shape else 1
            for i in range(n):
                row = p[i % len(p)]
                if not np.all(np.isfinite(row)) or abs(row.sum() - 1) > 1e-9 or row.min() < 0:
                    raise ValueError(f"state probabilities {row.tolist()} are not a distribution")
                poss = np.flatnonzero(row > 0)
                c = self.choose(len(poss)) if len(poss) > 1 else 0
                vals.append(poss[c])
                w *= float(row[poss[c]])
            d.weight = w
            return np.array(vals)
        return super().decide(d, rng, inputs, params, size)


def gammas0(M):
    yield np.ones(M) / M
    yield np.arange(1, M + 1) / (M * (M + 1) / 2)
    yield 7.0 * np.arange(M, 0, -1)  # unnormalised
    e = np.zeros(M)
    e[-1] = 1.0
    yield e
    if M > 1:
        z = np.arange(1.0, M + 1)
        z[0] = 0.0
        yield z * 1e-6
    yield 1e5 * (0.3 + np.arange(M) ** 2)


def transitions(M, N):
    """(name, array) of single (1, M, M), (M, M) and (N, M, M) matrices."""
    base = np.array([[1.0 + ((3 * i + 5 * j) % 7) for j in range(M)] for i in range(M)])
    base /= base.sum(1, keepdims=True)
    yield "single", base[None]
    yield "matrix", base
    cyc = np.roll(np.eye(M), 1, axis=1)
    yield "cycle", cyc[None]
    tv = []
    for n in range(N):
        m = np.array([[1.0 + ((2 * i + 3 * j + 4 * n + i * j * (n + 1)) % 6) for j in range(M)] for i in range(M)])
        tv.append(m / m.sum(1, keepdims=True))
    yield "varying", np.stack(tv)
    tz = []
    for n in range(N):
        m = tv[n].copy()
        if M > 1:
            m[n % M, (n + 1) % M] = 0.0
            m /= m.sum(1, keepdims=True)
        tz.append(m)
    yield "varying-zeros", np.stack(tz)
    yield "alternating", np.stack([cyc if n % 2 else np.eye(M) for n in range(N)])
    st = np.full((M, M), 1e-9)
    np.fill_diagonal(st, 1 - 1e-9 * (M - 1))
    yield "sticky", st[None]


def logliks(M, N):
    i, n = np.indices((M, N))
    a = -0.3 - 0.45 * ((2 * i + 3 * n) % 5)
    yield "mild", a
    yield "offset", a - 2000.0 + 500.0 * n
    yield "positive", a + 900.0
    yield "sharp", -60.0 * ((i + n) % M)
    b = a.copy()
    if M > 1:
        b[np.arange(N) % M, np.arange(N)] = -INF
    yield "ruled-out", b
    yield "flat", np.zeros((M, N))
    yield "extreme", -900.0 * ((i + 2 * n) % M) + a
    yield "drift", -130.0 * (i != 0) + a


def exact(g0, G, ll):
    """Posterior of every path of positive prior probability; None where it is
    undefined, or where a reachable state's filtered probability, relative to
    the largest one, is outside the floating point range (the algorithm is
    documented not to work in log space)."""
    M, N = ll.shape
    G = np.broadcast_to(G, (N, M, M))
    with np.errstate(divide="ignore"):
        lg, lG = np.log(np.asarray(g0, float)), np.log(G)
    filt, prev = lg, {}
    for n in range(N):
        with np.errstate(invalid="ignore"):
            filt = logsumexp(filt[:, None] + lG[n], axis=0) + ll[:, n]
        top = filt.max()
        if len(prev) > 20000 or not np.isfinite(top) or any(np.isfinite(v) and v < top - 600 for v in filt):
            return None
        new = {}
        for j in range(M):
            if n == 0:
                v = logsumexp(lg + lG[0][:, j]) + ll[j, 0]
                if np.isfinite(v):
                    new[(j,)] = v
            else:
                for path, w in prev.items():
                    v = w + lG[n, path[-1], j] + ll[j, n]
                    if np.isfinite(v):
                        new[path + (j,)] = v
        prev = new
    z = logsumexp(list(prev.values()))
    return {k: float(np.exp(v - z)) for k, v in prev.items()}


def tasks(tier):
    deep = tier == "thorough"
    dims = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4), (2, 6), (3, 20), (5, 2), (4, 3), (2, 75), (300, 4)]
    if deep:
        dims += [(3, 5), (2, 9), (4, 4), (2, 7), (6, 3)]
    yield {"kind": "types", "M": 2, "N": 2, "cost": 60}
    yield {"kind": "types", "M": 2, "N": 3, "cost": 60}
    if deep:
        yield {"kind": "types", "M": 3, "N": 2, "cost": 60}
    for M, N in dims:
        for form in ("vector", "const", "bound-1e-3", "bound-0.5"):
            if form != "vector" and (M, N) not in ((2, 3), (3, 2)) and not deep:
                continue
            yield {"M": M, "N": N, "form": form, "full": deep, "cost": min(M**N, 200) / 10}


def types(t, r):
    M, N = t["M"], t["N"]
    step = get("aemcmc.ffbs", "ffbs_step")
    kinds = ("float64", "float32", "int64", "int8", "uint8")
    i, n = np.indices((M, N))
    ll = -((2 * i + 3 * n) % 5)
    g0 = np.array([1, 3, 120][-M:])
    for name, G in (("ones", np.ones((1, M, M))), ("cycle", np.roll(np.eye(M), 1, axis=1)[None] + np.eye(M)[0]), ("matrix", np.roll(np.eye(M), 1, axis=1)),
                    ("varying", np.stack([np.eye(M) if k % 2 else np.ones((M, M)) for k in range(N)]))):
        typed(f"state path (transitions: {name})", lambda a, b, c: step(a, b, c, stream()), [g0, G, ll],
              [kinds, kinds, kinds[:4]], r, vary={"categorical"}, mode=engine.PLAIN)


def run_task(t, r):
    if t.get("kind") == "types":
        types(t, r)
        return
    M, N, form = t["M"], t["N"], t["form"]
    step = get("aemcmc.ffbs", "ffbs_step")
    kw = {"lower_prec_bound": float(form.split("-", 1)[1])} if form.startswith("bound") else {}
    fns = {}

    def fn(G, g0, ll):
        if form == "const":
            out, upd = step(g0, G, ll, stream(), **kw)
            f = Fn([], out, updates=upd, mode=engine.PLAIN)
            return lambda c: f(c), f
        nd = G.ndim
        key = (nd, G.shape[0] == 1)
        if key not in fns:
            a, b, l = at.vector("g0"), (at.tensor3("G") if nd == 3 else at.matrix("G")), at.matrix("ll")
            if nd == 3 and G.shape[0] == 1:
                b = at.tensor("float64", (True, False, False), name="G")
            out, upd = step(a, b, l, stream(), **kw)
            fns[key] = Fn([a, b, l], out, updates=upd, mode=engine.PLAIN)
        f = fns[key]
        return lambda c: f(c, np.asarray(g0, float), G, ll), f

    g0s, Gs, lls = list(gammas0(M)), list(transitions(M, N)), list(logliks(M, N))
    stride = 41 if form == "const" else 7 if form != "vector" else 5 if M**N > 8 else 2
    small = form == "const" or not t["full"]
    if M > 50:  # many states: a band of moves, so that the paths stay few
        cyc = np.roll(np.eye(M), 1, axis=1)
        far = np.roll(np.eye(M), 140, axis=1)
        Gs = [("cycle", cyc[None]), ("band", (0.5 * np.eye(M) + 0.3 * cyc + 0.2 * far)[None]),
              ("alternating", np.stack([far if n % 2 else np.eye(M) for n in range(N)]))]
        g0s, lls, stride, small = [g0s[2] * (np.arange(M) % 29 == 3), g0s[3]], [l for l in lls if l[0] in ("mild", "offset", "flat")], 1, False
    cases = [(a, b, c) for a in range(len(g0s)) for b in range(len(Gs)) for c in range(len(lls))
             if (not small or (a + 2 * b + 3 * c) % stride == 0) and (N < 10 or Gs[b][0] in ("cycle", "alternating") or (M == 2 and lls[c][0] == "ruled-out"))]
    execs = {}
    for a, b, c in cases:
        g0, (gn, G), (ln, ll) = g0s[a], Gs[b], lls[c]
        want = exact(g0, G, ll)
        if want is None:
            continue
        run1, f = fn(G, g0, ll)
        pmf = {}

        def run(prefix):
            ctl = Paths(prefix=prefix)
            s = run1(ctl)
            if s.shape != (N,):
                raise ValueError(f"sampled states of shape {s.shape} for {N} observations")
            other = {d.name for d in ctl.log} - {"categorical"}
            if other:
                raise NotImplementedError(str(other))
            k = tuple(int(v) for v in s)
            pmf[k] = pmf.get(k, 0.0) + float(np.prod([d.weight for d in ctl.log]))
            return ctl.points, ctl.taken

        tag = f"M={M} N={N} {form} initial {g0.tolist()} transitions {gn} log-likelihood {ln}"
        try:
            n, capped = explore(run)
        except NotImplementedError as e:
            r.skipped.append(f"draws from {e}")
            return
        except ValueError as e:
            r.bad(f"{tag}: {e}", initial=g0, transitions=G, log_lik=ll)
            continue
        r.transitions += n
        r.states += 1
        r.validated += len(want)
        r.outcomes |= {f"{M}{N}{a}{b}{c}{k}" for k in pmf}
        r.sample(initial=g0, transitions=gn, log_lik=ln, paths={str(k): round(v, 6) for k, v in pmf.items()})
        diff = {k: (pmf.get(k, 0.0), want.get(k, 0.0)) for k in set(pmf) | set(want)}
        bad = {k: v for k, v in diff.items() if not abs(v[0] - v[1]) <= 1e-9 or (k not in want and v[0] > 0)}
        if bad:
            k = max(bad, key=lambda q: abs(bad[q][0] - bad[q][1]))
            r.bad(f"{tag}: path {k} has probability {bad[k][0]:.6g}, exact {bad[k][1]:.6g}", initial=g0, transitions=G, log_lik=ll)
