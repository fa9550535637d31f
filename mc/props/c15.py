"""C15: transformations relate equally distributed expressions only."""
import hashlib
import itertools

import aesara
import aesara.tensor as at
import numpy as np
import scipy.special as sp
from aesara.graph.fg import FunctionGraph
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.utils import RandomStream
from etuples import etuplize
from kanren import run
from unification import var

from mc import engine
from mc.draws import control, u_pattern
from mc.engine import Keyed, close
from mc.props.lib import get

ASSUMPTIONS = [
    "the related expressions are compared value by value on a grid of quantiles: a related expression keeps the generator, so one generator state stands for one quantile per element",
    "draws are owned at RandomVariable.perform; every family's sampler is trusted to follow its parameters",
    "the opposite directions do not evaluate with the pinned Aesara; they may fail, but not relate differently distributed expressions",
]
BOUNDS = {
    "quick": "5 families x 9 locations x 9 scales x 7 sizes (every third), 14 other families and 30 other expressions, both directions, 3 quantile levels; inverse gamma: 9 shapes x 7 scales x 6 sizes; conjugate relations: 3 x 6 hyperparameter forms x all observations up to 5, 22 other expressions",
    "thorough": "all combinations, 11 quantile levels",
}

FAMILIES = ["cauchy", "gumbel", "laplace", "logistic", "normal"]
KNOWN_IG = (
    "X ~ InvGamma(1, c) is related to 1 / Exponential with scale c (mean c); equal in distribution is the one with rate c"
)


class Level(Keyed):
    """One quantile per generator state; `salt` selects it."""

    def __init__(self, salt, **kw):
        super().__init__(levels=7, **kw)
        self.salt = salt

    def choose(self, k):
        h = int(hashlib.md5(f"{self.salt}{self._key}".encode()).hexdigest()[:6], 16)
        return h if k == self.levels else h % k


class Forms:
    def __init__(self):
        self.srng = RandomStream(3)
        x, v = at.scalar("x"), at.vector("v")
        n = at.lscalar("n")
        self.ins = [(x, 0.4), (v, np.array([0.6, 1.7, 2.9])), (n, 3)]
        self.x, self.v, self.n = x, v, n
        srng = self.srng
        self.locs = {
            "0": 0.0, "1.5": 1.5, "x": x, "v": v, "-x": -x, "col": at.constant(np.array([[0.3], [-0.8]])),
            "rv": srng.halfnormal(0.0, 1.0), "rvv": srng.normal(0.2, 1.0, size=3), "x+rv": x + srng.gamma(2.0, 1.0),
        }
        self.scales = {
            "1": 1.0, "0.7": 0.7, "x": x, "v": v, "exp": at.exp(x), "col": at.constant(np.array([[0.5], [1.8]])),
            "rv": srng.halfcauchy(0.0, 1.0), "rvv": srng.gamma(2.0, 1.0, size=3), "one": at.constant(np.array([1.3])),
        }
        self.sizes = {
            "no": None, "()": (), "3": (3,), "23": (2, 3), "n": (n,), "2n": (2, n), "vshape": v.shape,
        }


def transform(rel, e):
    from aesara.graph.rewriting.kanren import KanrenRelationSub

    fg = FunctionGraph(outputs=[e], clone=False)
    res = KanrenRelationSub(rel).transform(fg, e.owner)
    if not res:
        return None
    if len(res) != 1:
        raise engine.Fail(f"{len(res)} results")
    return res[0]


def evaluate(out, ins, ctl):
    f = aesara.function([v for v, _ in ins], out, mode=engine.PLAIN, on_unused_input="ignore", no_default_updates=True)
    res = []
    for c in ctl:
        with control(c):
            res.append(np.array(f(*[x for _, x in ins])))
    return res



def ls_cases(tier):
    F = Forms()
    cs = [(f, m, s, z) for f in FAMILIES for m in F.locs for s in F.scales for z in F.sizes]
    return cs if tier == "thorough" else cs[::3]


OTHERS = {
    "t": lambda s, a, b: s.t(5.0, a, b), "gamma": lambda s, a, b: s.gamma(a, b), "beta": lambda s, a, b: s.beta(a, b),
    "uniform": lambda s, a, b: s.uniform(a, a + b), "lognormal": lambda s, a, b: s.lognormal(a, b),
    "halfnormal": lambda s, a, b: s.halfnormal(a, b), "halfcauchy": lambda s, a, b: s.halfcauchy(a, b),
    "invgamma": lambda s, a, b: s.invgamma(a, b), "exponential": lambda s, a, b: s.exponential(b),
    "pareto": lambda s, a, b: s.pareto(a), "weibull": lambda s, a, b: s.weibull(b), "poisson": lambda s, a, b: s.poisson(b),
    "vonmises": lambda s, a, b: s.vonmises(a, b), "wald": lambda s, a, b: s.wald(a, b),
    "nbinom": lambda s, a, b: s.nbinom(a, 0.3), "binomial": lambda s, a, b: s.binomial(3, 0.3),
    "mvn": lambda s, a, b: s.multivariate_normal(at.stack([a, b]), at.eye(2)),
    "chisquare": lambda s, a, b: s.chisquare(a), "bernoulli": lambda s, a, b: s.bernoulli(0.2),
}


def expressions(F):
    """Non-centered expressions and near misses of them, for every direction."""
    s, x = F.srng, F.x
    out = {}
    for f in FAMILIES:
        P = getattr(s, f)
        out[f"{f} std"] = lambda P=P: x + 0.7 * P(0, 1)
        out[f"{f} float"] = lambda P=P: x + 0.7 * P(0.0, 1.0)
        out[f"{f} sized"] = lambda P=P: x + 0.7 * P(0, 1, size=3)
        out[f"{f} swapped"] = lambda P=P: P(0, 1) * 0.7 + x
        out[f"{f} scale 2"] = lambda P=P: x + 0.7 * P(0, 2)
        out[f"{f} loc 1"] = lambda P=P: x + 0.7 * P(1, 1)
        out[f"{f} vector loc"] = lambda P=P: F.v + 0.7 * P(0, 1)
        out[f"{f} minus"] = lambda P=P: x - 0.7 * P(0, 1)
        out[f"{f} no loc"] = lambda P=P: 0.7 * P(0, 1)
        out[f"{f} exp"] = lambda P=P: at.exp(x + 0.7 * P(0, 1))
    out["gamma"] = lambda: x + 0.7 * s.gamma(1, 1)
    out["uniform"] = lambda: x + 0.7 * s.uniform(0, 1)
    out["halfnormal"] = lambda: x + 0.7 * s.halfnormal(0, 1)
    out["inputs"] = lambda: x + 0.7 * F.v
    out["inverse"] = lambda: 1.0 / s.exponential(x)
    out["inverse sized"] = lambda: 1.0 / s.exponential(x, size=3)
    out["inverse of rate"] = lambda: 1.0 / s.exponential(1 / x)
    out["twice inverse"] = lambda: 2.0 / s.exponential(x)
    out["inverse gamma 2"] = lambda: 1.0 / s.gamma(2.0, x)
    out["inverse input"] = lambda: 1.0 / x
    return out


IG_SHAPES = {
    "1.0": lambda F: 1.0, "1": lambda F: 1, "11": lambda F: at.constant(np.array([1.0, 1.0, 1.0])),
    "1col": lambda F: at.constant(np.array([[1.0], [1.0]])), "2.0": lambda F: 2.0, "0.5": lambda F: 0.5,
    "12": lambda F: at.constant(np.array([1.0, 2.0, 1.0])), "x": lambda F: F.x, "rv": lambda F: F.srng.gamma(1.0, 1.0),
}
IG_ONE = ("1.0", "1", "11", "1col")
CHUNK = 40


def tasks(tier):
    n = len(ls_cases(tier))
    for i in range(0, n, CHUNK):
        yield {"kind": "ls", "lo": i, "tier": tier, "cost": 5}
    yield {"kind": "others", "tier": tier, "cost": 4}
    for i in range(6):
        yield {"kind": "expressions", "part": i, "tier": tier, "cost": 4}
    for sh in IG_SHAPES:
        yield {"kind": "ig", "shape": sh, "tier": tier, "cost": 4}
    for c in CONJ:
        for h in HYPER:
            yield {"kind": "conj", "conj": c, "hyper": h, "tier": tier, "cost": 2}
    yield {"kind": "near", "cost": 2}


def levels(tier):
    return range(11 if tier == "thorough" else 3)


def run_task(t, r):
    {"ls": run_ls, "others": run_others, "expressions": run_expr, "ig": run_ig, "conj": run_conj, "near": run_near}[t["kind"]](t, r)


def same_values(label, X, d, ins, tier, r):
    ls = levels(tier)
    want = evaluate(X, ins, [Level(k) for k in ls])
    got = evaluate(d, ins, [Level(k) for k in ls])
    for k, a, b in zip(ls, want, got):
        r.transitions += 2
        r.validated += 1
        if not close(a, b, 1e-9, 1e-11):
            r.bad(f"{label}: related to an expression with another distribution: {b.tolist()} at the quantiles of {a.tolist()}")
            return False
    if d.type.ndim != X.type.ndim or d.type.dtype != X.type.dtype:
        r.bad(f"{label}: {X.type} is related to {d.type}")
    r.outcome(f"{label}{np.round(want[0], 6).tolist()}"[:300])
    return True


def run_ls(t, r):
    rel = get("aemcmc.transforms", "location_scale_transform")
    for fam, m, s, z in ls_cases(t["tier"])[t["lo"]: t["lo"] + CHUNK]:
        F = Forms()
        label = f"{fam}({m}, {s}, size={z})"
        try:
            X = getattr(F.srng, fam)(F.locs[m], F.scales[s], size=F.sizes[z])
            evaluate(X, F.ins, [Level(0)])
        except Exception:  # parameters and size do not agree
            continue
        r.states += 1
        try:
            d = transform(rel, X)
            if d is None:
                r.bad(f"{label}: not related to a non-centered expression")
                continue
            if isinstance(d.owner.op, RandomVariable):
                r.bad(f"{label}: related to a random variable, {d}")
                continue
            same_values(label, X, d, F.ins, t["tier"], r)
        except Exception as e:
            r.bad(f"{label}: {type(e).__name__}: {str(e)[:300]}")
    r.sample(last=label)


def run_others(t, r):
    ls = get("aemcmc.transforms", "location_scale_transform")
    ig = get("aemcmc.transforms", "invgamma_exponential")
    for name, f in OTHERS.items():
        for a, b in itertools.product((1.0, 0.5, "x"), (1.0, 2.5, "x")):
            F = Forms()
            X = f(F.srng, *[F.x if p == "x" else at.constant(p) for p in (a, b)])
            for lab, rel in (("location-scale", ls), ("inverse gamma", ig)):
                if lab == "inverse gamma" and name == "invgamma":
                    continue
                r.states += 1
                r.transitions += 1
                d = transform(rel, X)
                r.validated += 1
                if d is not None:
                    same_values(f"{lab} of {name}({a}, {b})", X, d, F.ins, t["tier"], r)
    for fam in FAMILIES:
        F = Forms()
        X = getattr(F.srng, fam)(F.x, 0.5)
        r.states += 1
        if transform(ig, X) is not None:
            r.bad(f"inverse gamma relation holds for {fam}")


def run_expr(t, r):
    ls = get("aemcmc.transforms", "location_scale_transform")
    ig = get("aemcmc.transforms", "invgamma_exponential")
    rels = {
        "location-scale": ls, "inverse gamma": ig,
        "location-scale, opposite": lambda x, y: ls(y, x), "inverse gamma, opposite": lambda x, y: ig(y, x),
    }
    for n in list(expressions(Forms()))[t["part"]:: 6]:
        for lab, rel in rels.items():
            F = Forms()
            e = expressions(F)[n]()
            r.states += 1
            r.transitions += 1
            try:
                d = transform(rel, e)
            except Exception as err:
                r.bad(f"{lab} of {n}: {type(err).__name__}: {str(err)[:300]}")
                continue
            r.validated += 1
            if d is not None and d is not e:
                if lab.startswith("inverse gamma, opp"):
                    check_ig(f"{lab} of {n}", d, e, F.ins, t["tier"], r, known=False)
                else:
                    same_values(f"{lab} of {n}", e, d, F.ins, t["tier"], r)


def anti(ctl, d):
    """The inverse gamma quantile at 1 - u (the inverse is decreasing)."""
    n = int(np.prod(d.shape)) if d.shape else 1
    u = u_pattern(ctl.choose(ctl.levels), n).reshape(d.shape)
    return d.params[1] / sp.gammainccinv(d.params[0], 1 - u)


def check_ig(label, X, d, ins, tier, r, known=True):
    ks = levels(tier)
    want = evaluate(X, ins, [Level(k, policy={"invgamma": anti}) for k in ks])
    got, E = [], []
    f = aesara.function([v for v, _ in ins], d, mode=engine.PLAIN, on_unused_input="ignore", no_default_updates=True)
    for k in ks:
        c = Level(k)
        with control(c):
            got.append(np.array(f(*[x for _, x in ins])))
        E.append([e for e in c.log if e.name == "exponential"])
    for a, b, e in zip(want, got, E):
        r.transitions += 2
        r.validated += 1
        if close(a, b, 1e-8, 1e-10):
            continue
        # X = c / E with E standard exponential; the finding is 1 / (c E)
        if known and len(e) == 1 and a.shape == b.shape and close(b, 1 / e[0].value) and close(
            a * b, 1 / (e[0].value / e[0].params[0]) ** 2, 1e-8, 1e-10
        ) and e[0].value.shape == a.shape:
            r.known.setdefault("invgamma-scale-for-rate", KNOWN_IG)
            continue
        r.bad(f"{label}: related to an expression with another distribution: {b.tolist()} at the quantiles of {a.tolist()}")
        return
    if d.type.ndim != X.type.ndim or d.type.dtype != X.type.dtype:
        r.bad(f"{label}: {X.type} is related to {d.type}")
    r.outcome(f"{label}{np.round(want[0], 6).tolist()}"[:300])


def run_ig(t, r):
    rel = get("aemcmc.transforms", "invgamma_exponential")
    F0 = Forms()
    for s, z in itertools.product([k for k in F0.scales if k != "one"], F0.sizes):
        F = Forms()
        label = f"invgamma({t['shape']}, {s}, size={z})"
        try:
            X = F.srng.invgamma(IG_SHAPES[t["shape"]](F), F.scales[s], size=F.sizes[z])
            evaluate(X, F.ins, [Level(0)])
        except Exception:
            continue
        r.states += 1
        try:
            d = transform(rel, X)
            if t["shape"] in IG_ONE:
                if d is None:
                    r.bad(f"{label}: not related to the inverse of an exponential")
                    continue
                check_ig(label, X, d, F.ins, t["tier"], r)
            elif d is not None:
                check_ig(label, X, d, F.ins, t["tier"], r, known=False)
            else:
                r.validated += 1
        except Exception as e:
            r.bad(f"{label}: {type(e).__name__}: {str(e)[:300]}")
    r.sample(shape=t["shape"])


# -- conjugate relations, run forward -------------------------------------
CONJ = ("gp", "bb", "bnb")
HYPER = {
    "consts": lambda F: (2.0, 3.0, None), "x": lambda F: (F.x, F.x + 1.0, None), "v": lambda F: (F.v, F.v * 2, None),
    "v,x": lambda F: (F.v, F.x, None), "sized": lambda F: (F.x, 2.5, (3,)), "rv": lambda F: (F.srng.gamma(2.0, 1.0), F.x, None),
}
RELS = {"gp": "gamma_poisson_conjugateo", "bb": "beta_binomial_conjugateo", "bnb": "beta_negative_binomial_conjugateo"}


def posterior_of(rel, srng, Y):
    q = var()
    res = list(run(1, q, rel(srng, Y, q)))
    if not res:
        return None
    e = res[0]
    return getattr(e, "evaled_obj", e)


def run_conj(t, r):
    rel = get("aemcmc.conjugates", RELS[t["conj"]])
    for as_et in (False, True):
        F = Forms()
        a, b, size = HYPER[t["hyper"]](F)
        n = at.lscalar("trials")
        s = F.srng
        if t["conj"] == "gp":
            z = s.gamma(a, b, size=size)
            Y = s.poisson(z)
        else:
            z = s.beta(a, b, size=size)
            Y = (s.binomial if t["conj"] == "bb" else s.nbinom)(n, z)
        label = f"{t['conj']}({t['hyper']})"
        post = posterior_of(rel, s, etuplize(Y) if as_et else Y)
        if post is None:
            r.bad(f"{label}: no posterior")
            return
        ab = [at.as_tensor(p) for p in (a, b)]
        f = aesara.function([Y, n] + [v for v, _ in F.ins], [post] + ab, mode=engine.PLAIN, on_unused_input="ignore", no_default_updates=True)
        prior_state = z.owner.inputs[0]
        for k in range(1 if t["conj"] == "gp" else 5):
            for y0 in range(6):
                if t["conj"] == "bb" and y0 > k:
                    continue
                y = np.full((3,) * Y.ndim, y0)
                if y.ndim:
                    y[1] = y0 // 2
                r.states += 1
                c = Level(0)
                with control(c):
                    val, av, bv = f(y, k, *[x for _, x in F.ins])
                r.transitions += 1
                fam = "gamma" if t["conj"] == "gp" else "beta"
                if not isinstance(post.owner.op, RandomVariable) or not c.log or c.log[-1].name != fam:
                    r.bad(f"{label}: the posterior is {post}")
                    return
                d = c.log[-1]
                want = {
                    "gp": lambda: (av + y, 1 / (bv + 1.0)), "bb": lambda: (av + y, bv + k - y), "bnb": lambda: (av + k, bv + y),
                }[t["conj"]]()
                swapped = (av + y, bv + k)
                r.validated += 1
                fits = [all(close(np.broadcast_to(w, d.shape), p) for w, p in zip(ws, d.params)) for ws in (want, swapped)]
                if d.shape != y.shape or np.shape(val) != y.shape:
                    r.bad(f"{label}: the posterior has shape {d.shape}, the variable {y.shape}")
                    return
                if t["conj"] == "bnb" and fits[1] and not fits[0]:
                    r.known.setdefault("beta-nbinom-swapped", "Beta(alpha + y, beta + n) instead of Beta(alpha + n, beta + y)")
                elif not fits[0]:
                    r.bad(f"{label}: y={y.tolist()}, n={k}: posterior {fam}{[p.tolist() for p in d.params]}, exact {[np.asarray(w).tolist() for w in want]}")
                    return
                if post.owner.inputs[0] is prior_state:
                    r.bad(f"{label}: the posterior draws with the prior's generator")
                    return
                r.outcome(f"{label}{y.tolist()}{k}{[np.round(p, 6).tolist() for p in d.params]}"[:300])
    r.sample(relation=label, parameters=[p for p in d.params])


def near_misses(F):
    s, x, n = F.srng, F.x, F.n
    g, b = s.gamma(2.0, 3.0), s.beta(2.0, 3.0)
    N = s.normal(x, 1.0)
    return {
        "poisson(2g)": lambda: s.poisson(2 * g), "poisson(g+1)": lambda: s.poisson(g + 1.0), "poisson(exp)": lambda: s.poisson(at.exp(N)), "poisson(x)": lambda: s.poisson(x),
        "poisson(1/g)": lambda: s.poisson(1 / g), "poisson(b)": lambda: s.poisson(b), "poisson(exponential)": lambda: s.poisson(s.exponential(2.0)),
        "poisson(invgamma)": lambda: s.poisson(s.invgamma(2.0, 3.0)), "poisson(g[None])": lambda: s.poisson(at.shape_padleft(g)), "exponential(g)": lambda: s.exponential(g),
        "binomial(n, 1-b)": lambda: s.binomial(n, 1 - b), "binomial(n, x)": lambda: s.binomial(n, x), "binomial(n, sigmoid)": lambda: s.binomial(n, at.sigmoid(N)),
        "binomial(n, uniform)": lambda: s.binomial(n, s.uniform(0.0, 1.0)), "bernoulli(b)": lambda: s.bernoulli(b), "geometric(b)": lambda: s.geometric(b),
        "binomial(b, x)": lambda: s.binomial(b, x), "nbinom(n, 1-b)": lambda: s.nbinom(n, 1 - b), "nbinom(b, x)": lambda: s.nbinom(b, x),
        "nbinom(g, x)": lambda: s.nbinom(g, x), "nbinom(n, uniform)": lambda: s.nbinom(n, s.uniform(0.0, 1.0)), "normal(g)": lambda: s.normal(g, 1.0),
        "g": lambda: g, "b": lambda: b, "x": lambda: x, "expression": lambda: x + g, "constant": lambda: at.constant(3),
    }


def run_near(t, r):
    for n in near_misses(Forms()):
        for c in CONJ:
            for as_et in (False, True):
                F = Forms()
                Y = near_misses(F)[n]()
                if as_et:
                    if Y.owner is None:
                        continue
                    Y = etuplize(Y)
                r.states += 1
                r.transitions += 1
                try:
                    post = posterior_of(get("aemcmc.conjugates", RELS[c]), F.srng, Y)
                except Exception as e:
                    r.bad(f"{RELS[c]} of {n}: {type(e).__name__}: {str(e)[:200]}")
                    continue
                r.validated += 1
                if post is not None:
                    r.bad(f"{RELS[c]} holds for {n}: {post}")
                r.outcome(f"{n}{c}")

