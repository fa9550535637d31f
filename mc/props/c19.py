"""C19: matchers against a reference matcher over a grammar of model graphs.

Every part of a recognised model (family, link, prior, design matrix,
dispersion, size / product, shrinkage priors, location) has a table of
spellings: "pos" (documented), "eq" (the same model in other words, may be
refused), "neg" (another model, must be refused).  All single edits, and in
the thorough tier all pairs, of the documented model are enumerated, and each
graph is put to the matchers as built, canonicalised, and in intermediate form.
"""
import itertools

import aesara
import aesara.tensor as at
import numpy as np
import scipy.special as sp
from aesara.graph.basic import Constant, ancestors, clone_get_equiv, graph_inputs
from aesara.graph.rewriting.utils import rewrite_graph
from aesara.tensor.random.utils import RandomStream

from mc import engine
from mc.draws import control
from mc.engine import Keyed, close
from mc.models import LINKS, NORMALS, PRODUCTS
from mc.props.lib import get

ASSUMPTIONS = [
    "a graph has the documented form when it reaches it without an algebraic identity (names, operators, sizes, constants, double minus signs); other spellings of the same model may be refused",
    "half-Cauchy locations and scales, the normal location and the sign must be constants: a model whose input happens to have the right value is another model",
    "parts are identified by their generator (random variables) and by their values on generic inputs (the rest)",
]
BOUNDS = {
    "quick": "regressions: all single edits of link (49), prior (27), design matrix (16), dispersion (13), size (6) and family (13) for both families; horseshoe: all single edits of product, both shrinkage priors, location, size; gamma priors and every other family; each as built, canonicalised and in intermediate form, and every other variable of each graph put to every matcher",
    "thorough": "as quick with all pairs of edits",
}

N, P = 3, 2
D = {"X": np.array([[0.3, -1.2], [0.8, 0.5], [-0.4, 0.9]]), "h": 2.5, "hv": np.array([1.5, 0.7, 3.0]), "s": 1.7, "v": np.array([0.4, -0.6]),
     "x": np.array([0.2, -0.5, 0.9]), "pv": np.array([0.9, 1.6]), "X2": np.array([[0.5, 0.2], [0.1, -0.7]])}


class Env:
    """Inputs and generators of one graph."""

    def __init__(self):
        self.srng = RandomStream(5)
        self.ins = {}

    def __getattr__(self, name):
        if name not in D:
            raise AttributeError(name)
        if name not in self.ins:
            self.ins[name] = at.tensor("float64", [False] * np.ndim(D[name]), name=name)
        return self.ins[name]


def link_table():
    t = {k: ("pos" if must else "eq", (lambda f: lambda e, X, b: f(X, b))(f)) for k, (must, f) in LINKS.items()}
    neg = {
        "plus": lambda e, X, b: at.sigmoid(X @ b), "two-minus": lambda e, X, b: at.sigmoid(-(-(X @ b))), "twice": lambda e, X, b: at.sigmoid(-2 * (X @ b)),
        "minus-half": lambda e, X, b: at.sigmoid(-0.5 * (X @ b)), "scaled": lambda e, X, b: at.sigmoid(e.s * (X @ b)),
        "minus-scaled": lambda e, X, b: at.sigmoid(-(e.s * (X @ b))), "vector-scaled": lambda e, X, b: at.sigmoid(np.array([-1.0, -1.0, 1.0]) * (X @ b)),
        "offset": lambda e, X, b: at.sigmoid(-(X @ b) + 1.0), "offset-input": lambda e, X, b: at.sigmoid(-(X @ b + e.s)),
        "offset-vector": lambda e, X, b: at.sigmoid(-(X @ b) + e.x), "complement-minus": lambda e, X, b: 1 - at.sigmoid(-(X @ b)),
        "exp": lambda e, X, b: at.exp(-at.exp(X @ b)), "cloglog": lambda e, X, b: 1 - at.exp(-at.exp(-(X @ b))), "probit": lambda e, X, b: at.erfc(X @ b) / 2,
        "tanh": lambda e, X, b: 0.5 + 0.5 * at.tanh(-(X @ b)), "cube": lambda e, X, b: at.sigmoid(-((X @ b) ** 3)), "abs": lambda e, X, b: at.sigmoid(-at.abs(X @ b)),
        "square-b": lambda e, X, b: at.sigmoid(-(X @ (b**2))), "exp-b": lambda e, X, b: at.sigmoid(-(X @ at.exp(b))), "reversed-b": lambda e, X, b: at.sigmoid(-(X @ b[::-1])),
        "shifted-b": lambda e, X, b: at.sigmoid(-(X @ (b + e.v))), "double-b": lambda e, X, b: at.sigmoid(-(X @ (2 * b))),
        "second-b": lambda e, X, b: at.sigmoid(-(X @ b + X @ e.srng.normal(0, 1, size=2))),
        "other-term": lambda e, X, b: at.sigmoid(-(X @ b) - e.x * b[0]), "squashed": lambda e, X, b: 0.5 * at.sigmoid(-(X @ b)),
        "power": lambda e, X, b: at.sigmoid(-(X @ b)) ** 2, "clipped": lambda e, X, b: at.clip(at.sigmoid(-(X @ b)), 0.4, 0.6),
        "constant": lambda e, X, b: at.sigmoid(-(X @ np.ones(2))) , "input": lambda e, X, b: at.sigmoid(-(X @ e.v)), "sum": lambda e, X, b: at.sigmoid(-((X @ b).sum())),
        "cumsum": lambda e, X, b: at.sigmoid(-at.cumsum(X @ b)), "softmax": lambda e, X, b: at.special.softmax(-(X @ b), axis=0),
        "minus-RV": lambda e, X, b: at.sigmoid(e.srng.normal(-1, 0.1) * (X @ b)),
    }
    t["reversed"] = ("eq", lambda e, X, b: at.sigmoid(-(X @ b))[::-1])
    t.update({"neg-" + k: ("neg", f) for k, f in neg.items()})
    return t


LINK = link_table()
PRIOR = {k: ("pos" if must else "eq", (lambda f: lambda e: f(e.srng, e.X.shape[1], P, "beta"))(f)) for k, (must, f, _) in NORMALS.items()}
PRIOR.update({
    "input-scale": ("pos", lambda e: e.srng.normal(0, e.s, size=P)), "vector-scale": ("pos", lambda e: e.srng.normal(0, e.pv)),
    "rv-scale": ("pos", lambda e: e.srng.normal(0, e.srng.halfnormal(0, 1), size=P)), "unused-rv-scale": ("pos", lambda e: e.srng.normal(0, at.exp(e.srng.normal(0, 1, size=P)))),
    "mean-one": ("neg", lambda e: e.srng.normal(1.0, 1.5, size=P)), "mean-small": ("neg", lambda e: e.srng.normal(1e-3, 1.5, size=P)),
    "mean-input": ("neg", lambda e: e.srng.normal(e.s, 1.5, size=P)), "mean-vector": ("neg", lambda e: e.srng.normal(np.array([0.0, 1.0]), 1.5)),
    "mean-last": ("neg", lambda e: e.srng.normal(np.array([1.0, 0.0]), 1.5)),
    "mean-vector-input": ("neg", lambda e: e.srng.normal(e.v, 1.5)), "mean-rv": ("neg", lambda e: e.srng.normal(e.srng.normal(0, 1), 1.5, size=P)),
    "laplace": ("neg", lambda e: e.srng.laplace(0, 1, size=P)), "t": ("neg", lambda e: e.srng.t(4.0, 0.0, 1.0, size=P)), "cauchy": ("neg", lambda e: e.srng.cauchy(0, 1, size=P)),
    "logistic": ("neg", lambda e: e.srng.logistic(0, 1, size=P)), "halfnormal": ("neg", lambda e: e.srng.halfnormal(0, 1, size=P)),
    "uniform": ("neg", lambda e: e.srng.uniform(0, 1, size=P)), "lognormal": ("neg", lambda e: e.srng.lognormal(0, 1, size=P)),
    "mvnormal": ("neg", lambda e: e.srng.multivariate_normal(np.zeros(P), np.eye(P))), "input": ("neg", lambda e: e.v), "constant": ("neg", lambda e: at.as_tensor(np.array([0.5, 0.2]))),
    "function": ("neg", lambda e: at.exp(e.srng.normal(0, 1, size=P))), "shifted": ("neg", lambda e: e.srng.normal(0, 1, size=P) + 1.0),
    "stacked": ("neg", lambda e: at.stack([e.srng.normal(0, 1), e.srng.normal(0, 2)])),
})
DESIGN = {
    "input": ("pos", lambda e, b: e.X), "constant": ("pos", lambda e, b: at.as_tensor(D["X"])), "shared": ("pos", lambda e, b: aesara.shared(D["X"])),
    "scaled": ("pos", lambda e, b: 2.0 * e.X), "exp": ("pos", lambda e, b: at.exp(e.X)), "rv": ("pos", lambda e, b: e.srng.normal(0, 1, size=(N, P))),
    "stacked": ("pos", lambda e, b: at.stack([at.ones_like(e.x), e.x], axis=1)), "column": ("pos", lambda e, b: e.x[:, None]),
    "row": ("pos", lambda e, b: e.v[None, :]), "transposed": ("pos", lambda e, b: e.X.T.T), "reordered": ("pos", lambda e, b: e.X[::-1]), "product": ("eq", lambda e, b: e.X @ e.X2),
    "int": ("eq", lambda e, b: at.as_tensor(np.array([[1, 0], [2, 1], [0, 3]]))),
    "vector": ("neg", lambda e, b: e.v), "of-b": ("neg", lambda e, b: e.X * b[None]), "of-exp-b": ("neg", lambda e, b: at.exp(e.X) + b.sum()),
}
DISPERSION = {
    "int": ("pos", lambda e, b: at.as_tensor(3)), "float": ("pos", lambda e, b: at.as_tensor(2.5)), "input": ("pos", lambda e, b: e.h), "vector": ("pos", lambda e, b: e.hv),
    "constant-vector": ("pos", lambda e, b: at.as_tensor(D["hv"])), "shared": ("pos", lambda e, b: aesara.shared(2.5)), "gamma": ("pos", lambda e, b: e.srng.gamma(2.0, 1.5)),
    "vector-gamma": ("pos", lambda e, b: e.srng.gamma(2.0, 1.5, size=N)), "halfnormal": ("pos", lambda e, b: e.srng.halfnormal(0, 1)),
    "function": ("pos", lambda e, b: at.exp(e.s) + 1.0),
    "matrix": ("neg", lambda e, b: at.as_tensor(np.ones((2, N)))), "of-b": ("neg", lambda e, b: at.exp(b[0])), "rv-of-b": ("neg", lambda e, b: e.srng.gamma(at.exp(b.sum()), 1.0)),
}
SIZE = {
    "none": ("pos", None), "n": ("pos", lambda e: N), "tuple": ("pos", lambda e: (N,)), "symbolic": ("pos", lambda e: e.X.shape[0]),
    "more": ("neg", lambda e: (4, N)), "lead": ("neg", lambda e: (1, N)),
}
FAMILY = {
    "nbinom": lambda e, h, p, z: e.srng.nbinom(h, p, size=z), "bernoulli": lambda e, h, p, z: e.srng.bernoulli(p, size=z),
    "negative_binomial": lambda e, h, p, z: e.srng.negative_binomial(h, p, size=z),
    "binomial": lambda e, h, p, z: e.srng.binomial(3, p, size=z), "binomial-1": lambda e, h, p, z: e.srng.binomial(1, p, size=z),
    "poisson": lambda e, h, p, z: e.srng.poisson(p, size=z), "geometric": lambda e, h, p, z: e.srng.geometric(p, size=z), "normal": lambda e, h, p, z: e.srng.normal(p, 1.0, size=z),
    "beta": lambda e, h, p, z: e.srng.beta(h, p, size=z), "betabinom": lambda e, h, p, z: e.srng.betabinom(3, h, p, size=z), "gamma": lambda e, h, p, z: e.srng.gamma(h, p, size=z),
    "exponential": lambda e, h, p, z: e.srng.exponential(p, size=z), "swapped": lambda e, h, p, z: e.srng.normal(h, p, size=z),
}
REG_DEFAULT = dict(link="neg", prior="float", design="input", h="input", size="none")
REG_TABLES = dict(link=LINK, prior=PRIOR, design=DESIGN, h=DISPERSION, size=SIZE)

PROD = {k: ("pos" if must else "eq", (lambda f: lambda e, lam, tau: f(lam, tau))(f)) for k, (must, f) in PRODUCTS.items()}
PROD.update({
    "minus-both": ("eq", lambda e, lam, tau: (-lam) * (-tau)), "reciprocals": ("eq", lambda e, lam, tau: 1 / ((1 / lam) * (1 / tau))),
    "sum": ("neg", lambda e, lam, tau: lam + tau), "ratio": ("neg", lambda e, lam, tau: lam / tau), "twice": ("neg", lambda e, lam, tau: 2 * lam * tau),
    "plus": ("neg", lambda e, lam, tau: lam * tau + 1), "square": ("neg", lambda e, lam, tau: lam * tau**2), "squares": ("neg", lambda e, lam, tau: lam**2 * tau**2),
    "lam": ("neg", lambda e, lam, tau: lam), "tau": ("neg", lambda e, lam, tau: tau * np.ones(P)), "tau-tau": ("neg", lambda e, lam, tau: tau * tau * np.ones(P)),
    "lam-lam": ("neg", lambda e, lam, tau: lam * lam), "lam-reversed": ("neg", lambda e, lam, tau: lam[::-1] * tau), "scaled": ("neg", lambda e, lam, tau: lam * tau * e.s),
    "scaled-vector": ("neg", lambda e, lam, tau: lam * tau * e.pv), "other-tau": ("neg", lambda e, lam, tau: lam * tau * e.srng.halfcauchy(0, 1)), "sqrt": ("neg", lambda e, lam, tau: at.sqrt(lam * tau)),
    "lam-input": ("neg", lambda e, lam, tau: lam * e.s), "tau-input": ("neg", lambda e, lam, tau: tau * e.pv), "exp": ("neg", lambda e, lam, tau: at.exp(lam) * tau),
    "maximum": ("neg", lambda e, lam, tau: at.maximum(lam, tau)), "two-lams": ("neg", lambda e, lam, tau: lam * e.srng.halfcauchy(0, 1, size=P)), "constant": ("neg", lambda e, lam, tau: at.as_tensor(np.array([1.0, 2.0]))),
}
)


def shrink_table(z):
    return {
        "int": ("pos", lambda e: e.srng.halfcauchy(0, 1, size=z)), "float": ("pos", lambda e: e.srng.halfcauchy(0.0, 1.0, size=z)),
        "defaults": ("pos", lambda e: e.srng.halfcauchy(size=z)), "keywords": ("pos", lambda e: e.srng.halfcauchy(loc=0, scale=1.0, size=z)),
        "scale-2": ("neg", lambda e: e.srng.halfcauchy(0, 2.0, size=z)), "scale-input": ("neg", lambda e: e.srng.halfcauchy(0, e.s, size=z)),
        "loc-1": ("neg", lambda e: e.srng.halfcauchy(1.0, 1.0, size=z)), "loc-input": ("neg", lambda e: e.srng.halfcauchy(e.s, 1.0, size=z)),
        "scale-near": ("neg", lambda e: e.srng.halfcauchy(0, 1.001, size=z)),
        "scale-rv": ("neg", lambda e: e.srng.halfcauchy(0, e.srng.gamma(1.0, 1.0), size=z)), "halfnormal": ("neg", lambda e: e.srng.halfnormal(0, 1, size=z)),
        "cauchy": ("neg", lambda e: e.srng.cauchy(0, 1, size=z)), "exponential": ("neg", lambda e: e.srng.exponential(1.0, size=z)), "gamma": ("neg", lambda e: e.srng.gamma(1.0, 1.0, size=z)),
        "normal": ("neg", lambda e: e.srng.normal(0, 1, size=z)), "function": ("neg", lambda e: at.exp(e.srng.normal(0, 1, size=z))), "sqrt": ("neg", lambda e: at.sqrt(e.srng.halfcauchy(0, 1, size=z))),
        "doubled": ("neg", lambda e: 2.0 * e.srng.halfcauchy(0, 1, size=z)),
    }


LAM = shrink_table(P)
LAM.update({
    "symbolic-size": ("pos", lambda e: e.srng.halfcauchy(0, 1, size=e.X.shape[1])), "vector-scale": ("pos", lambda e: e.srng.halfcauchy(0, np.ones(P))),
    "vector-loc": ("pos", lambda e: e.srng.halfcauchy(np.zeros(P), 1.0)), "wrong-vector-scale": ("neg", lambda e: e.srng.halfcauchy(0, np.array([1.0, 2.0]))),
    "wrong-vector-loc": ("neg", lambda e: e.srng.halfcauchy(np.array([0.0, 0.5]), 1.0)), "input": ("neg", lambda e: e.pv), "constant": ("neg", lambda e: at.as_tensor(np.array([1.0, 2.0]))),
    "matrix": ("neg", lambda e: e.srng.halfcauchy(0, 1, size=(3, P))), "scalar": ("neg", lambda e: e.srng.halfcauchy(0, 1)), "single": ("neg", lambda e: e.srng.halfcauchy(0, 1, size=1)),
})
TAU = shrink_table(None)
TAU.update({
    "one": ("pos", lambda e: e.srng.halfcauchy(0, 1, size=1)), "one-tuple": ("pos", lambda e: e.srng.halfcauchy(0.0, 1, size=(1,))), "empty-size": ("pos", lambda e: e.srng.halfcauchy(0, 1, size=())),
    "vector": ("neg", lambda e: e.srng.halfcauchy(0, 1, size=P)), "input": ("neg", lambda e: e.s), "constant": ("neg", lambda e: at.as_tensor(1.3)),
})
LOC = {
    "int": ("pos", lambda e: 0), "float": ("pos", lambda e: 0.0), "zeros": ("pos", lambda e: np.zeros(P)), "at-zeros": ("pos", lambda e: at.zeros(P)), "zeros-like": ("eq", lambda e: at.zeros_like(e.pv)),
    "one": ("neg", lambda e: 1.0), "input": ("neg", lambda e: e.s), "vector": ("neg", lambda e: e.v), "constant-vector": ("neg", lambda e: np.array([0.0, 0.3])), "rv": ("neg", lambda e: e.srng.normal(0, 1)),
}
BSIZE = {
    "none": ("pos", None), "p": ("pos", lambda e: P), "tuple": ("pos", lambda e: (P,)), "symbolic": ("pos", lambda e: e.X.shape[1]), "more": ("neg", lambda e: (3, P)), "lead": ("neg", lambda e: (1, P)),
}
BFAM = {
    "normal": lambda e, m, s, z: e.srng.normal(m, s, size=z), "laplace": lambda e, m, s, z: e.srng.laplace(m, s, size=z), "t": lambda e, m, s, z: e.srng.t(3.0, m, s, size=z),
    "cauchy": lambda e, m, s, z: e.srng.cauchy(m, s, size=z), "lognormal": lambda e, m, s, z: e.srng.lognormal(m, s, size=z), "halfnormal": lambda e, m, s, z: e.srng.halfnormal(m, s, size=z),
    "gumbel": lambda e, m, s, z: e.srng.gumbel(m, s, size=z), "logistic": lambda e, m, s, z: e.srng.logistic(m, s, size=z), "uniform": lambda e, m, s, z: e.srng.uniform(m, s, size=z),
    "shifted": lambda e, m, s, z: e.srng.normal(m, s, size=z) + 1.0, "halfcauchy": lambda e, m, s, z: e.srng.halfcauchy(m, s, size=z),
}
HS_DEFAULT = dict(prod="lam*tau", lam="int", tau="int", loc="int", size="p")
HS_TABLES = dict(prod=PROD, lam=LAM, tau=TAU, loc=LOC, size=BSIZE)


def edits(default, tables, order):
    """The default and every choice that differs from it in at most `order` parts."""
    seen = set()
    keys = list(tables)
    for n in range(order + 1):
        for ks in itertools.combinations(keys, n):
            for vs in itertools.product(*[tables[k] for k in ks]):
                c = dict(default, **dict(zip(ks, vs)))
                t = tuple(sorted(c.items()))
                if t not in seen:
                    seen.add(t)
                    yield c


def tasks(tier):
    order = 2 if tier == "thorough" else 1
    out = []
    for fam in ("bernoulli", "nbinom"):
        for c in edits(REG_DEFAULT, REG_TABLES, order):
            if fam == "bernoulli" and c["h"] != REG_DEFAULT["h"]:
                continue
            out.append({"kind": "reg", "fam": fam, "c": c})
    for fam in FAMILY:
        for size in SIZE if order == 2 else ("none",):
            for link in LINK if order == 2 else ("neg",):
                out.append({"kind": "reg", "fam": fam, "c": dict(REG_DEFAULT, link=link, size=size)})
    for c in edits(HS_DEFAULT, HS_TABLES, order):
        out.append({"kind": "hs", "fam": "normal", "c": c})
    for fam in BFAM:
        out.append({"kind": "hs", "fam": fam, "c": dict(HS_DEFAULT)})
    out.append({"kind": "small"})
    out.append({"kind": "gamma", "order": order})
    # many graphs to one task: they are small
    k = 12
    for i in range(0, len(out), k):
        yield {"part": out[i:i + k], "cost": 1}


def tag_of(c, tables):
    tags = [tables[k][v][0] for k, v in c.items() if k in tables]
    return "neg" if "neg" in tags else "eq" if "eq" in tags else "pos"


def odd(t):
    """Combinations of edits whose arrays do not fit together, or which undo
    each other."""
    c = t["c"]
    if t["kind"] == "reg":
        if c["design"] == "column" and (c["prior"] != REG_DEFAULT["prior"] or c["link"] not in ("neg", "matmul", "dot-function")):
            return True
        if c["design"] in ("row", "vector") and (c["size"] != "none" or c["h"] != REG_DEFAULT["h"]):
            return True
        return c["h"] == "matrix" and c["size"] != "none"
    if c["lam"] in ("scalar", "single") and (c["tau"] not in ("int", "one") or c["prod"] != "lam*tau" or c["size"] == "none"):
        return True  # the roles may be swapped, see run_small
    return c["prod"] in ("padded", "padded-first") and c["tau"] not in shrink_table(None)


def build(t):
    """(environment, graph, tag, parts by matcher)"""
    e = Env()
    c = t["c"]
    if t["kind"] == "reg":
        beta = PRIOR[c["prior"]][1](e)
        if c["design"] == "column" and c["prior"] == "float":
            beta = e.srng.normal(0, 1.5, size=1)
        X = DESIGN[c["design"]][1](e, beta)
        h = DISPERSION[c["h"]][1](e, beta)
        p = LINK[c["link"]][1](e, X, beta)
        z = SIZE[c["size"]][1]
        y = FAMILY[t["fam"]](e, h, p, None if z is None else z(e))
        fam = t["fam"]
        tag = tag_of({k: v for k, v in c.items() if k != "h" or fam in ("nbinom", "negative_binomial")}, REG_TABLES)
        if fam not in ("bernoulli", "nbinom", "negative_binomial"):
            tag = "neg"
        elif fam == "negative_binomial" and tag == "pos":
            tag = "eq"
        m = "bern_sigmoid_dot_match" if fam == "bernoulli" else "nbinom_sigmoid_dot_match"
        parts = (X, beta) if fam == "bernoulli" else (X, h, beta)
        return e, y, tag, m, parts, p
    lam, tau = LAM[c["lam"]][1](e), TAU[c["tau"]][1](e)
    z = BSIZE[c["size"]][1]
    s = PROD[c["prod"]][1](e, lam, tau)
    y = BFAM[t["fam"]](e, LOC[c["loc"]][1](e), s, None if z is None else z(e))
    tag = tag_of(c, HS_TABLES) if t["fam"] == "normal" else "neg"
    return e, y, tag, "horseshoe_match", (lam, tau), s


MATCHERS = ("horseshoe_match", "gamma_match", "bern_sigmoid_dot_match", "nbinom_sigmoid_dot_match")


def forms(y):
    """The graph as built, canonicalised and in intermediate form."""
    from aemcmc.rewriting import construct_ir_fgraph

    yield "as built", y
    copy = clone_get_equiv(list(graph_inputs([y])), [y], copy_inputs=False, copy_orphans=False)[y]
    yield "canonicalised", rewrite_graph(copy, clone=False)
    if y.owner is not None and hasattr(y.owner.op, "rng_fn"):
        fg, _, _, new_to_old = construct_ir_fgraph({y: y.clone()})
        for new, old in new_to_old.items():
            if old is y:
                yield "intermediate", new


def generator(v):
    """The shared generator a random variable draws from."""
    while v.owner is not None and not hasattr(v.owner.op, "rng_fn") and len([i for i in v.owner.inputs if not isinstance(i, Constant)]) == 1:
        v = [i for i in v.owner.inputs if not isinstance(i, Constant)][0]
    return v.owner.inputs[0] if v.owner is not None and hasattr(v.owner.op, "rng_fn") else None


def values(e, outs):
    f = aesara.function(list(e.ins.values()), outs, mode=engine.PLAIN, on_unused_input="ignore")
    with control(Keyed()):
        return [np.asarray(o) for o in f(*[D[n] for n in e.ins])]


def same_parts(e, name, got, want, whole, r, label, tag):
    if len(got) != len(want):
        r.bad(f"{label}: {len(got)} parts, expected {len(want)}")
        return
    for i, (g, w) in enumerate(zip(got, want)):
        gw = generator(w)
        if gw is not None and w.owner.op.__class__.__name__ != "Elemwise" and generator(g) is not gw and hasattr(w.owner.op, "rng_fn"):
            r.bad(f"{label}: part {i} is {g}, expected {w}")
            return
    vals = values(e, list(got) + list(want) + [whole])
    k = len(got)
    for i in range(k):
        r.validated += 1
        if tag == "eq" and i == 0 and "sigmoid" in name:
            continue  # another matrix may stand for the same link
        a, b = vals[i], vals[k + i]
        if not close(np.ravel(a), np.ravel(b)) or (a.ndim != b.ndim and name != "horseshoe_match"):
            r.bad(f"{label}: part {i} has value {a.tolist()}, the model's {b.tolist()}")
            return
    p = vals[-1]
    if "sigmoid" in name:
        r.validated += 1
        if not close(p, sp.expit(-(vals[0] @ vals[k - 1]))):
            r.bad(f"{label}: the parts give {sp.expit(-(vals[0] @ vals[k - 1])).tolist()}, the model has {p.tolist()}")
    if name == "horseshoe_match":
        r.validated += 1
        if not close(p, vals[0] * np.ravel(vals[1])[0]):
            r.bad(f"{label}: the shrinkage parameters give {(vals[0] * vals[1]).tolist()}, the model has {p.tolist()}")


def call(fn, g):
    """(parts, None) or (None, the exception)"""
    try:
        return fn(g), None
    except ValueError as x:
        return None, x
    except Exception as x:
        return None, x


def refuses(fn, g, r, label):
    r.transitions += 1
    r.validated += 1
    got, x = call(fn, g)
    if x is None:
        r.bad(f"{label}: returned {got}")
    elif not isinstance(x, ValueError):
        r.bad(f"{label}: {type(x).__name__}: {str(x)[:200]}")


def run_task(t, r):
    for u in t["part"]:
        if u["kind"] == "gamma":
            run_gamma(u, r)
        elif u["kind"] == "small":
            run_small(r)
        else:
            run_graph(u, r)


def family(v):
    return v.owner.op.name if v.owner is not None and hasattr(v.owner.op, "rng_fn") else None


TARGET = {"horseshoe_match": ("normal",), "gamma_match": ("gamma",), "bern_sigmoid_dot_match": ("bernoulli",), "nbinom_sigmoid_dot_match": ("nbinom", "negative_binomial")}


def run_graph(t, r):
    label0 = f"{t['fam']} {({k: v for k, v in t['c'].items() if v != (REG_DEFAULT if t['kind'] == 'reg' else HS_DEFAULT)[k]})}"
    if odd(t):
        return
    try:
        e, y, tag, name, parts, whole = build(t)
    except (ValueError, TypeError, AssertionError, IndexError):
        return  # no graph at all
    r.states += 1
    for fname, g in forms(y):
        for m in MATCHERS:
            fn = get("aemcmc.gibbs", m)
            label = f"{m} of {label0}, {fname}"
            if m != name:
                if m == "gamma_match" and family(g) == "gamma":
                    continue
                refuses(fn, g, r, label)
                continue
            if tag == "neg":
                refuses(fn, g, r, label)
                continue
            r.transitions += 1
            r.validated += 1
            got, x = call(fn, g)
            r.outcome(f"{label}{x is None}")
            if x is not None and not isinstance(x, ValueError):
                r.bad(f"{label}: {type(x).__name__}: {str(x)[:200]}")
            elif x is not None:
                if tag == "pos" and (fname == "intermediate" or fname == "canonicalised" and m != "horseshoe_match"):
                    r.bad(f"{label}: refused a documented model: {x}")
            else:
                same_parts(e, m, got, parts, whole, r, label, tag)
        # every other variable of the graph
        for v in ancestors([g]):
            if v is g or not hasattr(v.type, "ndim"):
                continue
            for m in MATCHERS:
                if family(v) in TARGET[m] and (m == "gamma_match" or (name == "nbinom_sigmoid_dot_match") == (m == name)):
                    continue
                refuses(get("aemcmc.gibbs", m), v, r, f"{m} of {v} in {label0}, {fname}")
    r.sample(model=label0, tag=tag)


def run_small(r):
    """One coefficient, one observation: shapes that broadcast."""
    fn = get("aemcmc.gibbs", "horseshoe_match")
    for tn, zt in (("scalar", None), ("one", 1)):
        for order in (0, 1):
            for bz in (1, (1,), None):
                e = Env()
                tau, lam = e.srng.halfcauchy(0, 1, size=zt), e.srng.halfcauchy(0, 1, size=1)
                s = lam * tau if order else tau * lam
                y = e.srng.normal(0, s, size=bz)
                r.states += 1
                for fname, g in forms(y):
                    got, x = call(fn, g)
                    r.transitions += 1
                    r.validated += 1
                    label = f"horseshoe_match of one coefficient, tau {tn}, order {order}, size {bz}, {fname}"
                    if x is not None:
                        if fname == "intermediate" or not isinstance(x, ValueError):
                            r.bad(f"{label}: {type(x).__name__}: {x}")
                        continue
                    gens = [generator(v) for v in got]
                    if set(map(id, gens)) != {id(generator(tau)), id(generator(lam))} or (zt is None and gens[0] is not generator(lam)):
                        r.bad(f"{label}: returned {got}")
    # the same parameter twice, and both scalars
    for z in (None, 1, P):
        for build_s in (lambda a, b: a * a, lambda a, b: a**2, lambda a, b: a * a * b):
            e = Env()
            a, b = e.srng.halfcauchy(0, 1, size=z), e.srng.halfcauchy(0, 1)
            y = e.srng.normal(0, build_s(a, b), size=P if z is None else z)
            r.states += 1
            for fname, g in forms(y):
                refuses(fn, g, r, f"horseshoe_match of a squared parameter of size {z}, {fname}")
    for z in (None, P, 1):
        e = Env()
        y = e.srng.normal(0, e.srng.halfcauchy(0, 1) * e.srng.halfcauchy(0, 1), size=z)
        r.states += 1
        for fname, g in forms(y):
            refuses(fn, g, r, f"horseshoe_match of two scalar parameters and {z} coefficients, {fname}")
    # things that are no models
    e = Env()
    things = [at.scalar(), at.vector(), at.matrix(), at.as_tensor(1.0), at.as_tensor(D["X"]), at.as_tensor(0), aesara.shared(1.0), aesara.shared(D["X"]), e.X + 1.0,
              at.lscalar(), e.X.shape, e.X @ e.v, at.sigmoid(-(e.X @ e.v)), at.mul(-1.0, e.X @ e.v), at.exp(e.s), e.X[0], at.vector().sum(), at.switch(e.s > 0, e.v, 1.0)]
    for fam in ("normal", "uniform", "gumbel", "halfnormal", "laplace", "logistic", "cauchy", "halfcauchy", "beta", "invgamma", "lognormal", "wald"):
        for size in (None, 2, (3, 2)):
            f = getattr(e.srng, fam, None)
            if f is not None:
                things.append(f(1.5, 2.5, size=size))
    for fam in ("exponential", "poisson", "geometric", "bernoulli", "chisquare", "rayleigh", "pareto"):
        f = getattr(e.srng, fam, None)
        for size in (None, 2, (3, 2)):
            try:
                things.append(f(0.5, size=size))
            except Exception:
                pass
    things += [e.srng.binomial(3, 0.5), e.srng.nbinom(3, 0.5), e.srng.nbinom(e.h, at.sigmoid(e.x)), e.srng.categorical(np.array([0.2, 0.8])), e.srng.multivariate_normal(np.zeros(2), np.eye(2)),
               e.srng.dirichlet(np.ones(2)), e.srng.t(3.0, 0.0, 1.0), e.srng.integers(0, 3), e.srng.multinomial(3, np.array([0.2, 0.8]))]
    for v in things:
        r.states += 1
        for fname, g in list(forms(v)) if v.owner is not None else [("as built", v)]:
            for m in MATCHERS:
                refuses(get("aemcmc.gibbs", m), g, r, f"{m} of {v} {v.type}, {fname}")


def run_gamma(t, r):
    fn = get("aemcmc.gibbs", "gamma_match")
    par = {
        "int": lambda e: 2, "float": lambda e: 1.7, "input": lambda e: e.s, "vector": lambda e: e.pv, "constant-vector": lambda e: D["pv"], "shared": lambda e: aesara.shared(1.3),
        "rv": lambda e: e.srng.gamma(2.0, 3.0), "function": lambda e: at.exp(e.s) + 1.0, "other": lambda e: e.h, "one": lambda e: 1.0, "reciprocal": lambda e: 1 / e.h, "matrix": lambda e: at.exp(e.X2),
        "vector-rv": lambda e: e.srng.halfnormal(0, 1, size=2),
    }
    sizes = {"none": None, "p": P, "tuple": (3, P)}
    for (an, a), (bn, b), (zn, z) in itertools.product(par.items(), par.items(), sizes.items()):
        e = Env()
        av, bv = a(e), b(e)
        try:
            y = e.srng.gamma(av, bv, size=z)
        except Exception:
            continue
        if z is not None and y.type.ndim != len(np.atleast_1d(z)):
            continue
        if t["order"] == 1 and "float" not in (an, bn) and "input" not in (an, bn):
            continue
        r.states += 1
        for fname, g in forms(y):
            label = f"gamma_match of gamma({an}, {bn}, size={zn}), {fname}"
            got, x = call(fn, g)
            r.transitions += 1
            r.validated += 1
            if x is not None:
                r.bad(f"{label}: {type(x).__name__}: {x}")
                continue
            ga, gb, wa, wb = values(e, [at.as_tensor(v) for v in got] + [at.as_tensor(av), at.reciprocal(at.as_tensor(bv))])
            if not close(ga, wa) or not close(gb, wb):
                r.bad(f"{label}: {ga.tolist()}, {gb.tolist()}, the model has shape {wa.tolist()} and scale {wb.tolist()}")
            for i, w in enumerate((av, bv)):
                if i == 0 and hasattr(w, "owner") and generator(w) is not None and family(w) and generator(got[0]) is not generator(w):
                    r.bad(f"{label}: the shape is {got[0]}")
            r.outcome(f"{label}{ga.tolist()}{gb.tolist()}")
            for m in MATCHERS:
                if m != "gamma_match":
                    refuses(get("aemcmc.gibbs", m), g, r, f"{m} of gamma({an}, {bn}), {fname}")
