"""Model programs: one Python function, two backends.

`program(B)` builds the Aesara graph when B is a `GraphB` and evaluates shapes
or the joint log density in NumPy when B is a `NumB`.  The NumPy side is the
reference model: it knows nothing of AeMCMC.
"""
from collections import OrderedDict

import aesara
import aesara.tensor as at
import numpy as np
import scipy.special as sp
import scipy.stats as st
from aesara.tensor.random.utils import RandomStream

# family -> (number of params as passed by the user, support)
FAMILIES = {
    "normal": (2, "real"), "halfnormal": (2, "lowpos"), "halfcauchy": (2, "lowpos"),
    "gamma": (2, "pos"), "beta": (2, "unit"), "exponential": (1, "pos"),
    "invgamma": (2, "pos"), "uniform": (2, "interval"), "laplace": (2, "real"),
    "cauchy": (2, "real"), "logistic": (2, "real"), "gumbel": (2, "real"),
    "t": (3, "real"), "lognormal": (2, "pos"),
    "poisson": (1, "count"), "binomial": (2, "count"), "nbinom": (2, "count"),
    "negative_binomial": (2, "count"), "bernoulli": (1, "binary"), "geometric": (1, "count1"),
    "vonmises": (2, "circle"), "triangular": (3, "interval"), "weibull": (1, "pos"), "chisquare": (1, "pos"), "wald": (2, "pos"),
    "dirichlet": (1, "simplex"), "multivariate_normal": (2, "real"), "categorical": (1, "category"), "betabinom": (3, "count"),
}
VECTORS = {"dirichlet": 0, "multivariate_normal": 0}  # families of vectors -> the parameter with their shape


def logpdf(fam, x, *p):
    """Log densities, user-level parameterisation of `RandomStream`."""
    if fam == "normal":
        return st.norm.logpdf(x, p[0], p[1])
    if fam == "halfnormal":
        return st.halfnorm.logpdf(x, p[0], p[1])
    if fam == "halfcauchy":
        return st.halfcauchy.logpdf(x, p[0], p[1])
    if fam == "gamma":  # shape, rate
        return st.gamma.logpdf(x, p[0], scale=1.0 / np.asarray(p[1], float))
    if fam == "beta":
        return st.beta.logpdf(x, p[0], p[1])
    if fam == "exponential":  # scale
        return st.expon.logpdf(x, scale=p[0])
    if fam == "invgamma":
        return st.invgamma.logpdf(x, p[0], scale=p[1])
    if fam == "uniform":
        return st.uniform.logpdf(x, p[0], np.asarray(p[1]) - p[0])
    if fam == "laplace":
        return st.laplace.logpdf(x, p[0], p[1])
    if fam == "cauchy":
        return st.cauchy.logpdf(x, p[0], p[1])
    if fam == "logistic":
        return st.logistic.logpdf(x, p[0], p[1])
    if fam == "gumbel":
        return st.gumbel_r.logpdf(x, p[0], p[1])
    if fam == "t":
        return st.t.logpdf(x, p[0], p[1], p[2])
    if fam == "lognormal":
        return st.lognorm.logpdf(x, p[1], scale=np.exp(p[0]))
    if fam == "poisson":
        return st.poisson.logpmf(x, p[0])
    if fam == "binomial":
        return st.binom.logpmf(x, p[0], p[1])
    if fam in ("nbinom", "negative_binomial"):
        return st.nbinom.logpmf(x, p[0], p[1])
    if fam == "bernoulli":
        return st.bernoulli.logpmf(x, p[0])
    if fam == "geometric":
        return st.geom.logpmf(x, p[0])
    if fam == "vonmises":
        return st.vonmises.logpdf(x, p[1], loc=p[0])
    if fam == "triangular":
        a, c, b = (np.asarray(q, float) for q in p)
        return st.triang.logpdf(x, (c - a) / (b - a), loc=a, scale=b - a)
    if fam == "weibull":
        return st.weibull_min.logpdf(x, p[0])
    if fam == "chisquare":
        return st.chi2.logpdf(x, p[0])
    if fam == "wald":
        return st.invgauss.logpdf(x, np.asarray(p[0], float) / p[1], scale=p[1])
    if fam == "betabinom":
        return st.betabinom.logpmf(x, p[0], p[1], p[2])
    if fam == "categorical":
        q = np.asarray(p[0], float)
        return np.log(np.take_along_axis(np.broadcast_to(q, np.shape(x) + q.shape[-1:]), np.asarray(x, int)[..., None], -1)[..., 0])
    if fam == "dirichlet":
        a, x = np.asarray(p[0], float), np.asarray(x, float)
        inside = np.all(x >= 0, -1) & np.isclose(x.sum(-1), 1)
        return np.where(inside, sp.gammaln(a.sum(-1)) - sp.gammaln(a).sum(-1) + sp.xlogy(a - 1, x).sum(-1), -np.inf)
    if fam == "multivariate_normal":
        m, C = np.asarray(p[0], float), np.asarray(p[1], float)
        d = np.asarray(x, float) - m
        q = np.einsum("...i,...i", d, np.linalg.solve(C, d[..., None])[..., 0])
        return -0.5 * (q + np.linalg.slogdet(C)[1] + d.shape[-1] * np.log(2 * np.pi))
    raise KeyError(fam)


REAL = [-0.7, 0.4, 1.1, -0.2, 0.65, -1.3, 0.15]
POS = [0.8, 1.7, 0.45, 2.2, 1.25, 0.6, 1.45]
UNIT = [0.3, 0.62, 0.15, 0.8, 0.45, 0.71, 0.25]
COUNT = [2, 0, 4, 1, 3, 0, 1]
BIN = [1, 0, 0, 1, 1, 0, 1]


def pattern(support, shape, k, params=(), far=0):
    """Value patterns; far=1 (2) stretches (shrinks) the scale of the values."""
    if support == "simplex":
        v = pattern("pos", shape, k) ** (1, 3, 0.2)[far]
        return v / v.sum(-1, keepdims=True)
    if far and support in ("real", "pos", "lowpos", "unit", "interval"):
        c = {"real": (4.0, 0.1), "pos": (40.0, 0.02), "lowpos": (40.0, 0.02)}.get(support)
        if c:
            v = pattern(support, shape, k, params)
            base = np.broadcast_to(np.asarray(params[0], float), shape) if support == "lowpos" else 0.0
            return base + (v - base) * c[far - 1]
        u = pattern("unit", shape, k) * 0.03
        u = u if far == 2 else 1 - u
        return u if support == "unit" else np.asarray(params[0]) + (np.asarray(params[1]) - np.asarray(params[0])) * u
    n = int(np.prod(shape)) if shape else 1
    idx = (np.arange(n) + 2 * k) % 7
    # tie-breaker keeps long vectors' components distinct
    eps = 0.013 * (np.arange(n) // 7) + 0.007 * k
    if support in ("real", "circle"):
        v = np.array(REAL)[idx] + eps
    elif support in ("pos", "lowpos"):
        v = np.array(POS)[idx] + eps
        if support == "lowpos":
            v = v + np.broadcast_to(np.asarray(params[0], float), shape).ravel()
    elif support == "unit":
        v = np.array(UNIT)[idx] + 0.1 * eps
    elif support == "interval":
        a = np.broadcast_to(np.asarray(params[0], float), shape).ravel()
        b = np.broadcast_to(np.asarray(params[1], float), shape).ravel()
        v = a + (b - a) * (np.array(UNIT)[idx] + 0.1 * eps)
    elif support in ("count", "count1"):
        v = np.array(COUNT)[idx] + (1 if support == "count1" else 0)
        v = v.astype(float)
    elif support == "category":
        v = np.array(COUNT)[idx] % 3.0
    elif support == "binary":
        v = np.array(BIN)[idx].astype(float)
    return v.reshape(shape)


DATA_DTYPE = None  # of inputs, constants and shared data; default: floatX


def floatx(val):
    val = np.asarray(val)
    return val.astype(DATA_DTYPE or aesara.config.floatX) if val.dtype == np.float64 else val


class GraphB:
    """Aesara backend."""

    num = False

    def __init__(self, seed=0, srng=None):
        self.srng = srng or RandomStream(seed)
        self.inputs = OrderedDict()
        self.rvs = OrderedDict()
        self.obs = OrderedDict()
        self.vv = OrderedDict()

    def inp(self, name, val, dtype="float64"):
        val = np.asarray(val)
        if name in self.inputs:
            return self.inputs[name]
        dtype = (DATA_DTYPE or aesara.config.floatX) if dtype == "float64" else dtype
        v = at.tensor(dtype, [False] * val.ndim, name=name)
        self.inputs[name] = v
        return v

    def shared(self, name, val):
        """A shared variable: data held by the model itself."""
        return aesara.shared(floatx(val), name=name)

    def mul(self, *xs):
        return at.mul(*xs)

    def const(self, val):
        return at.as_tensor(floatx(val))

    def ncols(self, X):
        return X.shape[1]

    def nrows(self, X):
        return X.shape[0]

    def _gen(self, fam, params, size, name):
        kw = {} if size is None else {"size": size}
        return getattr(self.srng, fam)(*params, name=name, **kw)

    def rv(self, name, fam, *params, size=None):
        v = self._gen(fam, params, size, name)
        self.rvs[name] = v
        return v

    def obsrv(self, name, fam, *params, size=None):
        v = self._gen(fam, params, size, name)
        self.obs[name] = v
        vv = v.clone()
        vv.name = name + "_vv"
        self.vv[name] = vv
        return v

    def neg(self, x):
        return -x

    def sigmoid(self, x):
        return at.sigmoid(x)

    def exp(self, x):
        return at.exp(x)

    def sqrt(self, x):
        return at.sqrt(x)

    def dot(self, a, b):
        return at.dot(a, b)

    def sum(self, x):
        return at.sum(x)

    def switch(self, c, a, b):
        return at.switch(c, a, b)

    def alt(self, graph, num):
        """One value, spelled in Aesara and in NumPy."""
        return graph()


class NumB:
    """NumPy backend: `values` gives states and observations."""

    num = True

    def __init__(self, values=None, data=None, k=0, ok=0):
        self.values = OrderedDict(values or {})
        self.data = dict(data or {})
        self.k, self.ok = k, ok
        self.lp = 0.0
        self.terms = OrderedDict()
        self.order = []
        self.supports = {}
        self.obs_names = []
        self.params = {}

    def inp(self, name, val, dtype="float64"):
        v = self.data.setdefault(name, np.asarray(val, dtype=dtype))
        return np.asarray(v, float)

    def shared(self, name, val):
        return self.const(val)

    def mul(self, *xs):
        out = 1.0
        for x in xs:
            out = out * x
        return out

    def const(self, val):
        val = np.asarray(val)
        return val.astype(float) if val.dtype.kind in "iubf" else val

    def ncols(self, X):
        return X.shape[1]

    def nrows(self, X):
        return X.shape[0]

    def _node(self, name, fam, params, size, observed):
        ps = [np.asarray(p) for p in params]
        if size is None:
            shape = np.broadcast_shapes(*[p.shape for p in ps])
            if fam == "categorical":
                shape = ps[0].shape[:-1]
            elif fam in VECTORS:
                shape = ps[VECTORS[fam]].shape
        else:
            shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
            if fam in VECTORS:
                shape += ps[VECTORS[fam]].shape[-1:]
        sup = FAMILIES[fam][1]
        given, ps = ps, ([ps[0], ps[2]] if fam == "triangular" else [ps[0][..., :1]] if fam in VECTORS or fam == "categorical" else ps)
        if name not in self.values:
            k = self.ok if observed else self.k
            # different latents get different patterns
            v = pattern(sup, shape, k % 100 + 3 * len(self.order), ps, far=0 if observed else k // 100)
            if fam in ("binomial", "betabinom"):
                v = np.minimum(v, np.broadcast_to(ps[0], shape))
            self.values[name] = v
        v = np.asarray(self.values[name])
        self.supports[name] = (sup, ps)
        ps = given
        self.params[name] = (fam, ps)
        t = float(np.sum(logpdf(fam, v, *ps)))
        if v.shape != shape:
            t = np.nan
        self.terms[name] = t
        self.lp += t
        self.order.append(name)
        if observed:
            self.obs_names.append(name)
        return v

    def rv(self, name, fam, *params, size=None):
        return self._node(name, fam, params, size, False)

    def obsrv(self, name, fam, *params, size=None):
        return self._node(name, fam, params, size, True)

    def neg(self, x):
        return -x

    def sigmoid(self, x):
        return sp.expit(x)

    def exp(self, x):
        return np.exp(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def dot(self, a, b):
        return np.dot(a, b)

    def sum(self, x):
        return np.sum(x)

    def switch(self, c, a, b):
        return np.where(c, a, b)

    def alt(self, graph, num):
        return num()


class Program:
    """A named model program plus the regression structure the reference
    kernels need (spec: what kind of conditional each latent has)."""

    def __init__(self, name, fn, **meta):
        self.name, self.fn, self.meta = name, fn, meta

    def concrete(self, k=0, ok=0, data=None):
        """(latent values, observed values, input data) of pattern (k, ok)."""
        b = NumB(k=k, ok=ok, data=data)
        self.fn(b)
        lat = OrderedDict((n, b.values[n]) for n in b.order if n not in b.obs_names)
        obs = OrderedDict((n, b.values[n]) for n in b.obs_names)
        return lat, obs, dict(b.data)

    def joint(self, lat, obs, data):
        b = NumB(values={**lat, **obs}, data=data)
        self.fn(b)
        return b.lp

    def trace(self, lat, obs, data):
        b = NumB(values={**lat, **obs}, data=data)
        self.fn(b)
        return b
