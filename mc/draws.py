"""Ownership of the only source of nondeterminism: random draws.

Every `RandomVariable.perform` (compiled functions, the inside of `Scan`s and
of inlined `OpFromGraph`s alike) goes through `_perform`.  While a `Controller`
is active, a draw is a *choice point*: the controller decides its value, logs
what was asked for (family, parameters, size, generator state) and advances
the generator.  Without one, the original implementation runs.
"""
import hashlib
from copy import copy

import numpy as np
import scipy.special as sp
import scipy.stats as st
from aesara.tensor.random.op import RandomVariable

_orig_perform = RandomVariable.perform
_active = None


class Diverged(Exception):
    """A replayed choice prefix did not fit the execution."""


def rng_key(rng):
    if isinstance(rng, np.random.RandomState):
        s = rng.get_state()
        return "rs" + hashlib.md5(s[1].tobytes() + str(s[2:]).encode()).hexdigest()
    s = rng.bit_generator.state
    return str(sorted(s["state"].items())) + str(s.get("uinteger", 0))


def _advance(rng):
    if isinstance(rng, np.random.RandomState):
        rng.random_sample()
    else:
        rng.random()


class Draw:
    __slots__ = (
        "site", "name", "params", "shape", "dtype", "state", "state_after",
        "value", "weight", "choice", "nchoices", "op", "rng_id",
    )

    def __repr__(self):
        return f"{self.name}#{self.site}({', '.join(map(_s, self.params))})[{self.shape}]={_s(self.value)}"

    def brief(self):
        return [self.name, [np.asarray(p).tolist() for p in self.params], list(self.shape), np.asarray(self.value).tolist()]


def _s(x):
    return np.array2string(np.asarray(x), precision=5, separator=",")


def u_pattern(level, size):
    """Quantile level of component i of a draw under alternative `level`:
    distinct over components, and every component moves when `level` moves."""
    i = np.arange(size)
    u = (0.23 + 0.381966 * level + 0.271 * i) % 1.0
    return 0.05 + 0.9 * u


def quantile(name, params, u):
    """Quantile function of a family in Aesara's parameterisation, or None."""
    p = params
    if name == "normal":
        return p[0] + p[1] * sp.ndtri(u)
    if name == "exponential":
        return -p[0] * np.log1p(-u)
    if name == "gamma":
        return sp.gammaincinv(p[0], u) * p[1]
    if name == "beta":
        return st.beta.ppf(u, p[0], p[1])
    if name == "invgamma":
        return p[1] / sp.gammainccinv(p[0], u)
    if name == "halfnormal":
        return p[0] + p[1] * sp.ndtri(0.5 + 0.5 * u)
    if name == "halfcauchy":
        return p[0] + p[1] * np.tan(0.5 * np.pi * u)
    if name == "cauchy":
        return p[0] + p[1] * np.tan(np.pi * (u - 0.5))
    if name == "uniform":
        return p[0] + (p[1] - p[0]) * u
    if name == "laplace":
        return st.laplace.ppf(u, p[0], p[1])
    if name == "logistic":
        return st.logistic.ppf(u, p[0], p[1])
    if name == "gumbel":
        return st.gumbel_r.ppf(u, p[0], p[1])
    if name == "t":
        return st.t.ppf(u, p[0], p[1], p[2])
    if name == "lognormal":
        return np.exp(p[0] + p[1] * sp.ndtri(u))
    if name == "chisquare":
        return st.chi2.ppf(u, p[0])
    if name == "poisson":
        return st.poisson.ppf(u, p[0])
    if name in ("nbinom", "negative_binomial"):
        return st.nbinom.ppf(u, p[0], p[1])
    if name == "weibull":
        return (-np.log1p(-u)) ** (1.0 / p[0])
    if name == "polyagamma":
        # no closed form; any positive value is a possible outcome, and these
        # are of the size of the mean
        z = np.maximum(np.abs(p[1]) / 2, 1e-8)
        return 0.25 * p[0] * np.tanh(z) / z * (0.1 + 3.6 * u)
    return None


DISCRETE = {"bernoulli", "categorical", "binomial"}


class Controller:
    """Decides draws.  Subclasses override `alternatives` and `decide`."""

    levels = 2
    max_discrete = 4096

    def __init__(self, prefix=(), levels=None, default_level=0, policy=None):
        self.prefix = tuple(prefix)
        if levels is not None:
            self.levels = levels
        self.log = []
        self.memo = {}
        self.conflicts = []
        self.points = []  # number of alternatives at each choice point
        self.taken = []
        self.policy = policy or {}
        self.extra = []  # records of the NUTS stand-in
        self.uncontrolled = []
        self.default_level = default_level

    # -- one draw -----------------------------------------------------
    def draw(self, op, node, inputs, outputs):
        rng, size, _dtype = inputs[:3]
        params = [np.asarray(a) for a in inputs[3:]]
        if not op.inplace:
            rng = copy(rng)
        key = rng_key(rng)
        out_type = node.outputs[1].type
        if size is not None and len(np.atleast_1d(size)):
            size = tuple(int(s) for s in np.atleast_1d(size))
        else:
            size = None
        name = op.name
        shape, bparams, eventsize = self._shape(op, params, size)
        if size is None and op.ndim_supp == 0 and len(bparams) and False:
            pass
        n = int(np.prod(shape)) if shape else 1
        sig = (key, name, size, tuple((p.shape, p.tobytes()) for p in params))
        if sig in self.memo:
            d = self.memo[sig]
            for _ in range(1 if n else 0):
                _advance(rng)
            outputs[0][0] = rng
            outputs[1][0] = d.value.copy()
            return
        d = Draw()
        d.op = op
        d.name, d.params, d.shape, d.dtype = name, bparams, shape, out_type.dtype
        d.state = key
        d.weight, d.choice, d.nchoices = 1.0, 0, 1
        if n == 0:
            d.site = -1
            d.value = np.zeros(shape, dtype=out_type.dtype)
            d.state_after = key
            self.memo[sig] = d
            outputs[0][0] = rng
            outputs[1][0] = d.value.copy()
            return
        d.site = len(self.log)
        for e in self.log:
            if e.state == key:
                self.conflicts.append((e.site, d.site))
        val = self.decide(d, rng, inputs, params, size)
        d.value = np.asarray(val, dtype=out_type.dtype).reshape(shape)
        self.log.append(d)
        self.memo[sig] = d
        _advance(rng)
        d.state_after = rng_key(rng)
        outputs[0][0] = rng
        outputs[1][0] = d.value.copy()

    def _shape(self, op, params, size):
        nd = op.ndim_supp
        pnd = op.ndims_params
        if len(params) != len(pnd):
            pnd = [0] * len(params)
        batch = np.broadcast_shapes(*[p.shape[: p.ndim - k] for p, k in zip(params, pnd)]) if params else ()
        if size is not None:
            batch = tuple(size)
        if nd == 0:
            bp = []
            for p, k in zip(params, pnd):
                bp.append(np.broadcast_to(p, batch + (p.shape[p.ndim - k:] if k else ())))
            return tuple(batch), bp, ()
        ev = params[0].shape[-nd:]
        return tuple(batch) + tuple(ev), params, ev

    # -- choices ------------------------------------------------------
    def choose(self, k):
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= k:
                raise Diverged(f"choice {i}: {c} of {k}")
        else:
            c = min(self.default_level, k - 1)
        self.points.append(k)
        self.taken.append(c)
        return c

    def decide(self, d, rng, inputs, params, size):
        name, shape = d.name, d.shape
        n = int(np.prod(shape)) if shape else 1
        pol = self.policy.get(name)
        if pol is not None:
            v = pol(self, d)
            if v is not None:
                return v
        if name == "bernoulli":
            p = np.ravel(d.params[0]).astype(float)
            poss = [i for i in range(n) if 0.0 < p[i] < 1.0]
            k = 2 ** len(poss)
            c = self.choose(k) if k > 1 else 0
            d.choice, d.nchoices = c, k
            bits = (p >= 1.0).astype(float)
            for j, i in enumerate(poss):
                bits[i] = (c >> j) & 1
            d.weight = float(np.prod(np.where(bits == 1, p, 1 - p)))
            return bits
        if name == "categorical":
            p = d.params[0]
            rows = p.reshape(-1, p.shape[-1])
            m = rows.shape[1]
            k = m**n
            c = self.choose(k) if k > 1 else 0
            d.choice, d.nchoices = c, k
            vals, w = [], 1.0
            for i in range(n):
                v = c % m
                c //= m
                vals.append(v)
                w *= float(rows[i % rows.shape[0], v])
            d.weight = w
            return np.array(vals)
        if name == "binomial":
            nn = np.ravel(np.broadcast_to(d.params[0], shape)).astype(int)
            p = np.ravel(np.broadcast_to(d.params[1], shape)).astype(float)
            k = int(np.prod(nn + 1))
            c = self.choose(k) if k > 1 else 0
            d.choice, d.nchoices = c, k
            vals = []
            for m in nn:
                vals.append(c % (m + 1))
                c //= m + 1
            d.weight = float(np.prod(st.binom.pmf(vals, nn, p)))
            return np.array(vals)
        if name == "multivariate_normal":
            mean, cov = d.params[0], d.params[1]
            c = self.choose(self.levels)
            d.choice, d.nchoices = c, self.levels
            z = sp.ndtri(u_pattern(c, n)).reshape(shape)
            return mean + z @ np.linalg.cholesky(cov).T
        c = self.choose(self.levels) if self.levels > 1 else 0
        d.choice, d.nchoices = c, self.levels
        u = u_pattern(c, n).reshape(shape)
        v = quantile(name, d.params, u)
        if v is None:
            # a family the harness does not own: fixed, reproducible stream
            self.uncontrolled.append(name)
            seed = int(hashlib.md5(f"{d.site}-{name}-{c}".encode()).hexdigest()[:8], 16)
            r = np.random.default_rng(seed)
            v = type(d.op).rng_fn(r, *params, size) if hasattr(type(d.op), "rng_fn") else None
            v = d.op.rng_fn(r, *(params + [size])) if v is None else v
        return v


def _perform(self, node, inputs, outputs):
    if _active is None:
        return _orig_perform(self, node, inputs, outputs)
    return _active.draw(self, node, inputs, outputs)


def install():
    RandomVariable.perform = _perform


class control:
    """with control(Controller()) as c: f(...)"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        global _active
        self.prev = _active
        _active = self.c
        return self.c

    def __exit__(self, *a):
        global _active
        _active = self.prev


def explore(run, max_exec=100000, max_dev=None):
    """Stateless exhaustive exploration.

    `run(prefix)` executes the system and returns (points, taken).  Every
    complete choice sequence is executed (or, with `max_dev`, every sequence
    with at most that many non-default choices).  Yields nothing; returns
    (executions, capped).
    """
    stack = [()]
    n = 0
    while stack:
        if n >= max_exec:
            return n, True
        prefix = stack.pop()
        points, taken = run(prefix)
        n += 1
        dev = sum(1 for c in prefix if c)
        if max_dev is not None and dev >= max_dev:
            continue
        for i in range(len(points) - 1, len(prefix) - 1, -1):
            for alt in range(points[i] - 1, 0, -1):
                stack.append(tuple(taken[:i]) + (alt,))
    return n, False
