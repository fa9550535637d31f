"""Construct, compile and drive real samplers under controlled draws."""
import hashlib
import itertools
from collections import OrderedDict

import aesara
import numpy as np
from aesara.compile.mode import Mode
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Variable
from aesara.graph.rewriting.db import RewriteDatabaseQuery
from aesara.tensor.random.type import RandomType
from aesara.link.vm import VMLinker

from . import draws, dsl, stub
from .draws import Controller, control

draws.install()
stub.install()

import aemcmc  # noqa: E402
import aemcmc.basic  # noqa: E402

STEP, IMM = 0.37, None

# Bulk exploration evaluates the graphs nearly as built (only inlining the
# sampling steps), which compiles 20 times faster; C02 relates this mode to
# Aesara's FAST_COMPILE and FAST_RUN.
PLAIN = Mode(VMLinker(use_cloop=False, c_thunks=False), RewriteDatabaseQuery(include=["inline_ofg_expansion"]))


class Fail(Exception):
    """The implementation broke the property; carries a counterexample."""

    def __init__(self, msg, **info):
        super().__init__(msg)
        self.msg, self.info = msg, info


class Keyed(Controller):
    """Values that depend on the generator state only (one fixed draw per
    state), so that two evaluations of one model can be compared."""

    def choose(self, k):
        return int(hashlib.md5(self._key.encode()).hexdigest()[:6], 16) % k if k != self.levels else int(
            hashlib.md5(self._key.encode()).hexdigest()[:4], 16)

    def decide(self, d, rng, inputs, params, size):
        self._key = d.state
        return super().decide(d, rng, inputs, params, size)


class Real(Controller):
    """The generators' own draws, logged."""

    def decide(self, d, rng, inputs, params, size):
        from copy import deepcopy

        if d.name == "nuts_probe":
            return np.asarray(d.params[0]) + 0.01 * deepcopy(rng).normal(size=d.shape)
        return d.op.rng_fn(deepcopy(rng), *(list(params) + [size]))


class System:
    """A program's sampler, compiled as one function of the whole state."""

    def __init__(self, program, seed=0, mode=None, graph=None, compile=True, held=None):
        """`held`: observed values the model holds as constants or shared
        variables, instead of taking them as inputs."""
        self.program = program
        self.held = held or {}
        g = graph or dsl.GraphB(seed)
        if graph is None:
            program.fn(g)
        self.g = g
        self.model_rngs = {
            n: rv.owner.inputs[0] for n, rv in list(g.rvs.items()) + list(g.obs.items())
        }
        self.model_rng_states = {
            draws.rng_key(r.get_value(borrow=False)): n
            for n, r in self.model_rngs.items()
            if isinstance(r, SharedVariable)
        }
        self.fixed = ()
        with aesara.config.change_flags(on_opt_error="raise"):
            self.sampler, self.init = self.build()
        self.names = list(g.rvs)
        self.steps = self.sampler.sample_steps
        self.params = []
        for op, ps in self.sampler.parameters.items():
            self.params.append((op, tuple(ps)))
        if compile:
            self.compile(mode)

    def build(self):
        g = self.g
        return aemcmc.construct_sampler({g.obs[n]: self.held.get(n, g.vv[n]) for n in g.obs}, g.srng)

    def compile(self, mode=None):
        g = self.g
        ins = list(g.inputs.values()) + [v for n, v in g.vv.items() if n not in self.held]
        ins += [self.init[g.rvs[n]] for n in self.names]
        for _, ps in self.params:
            ins += list(ps)
        outs = [self.steps[g.rvs[n]] for n in self.names]
        self.fn = aesara.function(
            ins, outs, updates=self.sampler.updates, on_unused_input="ignore",
            mode=PLAIN if mode is None else mode,
        )
        self.nuts_ops = [op for op, _ in self.params]
        self.nuts_names = [
            n for n in self.names if self.steps[g.rvs[n]].owner is not None
            and self.steps[g.rvs[n]].owner.op in self.nuts_ops
        ]
        # generators as they are before any call, to replay executions
        self.shared = [
            v for v in self.fn.get_shared()
        ]
        self._snap = [(v, v.get_value(borrow=False)) for v in self.shared]

    def free(self, n, v, near=None):
        """Coordinates that determine the value of a variable.  A probability
        vector is determined by all but its largest component (of `near`):
        volumes are the same whichever is left out, rounding is not."""
        v = np.asarray(v)
        if self.g.rvs[n].owner.op.name == "dirichlet":
            i = np.argmax(v if near is None else near, axis=-1)
            return v[np.arange(v.shape[-1]) != i[..., None]]
        return np.ravel(v)

    def nuts_dim(self, lat):
        return int(sum(np.size(self.free(n, lat[n])) for n in self.nuts_names))

    def reset(self):
        for v, val in self._snap:
            v.set_value(val, borrow=False)

    def memory(self):
        return [v.get_value(borrow=False) for v, _ in self._snap]

    def recall(self, mem):
        for (v, _), val in zip(self._snap, mem):
            v.set_value(val, borrow=False)

    def hidden(self):
        """Variables other than generators that change from call to call."""
        ups = self.sampler.updates
        return [v for v in self.shared if not isinstance(v.type, RandomType) and v in ups and ups[v] is not v]

    def args(self, lat, obs, data, step=STEP, imm=None):
        a = [np.asarray(data[n]).astype(self.g.inputs[n].dtype) for n in self.g.inputs]
        a += [np.asarray(obs[n]).astype(self.g.vv[n].dtype) for n in self.g.vv if n not in self.held]
        a += [np.asarray(lat[n]).astype(self.init[self.g.rvs[n]].dtype) for n in self.names]
        for _, ps in self.params:
            d = self.nuts_dim(lat)
            m = np.linspace(0.5, 1.5, d) if imm is None else imm
            a += [np.asarray(step, aesara.config.floatX), np.asarray(m, aesara.config.floatX)]
        return a

    def run(self, lat, obs, data, ctl, reset=True):
        if reset:
            self.reset()
        with control(ctl):
            out = self.fn(*self.args(lat, obs, data))
        return OrderedDict(zip(self.names, [np.array(o) for o in out]))


class NutsOnly(System):
    """A NUTS step of some of the variables, given values of all others, built
    by the functions of `aemcmc.nuts`."""

    def __init__(self, program, chosen, api="construct_sampler", turned=False, seed=0):
        self.chosen, self.api, self.turned = chosen, api, turned
        super().__init__(program, seed=seed)

    def build(self):
        import importlib
        from types import SimpleNamespace

        from .report import Skip

        mod = importlib.import_module("aemcmc.nuts")
        fn = getattr(mod, self.api, None)
        if fn is None:
            raise Skip(f"aemcmc.nuts.{self.api}")
        g = self.g
        init = {rv: rv.clone() for rv in g.rvs.values()}
        turn = (dict, lambda x: dict(reversed(list(x.items()))), lambda x: dict(list(x.items())[1:] + list(x.items())[:1]))[int(self.turned)]
        rest = {rv: init[rv] for n, rv in g.rvs.items() if n not in self.chosen}
        rest.update((rv, self.held.get(n, g.vv[n])) for n, rv in g.obs.items())
        res, ups, params = fn(g.srng, turn({g.rvs[n]: init[g.rvs[n]] for n in self.chosen}), turn(rest))
        self.fixed = tuple(n for n in g.rvs if n not in self.chosen)
        steps = {rv: res.get(rv, init[rv]) for rv in g.rvs.values()}
        if self.api == "step":
            params = {"step": params}
        return SimpleNamespace(sample_steps=steps, updates=ups, parameters=params, stages={}), init

    def compile(self, mode=None):
        super().compile(mode)
        self.nuts_names = [n for n in self.names if n in self.chosen]


def nuts_policy(fn):
    """Policy for the stand-in's answer: fn(q) -> q_new."""

    def pol(ctl, d):
        return fn(np.asarray(d.params[0]))

    return pol


def probe_choice(ctl, d):
    """Default answer of the stand-in: q itself, or one of two other points."""
    q = np.asarray(d.params[0])
    c = ctl.choose(3)
    d.choice, d.nchoices = c, 3
    i = np.arange(q.size)
    if c == 0:
        return q
    if c == 1:
        return q + 0.31 + 0.07 * i
    return q - 0.27 + 0.11 * (i % 3)


def close(a, b, rtol=1e-6, atol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False))


def subsets(xs):
    xs = list(xs)
    for r in range(len(xs) + 1):
        for c in itertools.combinations(xs, r):
            yield c
