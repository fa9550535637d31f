"""C16: model descriptions against a set model."""
import itertools

import aesara
import aesara.tensor as at
import numpy as np
from aesara.tensor.random.utils import RandomStream

from mc.props.lib import get

ASSUMPTIONS = [
    "value variables are distinct from each other and from the random variables (two variables sharing one value have no inverse lookup)",
    "every observed variable has a value",
]
BOUNDS = {
    "quick": "0..3 random or measurable variables (inputs, draws, functions of draws), every observed subset in every order, 0..2 deterministic variables (also ones already in the model), every partition of up to 6 variables into equal names, every single missing (None or empty) name, pairs of missing names; 8 and 20 variables with all pairs of equal names; values that are variables, constants and shared",
    "thorough": "as quick with up to 4 random variables, 3 deterministic variables and every subset of missing names (up to 8 variables)",
}


def partitions(n):
    """Restricted growth strings of length n: every way names may coincide."""
    def rec(prefix, top):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for k in range(top + 1):
            yield from rec(prefix + [k], max(top, k + 1))

    yield from rec([], 0)


def tasks(tier):
    deep = tier == "thorough"
    for k in range(5 if deep else 4):
        for nd in range(4 if deep else 3):
            for no in range(k + 1):
                yield {"k": k, "nd": nd, "no": no, "deep": deep, "cost": (k + 1) * (nd + 1)}
    for k in (8, 20) if not deep else (6, 8, 13, 20, 40):
        for nd in (0, 7):
            yield {"k": k, "nd": nd, "no": None, "deep": deep, "cost": 12}


def make(k, nd, kind):
    s = RandomStream(1)
    if kind == "mixed":  # measurable variables that are inputs, draws and functions of draws
        rvs = [(lambda: at.exp(s.normal(0, 1)), lambda: at.lscalar(), lambda: s.gamma(1.0, 1.0, size=2), lambda: s.beta(1.0, 1.0, size=2)[0])[i % 4]() for i in range(k)]
    elif kind == "plain":
        rvs = [(at.vector, at.scalar, at.matrix, at.vector)[i % 4]() for i in range(k)]
    else:
        rvs = [(lambda: s.normal(0, 1), lambda: s.gamma(1.0, 1.0, size=2), lambda: s.poisson(2.0), lambda: s.beta(1.0, 1.0))[i % 4]() for i in range(k)]
    vals = [v.clone() if v.owner is None else v.type() for v in rvs]
    if kind == "held":  # data that the model holds
        vals = [aesara.shared(np.full((2,) * v.ndim, i + 0.5)) if i % 2 else at.as_tensor(np.full((2,) * v.ndim, i + 0.5)) for i, v in enumerate(rvs)]
    base = rvs[0] if rvs else at.scalar()
    dets = [(at.exp, lambda b: b + 1.0, at.sqrt, lambda b: 2 * b)[i % 4](base) for i in range(nd)]
    return rvs, vals, dets


def namings(n, deep):
    if n <= 6 or deep:
        full = list(partitions(n))
        if n > 6:  # coincidences of at most two pairs
            full = [p for p in full if n - len(set(p)) <= 2]
        for p in full:
            yield [f"n{i}" for i in p]
    distinct = [f"n{i}" for i in range(n)]
    for r in range(1, n + 1 if deep else min(n, 2) + 1):
        for miss in itertools.combinations(range(n), r):
            for blank in (None, ""):
                yield [blank if i in miss else d for i, d in enumerate(distinct)]
    yield from short(n)
    # names that are alike but not equal
    yield ["x" + " " * i for i in range(n)]
    yield [["a", "A", "aa", "a_vv", "0", " ", "True", "None", "é", "a.b", "-", "\\n", "aé"][i] for i in range(n)]


def run_task(t, r):
    ModelInfo = get("aemcmc.utils", "ModelInfo")
    k, nd, no = t["k"], t["nd"], t["no"]
    if no is None:
        return large(ModelInfo, k, nd, r)
    for kind in ("rv", "plain", "held", "mixed") if k else ("plain",):
        rvs, vals, dets = make(k, nd, kind)
        own = rvs + vals + dets
        for obs in itertools.permutations(range(k), no):
            for order in itertools.permutations(range(k)):
                if order != tuple(range(k)) and (no not in (0, 1) and not t["deep"]):
                    continue
                for extra in ([], [rvs[0]] if rvs else [], [vals[0]] if rvs else []):
                    ns = list(namings(len(own), t["deep"])) if not extra and order == tuple(range(k)) else short(len(own))
                    for names in ns:
                        check(ModelInfo, r, rvs, vals, dets + extra, obs, order, own, names)
    r.sample(**t)


def large(ModelInfo, k, nd, r):
    for kind in ("rv", "plain", "held", "mixed"):
        rvs, vals, dets = make(k, nd, kind)
        own = rvs + vals + dets
        n = len(own)
        d = [f"n{i}" for i in range(n)]
        turn = tuple(range(k))
        for obs in ((), turn, turn[::-1], turn[::2], turn[k // 2 :][::-1], (k - 1,), (k - 1, 0)):
            for order in (turn, turn[::-1], turn[1::2] + turn[::2]):
                check(ModelInfo, r, rvs, vals, dets, obs, order, own, d)
            # every pair alike, every name missing
            for i in range(n):
                for blank in (None, ""):
                    check(ModelInfo, r, rvs, vals, dets, obs, turn, own, d[:i] + [blank] + d[i + 1:])
                for j in range(i) if obs in (turn[::2], ()) else ():
                    check(ModelInfo, r, rvs, vals, dets, obs, turn, own, d[:i] + [d[j]] + d[i + 1:])
    r.sample(k=k, nd=nd, names=d[:3])


def short(n):
    d = [f"n{i}" for i in range(n)]
    yield d
    for i in range(n):
        yield d[:i] + [None] + d[i + 1:]
        if i:
            yield d[:i] + [d[0]] + d[i + 1:]


def check(ModelInfo, r, rvs, vals, dets, obs, order, own, names):
    for v, n in zip(own, names):
        v.name = n
    ups = {aesara.shared(0.0): at.scalar()} if names and len(names) % 2 else {}
    given = {rvs[i]: vals[i] for i in order}
    o = tuple(rvs[i] for i in obs)
    label = f"observed {obs} of {order}, {len(dets)} deterministic, names {names}"
    present = set(own)
    blank = any(not n for n in names)
    dup = len({v.name for v in present}) != len(present)
    r.states += 1
    r.transitions += 1
    try:
        m = ModelInfo(o, dict(given), tuple(dets), ups)
    except ValueError as e:
        r.validated += 1
        if not (blank or dup):
            r.bad(f"{label}: rejected: {e}")
        return
    r.validated += 1
    if blank or dup:
        r.bad(f"{label}: accepted")
        return
    un = tuple(rvs[i] for i in order if i not in obs)

    def eq(what, got, want):
        same = len(got) == len(want) and all(a is b for a, b in zip(got, want))
        if not same:
            r.bad(f"{label}: {what} is {got}, expected {want}")

    eq("observed_rvs", tuple(m.observed_rvs), o)
    eq("unobserved_rvs", tuple(m.unobserved_rvs), un)
    eq("observed_values", tuple(m.observed_values), tuple(given[v] for v in o))
    eq("unobserved_values", tuple(m.unobserved_values), tuple(given[v] for v in un))
    eq("deterministic_vars", tuple(m.deterministic_vars), tuple(dets))
    if list(m.rvs_to_values.items()) != list(given.items()):
        r.bad(f"{label}: rvs_to_values is {m.rvs_to_values}")
    if dict(m.values_to_rvs) != {b: a for a, b in given.items()}:
        r.bad(f"{label}: values_to_rvs is {m.values_to_rvs}")
    want = {v.name: v for v in present}
    if dict(m.names_to_vars) != want or any(m.names_to_vars[n] is not v for n, v in want.items()):
        r.bad(f"{label}: names_to_vars is {m.names_to_vars}")
    if m.updates != ups:
        r.bad(f"{label}: updates are {m.updates}")
    r.outcome(f"{obs}{order}{len(dets)}{sorted(names)}")
