"""C18: the Polya-Gamma variable in lockstep with the reference generator."""
import itertools
import multiprocessing as mp
from copy import deepcopy

import aesara
import aesara.tensor as at
import numpy as np
from aesara.tensor.random.utils import RandomStream
from polyagamma import random_polyagamma

from mc import engine
from mc.draws import rng_key
from mc.props.lib import get

ASSUMPTIONS = [
    "the polyagamma package draws correctly from contiguous parameters (its own treatment of parameters without a size is not trusted: either of its two orders of drawing is accepted)",
    "generators: NumPy Generator (the default) and RandomState",
]
BOUNDS = {
    "quick": "10 shapes (0.05 to 900) x 10 tilts (to 700) x 9 sizes, constants and inputs, 2 kinds of generator, 2 floating point types, histories of 3 calls; 12 parameters that are views; zero and negative parameters",
    "thorough": "as quick with 17 shapes, 17 tilts, 16 sizes and histories of 8 calls",
}

A = np.array
H = {
    "1": 1.0, "2": 2, "2.7": 2.7, "v1": A([1.5]), "v3": A([1.0, 2.0, 3.0]), "col": A([[1.0], [2.0]]), "m": A([[0.4, 1.0, 13.0], [2.0, 3.0, 25.0]]),
    "iv": A([1, 2, 3]), "far": A([1e-3, 170.0, 3e6]), "0.3": 0.3,
}
Z = {
    "0": 0.0, "-1.3": -1.3, "4": 4, "v1": A([0.4]), "v3": A([0.1, 2.0, -3.0]), "col": A([[0.5], [1.0]]), "m": A([[0.1, 0.2, -0.3], [4.0, 0.0, 9.0]]),
    "row": A([[0.7, -0.2, 30.0]]), "iv": A([0, -2, 3]), "far": A([-60.0, 1e-9, 700.0]), "60": 60.0,
}
S = {"no": None, "()": (), "1": 1, "3": 3, "(3,)": (3,), "23": (2, 3), "423": (4, 2, 3), "0": (0,), "13": (1, 3)}
MORE_H = {"0.1": 0.1, "170": 170.0, "v2": A([0.3, 60.0]), "e0": A([]), "1m": A([[1.3]]), "t": A([[[1.0]], [[2.0]]]), "big": A([1e3, 0.01, 4.0])}
MORE_Z = {"1e-9": 1e-9, "-60": -60.0, "v2": A([0.3, -6.0]), "e0": A([]), "1m": A([[1.3]]), "t": A([[[1.0]], [[2.0]]]), "big": A([1e3, -100.0, 1e-3])}
MORE_S = {"2": 2, "12": (1, 2), "213": (2, 1, 3), "213b": (2, 2, 3), "00": (0, 3), "1111": (1, 1, 1, 1), "11": (1, 1)}
VIEWS = {
    "strided both": lambda v, w: (v[::2], w[::2]), "strided h": lambda v, w: (v[::2], w[:3]), "strided z": lambda v, w: (v[:3], w[::2]),
    "reversed": lambda v, w: (v[::-1], w[::-1]), "column": lambda v, w: (at.stack([v, v]).T[:, 0], at.stack([w, w]).T[:, 1]),
    "broadcast h": lambda v, w: (at.broadcast_to(v[0], (3,)), w[:3]), "broadcast z": lambda v, w: (v[:3], at.broadcast_to(w[1], (3,))),
    "broadcast both": lambda v, w: (at.broadcast_to(v[0], (3,)), at.broadcast_to(w[1], (3,))),
    "transposed": lambda v, w: (v.reshape((2, 3)).T, w.reshape((2, 3)).T), "mixed order": lambda v, w: (v.reshape((2, 3)).T, w.reshape((3, 2))),
    "dimshuffled": lambda v, w: (v[:2].dimshuffle(0, "x"), w.dimshuffle("x", 0)), "tiled": lambda v, w: (at.tile(v[:2], 3), w[::-1]),
}


def alphabets(tier):
    if tier == "thorough":
        return {**H, **MORE_H}, {**Z, **MORE_Z}, {**S, **MORE_S}
    return H, Z, S


def tasks(tier):
    hs, zs, _ = alphabets(tier)
    for h in hs:
        for z in zs:
            yield {"kind": "grid", "h": h, "z": z, "tier": tier, "cost": 2}
    for v in VIEWS:
        yield {"kind": "view", "view": v, "cost": 3}
    yield {"kind": "floatX", "cost": 1}
    yield {"kind": "invalid", "cost": 1}


def streams():
    return {
        "Generator": RandomStream(11), "RandomState": RandomStream(11, rng_ctor=np.random.RandomState),
    }


def bitgen(rng):
    return rng._bit_generator if isinstance(rng, np.random.RandomState) else rng


def reference(rng, h, z, size, full):
    """(value, generator afterwards) or the exception of the reference."""
    rng = deepcopy(rng)
    h = np.array(h, dtype=float)
    z = np.array(z, dtype=float)
    if size is None and not full and h.ndim and z.ndim and h.shape != z.shape:
        return None  # the package reads past the end of the shorter vector
    try:
        if size is None and full:
            size = np.broadcast_shapes(h.shape, z.shape)
        v = random_polyagamma(h, z, size=size, random_state=bitgen(rng))
        want = np.broadcast_shapes(h.shape, z.shape) if size is None else tuple(np.atleast_1d(size).astype(int))
        if np.shape(v) != tuple(want):
            return None
        return np.asarray(v), rng
    except ValueError as e:
        return e


def lockstep(label, f, shared, h, z, size, calls, dtype, r):
    """Call `f` (which advances `shared`) and the reference in turn."""
    start = shared.get_value(borrow=False)
    for k in range(calls):
        before = deepcopy(shared.get_value(borrow=True))
        refs = [reference(before, h, z, size, full) for full in ((False, True) if size is None else (True,))]
        refs = [x for x in refs if x is not None]
        r.states += 1
        r.transitions += 1
        try:
            got = np.asarray(f())
        except Exception as e:
            if not all(isinstance(x, Exception) for x in refs):
                r.bad(f"{label}: call {k + 1}: {type(e).__name__}: {str(e)[:200]}")
            r.validated += 1
            break
        r.validated += 1
        fits = [x for x in refs if not isinstance(x, Exception) and x[0].shape == got.shape and np.array_equal(x[0].astype(dtype), got, equal_nan=True)]
        if not fits:
            r.bad(f"{label}: call {k + 1} gave {got.tolist()}, the reference {[getattr(x[0], 'tolist', lambda: x)() if isinstance(x, tuple) else repr(x) for x in refs]}")
            break
        if str(got.dtype) != dtype:
            r.bad(f"{label}: dtype {got.dtype}, expected {dtype}")
            break
        after = rng_key(shared.get_value(borrow=True))
        if after not in [rng_key(x[1]) for x in fits]:
            r.bad(f"{label}: the generator after call {k + 1} is not the reference's")
            break
        if got.size and after == rng_key(before):
            r.bad(f"{label}: the generator is not advanced")
            break
        r.outcome(f"{label}{k}{np.round(got, 8).tolist()}"[:300])
    shared.set_value(start, borrow=False)


def check_type(label, X, ins, args, r):
    f = aesara.function(ins, [X, X.shape], mode=engine.PLAIN, on_unused_input="ignore")
    g = aesara.function(ins, X.shape, mode="FAST_RUN", on_unused_input="ignore")
    val, shape = f(*args)
    r.validated += 2
    if tuple(shape) != val.shape or tuple(g(*args)) != val.shape:
        r.bad(f"{label}: symbolic shape {tuple(shape)} or {tuple(g(*args))}, the value has {val.shape}")
    if X.type.ndim != val.ndim or any(s is not None and s != n for s, n in zip(X.type.shape, val.shape)) or any(
        b and n != 1 for b, n in zip(X.type.broadcastable, val.shape)
    ):
        r.bad(f"{label}: {X.type} for a value of shape {val.shape}")
    if X.type.dtype != str(val.dtype):
        r.bad(f"{label}: {X.type} for a value of type {val.dtype}")


def run_task(t, r):
    {"grid": run_grid, "view": run_view, "floatX": run_floatx, "invalid": run_invalid}[t["kind"]](t, r)


def run_grid(t, r):
    pg = get("aemcmc.dists", "polyagamma")
    hs, zs, ss = alphabets(t["tier"])
    h, z = hs[t["h"]], zs[t["z"]]
    calls = 8 if t["tier"] == "thorough" else 3
    for sn, size in ss.items():
        for gen, srng in streams().items():
            for how in ("const", "input"):
                label = f"PG({t['h']}, {t['z']}, size={sn}), {gen}, {how}"
                ins, args = [], []
                try:
                    if how == "const":
                        X = srng.gen(pg, h, z, size=size)
                    else:
                        ins = [at.as_tensor(np.asarray(p)).type() for p in (h, z)]
                        ins = [at.tensor(i.dtype, [b for b in i.broadcastable]) for i in ins]
                        args = [np.asarray(h), np.asarray(z)]
                        X = srng.gen(pg, *ins, size=size)
                    f = aesara.function(ins, X, mode=engine.PLAIN)
                except Exception as e:
                    # rejected when the graph is built: the reference has to reject it too
                    ref = reference(np.random.default_rng(1), h, z, tuple(np.atleast_1d(size)) if size not in (None, ()) else None, True)
                    r.validated += 1
                    if not isinstance(ref, Exception):
                        r.bad(f"{label}: {type(e).__name__}: {str(e)[:200]}")
                    continue
                shared = X.owner.inputs[0]
                sz = None if size is None or size == () else tuple(np.atleast_1d(size))
                lockstep(label, lambda: f(*args), shared, h, z, sz, calls, "float64", r)
                if gen == "Generator" and not isinstance(reference(np.random.default_rng(1), h, z, sz, True), Exception):
                    check_type(label, X, ins, args, r)
    r.sample(h=h, z=z)


def in_child(fn, seconds=40):
    """Run `fn` in a process of its own: a draw may never return."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    mp.current_process()._config["daemon"] = False  # pool workers may have a child here
    p = ctx.Process(target=lambda: q.put(fn()), daemon=True)
    p.start()
    try:
        return q.get(timeout=seconds)
    except Exception:
        return None
    finally:
        p.kill()
        p.join()


def run_view(t, r):
    pg = get("aemcmc.dists", "polyagamma")
    from mc.report import Result

    def go():
        rr = Result()
        for gen, srng in streams().items():
            v, w = at.vector("v"), at.vector("w")
            h, z = VIEWS[t["view"]](v, w)
            vals = [A([1.0, 7.0, 2.0, 8.0, 3.0, 9.0]), A([0.1, 9.0, 2.0, 8.0, -3.0, 7.0])]
            hv, zv = aesara.function([v, w], [h, z], mode=engine.PLAIN, on_unused_input="ignore")(*vals)
            X = srng.gen(pg, h, z)
            f = aesara.function([v, w], X, mode=engine.PLAIN)
            lockstep(f"PG of {t['view']}, {gen}", lambda: f(*vals), X.owner.inputs[0], hv, zv, None, 3, "float64", rr)
        return rr

    rr = in_child(go)
    if rr is None:
        r.bad(f"PG of {t['view']}: no draw")
        return
    for k in ("states", "transitions", "validated"):
        setattr(r, k, getattr(r, k) + getattr(rr, k))
    r.violations += rr.violations
    r.outcomes |= rr.outcomes
    r.sample(view=t["view"])


def run_floatx(t, r):
    pg = get("aemcmc.dists", "polyagamma")
    for fx in ("float32", "float64"):
        with aesara.config.change_flags(floatX=fx, cast_policy="custom"):
            for gen, srng in streams().items():
                for hn, zn, sn in itertools.product(("1", "v3", "m"), ("0", "v3", "row"), ("no", "23")):
                    h, z, size = H[hn], Z[zn], S[sn]
                    X = srng.gen(pg, h, z, size=size)
                    f = aesara.function([], X, mode=engine.PLAIN)
                    lockstep(f"{fx}: PG({hn}, {zn}, size={sn}), {gen}", f, X.owner.inputs[0], h, z, size, 2, fx, r)
                    check_type(f"{fx}: PG({hn}, {zn}, size={sn}), {gen}", X, [], [], r)
    # defaults: PG(1, 0)
    X = pg(rng=aesara.shared(np.random.default_rng(3)))
    got = aesara.function([], X, mode=engine.PLAIN)()
    ref = reference(np.random.default_rng(3), 1.0, 0.0, None, True)
    r.validated += 1
    if not np.array_equal(got, ref[0]):
        r.bad(f"PG() gave {got}, the reference {ref[0]}")
    # the draw does not touch the generator it is given unless it is to be updated
    g = aesara.shared(np.random.default_rng(3))
    f = aesara.function([], pg(2.0, A([1.0, -2.0]), rng=g), mode=engine.PLAIN)
    a, b = f(), f()
    r.validated += 1
    if not np.array_equal(a, b):
        r.bad("a draw without updates advances the shared generator")


def run_invalid(t, r):
    pg = get("aemcmc.dists", "polyagamma")
    for h, z in itertools.product((0.0, -1.0, A([1.0, 0.0]), A([2.0, -3.0])), (0.0, 1.0, A([0.5, -0.5]))):
        srng = RandomStream(2)
        f = aesara.function([], srng.gen(pg, h, z), mode=engine.PLAIN)
        r.states += 1
        r.transitions += 1
        r.validated += 1
        try:
            got = f()
            r.bad(f"PG({h}, {z}) gave {got}")
        except ValueError:
            pass
