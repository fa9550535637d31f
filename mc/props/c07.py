"""C07: structured Gaussian draws."""
import itertools

import aesara
import aesara.tensor as at
import numpy as np

from mc.blocks import Pinned
from mc.engine import close
from mc.models import xmat
from mc.props.lib import Fn, affine, get, stream, typed
from mc.report import Skip

ASSUMPTIONS = [
    "a draw is Gaussian because it is an affine map of the standard normal draws it makes; affinity is probed at one generic point besides the basis",
    "values are compared to 1e-6 relative",
]
BOUNDS = {
    "quick": "rue2005: dims 1..5 x 4 matrices (dense, sparse); cong2017 and regression: all (rows, columns) in 1..5 x 1..5, 3 weight/scale patterns (weights 1e-3 to 400), scalar and vector scales; larger shapes up to 16 dims, 40 rows, 12 columns; coordinates in units of 1e-6, 1e6 and mixed ones, responses in units of 1e-5 and 1e5; argument types",
    "thorough": "as quick with dims up to 8 and 6 patterns; larger shapes up to 25 dims, 200 rows, 24 columns",
}
PAT = 3


def stretch(n, how):
    """Units of the coordinates: all small, all large, different."""
    i = np.arange(n)
    return np.ones(n) if how is None else 10.0 ** (((2 * i + 1) % 5) * 1.25 - 2.5) if how == "mixed" else np.full(n, how)


UNITS = (None, 1e-6, 1e6, "mixed")


def tasks(tier):
    deep = tier == "thorough"
    m, pat = (8, 6) if deep else (5, 3)
    for fn in ("rue", "cong", "reg"):
        for n, p in ((2, 2), (3, 1), (1, 3)):
            yield {"kind": "types", "fn": fn, "n": n, "p": p, "cost": 5}
    for sp in (False, True):
        yield {"kind": "rue", "dims": list(range(1, m + 1)), "pats": list(range(pat + 1)), "sparse": sp, "cost": 3}
        yield {"kind": "rue", "dims": [1, 2, m], "pats": [0, 1, 2], "sparse": sp, "units": UNITS[1:], "cost": 3}
        yield {"kind": "rue", "dims": [9, 16] if not deep else [11, 16, 25], "pats": [0, 1, 2], "sparse": sp, "cost": 3}
    for n, ps in ((1, [9]), (3, [12]), (12, [1, 3, 12]), (40, [2])) if not deep else ((1, [9, 20]), (3, [12, 24]), (12, [1, 3, 11, 12, 13]), (40, [2, 9]), (200, [3])):
        for j in range(3):
            yield {"kind": "cong", "pat": j, "n": n, "ps": ps, "cost": 3}
            yield {"kind": "reg", "pat": j, "n": n, "ps": ps, "scale": ("vec", "scalar", "shape1")[j], "cost": 3}
    for j in range(pat):
        for n in range(1, m + 1):
            yield {"kind": "cong", "pat": j, "n": n, "ps": list(range(1, m + 1)), "cost": 2}
            if n in (1, 2, m):
                yield {"kind": "cong", "pat": j, "n": n, "ps": [1, 2, m], "units": UNITS[1:], "cost": 3}
                yield {"kind": "reg", "pat": j, "n": n, "ps": [1, 2, m], "scale": "vec", "units": UNITS[1:], "cost": 3}
            for sc in ("vec", "scalar", "shape1"):
                yield {"kind": "reg", "pat": j, "n": n, "ps": list(range(1, m + 1)), "scale": sc, "cost": 3}


def weights(n, j, k=0):
    i = np.arange(n)
    return np.array([[0.4, 1.7, 0.9, 2.3, 0.2], [1.0, 1.0, 1.0, 1.0, 1.0], [1e-3, 30.0, 0.5, 400.0, 0.05]])[j % 3][(i + k) % 5] * (1 + 0.1 * (i // 5) + 0.05 * (j // 3))


def spd(n, j):
    if j == 0:
        return np.eye(n)
    B = xmat(n, n, j)
    Q = B @ B.T + np.diag(0.3 + 0.2 * np.arange(n))
    if j == 3:
        Q = np.diag(10.0 ** (np.arange(n) - 2.0))
    return Q


def cmp(r, what, mean, cov, m, V, info):
    r.states += 1
    r.validated += 2
    r.outcome(f"{what}{np.round(m, 6).tolist()}")
    r.sample(what=what, **info, mean=mean, cov=cov)
    if not close(m, mean, 1e-6, 1e-8):
        r.bad(f"{what}: mean {np.asarray(m).tolist()}, documented {np.asarray(mean).tolist()}", **info)
    elif not close(V, cov, 1e-6, 1e-8):
        r.bad(f"{what}: covariance {np.asarray(V).tolist()}, documented {np.asarray(cov).tolist()}", **info)


def extract(f, args):
    def go(pol):
        return f(Pinned(policy=pol), *args)

    return affine(go)


def run_task(t, r):
    srng = stream()
    if t["kind"] == "types":
        types(t, r, srng)
        return
    if t["kind"] == "rue":
        fn = get("aemcmc.dists", "multivariate_normal_rue2005")
        b, Q = at.vector("b"), at.matrix("Q")
        if t["sparse"]:
            import aesara.sparse as asp

            Qs = asp.csc_matrix("Qs")
            f = Fn([b, Qs], fn(srng, b, Qs))
            import scipy.sparse as ss

            conv = ss.csc_matrix
        else:
            f, conv = Fn([b, Q], fn(srng, b, Q)), np.asarray
        for n, j, u in itertools.product(t["dims"], t["pats"], t.get("units", (None,))):
            Qv, bv, s = spd(n, j), xmat(n, 1, j + 5)[:, 0], stretch(n, u)
            m, V, k = extract(f, (s * bv, conv(np.outer(s, s) * Qv)))
            cov = np.linalg.inv(Qv)
            cmp(r, "precision parameterised normal", cov @ bv, cov, s * m, np.outer(s, s) * V, dict(b=bv, Q=Qv, sparse=t["sparse"], units=s))
        r.transitions += f.execs
        return
    om, X, z = at.vector("omega"), at.matrix("X"), at.vector("z")
    n, j = t["n"], t["pat"]
    if t["kind"] == "cong":
        fn = get("aemcmc.dists", "multivariate_normal_cong2017")
        A = at.vector("A")
        f = Fn([A, om, X, z], fn(srng, A, om, X, z))
        for p, u, w in itertools.product(t["ps"], t.get("units", (None,)), (None, 1e-5, 1e5) if "units" in t else (None,)):
            Av, ov, Xv, zv = weights(p, j, 1), weights(n, j), xmat(n, p, j), xmat(n, 1, j + 9)[:, 0]
            s, c = stretch(p, u), w or 1.0
            m, V, k = extract(f, (Av * s**2, ov / c**2, Xv * s * c, zv * c))
            cov = np.linalg.inv(np.diag(Av) + Xv.T @ np.diag(ov) @ Xv)
            cmp(r, "structured normal", cov @ Xv.T @ (ov * zv), cov, s * m, np.outer(s, s) * V, dict(A=Av, omega=ov, phi=Xv, t=zv, units=s, unit=c))
        r.transitions += f.execs
        return
    fn = get("aemcmc.gibbs", "normal_regression_posterior")
    if t["scale"] == "scalar":
        li = at.scalar("li")
    elif t["scale"] == "shape1":
        li = at.tensor("float64", (True,), name="li")
    else:
        li = at.vector("li")
    f = Fn([om, li, X, z], fn(srng, om, li, X, z))
    for p, u, w in itertools.product(t["ps"], t.get("units", (None,)), (None, 1e-5, 1e5) if "units" in t else (None,)):
        ov, Xv, zv = weights(n, j), xmat(n, p, j), xmat(n, 1, j + 9)[:, 0]
        s, c = stretch(p, u), w or 1.0
        lv = weights(p, j, 2)
        if t["scale"] == "scalar":
            lv = np.float64(lv[0])
        elif t["scale"] == "shape1":
            lv = lv[:1]
        m, V, k = extract(f, (ov / c**2, lv * s if t["scale"] == "vec" else lv, Xv * s * c, zv * c))
        cov = np.linalg.inv(Xv.T @ np.diag(ov) @ Xv + np.diag(np.broadcast_to(lv, (p,)) ** 2))
        cmp(r, "regression posterior", cov @ Xv.T @ (ov * zv), cov, s * m, np.outer(s, s) * V, dict(omega=ov, inv_scale=lv, X=Xv, z=zv, units=s, unit=c))
    r.transitions += f.execs


REAL = ("float64", "float32", "int64", "int8")
POSITIVE = REAL + ("uint8",)


def types(t, r, srng):
    """Arguments of other types."""
    n, p = t["n"], t["p"]
    if t["fn"] == "rue":
        fn = get("aemcmc.dists", "multivariate_normal_rue2005")
        typed("precision parameterised normal", lambda b, Q: (fn(srng, b, Q), None), [3 - 2 * np.arange(p), 4 * np.eye(p) + 2],
              [REAL, REAL + ("uint8",)], r)
        return
    i = np.arange(n)[:, None]
    X = (3 * i + 5 * np.arange(p) + i * np.arange(p)) % 7 - 3
    z, om, A = 3 - 2 * np.arange(n), 5 - 2 * np.arange(n), 4 - np.arange(p)
    if t["fn"] == "cong":
        fn = get("aemcmc.dists", "multivariate_normal_cong2017")
        typed("structured normal", lambda *a: (fn(srng, *a), None), [A, om, X, z], [POSITIVE, POSITIVE, REAL, REAL], r)
        return
    fn = get("aemcmc.gibbs", "normal_regression_posterior")
    typed("regression posterior", lambda *a: (fn(srng, *a), None), [om, A, X, z], [POSITIVE, POSITIVE, REAL, REAL], r)
    typed("regression posterior", lambda *a: (fn(srng, *a), None), [om, A[0], X, z], [POSITIVE, POSITIVE, REAL, REAL], r)
