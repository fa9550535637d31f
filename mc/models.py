"""The catalogue of model programs the checks enumerate.

Every entry is built from a small grammar, so that "all models" of a check is
an explicit product of alternatives.  `expect` names the kind of update each
latent variable is documented to get ("direct", "reg", "disp", "hs", "nuts").
"""
import itertools

import aesara.tensor as at
import numpy as np

from .dsl import Program


def xmat(n, p, j=0):
    """A generic (full rank) regression matrix, different for each j."""
    i = np.arange(n)[:, None]
    k = np.arange(p)[None, :]
    return np.round(np.sin(1.3 + 1.7 * i + 2.9 * k + 0.9 * i * k + 0.61 * j) * 1.1, 3)


HYPER = {
    "gp": (("a", 2.2), ("b", 1.7)), "bb": (("a", 1.4), ("b", 2.6)), "bnb": (("a", 1.4), ("b", 2.6)),
}
PRIOR = {"gp": "gamma", "bb": "beta", "bnb": "beta"}


def hyper_value(B, how, name, val, shape):
    if how == "const":
        return val
    if how == "inp":
        return B.inp(name, np.float64(val))
    if how == "vec":
        n = int(np.prod(shape))
        return B.inp(name, (val + 0.3 * np.arange(n)).reshape(shape))
    if how == "cvec":
        n = int(np.prod(shape))
        return B.const((val + 0.3 * np.arange(n)).reshape(shape))
    if how == "rv":
        return B.rv("hyp_" + name, "exponential", 1.5)
    raise KeyError(how)


def conj_obs(B, kind, z, shape, nhow, name="Y", size=None):
    if kind == "gp":
        return B.obsrv(name, "poisson", z, size=size)
    if nhow == "inp":
        n = B.inp("n_" + name, np.int64(4), "int64")
    elif nhow == "frac":  # a real-valued number of successes
        n = B.inp("n_" + name, np.float64(2.5))
    elif nhow == "vec":
        m = int(np.prod(shape))
        n = B.inp("n_" + name, (4 + np.arange(m) % 3).reshape(shape), "int64")
    elif nhow == "cvec":
        m = int(np.prod(shape))
        n = B.const((4 + np.arange(m) % 3).reshape(shape))
    else:
        n = 5
    return B.obsrv(name, "binomial" if kind == "bb" else "nbinom", n, z, size=size)


def conj(kind, how=("const", "const"), shape=(), nhow="const", sized=True):
    """prior -> one element-wise observation: a closed-form posterior."""

    def fn(B):
        (na, va), (nb, vb) = HYPER[kind]
        a = hyper_value(B, how[0], na, va, shape)
        b = hyper_value(B, how[1], nb, vb, shape)
        size = shape if (sized and shape) else None
        z = B.rv("z", PRIOR[kind], a, b, size=size)
        conj_obs(B, kind, z, shape, nhow)

    tag = f"conj-{kind}-{'/'.join(how)}-{'x'.join(map(str, shape)) or '0'}-{nhow}-{'size' if sized else 'nosize'}"
    expect = {"z": "direct"}
    for h, nm in zip(how, "ab"):
        if h == "rv":
            expect["hyp_" + nm] = "nuts"
    return Program(tag, fn, expect=expect)


def conj_catalogue():
    out = []
    for kind in ("gp", "bb", "bnb"):
        nh = ("const",) if kind == "gp" else ("const", "inp")
        for n in nh:
            for hw in itertools.product(("const", "inp"), repeat=2):
                out.append(conj(kind, hw, (), n))
        vn = "const" if kind == "gp" else "vec"
        out.append(conj(kind, ("const", "inp"), (3,), vn))
        out.append(conj(kind, ("vec", "const"), (3,), vn, sized=False))
        out.append(conj(kind, ("inp", "vec"), (3,), vn, sized=False))
        out.append(conj(kind, ("vec", "vec"), (3,), "const" if kind == "gp" else "inp", sized=True))
        out.append(conj(kind, ("const", "const"), (2, 2), "const"))
        out.append(conj(kind, ("vec", "inp"), (2, 2), vn, sized=False))
        out.append(conj(kind, ("const", "const"), (1,), "const"))
        if kind != "gp":
            out.append(conj(kind, ("const", "const"), (3,), "cvec"))
            out.append(conj(kind, ("cvec", "const"), (2,), "vec", sized=False))
    out.append(conj("bnb", ("inp", "const"), (), "frac"))
    out.append(conj("bnb", ("const", "inp"), (3,), "frac"))
    return out


def conj_hier():
    return [
        conj("gp", ("const", "rv")), conj("gp", ("rv", "const")),
        conj("bb", ("rv", "const")), conj("bb", ("const", "rv"), (3,)),
        conj("bnb", ("const", "rv")),
    ]


def conj_fallback():
    """Same families, where the element-wise posterior is not the answer."""
    out = []

    def add(name, fn, **expect):
        out.append(Program("fallback-" + name, fn, expect=expect))

    for kind in ("gp", "bb", "bnb"):
        def shared(B, kind=kind):
            (na, va), (nb, vb) = HYPER[kind]
            z = B.rv("z", PRIOR[kind], va, B.inp(nb, vb))
            conj_obs(B, kind, z, (3,), "const", size=3)

        add(f"{kind}-shared-latent", shared, z="nuts")

        def shared2(B, kind=kind):
            (na, va), (nb, vb) = HYPER[kind]
            z = B.rv("z", PRIOR[kind], va, vb, size=(2,))
            conj_obs(B, kind, z, (3, 2), "const", size=(3, 2))

        add(f"{kind}-row-latent", shared2, z="nuts")

        def two_obs(B, kind=kind):
            (na, va), (nb, vb) = HYPER[kind]
            z = B.rv("z", PRIOR[kind], va, vb)
            conj_obs(B, kind, z, (), "const", name="Y")
            conj_obs(B, kind, z, (), "const", name="Y2")

        add(f"{kind}-two-observations", two_obs, z="nuts")

        def also_normal(B, kind=kind):
            (na, va), (nb, vb) = HYPER[kind]
            z = B.rv("z", PRIOR[kind], va, vb)
            conj_obs(B, kind, z, (), "const", name="Y")
            B.obsrv("W", "normal", z, 1.0)

        add(f"{kind}-also-mean", also_normal, z="nuts")

        def child(B, kind=kind):
            (na, va), (nb, vb) = HYPER[kind]
            z = B.rv("z", PRIOR[kind], va, vb)
            m = B.rv("m", "normal", 2.0 * z, 1.0)
            conj_obs(B, kind, z, (), "const", name="Y")
            B.obsrv("W", "normal", m, 0.5)

        add(f"{kind}-latent-child", child, z="nuts", m="nuts")

    def scaled(B):
        z = B.rv("z", "gamma", 2.2, 1.7)
        B.obsrv("Y", "poisson", 3.0 * z)

    add("gp-scaled", scaled, z="nuts")

    def squared(B):
        z = B.rv("z", "beta", 2.2, 1.7)
        B.obsrv("Y", "binomial", 5, z * z)

    add("bb-squared", squared, z="nuts")

    def other_prior(B):
        z = B.rv("z", "lognormal", 0.2, 0.7)
        B.obsrv("Y", "poisson", z)

    add("lognormal-poisson", other_prior, z="nuts")

    def uni(B):
        z = B.rv("z", "uniform", 0.1, 0.9)
        B.obsrv("Y", "binomial", 5, z)

    add("uniform-binomial", uni, z="nuts")

    def gammaobs(B):
        z = B.rv("z", "gamma", 2.2, 1.7)
        B.obsrv("Y", "exponential", z)

    add("gamma-exponential", gammaobs, z="nuts")

    def betabern(B):
        z = B.rv("z", "beta", 2.2, 1.7)
        B.obsrv("Y", "bernoulli", z)

    add("beta-bernoulli", betabern, z="nuts")

    def mixed(B):
        z = B.rv("z", "gamma", 2.2, 1.7)
        w = B.rv("w", "gamma", 3.0, 1.2)
        B.obsrv("Y", "poisson", z + w)

    add("sum-of-two", mixed, z="nuts", w="nuts")

    def ninp(B):  # the beta variable is also in the number of trials' scale
        z = B.rv("z", "beta", 2.2, 1.7)
        w = B.rv("w", "beta", 1.2, 1.7)
        B.obsrv("Y", "binomial", 5, z * w)

    add("product-of-two", ninp, z="nuts", w="nuts")
    return out


def multi():
    """Several closed-form blocks in one model."""
    out = []

    def add(name, fn, **expect):
        out.append(Program("multi-" + name, fn, expect=expect))

    def two(B):
        z = B.rv("z", "gamma", 2.0, 1.0)
        w = B.rv("w", "gamma", 3.0, 1.5)
        B.obsrv("Y", "poisson", z)
        B.obsrv("Z", "poisson", w)

    add("two-gp", two, z="direct", w="direct")

    def same(B):
        z = B.rv("z", "gamma", 2.0, 1.0)
        w = B.rv("w", "gamma", 2.0, 1.0)
        B.obsrv("Y", "poisson", z)
        B.obsrv("Z", "poisson", w)

    add("twins", same, z="direct", w="direct")

    def three(B):
        z = B.rv("z", "gamma", 2.0, 1.0)
        w = B.rv("w", "beta", 3.0, 1.5)
        u = B.rv("u", "beta", 1.0, 2.5)
        B.obsrv("Y", "poisson", z)
        B.obsrv("Z", "binomial", 4, w)
        B.obsrv("U", "nbinom", 3, u)

    add("three-kinds", three, z="direct", w="direct", u="direct")

    def chain(B):
        b = B.rv("b", "halfnormal", 0.0, 1.0)
        z = B.rv("z", "gamma", 2.0, b)
        w = B.rv("w", "gamma", b, 1.3)
        B.obsrv("Y", "poisson", z)
        B.obsrv("Z", "poisson", w)

    add("shared-hyper", chain, z="direct", w="direct", b="nuts")

    def nested(B):
        # z is the rate of Y and the prior scale of w
        a = B.rv("a", "gamma", 2.0, 1.5)
        w = B.rv("w", "gamma", 2.5, a)
        B.obsrv("Y", "poisson", w)

    add("nested-gammas", nested, w="direct", a="nuts")

    def obs_parent(B):
        # an observed variable is the parent of a latent one
        z = B.rv("z", "gamma", 2.0, 1.0)
        y = B.obsrv("Y", "poisson", z)
        m = B.rv("m", "normal", 0.0, 1.0)
        B.obsrv("W", "normal", m + 0.0 * y, 1.0)

    add("observed-parent", obs_parent, z="direct", m="nuts")

    def indep(B):
        z = B.rv("z", "gamma", 2.0, 1.0)
        m = B.rv("m", "normal", 0.0, 1.0)
        B.obsrv("Y", "poisson", z)
        B.obsrv("W", "normal", m, 1.0)

    add("gp-and-normal", indep, z="direct", m="nuts")
    return out


REG = dict(kind="reg", rvs=("beta",), obs="Y")
DISP = dict(kind="disp", rvs=("h",), obs="Y")
HS = dict(kind="hs", rvs=("lam", "tau"), beta="beta")


def reg(fam, prior="const", h="const", n=3, p=2, X="inp", mul="lam*tau", taushape=None, order="hfirst", size=True):
    """Logistic regression with a zero-mean normal prior."""

    def fn(B):
        Xv = xmat(n, p)
        Xm = B.inp("X", Xv) if X == "inp" else B.const(Xv)
        bsize = B.ncols(Xm) if X == "inp" else p

        def disp():
            if fam != "nbinom":
                return None
            if h == "const":
                return 3
            if h == "fconst":
                return 2.5
            if h == "inp":
                return B.inp("hh", np.float64(1.8))
            if h == "vec":
                return B.inp("hh", 1.1 + 0.7 * np.arange(n))
            if h == "gamma":
                return B.rv("h", "gamma", 2.0, 1.5)
            if h == "gamma-inp":
                return B.rv("h", "gamma", B.inp("a", 2.3), B.inp("b", 1.4))
            if h == "gamma-rv":
                s = B.rv("s", "exponential", 1.2)
                return B.rv("h", "gamma", 2.0, s)
            if h == "exp":
                return B.rv("h", "exponential", 2.0)
            if h == "gammavec":
                return B.rv("h", "gamma", 2.0, 1.5, size=n)
            raise KeyError(h)

        def coef():
            if prior == "const":
                sd = 1.6
            elif prior == "inp":
                sd = B.inp("sd", 1.3)
            elif prior == "vec":
                sd = B.inp("sd", 0.7 + 0.5 * np.arange(p))
            elif prior == "rv":
                sd = B.rv("sg", "halfnormal", 0.0, 1.0)
            elif prior == "rvvec":
                sd = B.rv("sg", "halfnormal", 0.0, 1.0, size=p)
            elif prior == "rv2":
                sd = 2.0 * B.rv("sg", "halfnormal", 0.0, 1.0)
            elif prior == "hs":
                if mul == "lam*tau":
                    tau = B.rv("tau", "halfcauchy", 0.0, 1.0, size=taushape)
                    lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=bsize)
                    sd = lam * tau
                else:
                    lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=bsize)
                    tau = B.rv("tau", "halfcauchy", 0.0, 1.0, size=taushape)
                    sd = tau * lam
            return B.rv("beta", "normal", 0.0, sd, size=bsize if size else None)

        if order == "hfirst":
            hv = disp()
            beta = coef()
        else:
            beta = coef()
            hv = disp()
        pr = B.sigmoid(-(B.dot(Xm, beta)))
        if fam == "nbinom":
            B.obsrv("Y", "nbinom", hv, pr)
        else:
            B.obsrv("Y", "bernoulli", pr)

    ks = [REG]
    expect = {"beta": "reg"}
    if prior == "hs":
        ks = [HS] + ks
        expect.update(lam="hs", tau="hs")
    if prior in ("rv", "rvvec", "rv2"):
        expect["sg"] = "nuts"
    if fam == "nbinom":
        if h in ("gamma", "gamma-inp", "gamma-rv"):
            ks = ks + [DISP]
            expect["h"] = "disp"
        if h == "gamma-rv":
            expect["s"] = "nuts"
        if h in ("exp",):
            expect["h"] = "nuts"
    tag = f"reg-{fam}-{prior}-{h if fam == 'nbinom' else ''}-{n}x{p}-{X}"
    if prior == "hs":
        tag += f"-{mul}-{taushape}"
    if order != "hfirst":
        tag += "-" + order
    if not size:
        tag += "-nosize"
    return Program(tag, fn, kernels=ks, expect=expect, n=n, p=p)


SHAPES = [(3, 2), (2, 2), (2, 3), (3, 1), (1, 2), (1, 1), (2, 4)]


def reg_catalogue(full=False):
    """Regression with everything else fixed: one exact block."""
    out = []
    for fam in ("nbinom", "bernoulli"):
        for (n, p) in SHAPES:
            out.append(reg(fam, "inp", "inp", n, p))
        for pr in ("const", "vec"):
            for hh in (("const", "fconst", "vec") if fam == "nbinom" else ("const",)):
                out.append(reg(fam, pr, hh, 3, 2))
                out.append(reg(fam, pr, hh, 2, 3))
        out.append(reg(fam, "vec", "inp", 3, 2, size=False))
        out.append(reg(fam, "const", "const", 3, 2, X="const"))
        out.append(reg(fam, "vec", "const", 2, 3, X="const"))
        if full:
            for pr, hh, sh in itertools.product(("const", "inp", "vec"), ("const", "inp", "vec", "fconst"), SHAPES + [(4, 3), (3, 4), (5, 2)]):
                if fam == "bernoulli" and hh != "const":
                    continue
                out.append(reg(fam, pr, hh, *sh))
    seen, res = set(), []
    for q in out:
        if q.name not in seen:
            seen.add(q.name)
            res.append(q)
    return res


def disp_catalogue(full=False):
    out = [
        reg("nbinom", "const", "gamma", 2, 1), reg("nbinom", "inp", "gamma-inp", 3, 2),
        reg("nbinom", "vec", "gamma-inp", 2, 3), reg("nbinom", "inp", "gamma-inp", 3, 2, order="bfirst"),
        reg("nbinom", "const", "gamma", 2, 2, X="const"), reg("nbinom", "const", "gamma", 1, 1),
    ]
    if full:
        out += [reg("nbinom", pr, "gamma-inp", *sh) for pr in ("const", "inp", "vec") for sh in SHAPES]
    return out


def hs_catalogue(full=False):
    out = [
        reg("bernoulli", "hs", "const", 3, 2), reg("bernoulli", "hs", "const", 3, 2, mul="tau*lam"),
        reg("bernoulli", "hs", "const", 2, 3), reg("bernoulli", "hs", "const", 3, 1),
        reg("nbinom", "hs", "inp", 3, 2), reg("nbinom", "hs", "const", 2, 4),
        reg("bernoulli", "hs", "const", 3, 2, taushape=(1,)),
    ]
    if full:
        out += [reg(f, "hs", "inp", n, p, mul=m) for f in ("nbinom", "bernoulli") for n, p in SHAPES for m in ("lam*tau", "tau*lam")]
    return out


def hs_only():
    """A horseshoe prior whose coefficients are observed or left to NUTS."""
    out = []

    def observed(B, p=3):
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
        lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=p)
        B.obsrv("beta", "normal", 0.0, lam * tau, size=p)

    out.append(Program("hs-observed", observed, kernels=[HS], expect={"lam": "hs", "tau": "hs"}))

    def linear(B):
        X = B.inp("X", xmat(3, 2))
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
        lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=2)
        beta = B.rv("beta", "normal", 0.0, lam * tau, size=2)
        B.obsrv("Y", "normal", B.dot(X, beta), 1.0)

    out.append(Program("hs-linear", linear, kernels=[HS], expect={"lam": "hs", "tau": "hs", "beta": "nuts"}))
    return out


def composite(full=False):
    """Sweeps made of several kernels."""
    out = [
        reg("nbinom", "hs", "gamma-inp", 3, 2), reg("nbinom", "hs", "gamma-inp", 3, 2, order="bfirst"),
        reg("nbinom", "hs", "gamma", 2, 3, mul="tau*lam"),
        reg("nbinom", "rv", "gamma", 3, 2), reg("nbinom", "rv2", "const", 3, 2), reg("bernoulli", "rv", "const", 3, 2),
        reg("bernoulli", "rvvec", "const", 3, 2), reg("nbinom", "const", "exp", 3, 2),
        reg("nbinom", "hs", "gamma-rv", 3, 2),
        reg("nbinom", "rv", "gamma-rv", 2, 3),
        reg("nbinom", "rvvec", "exp", 2, 3),
    ]

    def shared_sd(B):
        X = B.inp("X", xmat(3, 2))
        s = B.rv("s", "halfnormal", 0.0, 1.0)
        h = B.rv("h", "gamma", 2.0, s)
        beta = B.rv("beta", "normal", 0.0, s, size=2)
        B.obsrv("Y", "nbinom", h, B.sigmoid(-(B.dot(X, beta))))

    out.append(Program("comp-shared-scale", shared_sd, kernels=[REG, DISP], expect={"s": "nuts", "h": "disp", "beta": "reg"}))

    def two_regs(B):
        X = B.inp("X", xmat(3, 2))
        Z = B.inp("Z", xmat(2, 2, 5))
        s = B.rv("s", "halfnormal", 0.0, 1.0)
        b1 = B.rv("b1", "normal", 0.0, s, size=2)
        b2 = B.rv("b2", "normal", 0.0, 1.3 * s, size=2)
        B.obsrv("Y1", "bernoulli", B.sigmoid(-(B.dot(X, b1))))
        B.obsrv("Y2", "nbinom", 3, B.sigmoid(-(B.dot(Z, b2))))

    out.append(Program("comp-two-regressions", two_regs, kernels=[
        dict(kind="reg", rvs=("b1",), obs="Y1"), dict(kind="reg", rvs=("b2",), obs="Y2")],
        expect={"s": "nuts", "b1": "reg", "b2": "reg"}))

    def reg_and_conj(B):
        X = B.inp("X", xmat(3, 2))
        b = B.rv("b", "exponential", 1.3)
        z = B.rv("z", "gamma", 2.0, b)
        B.obsrv("C", "poisson", z)
        beta = B.rv("beta", "normal", 0.0, b, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))

    out.append(Program("comp-regression-conjugate", reg_and_conj, kernels=[REG], expect={"b": "nuts", "z": "direct", "beta": "reg"}))

    def latent_x(B):
        # the regression matrix is scaled by a latent variable
        X = B.inp("X", xmat(3, 2))
        w = B.rv("w", "gamma", 2.0, 1.5)
        B.obsrv("C", "poisson", w)
        beta = B.rv("beta", "normal", 0.0, 1.2, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X * w, beta))))

    out.append(Program("comp-latent-design", latent_x, kernels=[REG], expect={"w": "nuts", "beta": "reg"}))

    def shared_h(B):
        X = B.inp("X", xmat(3, 2))
        Z = B.inp("Z", xmat(2, 2, 5))
        h = B.rv("h", "gamma", 2.0, 1.5)
        b1 = B.rv("b1", "normal", 0.0, 1.1, size=2)
        b2 = B.rv("b2", "normal", 0.0, 1.3, size=2)
        B.obsrv("Y1", "nbinom", h, B.sigmoid(-(B.dot(X, b1))))
        B.obsrv("Y2", "nbinom", h, B.sigmoid(-(B.dot(Z, b2))))

    out.append(Program("comp-shared-dispersion", shared_h, kernels=[
        dict(kind="reg", rvs=("b1",), obs="Y1"), dict(kind="reg", rvs=("b2",), obs="Y2")],
        expect={"h": "nuts", "b1": "reg", "b2": "reg"}))

    def shared_beta(B):
        X = B.inp("X", xmat(3, 2))
        Z = B.inp("Z", xmat(2, 2, 5))
        beta = B.rv("beta", "normal", 0.0, 1.1, size=2)
        B.obsrv("Y1", "bernoulli", B.sigmoid(-(B.dot(X, beta))))
        B.obsrv("Y2", "bernoulli", B.sigmoid(-(B.dot(Z, beta))))

    out.append(Program("comp-shared-coefficients", shared_beta, expect={"beta": "nuts"}))

    def tau_shared(B):
        # two horseshoe blocks with one global scale
        X = B.inp("X", xmat(3, 2))
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
        l1 = B.rv("l1", "halfcauchy", 0.0, 1.0, size=2)
        l2 = B.rv("l2", "halfcauchy", 0.0, 1.0, size=2)
        b1 = B.rv("b1", "normal", 0.0, l1 * tau, size=2)
        b2 = B.rv("b2", "normal", 0.0, l2 * tau, size=2)
        B.obsrv("Y1", "bernoulli", B.sigmoid(-(B.dot(X, b1))))
        B.obsrv("Y2", "bernoulli", B.sigmoid(-(B.dot(X, b2))))

    out.append(Program("comp-shared-global-scale", tau_shared, kernels=[
        dict(kind="reg", rvs=("b1",), obs="Y1"), dict(kind="reg", rvs=("b2",), obs="Y2")],
        expect={"tau": "nuts", "l1": "nuts", "l2": "nuts", "b1": "reg", "b2": "reg"}))

    def two_disps(nuts):
        def fn(B):
            X = B.inp("X", xmat(2, 2))
            Z = B.inp("Z", xmat(2, 1, 5))
            h1 = B.rv("h1", "gamma", 2.0, 1.5)
            h2 = B.rv("h2", "gamma", 1.5, 2.5)
            b1 = B.rv("b1", "normal", 0.0, 1.1, size=2)
            b2 = B.rv("b2", "normal", 0.0, 1.3, size=1)
            B.obsrv("Y1", "nbinom", h1, B.sigmoid(-(B.dot(X, b1))))
            B.obsrv("Y2", "nbinom", h2, B.sigmoid(-(B.dot(Z, b2))))
            if nuts:
                m = B.rv("m", "normal", 0.0, 1.0)
                B.obsrv("W", "normal", m, 1.0)

        e = {"h1": "disp", "h2": "disp", "b1": "reg", "b2": "reg"}
        ks = [dict(kind="reg", rvs=(f"b{i}",), obs=f"Y{i}") for i in (1, 2)] + [dict(kind="disp", rvs=(f"h{i}",), obs=f"Y{i}") for i in (1, 2)]
        return Program("comp-two-dispersions" + ("-nuts" if nuts else ""), fn, kernels=ks, expect=dict(e, m="nuts") if nuts else e)

    out += [two_disps(False), two_disps(True)]

    def two_hs(B):
        X = B.inp("X", xmat(2, 2))
        for i, fam in ((1, "bernoulli"), (2, "bernoulli")):
            tau = B.rv(f"tau{i}", "halfcauchy", 0.0, 1.0)
            lam = B.rv(f"lam{i}", "halfcauchy", 0.0, 1.0, size=2)
            b = B.rv(f"b{i}", "normal", 0.0, lam * tau, size=2)
            B.obsrv(f"Y{i}", fam, B.sigmoid(-(B.dot(X, b))))

    out.append(Program("comp-two-horseshoes", two_hs, kernels=[
        dict(kind="hs", rvs=(f"lam{i}", f"tau{i}"), beta=f"b{i}") for i in (1, 2)] + [dict(kind="reg", rvs=(f"b{i}",), obs=f"Y{i}") for i in (1, 2)],
        expect={f"{v}{i}": k for i in (1, 2) for v, k in (("lam", "hs"), ("tau", "hs"), ("b", "reg"))}))

    def hs_nuts(B):
        # horseshoe scales with coefficients of another likelihood
        X = B.inp("X", xmat(3, 2))
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
        lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=2)
        beta = B.rv("beta", "normal", 0.0, lam * tau, size=2)
        z = B.rv("z", "gamma", 2.0, 1.5)
        B.obsrv("C", "poisson", z)
        B.obsrv("W", "normal", B.dot(X, beta), 0.7)

    out.append(Program("comp-horseshoe-linear", hs_nuts, kernels=[HS], expect={"lam": "hs", "tau": "hs", "beta": "nuts", "z": "direct"}))
    return out


def nuts_catalogue():
    """Models without a specialised step."""
    out = []

    def add(fn):
        out.append(Program("nuts-" + fn.__name__, fn, expect=None))
        return fn

    @add
    def normal_normal(B):
        mu = B.rv("mu", "normal", 0.0, 1.0)
        sg = B.rv("sg", "halfnormal", 0.0, 1.0)
        B.obsrv("Y", "normal", mu, sg, size=3)

    @add
    def uniform_bounds(B):
        a = B.rv("a", "halfnormal", 0.0, 1.0)
        u = B.rv("u", "uniform", 0.0, a)
        B.obsrv("Y", "normal", u, 1.3, size=3)

    @add
    def nested_uniforms(B):
        a = B.rv("a", "uniform", 1.0, 2.0)
        u = B.rv("u", "uniform", 0.0, a)
        w = B.rv("w", "uniform", u, a + 1)
        B.obsrv("Y", "normal", w, 1.3, size=3)

    @add
    def layered(B):
        mu = B.rv("mu", "normal", 0.0, 1.0)
        z = B.rv("z", "normal", mu, 2.0, size=3)
        B.obsrv("Y", "normal", z, 1.3)

    @add
    def positive_families(B):
        a = B.rv("a", "gamma", 2.0, 1.5)
        b = B.rv("b", "invgamma", 2.0, 1.5)
        d = B.rv("d", "exponential", 1.5)
        e = B.rv("e", "lognormal", 0.5, 1.5)
        B.obsrv("Y", "normal", a + b - d + e, 1.3, size=2)

    @add
    def other_families(B):
        c = B.rv("c", "beta", 2.0, 1.5)
        f = B.rv("f", "halfcauchy", 0.0, 1.5)
        g = B.rv("g", "laplace", 0.5, 1.5)
        i = B.rv("i", "logistic", 0.2, 0.7)
        B.obsrv("Y", "normal", c + f * g + i, 1.3, size=2)

    @add
    def matrix(B):
        mu = B.rv("mu", "normal", B.inp("m0", np.array([1.0, 2.0])), 1.0, size=(3, 2))
        s = B.rv("s", "halfnormal", 0.0, B.inp("sc", np.array([1.0, 2.0])))
        B.obsrv("Y", "normal", mu, s)

    @add
    def lower_bounds(B):
        s = B.rv("s", "halfnormal", 1.0, 2.0)
        c = B.rv("c", "halfcauchy", 0.5, 2.0)
        B.obsrv("Y", "normal", c, s)

    @add
    def two_observed(B):
        m = B.rv("m", "normal", 0.0, 1.0)
        B.obsrv("Y", "normal", m, 1.0)
        B.obsrv("Z", "poisson", B.exp(m))

    @add
    def unordered_names(B):
        zz = B.rv("zz", "gamma", 2.0, 1.5, size=2)
        aa = B.rv("aa", "beta", 2.0, 1.5, size=(2, 2))
        mm = B.rv("mm", "normal", 0.0, 1.0)
        B.obsrv("Y", "normal", aa * zz + mm, 1.3)

    @add
    def input_scale(B):
        m = B.rv("m", "normal", B.inp("m0", 0.3), B.inp("s0", 1.4), size=2)
        B.obsrv("Y", "normal", m, B.inp("s1", 0.8))

    @add
    def poisson_regression(B):
        X = B.inp("X", xmat(3, 2))
        b = B.rv("b", "normal", 0.0, 1.2, size=2)
        B.obsrv("Y", "poisson", B.exp(B.dot(X, b)))

    @add
    def empty_shape_one(B):
        m = B.rv("m", "normal", 0.0, 1.4, size=1)
        s = B.rv("s", "exponential", 1.2, size=1)
        B.obsrv("Y", "normal", m, s)

    return out


# Families with a log density and a known transformation, as priors.
PRIORS = {
    "normal": (0.3, 1.2), "halfnormal": (0.0, 1.1), "halfcauchy": (0.0, 1.3), "gamma": (2.1, 1.4), "beta": (2.3, 1.6), "exponential": (1.3,),
    "invgamma": (2.4, 1.5), "uniform": (0.2, 1.7), "laplace": (0.2, 0.8), "cauchy": (0.1, 0.9), "logistic": (-0.2, 0.7), "gumbel": (0.1, 0.6),
    "lognormal": (0.1, 0.5), "t": (4.0, 0.2, 0.8), "vonmises": (0.3, 1.4), "triangular": (0.2, 0.9, 1.7), "weibull": (1.8,), "chisquare": (3.2,), "wald": (1.3, 2.1),
}
POSITIVE = ["halfnormal", "halfcauchy", "gamma", "beta", "exponential", "invgamma", "uniform", "lognormal"]
SCALED = {
    "normal": lambda s: (0.2, s), "laplace": lambda s: (0.2, s), "cauchy": lambda s: (0.2, s), "logistic": lambda s: (0.2, s), "halfnormal": lambda s: (0.0, s),
    "halfcauchy": lambda s: (0.0, s), "gamma": lambda s: (2.1, s), "exponential": lambda s: (s,), "invgamma": lambda s: (2.2, s), "uniform": lambda s: (0.1, 0.3 + s),
    "lognormal": lambda s: (0.2, s), "beta": lambda s: (1.0 + s, 1.7),
    "vonmises": lambda s: (0.3, s), "triangular": lambda s: (0.1, 0.1 + 0.4 * s, 0.1 + s), "weibull": lambda s: (s,), "chisquare": lambda s: (s,), "wald": lambda s: (s, 1.5),
}
SHIFTED = {
    "normal": lambda m: (m, 1.1), "laplace": lambda m: (m, 0.9), "cauchy": lambda m: (m, 0.8), "logistic": lambda m: (m, 0.6), "halfnormal": lambda m: (m, 1.1),
    "halfcauchy": lambda m: (m, 1.1), "uniform": lambda m: (m, m + 1.2), "lognormal": lambda m: (m, 0.6),
    "vonmises": lambda m: (m, 1.3), "triangular": lambda m: (m, m + 0.4, m + 1.2),
}


def grammar(full=False):
    """One or two latents of every family, in every shape and dependence."""
    out = []

    def add(name, fn):
        out.append(Program("gram-" + name, fn, expect=None))

    for fam, ps in PRIORS.items():
        for shape in ((), (2,), (2, 2)) if not full else ((), (1,), (2,), (3,), (1, 2), (2, 2)):
            for how in (("const",) if shape else ("const", "inp")) if not full else ("const", "inp", "shared", "vec"):
                if how == "vec" and not shape:
                    continue

                def one(B, fam=fam, ps=ps, shape=shape, how=how):
                    if how == "inp":
                        q = [B.inp(f"p{i}", p) for i, p in enumerate(ps)]
                    elif how == "shared":
                        q = [B.shared(f"p{i}", p) for i, p in enumerate(ps)]
                    elif how == "vec":
                        n = int(np.prod(shape))
                        q = [B.inp(f"p{i}", (p + 0.2 * np.arange(n)).reshape(shape)) for i, p in enumerate(ps)]
                    else:
                        q = ps
                    z = B.rv("z", fam, *q, size=shape if shape and how != "vec" else None)
                    B.obsrv("Y", "normal", z, 1.3, size=(2,) if not shape else None)

                add(f"one-{fam}-{'x'.join(map(str, shape)) or '0'}-{how}", one)
    for par in POSITIVE if full else ["halfnormal", "gamma", "uniform", "beta"]:
        for ch, f in SCALED.items():
            for shape in ((), (2,)) if full else ((),):
                def two(B, par=par, ch=ch, f=f, shape=shape):
                    s = B.rv("s", par, *PRIORS[par])
                    z = B.rv("z", ch, *f(s), size=shape or None)
                    B.obsrv("Y", "normal", z, 1.3, size=None if shape else (2,))

                add(f"scale-{par}-{ch}-{'x'.join(map(str, shape)) or '0'}", two)
    for par in ["normal", "cauchy", "uniform", "gamma"] if full else ["normal", "uniform"]:
        for ch, f in SHIFTED.items():
            def loc(B, par=par, ch=ch, f=f):
                m = B.rv("m", par, *PRIORS[par])
                z = B.rv("z", ch, *f(m), size=(2,))
                B.obsrv("Y", "normal", z, 1.3)

            add(f"loc-{par}-{ch}", loc)
    # the reverse order of definition, names, and observations in between
    def reverse(B):
        zz = B.rv("zz", "uniform", 0.1, 1.4)
        aa = B.rv("aa", "uniform", zz, 3.0)
        mm = B.rv("mm", "uniform", zz, aa)
        B.obsrv("Y", "normal", mm + aa, 1.3, size=(2,))

    add("uniform-chain", reverse)

    def observed_bound(B):
        a = B.rv("a", "gamma", 2.0, 1.0)
        c = B.obsrv("C", "exponential", a)
        u = B.rv("u", "uniform", 0.0, c + 0.5)
        B.obsrv("Y", "normal", u, 0.7, size=(2,))

    add("observed-bound", observed_bound)

    def four(B):
        a = B.rv("a", "gamma", 2.0, 1.0)
        b = B.rv("b", "beta", 2.0, a, size=(2,))
        c = B.rv("c", "normal", b, a, size=(3, 2))
        d = B.rv("d", "uniform", 0.0, a + 1.0, size=(1,))
        B.obsrv("Y", "normal", c + d, 0.7)

    add("four-shapes", four)
    return out


def chains(full=False):
    """Conjugate updates whose hyperparameters other stages update."""
    out = []

    def add(name, fn, **expect):
        out.append(Program("chain-" + name, fn, expect=expect))

    def ladder(B):
        a = B.rv("a", "gamma", 2.0, 1.5)
        b = B.rv("b", "gamma", a, 1.2)
        c = B.rv("c", "gamma", 2.0, b)
        B.obsrv("Y", "poisson", c)
        B.obsrv("Z", "poisson", B.rv("d", "gamma", a, b))

    add("ladder", ladder, c="direct", d="direct", a="nuts", b="nuts")

    def betas(B):
        s = B.rv("s", "exponential", 1.4)
        p = B.rv("p", "beta", s, 1.5)
        q = B.rv("q", "beta", 1.2, s, size=2)
        B.obsrv("Y", "binomial", 4, p)
        B.obsrv("Z", "binomial", B.const(np.array([3, 5])), q)

    add("betas", betas, p="direct", q="direct", s="nuts")

    def both_hyper(B):
        s = B.rv("s", "exponential", 1.4)
        p = B.rv("p", "gamma", s, s + 0.3)
        B.obsrv("Y", "poisson", p)

    add("both-hyper", both_hyper, p="direct", s="nuts")

    def vector_hyper(B):
        s = B.rv("s", "exponential", 1.4, size=3)
        p = B.rv("p", "gamma", 1.7, s)
        B.obsrv("Y", "poisson", p)

    add("vector-hyper", vector_hyper, p="direct", s="nuts")

    def latent_count(B):
        # the posterior of q has the other latent's observation as data
        p = B.rv("p", "beta", 2.0, 1.5)
        y = B.obsrv("Y", "binomial", 6, p)
        q = B.rv("q", "beta", 1.2, 1.7)
        B.obsrv("Z", "binomial", y + 1, q)

    add("observed-trials", latent_count, p="direct", q="direct")

    def order(B):
        # definition order opposite to dependence on the observations
        z = B.rv("z", "gamma", 2.0, 1.0)
        m = B.rv("m", "normal", 0.0, 1.0)
        w = B.rv("w", "gamma", B.exp(m), 1.1)
        B.obsrv("W", "poisson", w)
        B.obsrv("Y", "poisson", z)
        B.obsrv("M", "normal", m, 1.2)

    add("mixed-order", order, z="direct", w="direct", m="nuts")
    return out


def mutants():
    """Near misses of the recognised models: whatever step is chosen, it has to
    be the right one."""
    out = []

    def add(name, fn, kernels=(), **kw):
        out.append(Program("mutant-" + name, fn, kernels=list(kernels), **kw))

    X0 = xmat(3, 2)

    def base(link=None, mean=None, hs=None, fam="bernoulli", loc=(0.0, 0.0), sc=(1.0, 1.0), pr="normal", extra=None, h=3, sd=None, lfam=("halfcauchy", "halfcauchy"), n=None, hrv=None):
        def fn(B):
            X = B.inp("X", X0)
            if sd is not None:
                s = sd(B)
            elif hs is not None:
                tau = B.rv("tau", lfam[0], loc[0], sc[0]) if lfam[0] != "exponential" else B.rv("tau", "exponential", sc[0])
                lam = B.rv("lam", lfam[1], loc[1], sc[1], size=2) if lfam[1] != "exponential" else B.rv("lam", "exponential", sc[1], size=2)
                s = hs(B, lam, tau)
            else:
                s = 1.4
            m = 0.0 if mean is None else mean(B)
            beta = B.rv("beta", pr, m, s, size=2)
            p = B.sigmoid(-(B.dot(X, beta))) if link is None else link(B, X, beta)
            if fam == "bernoulli":
                B.obsrv("Y", "bernoulli", p)
            else:
                hv = hrv(B) if hrv is not None else h
                B.obsrv("Y", "nbinom", hv, p)
            if extra is not None:
                extra(B, beta)

        return fn

    for fam in ("bernoulli", "nbinom"):
        k = [REG]
        add(f"{fam}-positive-link", base(fam=fam, link=lambda B, X, b: B.sigmoid(B.dot(X, b))), k)
        add(f"{fam}-scaled-link", base(fam=fam, link=lambda B, X, b: B.sigmoid(-2.0 * B.dot(X, b))), k)
        add(f"{fam}-half-link", base(fam=fam, link=lambda B, X, b: B.sigmoid(-0.5 * B.dot(X, b))), k)
        add(f"{fam}-offset", base(fam=fam, link=lambda B, X, b: B.sigmoid(-(B.dot(X, b) + B.inp("o", 0.6)))), k)
        add(f"{fam}-intercept", base(fam=fam, link=lambda B, X, b: B.sigmoid(-(B.dot(X, b) + b[0]))), k)
        add(f"{fam}-transposed", base(fam=fam, link=lambda B, X, b: B.sigmoid(-(B.dot(b, X.T)))), k)
        add(f"{fam}-mean", base(fam=fam, mean=lambda B: 0.7), k)
        add(f"{fam}-mean-input", base(fam=fam, mean=lambda B: B.inp("m", np.array([0.4, -0.9]))), k)
        add(f"{fam}-mean-input-scalar", base(fam=fam, mean=lambda B: B.inp("m", 0.4)), k)
        add(f"{fam}-laplace-prior", base(fam=fam, pr="laplace"), ())
        add(f"{fam}-cauchy-prior", base(fam=fam, pr="cauchy"), ())
        add(f"{fam}-scaled-coefficients", base(fam=fam, link=lambda B, X, b: B.sigmoid(-(B.dot(X, 2.0 * b)))), k)
        add(f"{fam}-coefficients-observed-again", base(fam=fam, extra=lambda B, b: B.obsrv("W", "normal", B.sum(b), 1.0)), ())
        add(f"{fam}-prior-sd-input-matrix-free", base(fam=fam, sd=lambda B: B.exp(B.inp("ls", np.array([0.1, -0.4])))), k)
        add(f"{fam}-design-depends", base(fam=fam, link=lambda B, X, b: B.sigmoid(-(B.dot(X * B.exp(b[0]), b)))), ())

    for nm, kw in {
        "tau-scale": dict(sc=(2.0, 1.0)), "lam-scale": dict(sc=(1.0, 0.5)), "tau-loc": dict(loc=(0.3, 0.0)), "lam-loc": dict(loc=(0.0, 0.2)),
        "tau-halfnormal": dict(lfam=("halfnormal", "halfcauchy")), "lam-halfnormal": dict(lfam=("halfcauchy", "halfnormal")),
        "lam-exponential": dict(lfam=("halfcauchy", "exponential")), "tau-exponential": dict(lfam=("exponential", "halfcauchy")),
    }.items():
        add("hs-" + nm, base(hs=lambda B, l, t: l * t, **kw), [REG, HS] if False else [REG])
    add("hs-three-factors", base(hs=lambda B, l, t: l * t * B.inp("c", 1.7)), [REG])
    add("hs-constant-factor", base(hs=lambda B, l, t: 2.0 * l * t), [REG])
    add("hs-constant-variadic", base(hs=lambda B, l, t: B.mul(2.0, l, t)), [REG])
    add("hs-constant-variadic-last", base(hs=lambda B, l, t: B.mul(t, l, 0.5)), [REG])
    add("hs-shared-factor", base(hs=lambda B, l, t: B.shared("c", 1.7) * l * t), [REG])
    add("hs-shared-variadic", base(hs=lambda B, l, t: B.mul(l, B.shared("c", 1.7), t)), [REG])
    add("hs-sum", base(hs=lambda B, l, t: l + t), [REG])
    add("hs-sqrt", base(hs=lambda B, l, t: B.sqrt(l * t)), [REG])
    add("hs-variance", base(hs=lambda B, l, t: l * l * t), [REG])
    add("hs-global-only", base(hs=lambda B, l, t: t * B.inp("c", np.array([1.0, 1.7])) + 0.0 * l), [REG])
    add("hs-mean", base(hs=lambda B, l, t: l * t, mean=lambda B: 0.7), [REG])
    add("hs-laplace", base(hs=lambda B, l, t: l * t, pr="laplace"), ())

    def hs_extra_dep(B):
        X = B.inp("X", X0)
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
        lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=2)
        beta = B.rv("beta", "normal", 0.0, lam * tau, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))
        B.obsrv("W", "normal", 0.0, tau)

    add("hs-tau-used-twice", hs_extra_dep, [REG])

    def hs_no_lam(B):
        X = B.inp("X", X0)
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
        lam = B.rv("lam", "halfcauchy", 0.0, 1.0)
        beta = B.rv("beta", "normal", 0.0, lam * tau, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))

    add("hs-scalar-lambda", hs_no_lam, [REG])

    def hs_vec_both(B):
        X = B.inp("X", X0)
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0, size=2)
        lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=2)
        beta = B.rv("beta", "normal", 0.0, lam * tau, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))

    add("hs-vector-tau", hs_vec_both, [REG])

    nb = dict(fam="nbinom")
    D = [REG, DISP]
    add("disp-exponential", base(hrv=lambda B: B.rv("h", "exponential", 1.5), **nb), [REG])
    add("disp-lognormal", base(hrv=lambda B: B.rv("h", "lognormal", 0.2, 0.5), **nb), [REG])
    add("disp-vector", base(hrv=lambda B: B.rv("h", "gamma", 2.0, 1.5, size=3), **nb), [REG])
    add("disp-scaled", base(hrv=lambda B: 2.0 * B.rv("h", "gamma", 2.0, 1.5), **nb), [REG])
    add("disp-shifted", base(hrv=lambda B: 1.0 + B.rv("h", "gamma", 2.0, 1.5), **nb), [REG])

    def disp_twice(B):
        X = B.inp("X", X0)
        h = B.rv("h", "gamma", 2.0, 1.5)
        beta = B.rv("beta", "normal", 0.0, 1.2, size=2)
        B.obsrv("Y", "nbinom", h, B.sigmoid(-(B.dot(X, beta))))
        B.obsrv("W", "poisson", h)

    add("disp-used-twice", disp_twice, [REG])

    def no_beta(B):
        X = B.inp("X", X0)
        h = B.rv("h", "gamma", 2.0, 1.5)
        B.obsrv("Y", "nbinom", h, B.sigmoid(-(B.dot(X, B.inp("bb", np.array([0.4, -0.7]))))))

    add("disp-known-coefficients", no_beta, ())

    def scalar_reg(B):
        x = B.inp("x", np.array([0.3, -1.0, 0.8]))
        beta = B.rv("beta", "normal", 0.0, 1.2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(x * beta)))

    add("scalar-coefficient", scalar_reg, ())

    def mat_coef(B):
        X = B.inp("X", X0)
        beta = B.rv("beta", "normal", 0.0, 1.2, size=(2, 2))
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))

    add("matrix-coefficients", mat_coef, ())

    def vec_dot(B):
        x = B.inp("x", np.array([0.3, -1.0]))
        beta = B.rv("beta", "normal", 0.0, 1.2, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(x, beta))))

    add("vector-design", vec_dot, ())

    def replicated(B):
        X = B.inp("X", X0)
        beta = B.rv("beta", "normal", 0.0, 1.2, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))), size=(2, 3))

    add("replicated-observations", replicated, ())

    def replicated_nb(B):
        X = B.inp("X", X0)
        beta = B.rv("beta", "normal", 0.0, 1.2, size=2)
        B.obsrv("Y", "nbinom", 3, B.sigmoid(-(B.dot(X, beta))), size=(2, 3))

    add("replicated-counts", replicated_nb, ())

    def mat_beta_rep(B):
        X = B.inp("X", X0)
        sd = B.inp("sd", np.array([[0.8], [1.6]]))
        beta = B.rv("beta", "normal", 0.0, 1.2, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))
        B.obsrv("W", "normal", beta, sd)

    add("coefficients-with-noisy-copy", mat_beta_rep, ())
    def squared(z, link):
        def fn(B):
            tau = B.rv("tau", "halfcauchy", 0.0, 1.0, size=z)
            beta = B.rv("beta", "normal", 0.0, tau * tau, size=1)
            if link:
                B.obsrv("Y", "bernoulli", B.sigmoid(-B.dot(B.inp("X", xmat(3, 1)), beta)))
            else:
                B.obsrv("Y", "normal", beta * B.inp("x", np.array([0.3, -1.0, 0.8])), 0.9)
        return fn

    add("hs-squared-tau", squared(1, False), [HS])
    add("hs-squared-tau-reg", squared(1, True), [HS, REG])
    add("hs-squared-scalar", squared(None, True), [HS, REG])
    return out


def shared_data():
    """Models that hold their data in shared variables."""
    out = []

    def add(name, fn, kernels=(), **expect):
        out.append(Program("shared-" + name, fn, kernels=list(kernels), expect=expect))

    def gp(B):
        z = B.rv("z", "gamma", B.shared("a", 2.2), B.shared("b", 1.7))
        B.obsrv("Y", "poisson", z)

    add("gamma-poisson", gp, z="direct")

    def gpv(B):
        z = B.rv("z", "gamma", B.shared("a", np.array([2.2, 0.7])), B.shared("b", 1.7))
        B.obsrv("Y", "poisson", z)

    add("gamma-poisson-vector", gpv, z="direct")

    def bb(B):
        z = B.rv("z", "beta", B.shared("a", 2.2), 1.7, size=2)
        B.obsrv("Y", "binomial", B.shared("n", np.array([3, 5])), z)

    add("beta-binomial", bb, z="direct")

    def bern(B):
        X = B.shared("X", xmat(3, 2))
        beta = B.rv("beta", "normal", 0.0, B.shared("sd", np.array([0.7, 1.2])), size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))

    add("bernoulli-regression", bern, [REG], beta="reg")

    def nbin(B):
        X = B.shared("X", xmat(3, 2))
        h = B.rv("h", "gamma", B.shared("a", 2.0), B.shared("b", 1.5))
        beta = B.rv("beta", "normal", 0.0, 1.3, size=2)
        B.obsrv("Y", "nbinom", h, B.sigmoid(-(B.dot(X, beta))))

    add("nbinom-regression", nbin, [REG, DISP], beta="reg", h="disp")

    def hs(B):
        X = B.shared("X", xmat(3, 2))
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
        lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=B.ncols(X))
        beta = B.rv("beta", "normal", 0.0, lam * tau, size=B.ncols(X))
        B.obsrv("Y", "nbinom", B.shared("h", 2.5), B.sigmoid(-(B.dot(X, beta))))

    add("horseshoe", hs, [HS, REG], beta="reg", lam="hs", tau="hs")

    def scale(B):
        X = B.shared("X", xmat(3, 2))
        s = B.rv("s", "halfnormal", 0.0, 1.0)
        beta = B.rv("beta", "normal", 0.0, B.shared("c", np.array([0.7, 1.2])) * s, size=2)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(X, beta))))

    add("scaled-prior", scale, [REG], beta="reg", s="nuts")

    def nuts(B):
        m = B.rv("m", "normal", B.shared("m0", np.array([0.2, -0.5])), 1.3)
        s = B.rv("s", "halfnormal", 0.0, B.shared("s0", 1.4))
        B.obsrv("Y", "normal", m * s, B.shared("s1", 0.8))

    add("normal", nuts, m="nuts", s="nuts")

    def row(B):
        x = B.shared("x", np.array([0.2, -0.5, 0.9]))
        m = B.rv("m", "normal", 0.0, 1.3)
        B.obsrv("Y", "normal", m * x + B.shared("c", 0.3), 0.8)

    add("broadcast-slope", row, m="nuts")
    return out


LINKS = {  # spelling of the success probability -> is the specialised update documented for it
    "neg": (True, lambda X, b: at.sigmoid(-(X.dot(b)))),
    "matmul": (True, lambda X, b: at.sigmoid(-(X @ b))),
    "dot-function": (True, lambda X, b: at.sigmoid(at.neg(at.dot(X, b)))),
    "expit": (True, lambda X, b: at.expit(-(X @ b))),
    "copy": (True, lambda X, b: at.sigmoid(-(X @ b)).copy()),
    "three-minus": (True, lambda X, b: at.sigmoid(-(-(-(X @ b))))),
    "named": (True, lambda X, b: named(at.sigmoid(named(-named(X @ b, "eta"), "m")), "p")),
    "minus-X": (False, lambda X, b: at.sigmoid((-X) @ b)),
    "minus-b": (False, lambda X, b: at.sigmoid(X @ (-b))),
    "times-minus-one": (False, lambda X, b: at.sigmoid(-1 * (X @ b))),
    "zero-minus": (False, lambda X, b: at.sigmoid(0 - (X @ b))),
    "reciprocal": (False, lambda X, b: 1 / (1 + at.exp(X @ b))),
    "complement": (False, lambda X, b: 1 - at.sigmoid(X @ b)),
    "sum": (False, lambda X, b: at.sigmoid(-(X * b).sum(axis=1))),
    "column": (False, lambda X, b: at.sigmoid(-((X @ b[:, None])[:, 0]))),
    "divided": (False, lambda X, b: at.sigmoid(-(X @ b) / 1.0)),
    "transposed-row": (False, lambda X, b: at.sigmoid(-(b @ X.T))),
    "plus-zero": (False, lambda X, b: at.sigmoid(-(X @ b) + 0.0)),
    "even-minus": (False, lambda X, b: 1.0 - at.sigmoid(-(-(X @ b)))),
    "half-twice": (False, lambda X, b: at.sigmoid(-(0.5 * (X @ b) + 0.5 * (X @ b)))),
}
NORMALS = {
    "int": (True, lambda s, n, p, nm: s.normal(0, 1, size=n, name=nm), 1.0),
    "float": (True, lambda s, n, p, nm: s.normal(0.0, 1.5, size=n, name=nm), 1.5),
    "tuple-size": (True, lambda s, n, p, nm: s.normal(0, 1, size=(n,), name=nm), 1.0),
    "int-size": (True, lambda s, n, p, nm: s.normal(0, 2, size=p, name=nm), 2.0),
    "zeros": (True, lambda s, n, p, nm: s.normal(np.zeros(p), 1.5, name=nm), 1.5),
    "at-zeros": (True, lambda s, n, p, nm: s.normal(at.zeros(p), 1.5, name=nm), 1.5),
    "ones": (True, lambda s, n, p, nm: s.normal(0, 2 * at.ones(n), name=nm), 2.0),
    "keywords": (True, lambda s, n, p, nm: s.normal(loc=0, scale=2.0, size=n, name=nm), 2.0),
    "defaults": (True, lambda s, n, p, nm: s.normal(size=n, name=nm), 1.0),
    "zeros-like": (False, lambda s, n, p, nm: s.normal(at.zeros(n), 1.5, name=nm), 1.5),
    "mixture": (False, lambda s, n, p, nm: s.normal(at.constant(0.0) * 2, 1.5, size=n, name=nm), 1.5),
}
PRODUCTS = {
    "lam*tau": (True, lambda lam, tau: lam * tau), "tau*lam": (True, lambda lam, tau: tau * lam),
    "mul": (True, lambda lam, tau: at.mul(lam, tau)), "padded": (True, lambda lam, tau: lam * tau[None]),
    "padded-first": (True, lambda lam, tau: at.shape_padleft(tau) * lam), "named": (True, lambda lam, tau: named(tau * lam, "s")),
    "times-one": (False, lambda lam, tau: 1.0 * lam * tau), "ones": (False, lambda lam, tau: lam * at.ones_like(lam) * tau),
    "divided": (False, lambda lam, tau: lam / (1.0 / tau)), "log": (False, lambda lam, tau: at.exp(at.log(lam) + at.log(tau))),
    "alloc": (False, lambda lam, tau: lam * (at.zeros_like(lam) + tau)),
}


def named(x, name):
    x.name = name
    return x


def spelled(pairs=False):
    """The documented models in other words."""
    import scipy.special as sp

    out = []

    def model(name, fam, link, prior=None, prod=None, size="cols", n=3, p=2, h=None, first="tau"):
        must, lf = LINKS[link]
        expect = {}
        if prior is not None:
            must = must and NORMALS[prior][0]

        def fn(B):
            X = B.inp("X", xmat(n, p))
            hv = None
            if fam == "nbinom":
                hv = {"int": lambda: 3, "gamma": lambda: B.rv("h", "gamma", 2.0, 1.5), "inp": lambda: B.inp("hh", 2.5)}[h or "int"]()
            cols = X.shape[1]
            if prod is not None:
                z = cols if size == "cols" else p

                def t():
                    return B.rv("tau", "halfcauchy", 0, 1)

                def ll():
                    return B.rv("lam", "halfcauchy", 0, 1, size=z)

                if first == "tau":
                    tau, lam = t(), ll()
                else:
                    lam, tau = ll(), t()
                beta = B.rv("beta", "normal", 0, B.alt(lambda: PRODUCTS[prod][1](lam, tau), lambda: lam * tau), size=z)
            elif B.num:
                beta = B.rv("beta", "normal", 0.0, NORMALS[prior][2], size=p)
            else:
                beta = NORMALS[prior][1](B.srng, cols, p, "beta")
                B.rvs["beta"] = beta
            pr = B.alt(lambda: lf(X, beta), lambda: sp.expit(-(X @ beta)))
            if fam == "nbinom":
                B.obsrv("Y", "nbinom", hv, pr)
            else:
                B.obsrv("Y", "bernoulli", pr)

        if must:
            expect["beta"] = "reg"
            if h == "gamma":
                expect["h"] = "disp"
        if prod is not None and PRODUCTS[prod][0]:
            expect.update(lam="hs", tau="hs")
        ks = [HS] * (prod is not None) + [REG] + [DISP] * (h == "gamma")
        out.append(Program("spelled-" + name, fn, kernels=ks, expect=expect, n=n, p=p))

    if pairs:
        for fam in ("bernoulli", "nbinom"):
            for link in LINKS:
                for prod in PRODUCTS:
                    model(f"{fam}-pair-{link}-{prod}", fam, link, prod=prod, first="lam", h="gamma" if prod == "tau*lam" and fam == "nbinom" else None)
                for prior in NORMALS:
                    model(f"{fam}-pair-{link}-prior-{prior}", fam, link, prior=prior)
        return out
    for fam in ("bernoulli", "nbinom"):
        for link in LINKS:
            model(f"{fam}-link-{link}", fam, link, prior="int")
            if link != "neg":
                model(f"{fam}-hs-link-{link}", fam, link, prod="lam*tau")
        for prior in NORMALS:
            model(f"{fam}-prior-{prior}", fam, "neg", prior=prior)
        for prod in PRODUCTS:
            for size in ("cols", "int"):
                for p in (1, 2):
                    model(f"{fam}-product-{prod}-{size}-{p}", fam, "neg", prod=prod, size=size, p=p, first="tau" if size == "cols" else "lam")
    for link in LINKS:
        model(f"disp-link-{link}", "nbinom", link, prior="float", h="gamma")
    for prior in NORMALS:
        model(f"disp-prior-{prior}", "nbinom", "matmul", prior=prior, h="gamma")
    return out


INTS = ("int8", "uint8", "int32", "uint16", "int64", "bool", "float32")


def imat(n, p, dtype):
    """A design matrix of the given type (counts, indicators, coded factors)."""
    i, k = np.arange(n)[:, None], np.arange(p)[None, :]
    if dtype == "bool":
        return (i + 2 * k + i * k) % 3 != 1
    if dtype.startswith("float"):
        return xmat(n, p).astype(dtype)
    v = (2 * i + 3 * k + i * i * k) % 5
    return (v - (0 if dtype.startswith("uint") else 2)).astype(dtype)


def typed(full=False):
    """Data and hyperparameters of other types than the default float."""
    out = []

    def put(B, how, name, val, dtype):
        val = np.asarray(val, dtype)
        if how == "inp":
            return B.inp(name, val, dtype)
        return B.const(val) if how == "const" else B.shared(name, val)

    def regm(dt, how, fam, kind, n=4, p=2):
        def fn(B):
            X = put(B, how, "X", imat(n, p, dt), dt)
            if kind == "hs":
                tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
                lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=p)
                sd = lam * tau
            elif kind == "isd":
                sd = put(B, how, "sd", np.array([20, 3])[:p], "int8")
            elif kind == "usd":
                sd = put(B, how, "sd", np.uint8(17), "uint8")
            elif kind == "fsd":
                sd = put(B, how, "sd", np.array([0.75, 1.5])[:p], "float32")
            else:
                sd = B.inp("sd", 1.3)
            beta = B.rv("beta", "normal", 0.0, sd, size=p)
            eta = B.sigmoid(-(B.dot(X, beta)))
            if fam == "bernoulli":
                B.obsrv("Y", "bernoulli", eta)
                return
            if kind == "gamma":
                h = B.rv("h", "gamma", put(B, how, "a", 2, "int8"), put(B, how, "b", 3, "uint8"))
            elif kind in ("isd", "usd"):
                h = put(B, how, "hh", 120, "int8") if kind == "isd" else put(B, how, "hh", [250, 3, 200, 1][:n], "uint8")
            else:
                h = B.inp("hh", 1.8)
            B.obsrv("Y", "nbinom", h, eta)

        ks, expect = [REG], {"beta": "reg"}
        if kind == "hs":
            ks = [HS] + ks
            expect.update(lam="hs", tau="hs")
        if kind == "gamma" and fam == "nbinom":
            ks = ks + [DISP]
            expect["h"] = "disp"
        out.append(Program(f"typed-reg-{fam}-{kind}-{dt}-{how}", fn, kernels=ks, expect=expect, n=n, p=p))

    hows = ("inp", "const", "shared")
    for i, dt in enumerate(INTS):
        for j, how in enumerate(hows if full else (hows[i % 3],)):
            regm(dt, how, "bernoulli", "sd")
            regm(dt, how, "nbinom", "sd")
            regm(dt, how, "nbinom", "gamma")
        regm(dt, hows[(i + 1) % 3], "bernoulli" if i % 2 else "nbinom", "hs")
    for how in hows:
        for kind in ("isd", "usd", "fsd"):
            for fam in ("bernoulli", "nbinom"):
                regm("float64", how, fam, kind)
                if full:
                    regm("uint8", how, fam, kind)

    def conjm(kind, how, tag, a, b, n=None, size=None):
        def fn(B):
            pa, pb = put(B, how, "a", *a), put(B, how, "b", *b)
            z = B.rv("z", PRIOR[kind], pa, pb, size=size)
            if kind == "gp":
                B.obsrv("Y", "poisson", z)
            else:
                B.obsrv("Y", "binomial" if kind == "bb" else "nbinom", put(B, how, "n", *n), z)

        out.append(Program(f"typed-conj-{kind}-{tag}-{how}", fn, expect={"z": "direct"}))

    for how in hows:
        conjm("gp", how, "int8", (126, "int8"), (127, "int8"))
        conjm("gp", how, "uint8", ([255, 3], "uint8"), (2, "uint8"))
        conjm("gp", how, "mixed", ([2.5, 1.5], "float32"), (2, "int32"))
        conjm("bb", how, "int8", (100, "int8"), (100, "int8"), (127, "int8"))
        conjm("bb", how, "uint8", ([250, 2], "uint8"), (100, "uint8"), ([200, 9], "uint8"))
        conjm("bb", how, "mixed", ([0.5, 1.5, 2.25], "float32"), (3, "int16"), ([7, 5, 2], "uint16"))
        conjm("bb", how, "sized", (1, "int8"), (1, "uint8"), (30000, "int16"), size=3)
        conjm("bnb", how, "int64", (2, "int64"), (3, "int64"), (6, "int64"))
        conjm("bnb", how, "mixed", ([0.5, 2.25], "float32"), (3, "int32"), (6, "int64"))

    def nuts(B):
        x = B.inp("x", np.array([0, 3, 1]), "uint8")
        m = B.rv("m", "normal", B.inp("m0", 1, "int8"), B.inp("s0", np.array([2, 1, 3]), "uint8"))
        g = B.rv("g", "gamma", B.inp("ga", 3, "int8"), 2.0)
        B.obsrv("Y", "normal", m * g + x, B.inp("s1", 2, "int16"))

    out.append(Program("typed-nuts", nuts, expect={"m": "nuts", "g": "nuts"}))
    return out


def vectors(full=False):
    """Variables and observations that are vectors, angles, counts of other
    families."""
    out = []

    def add(name, fn, **kw):
        out.append(Program("vectors-" + name, fn, expect=None, **kw))

    al = np.array([1.2, 2.5, 3.1])
    cov = np.array([[1.5, 0.4, -0.2], [0.4, 0.9, 0.3], [-0.2, 0.3, 2.1]])
    alphas = {
        "const": lambda B: B.const(al), "inp": lambda B: B.inp("al", al), "shared": lambda B: B.shared("al", al), "two": lambda B: B.inp("al", al[:2]),
        "scaled": lambda B: B.rv("c", "gamma", 2.0, 1.4) * B.const(al), "random": lambda B: B.rv("c", "gamma", 2.0, 1.4, size=3),
        "rows": lambda B: B.inp("al", np.stack([al, al[::-1]])),
    }
    for how, f in alphas.items():
        for size in (None, 2, (2, 2)) if full or how in ("const", "random") else (None, 2):
            if how == "rows" and size is not None:
                continue

            def simplex(B, f=f, size=size):
                p = B.rv("p", "dirichlet", f(B), size=size)
                B.obsrv("Y", "normal", p, 0.4)

            add(f"dirichlet-{how}-{size}", simplex)

    def weights(B):
        p = B.rv("p", "dirichlet", B.const(al))
        B.obsrv("Y", "categorical", p, size=(5,))

    add("categorical", weights)

    def mixed(B):
        z = B.rv("z", "normal", 0.0, 1.0, size=2)
        q = B.rv("q", "dirichlet", B.const(al), size=2)
        a = B.rv("a", "gamma", 2.0, 1.0)
        p = B.rv("p", "dirichlet", B.const(al + 0.5))
        x = B.inp("x", xmat(2, 3))
        B.obsrv("Y", "normal", B.sum(q * x) + z * a + B.dot(x, p), 0.7)

    add("mixed", mixed)

    def gibbs(B):
        p = B.rv("p", "dirichlet", B.const(al))
        z = B.rv("z", "gamma", p + 0.5, 1.3)
        B.obsrv("Y", "poisson", z)

    add("dirichlet-gamma-poisson", gibbs)

    def tied(B):
        p = B.rv("p", "dirichlet", B.const(al))
        beta = B.rv("beta", "normal", 0.0, p, size=3)
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(B.inp("X", xmat(2, 3)), beta))))

    add("dirichlet-regression", tied, kernels=[REG])
    for size in (None, 2):
        def mvn(B, size=size):
            m = B.rv("m", "multivariate_normal", B.inp("mu", np.array([0.3, -0.2, 0.8])), B.inp("C", cov), size=size)
            B.obsrv("Y", "normal", m, 0.6)

        add(f"mvn-{size}", mvn)

    def mvn_scaled(B):
        s = B.rv("s", "halfnormal", 0.0, 1.2)
        m = B.rv("m", "multivariate_normal", B.const(np.zeros(3)), s * B.const(cov))
        t = B.rv("t", "normal", 0.2, s)
        B.obsrv("Y", "normal", m + t, 0.6)

    add("mvn-scaled", mvn_scaled)

    def mvn_observed(B):
        m = B.rv("m", "normal", 0.2, 1.4, size=3)
        s = B.rv("s", "gamma", 2.0, 1.4)
        B.obsrv("Y", "multivariate_normal", m, s * B.const(cov))

    add("mvn-observed", mvn_observed)

    def mvn_regression(B):
        m = B.rv("beta", "multivariate_normal", B.const(np.zeros(3)), B.const(cov))
        B.obsrv("Y", "bernoulli", B.sigmoid(-(B.dot(B.inp("X", xmat(2, 3)), m))))

    add("mvn-regression", mvn_regression)
    observed = {
        "vonmises": lambda B, u, v: (u(), v()), "weibull": lambda B, u, v: (v(),), "chisquare": lambda B, u, v: (v(),), "wald": lambda B, u, v: (v(), 1.3),
        "triangular": lambda B, u, v: (-3.0, u() / 20.0, 3.0 + v()), "betabinom": lambda B, u, v: (6, v(), 1.4), "lognormal": lambda B, u, v: (u(), v()), "t": lambda B, u, v: (3.0, u(), v()),
        "laplace": lambda B, u, v: (u(), v()), "beta": lambda B, u, v: (v(), 1.6), "geometric": lambda B, u, v: (B.sigmoid(u()),), "invgamma": lambda B, u, v: (2.1, v()),
        "cauchy": lambda B, u, v: (u(), v()), "gumbel": lambda B, u, v: (u(), 0.5 + v()), "logistic": lambda B, u, v: (u(), v()), "exponential": lambda B, u, v: (v(),),
    }
    for fam, f in observed.items():
        def obs(B, fam=fam, f=f):
            u = lambda: B.rv("u", "normal", 0.1, 1.2)  # noqa: E731
            v = lambda: B.rv("v", "gamma", 2.3, 1.1)  # noqa: E731
            B.obsrv("Y", fam, *f(B, u, v), size=(3,))

        add("observed-" + fam, obs)
    return out


DESIGNS = {  # how the design matrix follows from the given data
    "intercept": (lambda X: at.concatenate([at.ones((X.shape[0], 1)), X], axis=1), lambda X: np.concatenate([np.ones((len(X), 1)), X], 1)),
    "standardised": (lambda X: (X - X.mean(axis=0)) / X.std(axis=0), lambda X: (X - X.mean(0)) / X.std(0)),
    "columns": (lambda X: X[:, :2], lambda X: X[:, :2]),
    "rows": (lambda X: X[1:], lambda X: X[1:]),
    "transposed": (lambda X: X.T, lambda X: X.T),
    "stacked": (lambda X: at.stack([X[:, 0], X[:, 1] ** 2], axis=1), lambda X: np.stack([X[:, 0], X[:, 1] ** 2], 1)),
    "negated": (lambda X: -X, lambda X: -X),
    "scaled": (lambda X: 2.0 * X, lambda X: 2.0 * X),
    "product": (lambda X: X.dot(X.T[:, :2]), lambda X: X @ X.T[:, :2]),
    "outer": (lambda X: X[:, 0][:, None] * X[0][None, :], lambda X: X[:, :1] * X[:1]),
    "clipped": (lambda X: at.clip(X, -0.5, 0.5), lambda X: np.clip(X, -0.5, 0.5)),
    "one-column": (lambda X: X[:, 0][:, None], lambda X: X[:, :1]),
}


def derived(full=False):
    """Designs and hyperparameters that are expressions of data or of other
    variables."""
    out = []

    def add(name, fn, kernels=(), **expect):
        out.append(Program("derived-" + name, fn, kernels=list(kernels), expect=expect))

    def design(dname, fam, how, kind):
        gf, nf = DESIGNS[dname]

        def fn(B):
            raw = xmat(3, 3, 2) if dname != "standardised" else xmat(4, 2, 2)
            R = B.inp("X", raw) if how == "inp" else B.shared("X", raw) if how == "shared" else B.const(raw)
            X = B.alt(lambda: gf(R), lambda: nf(R))
            p = nf(raw).shape[1]
            if kind == "hs":
                tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
                lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=p)
                sd = lam * tau
            else:
                sd = B.inp("sd", 1.3)
            beta = B.rv("beta", "normal", 0.0, sd, size=p)
            pr = B.sigmoid(-(B.dot(X, beta)))
            if fam == "bernoulli":
                B.obsrv("Y", "bernoulli", pr)
            else:
                h = B.rv("h", "gamma", 2.0, 1.5) if kind == "gamma" else B.inp("hh", 1.8)
                B.obsrv("Y", "nbinom", h, pr)

        ks, expect = [REG], {"beta": "reg"}
        if kind == "hs":
            ks = [HS] + ks
            expect.update(lam="hs", tau="hs")
        if kind == "gamma":
            ks = ks + [DISP]
            expect["h"] = "disp"
        n, p = nf(xmat(3, 3)).shape if dname != "standardised" else (4, 2)
        out.append(Program(f"derived-reg-{fam}-{kind}-{dname}-{how}", fn, kernels=ks, expect=expect, n=n, p=p))

    hows = ("inp", "shared", "const")
    for i, d in enumerate(DESIGNS):
        for how in hows if full else (hows[i % 2],):
            design(d, "bernoulli", how, "sd")
            design(d, "nbinom", how, ("sd", "gamma")[i % 2])
            if full or i % 4 == 0:
                design(d, "bernoulli", how, "hs")

    def scale(name, fn, sg=None, **expect):
        """The prior scale of the coefficients."""
        for fam in ("bernoulli", "nbinom"):
            def model(B, fam=fam):
                X = B.inp("X", xmat(3, 2))
                beta = B.rv("beta", "normal", 0.0, fn(B), size=2)
                pr = B.sigmoid(-(B.dot(X, beta)))
                if fam == "bernoulli":
                    B.obsrv("Y", "bernoulli", pr)
                else:
                    B.obsrv("Y", "nbinom", B.exp(B.inp("lh", 0.4)), pr)

            out.append(Program(f"derived-scale-{fam}-{name}", model, kernels=[REG], expect=dict(expect, beta="reg"), n=3, p=2))

    scale("variance", lambda B: B.sqrt(B.inp("v", 2.3)))
    scale("variances", lambda B: B.sqrt(B.inp("v", np.array([2.3, 0.4]))))
    scale("precision", lambda B: 1.0 / B.sqrt(B.inp("v", 2.3)))
    scale("log", lambda B: B.exp(B.inp("ls", -0.3)))
    scale("random-precision", lambda B: 1.0 / B.sqrt(B.rv("q", "gamma", 2.0, 1.3)), q="nuts")
    scale("random-variance", lambda B: B.sqrt(B.rv("q", "invgamma", 2.0, 1.3)), q="nuts")
    scale("random-log", lambda B: B.exp(B.rv("q", "normal", -0.2, 0.8)), q="nuts")
    scale("random-logs", lambda B: B.exp(B.rv("q", "normal", -0.2, 0.8, size=2)), q="nuts")
    scale("two-random", lambda B: B.rv("q", "halfnormal", 0.0, 1.2) * B.rv("w", "gamma", 2.0, 1.3, size=2), q="nuts", w="nuts")
    scale("sum", lambda B: B.rv("q", "halfnormal", 0.0, 1.2) + 0.3, q="nuts")
    scale("per-group", lambda B: B.alt(lambda: (lambda q: at.stack([q, 3 * q]))(B.rv("q", "halfnormal", 0.0, 1.2)), lambda: (lambda q: np.stack([q, 3 * q]))(B.rv("q", "halfnormal", 0.0, 1.2))), q="nuts")

    def disp(name, fa, **expect):
        def model(B):
            X = B.inp("X", xmat(3, 2))
            a, b = fa(B)
            h = B.rv("h", "gamma", a, b)
            beta = B.rv("beta", "normal", 0.0, 1.2, size=2)
            B.obsrv("Y", "nbinom", h, B.sigmoid(-(B.dot(X, beta))))

        out.append(Program(f"derived-disp-{name}", model, kernels=[REG, DISP], expect=dict(expect, beta="reg", h="disp"), n=3, p=2))

    disp("scale", lambda B: (2.0, 1.0 / B.inp("sc", 0.6)))
    disp("moments", lambda B: (lambda m, v: (m * m / v, m / v))(B.inp("m", 1.7), B.inp("v", 0.9)))
    disp("random-scale", lambda B: (2.0, 1.0 / B.rv("q", "halfnormal", 0.0, 1.1)), q="nuts")
    disp("random-mean", lambda B: (lambda m: (1.5, 1.5 / m))(B.rv("q", "lognormal", 0.2, 0.6)), q="nuts")
    disp("random-both", lambda B: (lambda m: (m + 1.0, m))(B.rv("q", "gamma", 2.0, 1.1)), q="nuts")

    def pair(kind, name, fa, fnum=None, size=None, **expect):
        def model(B):
            a, b = fa(B)
            z = B.rv("z", PRIOR[kind], a, b, size=size)
            if kind == "gp":
                B.obsrv("Y", "poisson", z)
            else:
                B.obsrv("Y", "binomial" if kind == "bb" else "nbinom", fnum(B) if fnum else 5, z)

        out.append(Program(f"derived-conj-{kind}-{name}", model, expect=dict(expect, z="direct")))

    for kind in ("gp", "bb", "bnb"):
        pair(kind, "mean-count", lambda B: (lambda m, n: (m * n, (1.0 - m) * n))(B.inp("m", 0.3), B.inp("nu", 4.0)))
        pair(kind, "mean-counts", lambda B: (lambda m, n: (m * n, (1.0 - m) * n))(B.inp("m", np.array([0.3, 0.7, 0.5])), B.inp("nu", 4.0)))
        pair(kind, "logs", lambda B: (B.exp(B.inp("la", 0.3)), B.exp(B.inp("lb", np.array([0.7, -0.4])))))
        pair(kind, "random-logs", lambda B: (B.exp(B.rv("q", "normal", 0.2, 0.5)), 1.3), q="nuts")
        pair(kind, "random-mean", lambda B: (lambda m, n: (m * n, (1.0 - m) * n))(B.rv("q", "beta", 2.0, 3.0), 4.0), q="nuts")
        pair(kind, "random-mean-sized", lambda B: (lambda m, n: (m * n + 0.5, (1.0 - m) * n + 0.5))(B.rv("q", "beta", 2.0, 3.0), B.rv("w", "gamma", 3.0, 0.8)), size=3, q="nuts", w="nuts")
        pair(kind, "inverse", lambda B: (1.4, 1.0 / B.rv("q", "halfnormal", 0.0, 1.1)), q="nuts")
        if kind != "gp":
            pair(kind, "trials", lambda B: (1.4, 2.2), lambda B: B.inp("n", np.array([3, 5]), "int64") + 1, size=2)
            pair(kind, "trials-sum", lambda B: (1.4, 2.2), lambda B: B.sum(B.inp("n", np.array([3, 5]), "int64")))
    return out


def large():
    """Sizes, numbers of variables and numbers of stages beyond the small ones."""
    out = []
    for kind in ("gp", "bb", "bnb"):
        vn = "const" if kind == "gp" else "vec"
        out.append(conj(kind, ("vec", "vec"), (12,), vn, sized=False))
        out.append(conj(kind, ("const", "inp"), (2, 3, 2), vn))
        out.append(conj(kind, ("inp", "const"), (40,), "const"))
    out += [
        reg("bernoulli", "vec", "const", 12, 9), reg("bernoulli", "inp", "const", 5, 12), reg("nbinom", "vec", "vec", 12, 9), reg("nbinom", "const", "const", 30, 3),
        reg("nbinom", "inp", "gamma-inp", 6, 3), reg("bernoulli", "hs", "const", 6, 12), reg("nbinom", "hs", "gamma-inp", 4, 9),
    ]

    def add(name, fn, kernels=(), **expect):
        out.append(Program("large-" + name, fn, kernels=list(kernels), expect=expect or None))

    def vectors(B):
        s = B.rv("s", "halfnormal", 0.0, B.inp("sc", 0.5 + 0.1 * np.arange(12).reshape(2, 3, 2)))
        m = B.rv("m", "normal", 0.3, 1.2, size=30)
        b = B.rv("b", "beta", 2.0, 1.5, size=(2, 3, 2))
        B.obsrv("Y", "normal", m, 1.1)
        B.obsrv("Z", "normal", b, s)

    add("nuts-vectors", vectors)

    def many(B):
        tot = 0.0
        prev = None
        for i, fam in enumerate(("normal", "halfnormal", "gamma", "beta", "uniform", "exponential", "invgamma", "laplace", "lognormal", "logistic", "halfcauchy", "normal")):
            ps = PRIORS[fam]
            if i % 3 == 2 and prev is not None:
                ps = (ps[0], prev) if len(ps) == 2 else ps
            v = B.rv(f"v{(7 * i) % 12}", fam, *ps, size=(2,) if i % 4 == 1 else None)
            if fam in POSITIVE and i % 4 != 1:
                prev = v
            tot = tot + v
        B.obsrv("Y", "normal", tot, 1.3)

    add("nuts-many", many)

    def both(B):
        X = B.inp("X", xmat(3, 2))
        Z = B.inp("Z", xmat(2, 2, 5))
        e = B.rv("e", "exponential", 1.3)
        g1 = B.rv("g1", "gamma", 2.0, e)
        B.obsrv("C1", "poisson", g1)
        p1 = B.rv("p1", "beta", 1.5, e, size=2)
        B.obsrv("C2", "binomial", 4, p1)
        q1 = B.rv("q1", "gamma", e, 1.4)
        B.obsrv("C3", "poisson", q1)
        tau = B.rv("tau", "halfcauchy", 0.0, 1.0)
        lam = B.rv("lam", "halfcauchy", 0.0, 1.0, size=2)
        b1 = B.rv("b1", "normal", 0.0, lam * tau, size=2)
        B.obsrv("Y1", "bernoulli", B.sigmoid(-(B.dot(X, b1))))
        h = B.rv("h", "gamma", 2.0, 1.5)
        b2 = B.rv("b2", "normal", 0.0, e, size=2)
        B.obsrv("Y2", "nbinom", h, B.sigmoid(-(B.dot(Z, b2))))
        m = B.rv("m", "normal", 0.0, e, size=2)
        B.obsrv("W", "normal", m, 1.0)

    add("all-kernels", both, [dict(HS, beta="b1"), dict(kind="reg", rvs=("b1",), obs="Y1"), dict(kind="reg", rvs=("b2",), obs="Y2"), dict(kind="disp", rvs=("h",), obs="Y2")],
        e="nuts", m="nuts", g1="direct", p1="direct", q1="direct", tau="hs", lam="hs", b1="reg", b2="reg", h="disp")
    return out


def everything():
    """All programs by name (the quick and the thorough catalogue)."""
    out = {}
    for q in (conj_catalogue() + conj_hier() + conj_fallback() + multi() + reg_catalogue(True) + disp_catalogue(True) + hs_catalogue(True)
              + hs_only() + composite(True) + nuts_catalogue() + large() + typed(True) + derived(True) + vectors(True) + shared_data() + mutants() + grammar(True) + grammar() + chains(True) + spelled()):
        out.setdefault(q.name, q)
    return out


def by_name():
    """The quick catalogue."""
    out = {}
    for q in (conj_catalogue() + conj_hier() + conj_fallback() + multi() + reg_catalogue() + disp_catalogue() + hs_catalogue()
              + hs_only() + composite() + nuts_catalogue() + large() + typed() + derived() + vectors() + shared_data() + mutants() + chains()):
        out[q.name] = q
    return out
