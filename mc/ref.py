"""Reference conditionals and the relations implementation runs must satisfy.

Everything here is derived from the NumPy joint density of a program
(`Program.joint/trace`); nothing is taken from AeMCMC.
"""
import itertools
import math
from functools import lru_cache

import numpy as np
import scipy.special as sp
import scipy.stats as st

from .draws import Controller
from .engine import close


# ---------------------------------------------------------------- pivots
def law_logpdf(d, x):
    """log density of the draw's own law at x (elementwise)."""
    p, n = d.params, d.name
    if n == "normal":
        return st.norm.logpdf(x, p[0], p[1])
    if n == "exponential":
        return st.expon.logpdf(x, scale=p[0])
    if n == "gamma":
        return st.gamma.logpdf(x, p[0], scale=p[1])
    if n == "beta":
        return st.beta.logpdf(x, p[0], p[1])
    if n == "invgamma":
        return st.invgamma.logpdf(x, p[0], scale=p[1])
    if n == "chisquare":
        return st.chi2.logpdf(x, p[0])
    if n == "halfnormal":
        return st.halfnorm.logpdf(x, p[0], p[1])
    if n == "halfcauchy":
        return st.halfcauchy.logpdf(x, p[0], p[1])
    if n == "uniform":
        return st.uniform.logpdf(x, p[0], p[1] - p[0])
    if n == "lognormal":
        return st.lognorm.logpdf(x, p[1], scale=np.exp(p[0]))
    return None


def gamma_pivot(d):
    """(shape k, g) with g ~ Gamma(k, 1), for gamma-type draws."""
    p, v = d.params, d.value
    if d.name == "exponential":
        return np.ones_like(v), v / p[0]
    if d.name == "gamma":
        return np.asarray(p[0], float), v / p[1]
    if d.name == "invgamma":
        return np.asarray(p[0], float), p[1] / v
    if d.name == "chisquare":
        return np.asarray(p[0], float) / 2, v / 2
    return None


# ------------------------------------------------- direct (conjugate) law
TRANSFORMS = {
    "id": (lambda d: d, lambda x: x, lambda x: 0.0 * x),
    "1/x": (lambda d: 1 / d, lambda x: 1 / x, lambda x: -2 * np.log(x)),
    "1-x": (lambda d: 1 - d, lambda x: 1 - x, lambda x: 0.0 * x),
    "exp": (lambda d: np.exp(d), lambda x: np.log(x), lambda x: -np.log(x)),
}


def grid_points(support, params, x):
    x = np.asarray(x, float)
    if support == "unit":
        z = sp.logit(np.clip(x, 1e-6, 1 - 1e-6))
        return [sp.expit(z + s) for s in (-1.3, -0.6, 0.45, 0.9, 1.6)]
    if support == "pos":
        return [x * s for s in (0.35, 0.6, 1.4, 1.9, 2.6)]
    if support == "lowpos":
        lo = np.asarray(params[0], float)
        return [lo + (x - lo) * s for s in (0.35, 0.6, 1.4, 1.9, 2.6)]
    if support == "interval":
        a, b = np.asarray(params[0], float), np.asarray(params[1], float)
        t = sp.logit(np.clip((x - a) / (b - a), 1e-6, 1 - 1e-6))
        return [a + (b - a) * sp.expit(t + s) for s in (-1.3, -0.6, 0.45, 0.9, 1.6)]
    return [x + s for s in (-1.3, -0.6, 0.45, 0.9, 1.6)]


def const(vals, tol=1e-6):
    vals = np.asarray(vals, float)
    return bool(np.all(np.isfinite(vals)) and np.ptp(vals) <= tol * (1 + np.max(np.abs(vals))))


def direct_law(program, name, cond, obs, data, x, log):
    """Is x a draw whose density is proportional to the full conditional of
    `name` under `cond`?  Returns None or a message."""
    tr = program.trace({**cond, name: x}, obs, data)
    sup, sp_params = tr.supports[name]
    if np.shape(x) != np.shape(cond[name]):
        return f"shape {np.shape(x)} for a variable of shape {np.shape(cond[name])}"
    best = None
    for d in log:
        if d.site < 0:
            continue
        for tn, (fw, inv, ljac) in TRANSFORMS.items():
            with np.errstate(all="ignore"):
                v = fw(np.asarray(d.value, float))
            if np.size(v) != np.size(x) or not np.allclose(np.reshape(v, np.shape(x)), x, rtol=1e-9, atol=1e-12):
                continue
            vals, comp = [], []
            pts = [np.asarray(x, float)] + grid_points(sup, sp_params, x)
            # all components together, then one component at a time
            cases = [pts]
            if np.size(x) > 1:
                for i in range(min(np.size(x), 4)):
                    cs = []
                    for q in pts:
                        y = np.array(x, float).ravel()
                        y[i] = np.ravel(q)[i]
                        cs.append(y.reshape(np.shape(x)))
                    cases.append(cs)
            bad = None
            for cs in cases:
                vals = []
                for y in cs:
                    lp = law_logpdf(d, np.reshape(inv(y), np.shape(d.value)))
                    if lp is None:
                        bad = f"draw family {d.name}"
                        break
                    vals.append(float(np.sum(lp) + np.sum(ljac(y))) - program.joint({**cond, name: y}, obs, data))
                if bad:
                    break
                if not const(vals):
                    bad = (
                        f"drawn from {d.name}{[np.asarray(p).tolist() for p in d.params]} ({tn}), whose log density"
                        f" minus the joint varies by {np.ptp(vals):.4g} over the support"
                    )
                    break
            if bad is None:
                return None
            best = bad
    return best or "output is not a transformed draw of a known family"


# ------------------------------------------------------ regression block
def pg_structure(program, beta, obsname, cond, obs, data):
    """(kappa, n, psi0, Xeff) of the logistic likelihood of `obsname` seen as a
    function of `beta`; psi linear in beta.  None when not of that form."""
    b0 = np.asarray(cond[beta], float)
    fam, ps = program.trace(cond, obs, data).params[obsname]
    y = np.asarray(obs[obsname], float)

    def psi(b):
        f, p = program.trace({**cond, beta: b}, obs, data).params[obsname]
        return np.broadcast_to(sp.logit(p[-1]), y.shape).astype(float) * (1 if fam == "bernoulli" else -1)

    psi_0 = psi(np.zeros_like(b0))
    c = 1.0  # steps short enough for the link not to saturate
    for _ in range(60):
        X = np.stack([(psi(c * e.reshape(b0.shape)) - psi_0) / c for e in np.eye(b0.size)], axis=-1)
        if np.all(np.isfinite(X)) and c * np.max(np.abs(X)) * b0.size < 20:
            break
        c /= 4
    if fam == "bernoulli":
        kappa, n = y - 0.5, np.ones_like(y)
    else:
        h = np.broadcast_to(np.asarray(ps[0], float), y.shape)
        kappa, n = 0.5 * (y - h), y + h
    # the Polya-Gamma identity's exponent must reproduce the likelihood
    vals = []
    for s in (0.0, 0.7, -0.4):
        b = s * c * (1 + np.arange(b0.size) % 3).reshape(b0.shape)
        ps_ = psi_0 + X @ b.ravel()
        ll = np.sum(kappa * ps_ - n * np.logaddexp(ps_ / 2, -ps_ / 2))
        vals.append(float(ll) - program.trace({**cond, beta: b}, obs, data).terms[obsname])
    if not const(vals, 1e-5):
        return None
    return kappa, n, psi_0, X


def reg_reference(program, beta, obsname, cond, obs, data, w):
    """Mean and covariance of beta | w, rest."""
    s = pg_structure(program, beta, obsname, cond, obs, data)
    if s is None:
        return None
    kappa, n, psi0, X = s
    fam, (mu, sd) = program.trace(cond, obs, data).params[beta]
    if fam != "normal":
        return None
    p = np.size(cond[beta])
    mu = np.broadcast_to(mu, (p,)).astype(float)
    prec = 1.0 / np.broadcast_to(sd, (p,)).astype(float) ** 2
    A = X.T @ (w[:, None] * X) + np.diag(prec)
    b = X.T @ (kappa - w * psi0) + prec * mu
    V = np.linalg.inv(A)
    return V @ b, V


def exact_dependence(program, name, terms, cond, obs, data):
    """Does the joint depend on `name` through `terms` only?"""
    x = np.asarray(cond[name], float)
    vals = []
    for f in (1.0, 1.17, 0.81):
        # powers stay in the unit interval
        unit = vals and tr.supports[name][0] == "unit"
        tr = program.trace({**cond, name: x**f if unit else x * f}, obs, data)
        vals.append(sum(v for t, v in tr.terms.items() if t not in terms))
    return const(vals, 1e-7)


def swapped_beta_nbinom(program, name, cond, obs, data):
    """(alpha + y, beta + n) when `name` is a beta prior whose only dependent
    is a negative binomial observation of the same shape; None otherwise."""
    tr = program.trace(cond, obs, data)
    fam, ps = tr.params[name]
    if fam != "beta":
        return None
    for o in tr.obs_names:
        ofam, ops = tr.params[o]
        if ofam != "nbinom" or np.shape(obs[o]) != np.shape(cond[name]):
            continue
        if not np.array_equal(np.broadcast_to(ops[1], np.shape(obs[o])), cond[name]):
            continue
        if not exact_dependence(program, name, [name, o], cond, obs, data):
            continue
        return np.asarray(ps[0]) + obs[o], np.asarray(ps[1]) + ops[0]
    return None


# ------------------------------------------------------ dispersion block
@lru_cache(maxsize=None)
def crt_pmf(y, h):
    """P(l) for l = sum_{n=1}^y Bern(h/(n-1+h)), via Stirling numbers."""
    if y == 0:
        return {0: 1.0}
    s = {0: 1}
    for n in range(y):  # unsigned Stirling numbers of the first kind
        t = {}
        for k, c in s.items():
            t[k + 1] = t.get(k + 1, 0) + c
            if n:
                t[k] = t.get(k, 0) + n * c
        s = t
    tot = math.prod(h + i for i in range(y))
    return {k: c * h**k / tot for k, c in s.items() if c}


def crt_sum_pmf(ys, h):
    out = {0: 1.0}
    for y in ys:
        nxt = {}
        for k, p in out.items():
            for l, q in crt_pmf(int(y), float(h)).items():
                nxt[k + l] = nxt.get(k + l, 0.0) + p * q
        out = nxt
    return out


def disp_reference(program, hname, obsname, cond, obs, data, complement=False):
    """{(shape, rate): weight} of the mixture h is drawn from."""
    tr = program.trace(cond, obs, data)
    fam, (a, b) = tr.params[hname]
    ofam, (h, p) = tr.params[obsname]
    if fam != "gamma" or np.size(h) != 1:
        return None
    y = np.asarray(obs[obsname])
    logp = np.broadcast_to(np.log1p(-p) if complement else np.log(p), y.shape)
    rate = float(b) - float(np.sum(logp))
    return {
        (float(a) + l, rate): w
        for l, w in crt_sum_pmf(tuple(int(v) for v in y.ravel()), float(np.ravel(h)[0])).items()
        if w > 0
    }


def same_mixture(got, want, tol=1e-6):
    """Mixtures over (shape, rate) keys, up to rounding of the keys."""

    def norm(m):
        out = []
        for (k, r), w in sorted(m.items()):
            for e in out:
                if abs(e[0] - k) < 1e-6 * (1 + abs(k)) and abs(e[1] - r) < 1e-6 * (1 + abs(r)):
                    e[2] += w
                    break
            else:
                out.append([k, r, w])
        return [e for e in out if e[2] > 1e-12]

    a, b = norm(got), norm(want)
    if len(a) != len(b):
        return False
    return all(close(x, y, rtol=tol) for x, y in zip(sorted(a), sorted(b)))


# -------------------------------------------------------- horseshoe block
def horseshoe_explained(cond, beta, lam, tau, lam_new, tau_new, log, both=(True, True)):
    """Are the new lambda/tau explained by some assignment of gamma pivots?

    Reference (Makalic & Schmidt): 1/nu_j = G1/(1+1/lam_j^2),
    1/zeta = G2/(1+1/tau^2); one of lam^2/tau^2 is updated first:
    lam_j^-2 = G3/(1/nu_j + b_j^2/(2 tau^2)),
    tau^-2 = G4/(1/zeta + sum(b^2/lam^2)/2).
    Either order is a valid sweep.  Returns None or a message.
    """
    b2 = np.ravel(np.asarray(beta, float)) ** 2
    p = b2.size
    l2 = np.ravel(np.asarray(lam, float)) ** 2
    t2 = float(np.ravel(tau)[0]) ** 2
    sites = []
    for d in log:
        if d.site < 0:
            continue
        g = gamma_pivot(d)
        if g is not None:
            sites.append((d.site, np.ravel(g[0]), np.ravel(g[1])))
    ones_p = [s for s in sites if s[1].size == p and np.allclose(s[1], 1.0)]
    ones_1 = [s for s in sites if s[1].size == 1 and np.allclose(s[1], 1.0)]
    gam = [s for s in sites if s[1].size == 1 and np.allclose(s[1], 0.5 * (p + 1))]
    ln, tn = np.ravel(lam_new).astype(float), np.ravel(tau_new).astype(float)
    if ln.size != p or tn.size != 1:
        return "shape of lambda/tau changed"
    for order in ("lam-first", "tau-first"):
        lam_for_tau = ln**2 if order == "lam-first" else l2
        tau_for_lam = t2 if order == "lam-first" else float(tn[0]) ** 2
        ok_l = not both[0]
        if not ok_l:
            for s1, s3 in itertools.permutations(ones_p, 2):
                nu_inv = s1[2] / (1 + 1 / l2)
                want = s3[2] / (nu_inv + 0.5 * b2 / tau_for_lam)
                if np.allclose(ln**-2.0, want, rtol=1e-7, atol=0):
                    ok_l = s1[0], s3[0]
                    break
        ok_t = not both[1]
        if not ok_t:
            for s2 in ones_1:
                for s4 in gam:
                    if s2[0] == s4[0] or (isinstance(ok_l, tuple) and (s2[0] in ok_l or s4[0] in ok_l)):
                        continue
                    z_inv = s2[2][0] / (1 + 1 / t2)
                    want = s4[2][0] / (z_inv + 0.5 * np.sum(b2 / lam_for_tau))
                    if np.allclose(tn[0] ** -2.0, want, rtol=1e-7, atol=0):
                        ok_t = True
                        break
                if ok_t:
                    break
        if ok_l and ok_t:
            return None
    return "lambda/tau update is not the half-Cauchy scale-mixture conditional"
