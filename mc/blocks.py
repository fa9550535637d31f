"""Decide, for one program in one state, whether a sweep of the real sampler is
a composition of exact conditional updates.

For each block the implementation's transition is explored (all discrete draws,
an affine basis of the Gaussian ones, alternatives of the continuous ones) and
related to the reference conditional given each possible subset of already
updated blocks; a sweep is accepted when one order of the blocks explains all.
"""
import itertools

import numpy as np

from . import ref
from .draws import Controller, explore
from .engine import Fail, close, nuts_policy, subsets


KNOWN_DISP = "dispersion-complement"
KNOWN_BNB = "beta-nbinom-swapped"


FAR = ()  # further NUTS answers, as distances from the initial position


class Pinned(Controller):
    """Everything at `level` except the families in `vary` (choice points)."""

    def __init__(self, level=0, vary=(), site_levels=None, **kw):
        super().__init__(**kw)
        self.level, self.vary = level, set(vary)
        self.site_levels = site_levels or {}

    def choose(self, k):
        if self._cur in self.vary:
            return super().choose(k)
        return min(self.site_levels.get(self._site, self.level), k - 1)

    def decide(self, d, rng, inputs, params, size):
        self._cur, self._site = d.name, d.site
        # levels are offset by site so that no two sites share a pattern
        return super().decide(d, rng, inputs, params, size)


class Node:
    def __init__(self, sys, lat, obs, data, level=0, probe=None):
        self.sys, self.lat, self.obs, self.data, self.level = sys, lat, obs, data, level
        self.prog = sys.program
        self.execs = 0
        self.known, self.limits = {}, []
        self.probe = probe or (lambda q: q)
        self.base_ctl = self.ctl()
        self.base = self.go(self.base_ctl)

    def ctl(self, **kw):
        pol = {"nuts_probe": nuts_policy(self.probe)}
        pol.update(kw.pop("policy", {}))
        return Pinned(level=self.level, policy=pol, **kw)

    def go(self, ctl):
        self.execs += 1
        return self.sys.run(self.lat, self.obs, self.data, ctl)

    def cond(self, updated):
        c = dict(self.lat)
        for n in updated:
            c[n] = self.base[n]
        return c

    def saturated(self):
        """Is the success probability of some variable rounded to 0 or 1?"""
        for vals in (self.lat, self.base):
            with np.errstate(all="ignore"):
                params = self.prog.trace(vals, self.obs, self.data).params
            for fam, ps in params.values():
                if fam in ("bernoulli", "binomial", "nbinom", "geometric"):
                    p = np.asarray(ps[-1], float)
                    if np.any((p <= 0) | (1 - p <= 0)):
                        return True
        return False

    # ------------------------------------------------------- extraction
    def gaussian(self, name):
        """(mean, cov) of `name` over all normal draws, other draws pinned."""
        store = {}

        def z_policy(active):
            def pol(ctl, d):
                store[d.site] = int(np.prod(d.shape)) if d.shape else 1
                z = np.zeros(d.shape)
                if active is not None:
                    for (s, i, v) in active:
                        if s == d.site:
                            z.reshape(-1)[i] = v
                if d.name == "multivariate_normal":
                    return d.params[0] + z @ np.linalg.cholesky(d.params[1]).T
                return d.params[0] + d.params[1] * z

            return pol

        def at_(active):
            p = z_policy(active)
            c = self.ctl(policy={"normal": p, "multivariate_normal": p})
            return self.go(c)[name].ravel()

        m = at_(None)
        cols, basis = [], []
        for s in sorted(store):
            for i in range(store[s]):
                basis.append((s, i))
        for s, i in basis:
            cols.append(at_([(s, i, 1.0)]) - m)
        if not cols:
            return m, np.zeros((m.size, m.size))
        M = np.stack(cols, axis=-1)
        # affinity: a generic point must be predicted by the basis
        z = np.array([0.5 + 0.3 * ((7 * j) % 5) * (-1) ** j for j in range(len(basis))])
        got = at_([(s, i, z[j]) for j, (s, i) in enumerate(basis)])
        if not close(got, m + M @ z, rtol=1e-6, atol=1e-7):
            raise Fail(f"{name} is not an affine function of its Gaussian draws")
        return m, M @ M.T

    def mixture(self, name, site_levels=None):
        """Candidate {(shape, rate): weight} of a gamma mixture, one per
        gamma-type site, over all outcomes of the discrete draws."""
        cands = {}

        def run(prefix):
            c = Pinned(level=self.level, vary={"bernoulli", "categorical", "binomial"}, prefix=prefix,
                       site_levels=site_levels,
                       policy={"nuts_probe": nuts_policy(self.probe)})
            out = self.go(c)
            h = out[name]
            w = float(np.prod([d.weight for d in c.log]))
            if np.size(h) == 1:
                hv = float(np.ravel(h)[0])
                for d in c.log:
                    g = ref.gamma_pivot(d)
                    if g is None or np.size(g[1]) != 1:
                        continue
                    k, gv = float(np.ravel(g[0])[0]), float(np.ravel(g[1])[0])
                    m = cands.setdefault(d.site, {})
                    key = (k, gv / hv)
                    m[key] = m.get(key, 0.0) + w
            return c.points, c.taken

        n, capped = explore(run, max_exec=4096)
        if capped:
            raise Fail("more than 4096 discrete outcomes")
        return cands

    # ----------------------------------------------------------- blocks
    def blocks(self):
        prog, sysm = self.prog, self.sys
        out, done = [], set(sysm.fixed)
        if sysm.nuts_names:
            out.append(("nuts", tuple(sysm.nuts_names)))
            done.update(sysm.nuts_names)
        for k in prog.meta.get("kernels", ()):
            rvs = tuple(k["rvs"])
            if any(r in done or r not in sysm.names for r in rvs):
                # e.g. a horseshoe whose tau is left to NUTS: no exact joint kernel
                rest = tuple(r for r in rvs if r not in done and r in sysm.names)
                out.extend(("direct", (r,), None) for r in rest)
                done.update(rest)
                continue
            out.append((k["kind"], rvs, k))
            done.update(rvs)
        for n in sysm.names:
            if n not in done:
                out.append(("direct", (n,), None))
        return out

    def check_block(self, blk, cache):
        """A function: subset of updated names -> None | message."""
        kind, rvs = blk[0], blk[1]
        spec = blk[2] if len(blk) > 2 else None
        if kind == "direct":
            return self._direct(rvs[0])
        if kind == "reg":
            return self._reg(spec)
        if kind == "disp":
            return self._disp(spec)
        if kind == "hs":
            return self._hs(spec)
        if kind == "nuts":
            return self._nuts(rvs)
        raise KeyError(kind)

    def _direct(self, n):
        def f(S):
            cond = self.cond(S)
            msg = ref.direct_law(self.prog, n, cond, self.obs, self.data, self.base[n], self.base_ctl.log)
            if msg is None:
                return None
            # the recorded finding: Beta(alpha + y, beta + n) for a beta prior
            # and a negative binomial observation, instead of Beta(alpha + n, beta + y)
            alt = ref.swapped_beta_nbinom(self.prog, n, cond, self.obs, self.data)
            if alt is not None:
                for d in self.base_ctl.log:
                    if (d.name == "beta" and np.shape(d.value) == np.shape(self.base[n])
                            and np.array_equal(d.value, self.base[n])
                            and all(close(np.broadcast_to(p, d.shape), np.broadcast_to(q, d.shape)) for p, q in zip(d.params, alt))):
                        self.known[KNOWN_BNB] = f"{n} drawn from Beta(alpha + y, beta + n); exact Beta(alpha + n, beta + y)"
                        return None
            return msg

        return f

    def _reg(self, k):
        beta, obsn = k["rvs"][0], k["obs"]
        m, V = self.gaussian(beta)
        if self.base[beta].shape != np.shape(self.lat[beta]):
            return lambda S: f"shape of {beta} changed"

        def f(S):
            cond = self.cond(S)
            if not ref.exact_dependence(self.prog, beta, [beta, obsn], cond, self.obs, self.data):
                return f"{beta} has other dependents than {obsn}, but is sampled from the regression conditional"
            s = ref.pg_structure(self.prog, beta, obsn, cond, self.obs, self.data)
            if s is None:
                return "not a logistic likelihood"
            _, n, psi0, X = s
            psi = psi0 + X @ np.ravel(cond[beta])
            bad = "no Polya-Gamma draw with the likelihood's shape and tilt"
            for d in self.base_ctl.log:
                if d.name != "polyagamma":
                    continue
                hh, zz = [np.ravel(np.asarray(q, float)) for q in d.params]
                if hh.size != n.size or not (close(hh, np.ravel(n)) and close(np.abs(zz), np.abs(np.ravel(psi)))):
                    bad = f"Polya-Gamma auxiliaries drawn with {np.round(hh,5).tolist()}, {np.round(zz,5).tolist()}; required {np.ravel(n).tolist()}, |{np.round(np.ravel(psi),5).tolist()}|"
                    continue
                r = ref.reg_reference(self.prog, beta, obsn, cond, self.obs, self.data, np.ravel(d.value))
                if r is None:
                    return f"{beta} does not have a normal prior"
                if not close(m, r[0], 1e-6, 1e-7):
                    bad = f"mean {m.tolist()} of {beta} given the auxiliaries, exact {r[0].tolist()}"
                elif not close(V, r[1], 1e-6, 1e-7):
                    bad = f"covariance {V.tolist()} of {beta} given the auxiliaries, exact {r[1].tolist()}"
                else:
                    return None
            return bad

        return f

    def _disp(self, k):
        h, obsn = k["rvs"][0], k["obs"]
        if np.shape(self.base[h]) != np.shape(self.lat[h]):
            return lambda S: f"shape of {h} changed"
        cands, again = self.mixture(h), {}

        def f(S):
            cond = self.cond(S)
            if not ref.exact_dependence(self.prog, h, [h, obsn], cond, self.obs, self.data):
                return f"{h} has other dependents than {obsn}"
            want = ref.disp_reference(self.prog, h, obsn, cond, self.obs, self.data)
            if want is None:
                return f"{h} has no gamma prior"
            for site, m in sorted(cands.items()):
                if not ref.same_mixture(m, want):
                    continue
                # a second value of that draw: h must move as the draw says
                if site not in again:
                    again[site] = self.mixture(h, {site: self.level + 1}).get(site, {})
                if ref.same_mixture(again[site], want):
                    return None
            # the recorded finding: the complement of the success probability
            alt = ref.disp_reference(self.prog, h, obsn, cond, self.obs, self.data, complement=True)
            for site, m in sorted(cands.items()):
                if ref.same_mixture(m, alt):
                    if site not in again:
                        again[site] = self.mixture(h, {site: self.level + 1}).get(site, {})
                    if ref.same_mixture(again[site], alt):
                        self.known[KNOWN_DISP] = f"{h} drawn from {_fmt(m)}; exact {_fmt(want)}"
                        return None
            best = cands[max(cands)] if cands else {}
            return (f"{h} drawn from the gamma mixture {_fmt(best)}; exact {_fmt(want)}")

        return f

    def _hs(self, k):
        lam, tau = k["rvs"]
        beta = k["beta"]

        def f(S):
            cond = self.cond(S)
            for nme in (lam, tau):
                if np.shape(self.base[nme]) != np.shape(self.lat[nme]):
                    return f"shape of {nme} changed"
                terms = [nme, beta]
                if not ref.exact_dependence(self.prog, nme, terms, cond, self.obs, self.data):
                    return f"{nme} has other dependents than {beta}"
            tr = self.prog.trace(cond, self.obs, self.data)
            fam, (mu, sd) = tr.params[beta]
            if fam != "normal" or not np.allclose(mu, 0) or not np.allclose(sd, np.asarray(cond[lam]) * np.asarray(cond[tau])):
                return "not a horseshoe prior"
            for nme in (lam, tau):
                fam, (loc, sc) = tr.params[nme]
                if fam != "halfcauchy" or not np.allclose(loc, 0) or not np.allclose(sc, 1):
                    return f"{nme} is not a standard half-Cauchy"
            bval = {**self.obs, **cond}[beta]
            return ref.horseshoe_explained(cond, bval, cond[lam], cond[tau], self.base[lam], self.base[tau], self.base_ctl.log)

        return f

    def _nuts(self, rvs, points=2):
        """The stand-in may answer any position; check target and mapping."""
        names = list(rvs)
        flat = self.sys.free
        size = sum(np.size(flat(n, self.lat[n])) for n in names)

        def ask(fn):
            c = self.ctl(policy={"nuts_probe": nuts_policy(fn)})
            out = self.go(c)
            if len(c.extra) < 1:
                raise Fail("the NUTS kernel was not run")
            return out, c.extra[-1]

        out0, rec0 = ask(lambda q: q)
        qn, lp0, q, pe, step, imm, mom, pe_grad, lp_grad = rec0
        q = np.array(q)
        if q.size != size:
            return lambda S: f"NUTS position has {q.size} coordinates for {size}"
        if not close(step, 0.37) or not close(imm, np.linspace(0.5, 1.5, size)):
            return lambda S: "NUTS parameters are not handed to the kernel"
        if not close(pe, -lp0):
            return lambda S: f"initial potential energy {pe} is not minus the log density {lp0} at the initial position"
        if not np.all(np.isfinite(lp_grad)) and self.saturated():
            self.limits.append("a probability rounds to zero or one, where aeppl's gradient is not a number")
            return lambda S: None
        if not close(pe_grad, -lp_grad):
            return lambda S: f"initial gradient {pe_grad} is not minus the gradient {lp_grad} of the log density"
        for n in names:
            if not close(out0[n], self.lat[n], 1e-7, 1e-9):
                msg = (f"kernel answered the initial position, but {n} became {out0[n].tolist()} instead of {np.asarray(self.lat[n]).tolist()}")
                return lambda S: msg
        # map and Jacobian at a few positions
        recs = []
        i = np.arange(size)
        pts = [q, q + 0.31 + 0.07 * (i % 9), q - 0.27 + 0.11 * (i % 3), q + 0.2 * (-1.0) ** i][: 2 + points]
        pts += [q + s * (-1.0) ** (i // 2) for s in FAR]
        for p in pts:
            out, r = ask(lambda _q, p=p: p)
            if float(r[1]) == -np.inf:  # outside the support: compared with the joint density only
                recs.append((out, None, None, None))
                continue
            J = np.zeros((size, size))
            e = 1e-5
            gnum = np.zeros(size)
            for j in range(size):
                hi = p.copy(); hi[j] += e
                lo = p.copy(); lo[j] -= e
                oh, rh = ask(lambda _q, p=hi: p)
                ol, rl = ask(lambda _q, p=lo: p)
                gnum[j] = (float(rh[1]) - float(rl[1])) / (2 * e)
                J[:, j] = (np.concatenate([flat(n, oh[n], out[n]) for n in names]) - np.concatenate([flat(n, ol[n], out[n]) for n in names])) / (2 * e)
            near = np.isfinite(gnum)  # not next to the edge of the support
            # the rounding of the density and the curvature limit the differences
            if not close(np.asarray(r[8])[near], gnum[near], 1e-4, 1e-5 + 1e-9 * abs(float(r[1])) + 1e-8 * np.max(np.abs(gnum[near]), initial=0.0)) or not np.all(np.isfinite(r[8])):
                msg = f"gradient {r[8].tolist()} given to NUTS is not the derivative {gnum.tolist()} of the log density"
                return lambda S: msg
            sgn, ld = np.linalg.slogdet(J)
            recs.append((out, float(r[1]), ld, J))
        if recs[0][1] is None:
            return lambda S: "the log density at the initial position is minus infinity"
        self.nuts_jac = recs[0][3]

        def f(S):
            vals, want = [], []
            for out, lp, ld, _ in recs:
                c = self.cond(S)
                for n in names:
                    c[n] = out[n]
                jt = self.prog.joint(c, self.obs, self.data)
                if lp is None:
                    if jt != -np.inf:
                        return f"log density given to NUTS is minus infinity where the joint density is {jt}"
                    continue
                want.append(jt + ld)
                vals.append(lp - (jt + ld))
            if not const(vals, 2e-6):
                return (f"log density given to NUTS for {names} minus (joint + log|Jacobian|) varies by {np.ptp(vals):.5g} over positions")
            return None

        return f


def const(v, tol):
    v = np.asarray(v, float)
    return bool(np.all(np.isfinite(v)) and np.ptp(v) <= tol * (1 + np.max(np.abs(v))) * 10)


def _fmt(m):
    return "{" + ", ".join(f"Gamma({k:.6g},{r:.6g}):{w:.6g}" for (k, r), w in sorted(m.items())[:8]) + "}"


ORDERS = 720


def verify(node, stats=None):
    """(blocks, orders of them that explain the sweep, messages per block no
    choice of already updated variables explains)."""
    blks = node.blocks()
    checks = [node.check_block(b, None) for b in blks]
    res = {}

    def ok(b, updated):
        key = (b, frozenset(updated))
        if key not in res:
            names = [n for i in updated for n in blks[i][1]]
            res[key] = checks[b](names)
        return res[key]

    # depth first over the orders, cut at the first stage that is not explained;
    # `hopeless` are the sets of updated stages no order can be completed from
    orders, hopeless = [], set()

    def extend(perm):
        if len(perm) == len(blks):
            orders.append(perm)
            return True
        key = frozenset(perm)
        if key in hopeless:
            return False
        found = False
        for b in range(len(blks)):
            if b not in key and len(orders) < ORDERS and ok(b, perm) is None:
                found = extend(perm + (b,)) or found
        if not found and len(orders) < ORDERS:
            hopeless.add(key)
        return found

    extend(())
    node.explains = lambda perm: all(ok(b, perm[:i]) is None for i, b in enumerate(perm))
    msgs = {}
    for b in range(len(blks)):
        ms = [res.get((b, frozenset(S)), "?") for S in subsets([i for i in range(len(blks)) if i != b])]
        if all(m is not None for m in ms):
            real = [m for m in ms if m and m != "?"]
            msgs["+".join(blks[b][1])] = real[0] if real else "?"
    if stats is not None:
        stats["checks"] = len(res)
    return blks, orders, msgs
