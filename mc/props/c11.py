"""C11: no generator state is used by two draws, within a call or over calls."""
import aesara.tensor as at
import numpy as np

from mc import draws, engine, models, modelrun
from mc.blocks import Pinned
from mc.engine import nuts_policy
from mc.props.lib import Fn, get, stream

ASSUMPTIONS = [
    "two draws with one generator state, family, size and parameters count as one draw (a shared node evaluated twice)",
    "the NUTS kernel's generators are those of a stand-in with one generator outside and two inside a loop",
]
BOUNDS = {
    "quick": "every catalogue model x histories of 3 calls x 2 kinds of draws; 14 stand-alone functions x 4 calls; 10 models under Aesara's optimising modes",
    "thorough": "the full catalogue x histories of 6 calls x 3 states",
}
MODES = [
    "multi-three-kinds", "reg-nbinom-inp-gamma-inp-3x2-inp", "reg-bernoulli-hs--3x2-inp-lam*tau-None",
    "comp-shared-scale", "nuts-matrix", "hs-linear", "reg-bernoulli-vec--2x3-inp",
    "reg-nbinom-hs-gamma-inp-3x2-inp-lam*tau-None", "conj-bnb-inp/inp-0-inp-size", "comp-regression-conjugate",
]


def tasks(tier):
    deep = tier == "thorough"
    for n in modelrun.catalogue(tier):
        yield {"kind": "model", "name": n, "calls": 6 if deep else 3, "modes": [None], "cost": 2 if "hs" in n else 1}
    names = modelrun.catalogue("quick")
    for n in [m for m in MODES if m in names]:
        yield {"kind": "model", "name": n, "calls": 3, "modes": ["FAST_COMPILE", "FAST_RUN"], "cost": 8}
    for f in FUNCS:
        yield {"kind": "fn", "name": f, "calls": 4, "cost": 3}


def history(call, calls, label, r, same_inputs):
    """`call(ctl, i)` runs one step without resetting the generators."""
    seen = {}
    for i in range(calls):
        ctl = Pinned(level=i % 3, policy={"nuts_probe": nuts_policy(lambda q: q + 0.05 + 0.01 * np.arange(q.size))})
        call(ctl, i)
        r.transitions += 1
        r.states += len(ctl.log)
        r.validated += len(ctl.log)
        for a, b in ctl.conflicts:
            r.bad(f"{label}: in one call {ctl.log[a]!r} and {ctl.log[b]!r} use the same generator state"[:500])
        for d in ctl.log:
            if d.state in seen:
                j, e = seen[d.state]
                r.bad(f"{label}: call {i} draws {d.name} of size {d.shape} with the generator state that call {j} used for {e}"[:500])
        for d in ctl.log:
            seen.setdefault(d.state, (i, f"{d.name} of size {d.shape}"))
        if i == 0:
            r.outcome(f"{label}{[(d.name, d.shape) for d in ctl.log]}")
            r.sample(of=label, draws=[f"{d.name}{d.shape} {d.state[-12:]}" for d in ctl.log[:6]])


def run_task(t, r):
    if t["kind"] == "fn":
        f, args = FUNCS[t["name"]]()
        for v, val in f.snap:
            v.set_value(val, borrow=False)
        history(lambda c, i: f(c, *args, reset=False), t["calls"], t["name"], r, True)
        outs = [f(None, *args, reset=False) for _ in range(3)]
        flat = [np.concatenate([np.ravel(o) for o in x]) if isinstance(x, list) else np.ravel(x) for x in outs]
        r.validated += 1
        if t["name"] not in DISCRETE and any(np.array_equal(flat[0], g) for g in flat[1:]):
            r.bad(f"{t['name']}: two calls returned {flat[0].tolist()}")
        return
    prog = modelrun.model(t["name"])
    for mode in t["modes"]:
        sysm = engine.System(prog, mode=mode)
        lat, obs, data = prog.concrete()
        sysm.reset()
        cur = [lat]

        def call(ctl, i):
            cur[0] = sysm.run(cur[0], obs, data, ctl, reset=False)

        label = prog.name + (f" ({mode})" if mode else "")
        history(call, t["calls"], label, r, False)
        # the generators' own draws, always from the same state
        sysm.reset()
        outs = []
        for i in range(t["calls"]):
            with draws.control(None):
                outs.append([np.array(o) for o in sysm.fn(*sysm.args(lat, obs, data))])
            r.transitions += 1
        disc = {n for n in sysm.names if sysm.g.rvs[n].dtype.startswith("int")}
        for k, n in enumerate(sysm.names):
            if n in disc:
                continue
            for i in range(t["calls"]):
                for j in range(i):
                    r.validated += 1
                    same = outs[i][k].size and np.any(outs[i][k] == outs[j][k])
                    if same:
                        r.bad(f"{label}: calls {j} and {i} from the same state draw the same {n} = {outs[i][k].tolist()}")
        # two variables of one shape must not receive the same random numbers
        for a in range(len(sysm.names)):
            for b in range(a):
                u, v = outs[0][a], outs[0][b]
                if u.size and u.shape == v.shape and sysm.names[a] not in disc and np.array_equal(u, v):
                    r.bad(f"{label}: {sysm.names[a]} and {sysm.names[b]} receive the same draw {u.tolist()}")


# ---------------------------------------------------- stand-alone functions
def _crt():
    srng = stream()
    y, h = at.lvector(), at.scalar()
    out, upd = get("aemcmc.gibbs", "sample_CRT")(srng, y, h)
    return Fn([y, h], out, updates=upd), [np.array([4, 0, 3]), 1.3]


def _disp():
    srng = stream()
    h, p, a, b, y = at.scalar(), at.vector(), at.scalar(), at.scalar(), at.lvector()
    out, upd = get("aemcmc.gibbs", "nbinom_dispersion_posterior")(srng, h, p, a, b, y)
    return Fn([h, p, a, b, y], out, updates=upd), [1.3, np.array([0.3, 0.6]), 2.0, 0.7, np.array([3, 2])]


def _ffbs():
    out, upd = get("aemcmc.ffbs", "ffbs_step")(
        np.ones(2) / 2, np.array([[[0.5, 0.5], [0.5, 0.5]]]), np.zeros((2, 6)), stream())
    return Fn([], out, updates=upd), []


def _hs(n=3):
    srng = stream()
    beta, s2, l2, t2 = at.vector(), at.scalar(), at.vector(), at.scalar()
    post = get("aemcmc.gibbs", "horseshoe_posterior")
    a, b = post(srng, beta, s2, l2, t2)
    return Fn([beta, s2, l2, t2], [a, b]), [np.full(n, 0.4), 1.1, np.full(n, 0.8), 0.8]


def _bern():
    srng = stream()
    beta, sd, X, y = at.vector(), at.vector(), at.matrix(), at.vector()
    out = get("aemcmc.gibbs", "bern_normal_posterior")(srng, beta, sd, X, y)
    return Fn([beta, sd, X, y], out), [np.array([0.2, -0.3]), np.array([1.0, 2.0]), np.array([[1.0, 0.5], [0.2, -1.0], [0.7, 0.3]]), np.array([1.0, 0.0, 1.0])]


def _nbin():
    srng = stream()
    beta, sd, X, h, y = at.vector(), at.vector(), at.matrix(), at.scalar(), at.vector()
    out = get("aemcmc.gibbs", "nbinom_normal_posterior")(srng, beta, sd, X, h, y)
    return Fn([beta, sd, X, h, y], out), [np.array([0.2, -0.3]), np.array([1.0, 2.0]), np.array([[1.0, 0.5], [0.2, -1.0], [0.7, 0.3]]), 2.0, np.array([1.0, 0.0, 3.0])]


def _rue():
    srng = stream()
    b, Q = at.vector(), at.matrix()
    out = get("aemcmc.dists", "multivariate_normal_rue2005")(srng, b, Q)
    return Fn([b, Q], out), [np.array([0.3, -0.2]), np.array([[2.0, 0.3], [0.3, 1.0]])]


def _cong():
    srng = stream()
    A, om, phi, tt = at.vector(), at.vector(), at.matrix(), at.vector()
    out = get("aemcmc.dists", "multivariate_normal_cong2017")(srng, A, om, phi, tt)
    return Fn([A, om, phi, tt], out), [np.array([1.0, 2.0, 0.5]), np.array([0.7, 1.2]), np.array([[1.0, 0.2, 0.4], [0.3, -1.0, 0.8]]), np.array([0.3, 0.1])]


def _reg(rows):
    srng = stream()
    om, X, l2, z = at.vector(), at.matrix(), at.vector(), at.vector()
    out = get("aemcmc.gibbs", "normal_regression_posterior")(srng, om, l2, X, z)
    n, p = rows, 2 if rows > 2 else 3
    Xv = np.array([[1.0 + ((3 * i + 5 * j) % 4) * 0.3 for j in range(p)] for i in range(n)])
    return Fn([om, l2, X, z], out), [np.full(n, 0.5), np.full(p, 1.2), Xv, np.full(n, 0.3)]


def _prior(kind):
    srng = stream()
    mu = srng.normal(0, 1, name="mu")
    if kind == "one":
        rvs = (mu,)
    elif kind == "chain":
        y = srng.normal(mu, 1, size=2, name="y")
        rvs = (y, mu)
    else:
        a = srng.normal(0, 1, size=2, name="a")
        b = srng.normal(0, 1, size=2, name="b")
        rvs = (a, b, mu, srng.normal(a + b, 1, name="c"))
    out, upd = get("aemcmc.sample", "sample_prior")(srng, 3, *rvs)
    return Fn([], list(out) if isinstance(out, (list, tuple)) else [out], updates=upd), []


def _pg():
    from aesara import shared

    pg = get("aemcmc.dists", "polyagamma")
    srng = stream()
    h, z = at.vector(), at.vector()
    out = [srng.gen(pg, h, z), srng.gen(pg, h, z)]
    return Fn([h, z], out), [np.array([1.0, 2.0]), np.array([0.3, 0.0])]


DISCRETE = {"sample_CRT", "ffbs_step"}
FUNCS = {
    "sample_CRT": _crt, "nbinom_dispersion_posterior": _disp, "ffbs_step": _ffbs,
    "horseshoe_posterior": _hs, "horseshoe_posterior-1": lambda: _hs(1), "bern_normal_posterior": _bern,
    "nbinom_normal_posterior": _nbin, "multivariate_normal_rue2005": _rue,
    "multivariate_normal_cong2017": _cong, "normal_regression_posterior-tall": lambda: _reg(4),
    "normal_regression_posterior-wide": lambda: _reg(2), "sample_prior": lambda: _prior("one"),
    "sample_prior-chain": lambda: _prior("chain"), "sample_prior-joint": lambda: _prior("joint"), "polyagamma": _pg,
}
