"""Run catalogue models against the reference conditionals (shared by checks)."""
import numpy as np

from . import blocks, engine, models
from .report import jsonable

_by_name = None
# hundreds: values stretched (1) or shrunk (2) in scale
STATES3 = [[0, 0, 0], [1, 2, 1], [3, 1, 0], [100, 3, 1], [201, 2, 0]]
# their log densities in aeppl underflow to minus infinity at small scales
UNDERFLOW = ("laplace", "logistic-")


def model(name):
    global _by_name
    if _by_name is None:
        _by_name = {p.name: p for p in models.spelled(True)}
        _by_name.update(models.everything())
    return _by_name[name]


def kinds(prog, sysm):
    """Documented specialised updates that were left to NUTS."""
    out = []
    for n, k in (prog.meta.get("expect") or {}).items():
        if k != "nuts" and n in sysm.nuts_names:
            out.append(n)
    return out


def run_model(name, states, r, graph_seed=0, scan=False):
    """Every block's update in every state must be an exact conditional one,
    and one order of the blocks must explain the whole sweep."""
    prog = model(name)
    sysm = engine.System(prog, seed=graph_seed)
    left = kinds(prog, sysm)
    if left:
        r.bad(f"{name}: {left} is left to NUTS although its specialised update applies", model=name)
    for k, ok, lev in states:
        if k >= 200 and any(u in name for u in UNDERFLOW):
            continue
        lat, obs, data = prog.concrete(k, ok)
        node, blks, orders = check_state(prog, sysm, lat, obs, data, lev, r, tag=[k, ok, lev])
        if scan and orders:
            # the stages, in the order the sampler reports them
            flat = [v for vs in sysm.sampler.stages.values() for v in vs]
            pos = {n: flat.index(sysm.g.rvs[n]) for n in sysm.names if sysm.g.rvs[n] in flat}
            rep = tuple(sorted(range(len(blks)), key=lambda i: min(pos.get(n, 99) for n in blks[i][1])))
            if not node.explains(rep):
                nm = lambda o: [list(blks[i][1]) for i in o]
                r.bad(f"{name}: the reported scan order {nm(rep)} does not explain the sweep; {[nm(o) for o in orders]} do",
                      model=name, state=lat, observed=obs, sweep=node.base)
    return sysm


def check_state(prog, sysm, lat, obs, data, lev, r, tag=None, probe=None):
    node = blocks.Node(sysm, lat, obs, data, level=lev, probe=probe)
    stats = {}
    blks, orders, msgs = blocks.verify(node, stats)
    r.states += 1
    r.transitions += node.execs
    r.validated += stats["checks"]
    for key, w in node.known.items():
        r.known.setdefault(key, f"{prog.name} state {tag}: {w}")
    r.skipped += [f"{prog.name} state {tag}: {w}" for w in node.limits]
    kindstr = "/".join(sorted(f"{b[0]}:{'+'.join(b[1])}" for b in blks))
    r.outcome(f"{prog.name}|{kindstr}|{[[list(blks[i][1]) for i in o] for o in orders]}|{len(node.base_ctl.log)}")
    r.sample(model=prog.name, state=jsonable(lat), observed=jsonable(obs), sweep=jsonable(node.base),
             draws=[repr(d)[:160] for d in node.base_ctl.log[:6]], orders=[[list(blks[i][1]) for i in o] for o in orders])
    if not orders:
        if not msgs:
            msgs = {"order": "every stage is exact for some choice of already updated variables, but no order of the stages explains all"}
        r.bad(f"{prog.name} in state {tag}: " + "; ".join(f"[{k}] {m}" for k, m in msgs.items()),
              model=prog.name, state=lat, observed=obs, data=data, sweep=node.base)
    return node, blks, orders


ANSWERS = [
    lambda q: q,
    lambda q: q + 0.31 + 0.07 * (np.arange(q.size) % 9),
    lambda q: q - 0.27 + 0.11 * (np.arange(q.size) % 3),
    lambda q: -1.1 * q + 0.2,
]


def catalogue(tier):
    return models.everything() if tier == "thorough" else models.by_name()
