"""C10: a sweep is the composition of its stages in the reported order."""
from mc import models, modelrun

ASSUMPTIONS = [
    "each stage is related to the reference conditional given every subset of already updated variables; only the reported scan order may explain the sweep",
]
BOUNDS = {
    "quick": "all catalogue models with two or more stages x 2-3 states, all orders of the stages",
    "thorough": "the full catalogue x 6 states",
}


def tasks(tier):
    deep = tier == "thorough"
    ps = models.multi() + models.composite(deep) + models.conj_hier() + models.hs_catalogue(deep) + models.disp_catalogue(deep) + models.hs_only() + models.chains(deep) + [q for q in models.large() if "all-kernels" in q.name or "-hs-" in q.name] + [q for q in models.typed(deep) + models.derived(deep) if len(q.meta.get("expect") or ()) > 1]
    ps += [p for p in models.shared_data() if "nbinom" in p.name or "horseshoe" in p.name or "scaled" in p.name]
    if deep:
        ps += models.mutants() + models.conj_fallback()
    seen = set()
    for p in ps:
        if p.name in seen:
            continue
        seen.add(p.name)
        st = modelrun.STATES3 if not deep else modelrun.STATES3 + [[2, 3, 2], [4, 0, 1], [5, 4, 3]]
        if "gamma" in p.name and not deep:
            st = st[:2] + [[100, 2, 1]]
        yield {"name": p.name, "states": st, "cost": 4}


def run_task(t, r):
    modelrun.run_model(t["name"], t["states"], r, scan=True)
