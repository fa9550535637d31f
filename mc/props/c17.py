"""C17: near misses and equivalent spellings of the recognised models."""
from mc import engine, models, modelrun

ASSUMPTIONS = [
    "a spelling counts as documented when it reaches the documented form without an algebraic identity (names, operators, sizes, constants, double minus signs)",
    "draws are owned at RandomVariable.perform; every family's sampler is trusted to follow its parameters",
]
BOUNDS = {
    "quick": "all single edits of the recognised models (mutants and broadcast/shared fallbacks) x 2 states, all spellings x 1 state; specialised use for every recognised part of every catalogue model",
    "thorough": "all single edits and all spellings x 12 states; every edit of links, products and priors in pairs",
}


def tasks(tier):
    deep = tier == "thorough"
    states = modelrun.STATES3 + [[k, ok, lev] for k in (1, 2, 4) for ok in (0, 3, 5) for lev in (1,)] if deep else None
    for p in models.mutants() + models.conj_fallback():
        yield {"name": p.name, "states": states or modelrun.STATES3[:2], "cost": 3}
    cat = [p.name for p in (models.everything() if deep else models.by_name()).values() if set((p.meta.get("expect") or {}).values()) - {"nuts"}]
    for i in range(0, len(cat), 6):
        yield {"use": cat[i : i + 6], "cost": 4}
    for p in models.spelled():
        yield {"name": p.name, "states": states or modelrun.STATES3[:1], "cost": 2}
    if deep:
        for p in models.spelled(True):
            yield {"name": p.name, "states": modelrun.STATES3, "cost": 2}


def run_task(t, r):
    for name in t.get("use", []):
        # every recognised part of every model gets its specialised update
        prog = modelrun.model(name)
        sysm = engine.System(prog)
        left = modelrun.kinds(prog, sysm)
        r.states += 1
        r.transitions += 1
        r.validated += len(prog.meta["expect"])
        r.outcome(f"{name}|{sorted(sysm.nuts_names)}")
        if left:
            r.bad(f"{name}: {left} is left to NUTS although its specialised update applies", model=name)
    if "use" in t:
        return
    modelrun.run_model(t["name"], t["states"], r)

