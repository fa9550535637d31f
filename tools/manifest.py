"""Regenerate MANIFEST.json from properties.jsonl and the check modules."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
    "C01": "explicit-state enumeration of model programs, constructed and executed on the real code under controlled draws",
    "C02": "stateless exploration of the real sampler; provenance of every draw and two-run non-interference over generator states and compilation modes",
    "C03": "exhaustive enumeration of conjugate models, states and counts; real updates checked against the conditional of a reference joint density",
    "C04": "exhaustive enumeration of regressions and observation vectors; affine extraction of the real update over all Gaussian directions",
    "C05": "stateless exhaustive exploration of every outcome of every Bernoulli draw of the real code; exact probabilities against the reference",
    "C06": "exhaustive enumeration of coefficient patterns and draw alternatives on the real code; pivots matched with the reference update",
    "C07": "exhaustive enumeration of dimensions with affine extraction of the real draw over every basis direction",
    "C08": "stateless exhaustive exploration of every categorical outcome of the real recursion; exact path probabilities",
    "C09": "enumeration of models, states and kernel answers with the NUTS kernel as environment; real target density and map against the reference joint",
    "C10": "model checking of real sweeps: every order of the stages enumerated as candidate explanation over the reference kernels",
    "C11": "monitoring of generator states over all draws of bounded call histories of the real sampler",
    "C12": "enumeration of configurations (hash seeds, repetitions, seeds) and comparison of complete execution traces",
    "C13": "enumeration of model graphs, request orders, sample counts and call histories under controlled draws",
    "C14": "bounded-exhaustive enumeration of element-wise expressions; values of model and intermediate form compared on the real rewrites",
    "C15": "exhaustive enumeration of families, parameters and directions; real relations executed under controlled draws on quantile grids",
    "C16": "bounded-exhaustive enumeration of variable collections and names against a set model",
    "C17": "enumeration of all single edits and equivalent spellings of recognised models; real updates checked against reference conditionals",
    "C18": "enumeration of parameter shapes, sizes, generators and call histories in lockstep with the reference generator",
    "C19": "bounded-exhaustive enumeration of model graphs and their single edits against a reference matcher",
    "C20": "breadth-first exploration of chains of the real sampler over draw alternatives and kernel answers",
}
NOTE = ("Bounded-exhaustive: holds for every enumerated model, state and choice of draws within the bounds in the evidence file. "
        "Trusts NumPy/SciPy densities, Aesara's pure-Python evaluation and that each random family's sampler follows its parameters; ")
EXTRA = {
    "C09": "aehmc's NUTS transition itself is replaced by an environment that may answer any position.",
    "C12": "real draws, no control of generators.",
    "C14": "values compared in floating point on generic operands.",
    "C16": "pure Python, nothing else trusted.",
    "C18": "trusts the polyagamma package as reference generator.",
}


def main():
    props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(f"{ROOT}/mc/props/{i.lower()}.py"):
            cmd = f"{PY} mc/run.py {i}"
            checks.append({
                "property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + TECH[i],
                "level": "model_checking",
                "level_note": NOTE + EXTRA.get(i, "the reference is the model's own joint density evaluated in NumPy."),
            })
        else:
            na.append({"property": i, "reason": "the check is still being built"})
    m = {
        "version": 1,
        "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '.'); import mc.env, aemcmc\"",
        "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo: draws are owned at RandomVariable.perform and the NUTS kernel at aehmc.nuts.new_kernel, both replaced from outside.",
    }
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
