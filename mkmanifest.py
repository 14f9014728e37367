"""Writes MANIFEST.json from the harnesses present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {
}
NA = {
    "P26": "needs PyTorch, which is not installed here and cannot be fetched: the module cannot even be imported, so neither its tensors "
           "and automatic differentiation can be encoded faithfully nor a counterexample be replayed on the real code.",
}
DEFAULT_NOTE = ("Bounded: every input within the sizes listed in the evidence (all real values of the symbolic quantities, all "
                "branch outcomes, all admissible oracle answers); exact real arithmetic in place of floating point; numpy/scipy "
                "primitives modelled by contracts; every reported violation is replayed on the real package.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harnesses", i.lower() + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique="symbolic execution of the current source with SMT-decided assertions (z3, nonlinear reals) and concrete replay",
                           level="model_checking", level_note=NOTES.get(i, "") + DEFAULT_NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 selftest.py", checks=checks, not_applicable=na,
               notes="No hooks are needed: the checks execute the source of /repo/copt under a symbolic numpy layer."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
