# Writes MANIFEST.json from checks.py and properties.jsonl: python3 tools/manifest.py
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "path-exhaustive symbolic execution of the compiled library code (LLVM IR instrumentation), SMT solver (z3) deciding every branch, bound and assertion",
            "level": "model_checking", "level_note": PROPS[i].get("note", "Exhaustive within the bounds of each harness unless its evidence says the time limit was hit; bounds are listed in checks.py and in the evidence.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
