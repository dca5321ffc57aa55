"""Writes MANIFEST.json from sa/meta.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "sa"))
from meta import META
NA = json.load(open(os.path.join(H, "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p in META:
        x = META[p]
        checks.append(dict(property=p, quick_cmd="python3 sa/check.py %s" % p, thorough_cmd="python3 sa/check.py %s --thorough" % p,
                           technique=x["technique"], level="other", level_note=x["note"]))
na = [dict(property=p, reason=NA[p]) for p in props if p not in META]
m = dict(version=1, setup_cmd="python3 sa/setup.py", checks=checks, not_applicable=na,
         notes="Every check runs the rustc driver in driver/ over /repo's current tree for ten feature/profile configurations (more when a compound cfg predicate in the source distinguishes more; thorough: every feature combination) and decides the property on the dumped type-checked MIR.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
