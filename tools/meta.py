#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/props.py (single source for both)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: pre/postconditions and loop invariants checked against the LLVM IR of the compiled repository functions, all obligations discharged by SMT (z3, cvc5)"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p.get("over", ["inputs"]), "text": p["quant"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps(d) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3-vt /verif/check.py %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3-vt /verif/check.py %s" % p["id"],
                   "technique": TECH, "level": "proof", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && clang++ --version >/dev/null",
     "hooks": {"guard": "GANDALF_VERIFY (reserved; no hook is needed, the contracts live in /verif and are checked against the unmodified functions)",
               "enable": "none", "source_commits": []},
     "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    for n, f in (("MANIFEST", "MANIFEST.json"),):
        jsonschema.validate(json.load(open(os.path.join(V, f))), json.load(open("/root/.vp/%s.schema.json" % n)))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch)
    print("schemas ok")
except ImportError:
    print("no jsonschema")
