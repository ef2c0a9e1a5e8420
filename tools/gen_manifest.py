#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import PROPS
NA = {}
try: from checks import NOT_APPLICABLE as NA
except ImportError: pass
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 vp.py %s --tier quick" % i, thorough_cmd="python3 vp.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiled LLVM IR of the real headers, assertions decided by SMT (z3, cvc5 portfolio), counterexamples replayed natively", level="model_checking",
            level_note="Exhaustive within bounds: " + PROPS[i]["bounds"] + (". Outside: " + PROPS[i]["outside"] if PROPS[i]["outside"] else "")))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 vp.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
