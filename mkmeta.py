#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propmeta.py and props.py."""
import json, os
import propmeta, props
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for p in propmeta.ALL:
        f.write(json.dumps(p) + "\n")
checks = []
na = [dict(x) for x in propmeta.NOT_APPLICABLE]
for p in propmeta.ALL:
    i = p["id"]
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                           technique="symbolic execution of the LLVM IR of the real code with SMT solving (Z3), counterexamples replayed natively",
                           level="model_checking", level_note="bounded: " + props.PROPS[i]["bounds"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
