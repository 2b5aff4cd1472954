#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props_meta as m, table
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in m.PROPERTIES:
        f.write(json.dumps(p) + "\n")
checks = []
na = {x["property"]: x["reason"] for x in m.NOT_APPLICABLE}
for p in m.PROPERTIES:
    i = p["id"]
    if i in na:
        continue
    assert i in table.PROPS, i
    c = m.CLAIMED[i]
    checks.append(dict(property=i, quick_cmd=f"python3 checks/check.py {i} --tier quick", thorough_cmd=f"python3 checks/check.py {i} --tier thorough",
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=m.NOT_APPLICABLE), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for p in m.PROPERTIES:
        jsonschema.validate(p, ps)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), ms)
    print("schemas ok")
except ImportError:
    pass
