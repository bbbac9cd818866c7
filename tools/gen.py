#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props as p
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for x in p.PROPS:
        d = {k: v for k, v in x.items() if k != "note"}
        f.write(json.dumps(d) + "\n")
na = {i for i, _ in p.NA}
m = dict(version=1, setup_cmd="./build_engine.sh",
    hooks=dict(guard="verif", enable="no hooks are needed: harnesses enter through a build overlay", source_commits=[]),
    checks=[dict(property=x["id"], quick_cmd="./check.sh %s quick" % x["id"], thorough_cmd="./check.sh %s thorough" % x["id"],
        evidence_file="evidence/%s.json" % x["id"], technique=p.TECH, level="other", level_note=p.NOTE + x["note"])
        for x in p.PROPS if x["id"] not in na],
    not_applicable=[dict(property=i, reason=r) for i, r in p.NA],
    notes="Engine in engine/, harnesses in harness/<package>/<property>_*.go; see DESIGN.md.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(root + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
    print("schemas ok", len(p.PROPS), "properties")
except ImportError:
    print("no jsonschema")
