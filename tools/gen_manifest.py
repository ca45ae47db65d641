import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from specs import SPECS, NOT_YET
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    if p in SPECS:
        s = SPECS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
            evidence_file="evidence/%s.json" % p, technique=s["technique"], level=s["level"], level_note=s["note"]))
    else: m["not_applicable"].append(dict(property=p, reason=NOT_YET.get(p, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
