"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run: python3 tools/gen.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF)
from props import PROPS
from sa.rules import REGISTRY

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        mech = [{"name": n, "where": w} for n, w in p["mech"]]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": sorted({w.split(":")[0] for _, w in p["mech"]}), "mechanism": mech}}
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in PROPS:
    if p["id"] in REGISTRY:
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 -m sa.run %s" % p["id"],
                       "thorough_cmd": "python3 -m sa.run %s --tier thorough" % p["id"],
                       "technique": "static analysis: " + p["technique"],
                       "level": "other",
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sa.rules\"",
     "checks": checks, "not_applicable": na,
     "notes": "All checks analyse the source text under /repo/src with the analyser in /verif/sa (Python standard library only); no repository code is run."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
