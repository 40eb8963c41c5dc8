#!/usr/bin/env python3
"writes properties.jsonl and MANIFEST.json from tools/props.py"
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
I = "interoperability/"
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["all"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": [I + x for x in p["files"]], "mechanism": p["mech"]}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
claimed = [p for p in props.P if "na" not in p and os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py"))]
m = {"version": 1,
     "setup_cmd": "sh tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --thorough" % p["id"],
                 "technique": "symbolic execution of the real Python source, Z3 decides every branch and assertion",
                 "level": "model_checking",
                 "level_note": p["note"] + " " + props.NOTE} for p in claimed],
     "not_applicable": [{"property": p["id"], "reason": p.get("na", "no check built yet")} for p in props.P if p not in claimed],
     "notes": props.NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(props.P), "properties,", len(claimed), "claimed")
