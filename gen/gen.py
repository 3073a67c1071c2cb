import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
out = os.path.dirname(here)
NA = getattr(props, "NA", [])
with open(os.path.join(out, "properties.jsonl"), "w") as f:
    for p in props.PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
man = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for p in props.PROPS:
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "bash run.sh %s quick" % p["id"],
        "thorough_cmd": "bash run.sh %s thorough" % p["id"],
        "technique": "static analysis: path-sensitive abstract interpretation of the SSA form of /repo, with rules for this property over its abstract paths, transitions and goroutines",
        "level": "other",
        "level_note": p["note"] + "; sound for the modelled semantics (sync, context, tomb, errors), for every input and schedule, with no bound on the number of workers or events",
    })
for p in NA:
    man["not_applicable"].append({"property": p["id"], "reason": p["note"]})
with open(os.path.join(out, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
