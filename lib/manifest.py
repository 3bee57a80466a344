"""Writes MANIFEST.json from props.PROPS (run: python3 lib/manifest.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
NA = {
    "C29": "A statement about which programs the compiler accepts: no execution can violate or confirm it, so there is nothing for a runtime monitor to observe.",
}
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": s.technique,
            "level": "exploration",
            "level_note": s.note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every engine uses the public interface only. Checks build the harness (path dependency on /repo) under /verif/target in up to 15 configurations of target, optimisation, features and sanitizer.",
}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na])
