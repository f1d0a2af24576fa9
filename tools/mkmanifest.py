#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import checks_table as t
root = os.path.dirname(here)
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = getattr(t, "NOT_APPLICABLE", {})
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "JNIVM_MODEL_CHECKING", "enable": "no hooks were needed: the checks compile /repo's unmodified sources with their own flags and runtime", "source_commits": []},
    "checks": [], "not_applicable": [],
}
for p in props:
    c = t.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "bounded exhaustive model checking of the implementation: stateless search over all operation histories, in lockstep with a reference model"),
        "level": c.get("level", "model_checking"),
        "level_note": "Exhaustive within: " + c["bounds"]["quick"] + " (quick). Assumes: " + "; ".join(c["assumptions"]) + ".",
    })
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
