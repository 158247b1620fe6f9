#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    path = os.path.join(HERE, "pbt", "props", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": pid, "reason": "no check yet"})
        continue
    doc = re.match(r'"""(.*?)"""', open(path).read(), re.S).group(1)
    subs = re.findall(r'^    Sub\("([^"]+)"', open(path).read(), re.M)
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} --tier quick",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "property-based testing: Hypothesis generators and shrinking against "
                     "independent reference models (" + ", ".join(subs) + ")",
        "level": "exploration",
        "level_note": "Held on every generated case (counts and samples in the evidence "
                      "file); nothing is proved beyond them. Trusts numpy/scipy/networkx "
                      "and the reference models in pbt/.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py selftest",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks: the checks drive the public API of the code in /repo's working "
             "tree. See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
