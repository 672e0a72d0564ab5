#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that the harness decides."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
src = open(root + "/harness/src/props/mod.rs").read()
ids = re.findall(r'"(C\d\d)"', re.search(r"IDS: &\[&str\] = &\[(.*?)\];", src, re.S).group(1))
TECH = {
    "runtime": "property-based testing in process against a reference implementation, with shrinking",
    "e2e": "property-based testing with generated programs, compiled with the derive macro, against a reference interpreter",
}
NOTE = {}
exec(open(root + "/tools/notes.py").read())
checks = []
for p in props:
    if p["id"] not in ids:
        continue
    tech, note = NOTES.get(p["id"], (TECH["e2e"], ""))
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"./check.sh {p['id']}",
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
na = [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in ids]
m = {
    "version": 1,
    "setup_cmd": "./check.sh web",
    "checks": checks,
    "not_applicable": na,
    "notes": "One harness crate (harness/) decides all properties; check.sh builds it against /repo's working tree. "
             "No hooks in /repo. Known and fixed findings: known-findings.txt.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
