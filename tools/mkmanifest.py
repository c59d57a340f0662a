#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, checks.conf.py and the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CHECKS = {}
def H(harness, *ids, **kw):
    for i in ids: CHECKS[i] = kw
class _Any:
    def __getattr__(self, n): return lambda *a, **k: None
env = {"H": H}
exec(open(V + "/checks.conf.py").read(), env)
T = json.load(open(V + "/tools/techniques.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t = T.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=t["technique"], level=t.get("level", "exploration"), level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=T.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
    notes="Every check searches generated inputs, histories, schedules or faults against an explicit oracle; see DESIGN.md. known_findings.json lists genuine defects that were fixed or recorded.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks,", len(na), "not claimed")
