#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
R = "exploration"
C = {}   # id -> (technique, level_note)
NA = {}  # id -> reason
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in C:
        t, n = C[i]
        checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
                       "technique": t, "level": R, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "jxlrs_verif (rustc cfg)", "enable": "RUSTFLAGS='--cfg jxlrs_verif' cargo build in /verif/harness (path dependency on /repo/jxl)", "source_commits": HOOKS},
     "checks": checks, "not_applicable": na,
     "notes": "All checks build the crate in /verif/harness (and further build variants listed in bin/variants.py) from /repo's working tree and observe executions of it; see DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
