#!/usr/bin/env python3
"""MANIFEST.json from props.json and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hook if "hook" in l.lower() and not l.split(" ", 1)[1].startswith("fix:")]
checks, na = [], []
for i in ids:
    if i in P and P[i].get("units"):
        p = P[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": "contracts on the real functions, extracted on every run and discharged by Verus/Z3; concrete failing inputs searched natively",
            "level": p.get("level", "proof"),
            "level_note": p["explanation"],
        })
    else:
        na.append({"property": i, "reason": P.get(i, {}).get("na", "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup",
           "hooks": {"guard": "cfg(vx_hooks)", "enable": "RUSTFLAGS='--cfg vx_hooks' when building the harness crate, whose path dependency is /repo", "source_commits": hooks},
           "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
