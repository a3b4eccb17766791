#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = checks.NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": []}
if checks.HOOKED:
    m["hooks"] = {"guard": "kogarashi_verif (rustc --cfg)", "enable": "RUSTFLAGS='--cfg kogarashi_verif' (set by run.py for the harness crates that need it)", "source_commits": checks.HOOK_COMMITS}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                            "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                            "technique": c.get("technique", "Quint specification checked with TLC on toy constants; its behaviours replayed step by step in the real code"),
                            "level": c["level"], "level_note": c.get("note", "Decides the property on every behaviour generated: the real object's projected state and reported results are compared with the specification after every step. Trusts the Quint specification, num-bigint for the projection, and the sampling of large domains (boundary-biased).")})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "check under construction")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
