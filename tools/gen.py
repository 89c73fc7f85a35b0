#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/propdata.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propdata import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/build.py",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']}",
                   "thorough_cmd": f"python3 tools/check.py {p['id']} --tier=thorough",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                  for p in PROPS if p.get("claimed", True)],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p.get("claimed", True)],
       "hooks": {"guard": "JLM_VERIFICATION", "enable": "tools/build.py compiles /repo's sources with -DJLM_VERIFICATION",
                 "source_commits": ["cdccda594699dd8931a591258fa118b7ec4e30c3", "d0d737851496551e49566cc38ed5fb641a24141f"]},
       "notes": "See DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    for fn in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + fn), fn
    for m in p["anchors"]["mechanism"]:
        assert os.path.exists("/repo/" + m["where"].split(":")[0]), m
assert len({p["id"] for p in PROPS}) == len(PROPS)
