#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes planted bugs under /verif/seeded from specifications (see the dictionary keys below)."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMPL = '''#!/bin/bash
# runs programs before and after jlm-opt and compares what they print and return
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
LLI=/usr/lib/llvm-18/bin/lli
for f in "$D"/*.ll; do
  flags=$(sed -n 's/^; flags: //p' "$f")
  timeout 60 ./build-release/jlm-opt $flags -o "$T/o.ll" "$f" || { echo "$f: jlm-opt failed"; exit 1; }
  a=$(timeout 30 $LLI "$f"; echo "status $?")
  b=$(timeout 30 $LLI "$T/o.ll"; echo "status $?")
  [ "$a" = "$b" ] || { echo "$f: expected $a, got $b"; exit 1; }
done
exit 0
'''
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    for s in g["SEEDS"]:
        assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout, "/repo not clean"
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        for f, old, new in s["edits"]:
            t = open("/repo/" + f).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open("/repo/" + f, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        for n, t in s.get("files", {}).items():
            open(f"{d}/{n}", "w").write(t)
        open(d + "/demo.sh", "w").write(s.get("demo", TMPL))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
