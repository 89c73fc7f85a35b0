#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: rebuilds from /repo's working tree and runs one property check.

Exit status: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 error of the check itself.
"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
    seed = os.environ.get("VERIF_SEED", "1")
    os.chdir(build.VERIF)
    exe = build.build("rel")
    if exe is None:
        print("error: the harness does not build against this tree")
        return 2
    os.makedirs("evidence", exist_ok=True)
    cmd = [exe, "check", pid, f"--tier={tier}", f"--seed={seed}", f"--evidence=evidence/{pid}.json"]
    if tier == "quick":
        cmd += ["--time=420"]
    else:
        cmd += ["--time=2400"]
    rc = subprocess.run(cmd).returncode
    return rc if rc in (0, 1) else 2

sys.exit(main())
