#!/usr/bin/env python3
"""setup_cmd: verifies the offline toolchain the checks need; nothing is built ahead of the checks (they build from /repo)."""
import shutil, sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("clang++-18", "python3"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
sys.path.insert(0, V)
import checks_table
m = json.load(open(os.path.join(V, "MANIFEST.json")))
for c in m["checks"]:
    cfg = checks_table.CHECKS[c["property"]]
    assert os.path.exists(os.path.join(V, "mc/checks", cfg.get("src", c["property"] + ".cpp"))), c
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok: %d checks" % len(m["checks"]))
