#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from /repo's history; MAP assigns properties (first match, default C01)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip("\n").split("\t") for l in open(os.path.join(HERE, "tools", "fixed.map")) if l.strip()]
log = subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = [l for l in open(os.path.join(HERE, "known_findings.txt")) if not l.startswith("fixed:")]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = next((m[0] for m in MAP if m[1] in s), "C01")
    out.append("fixed: property=%s %s %s\n" % (p, h, s[5:]))
open(os.path.join(HERE, "known_findings.txt"), "w").write("".join(out))
