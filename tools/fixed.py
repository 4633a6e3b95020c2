#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of KNOWN_FINDINGS.txt from /repo's fix: commits (developer tool; no check runs it)."""
import subprocess, os
M = {}
exec(open(os.path.join(os.path.dirname(__file__), "fixmap.py")).read())
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")
keep = [l for l in open(f) if not l.startswith("fixed:")] if os.path.exists(f) else []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]; p = next((v for k, v in M.items() if s.startswith(k)), None)
        if not p: print("no property for:", s); continue
        keep.append("fixed: property=%s %s %s\n" % (p, h, s))
open(f, "w").writelines(keep)
