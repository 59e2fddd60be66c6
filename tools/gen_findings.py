#!/usr/bin/env python3
"""Writes known_findings.txt: `fixed:` lines from the fix commits in /repo and
the list below, `finding:` lines from tools/findings.txt."""
import subprocess, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = {}
for l in open(os.path.join(R, "tools/fix_props.txt")):
    if l.strip():
        c, p = l.split()
        P[c] = p
out = ["# fixed: property=ID COMMIT WHAT FAILED        (suppresses nothing)",
       "# finding: property=ID sig=SIGNATURE | WHAT FAILS   (reported as KNOWN-FINDING)"]
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse", "cc503e3..HEAD"], text=True).splitlines():
    c, m = l.split(" ", 1)
    if c not in P:
        print("no property for", l, file=sys.stderr)
        continue
    out.append(f"fixed: property={P[c]} {c} {m.removeprefix('fix: ')}")
out += [l.rstrip() for l in open(os.path.join(R, "tools/findings.txt")) if l.strip()]
open(os.path.join(R, "known_findings.txt"), "w").write("\n".join(out) + "\n")
