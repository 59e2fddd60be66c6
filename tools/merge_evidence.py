#!/usr/bin/env python3
"""Merge the evidence of a check's stages (evidence/ID-*.json) into one file."""
import glob, json, os, sys
pid = sys.argv[1]
root = os.environ.get("VH_ROOT", "/verif")
parts = {}
for p in sorted(glob.glob(f"{root}/evidence/{pid}-*.json")):
    with open(p) as f:
        parts[os.path.basename(p)[len(pid) + 1 : -5]] = json.load(f)
    os.remove(p)
if not parts:
    sys.exit("no evidence")
first = next(iter(parts.values()))
out = {k: first[k] for k in ("property", "tier", "seed", "level")}
cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": first["coverage"]["rule"], "samples": [], "stages": {}}
assume, wall, viol = [], 0.0, 0
for name, d in parts.items():
    c = d["coverage"]
    cov["evaluations"] += c["evaluations"]
    # the stages run the same cases under different detectors
    cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], c["distinct_nontrivial"])
    cov["samples"] += [f"{name}: {s}" for s in c["samples"][:10]]
    cov["stages"][name] = {k: c[k] for k in ("evaluations", "distinct_nontrivial", "observed", "sections")}
    assume += [a for a in d["assumptions"] if a not in assume]
    wall = max(wall, d["wall_s"])
    viol += d["violations"]
out["coverage"] = cov
out["assumptions"] = assume
out["wall_s"] = wall
out["violations"] = viol
with open(f"{root}/evidence/{pid}.json", "w") as f:
    json.dump(out, f, indent=1)
