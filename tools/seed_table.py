#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/ and try logs (arguments)."""
import json, os, re, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) ([A-D]\d\d) rc=(\d)", l)
        if m: res.setdefault(m[1], {})[m[2]] = m[3]
out = ["| planted bug | needs | caught by |", "|---|---|---|"]
p = os.path.join(R, "DESIGN.md"); s = open(p).read()
old = dict(re.findall(r"^\| (\S+) \| .* \| (\S.*) \|$", s, re.M))
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    by = ", ".join(k for k, v in sorted(res.get(d, {}).items()) if v == "1") or old.get(d) or "not tried"
    out.append(f"| {d} | {m['needs']} | {by} |")
s = s[:s.index("<!-- seeds -->")] + "<!-- seeds -->\n" + "\n".join(out) + "\n"
open(p, "w").write(s)
