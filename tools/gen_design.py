#!/usr/bin/env python3
"""Writes DESIGN.md from its parts and the matrix of planted bugs (tools/matrix.json: id -> result)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda n: open(os.path.join(root, "tools", n)).read()
out = rd("design_head.md") + "\n" + rd("design_body.md") + rd("design_tail.md")
mx = {}
p = os.path.join(root, "tools", "matrix.json")
if os.path.exists(p): mx = json.load(open(p))
out += "\n## 5. Planted bugs\n\nEach was confirmed in a scratch worktree: compiles, keeps the 104 stable tests passing, its demonstration passes without and fails\nwith it. The last column names the checks (quick tier, seed 1) that report it.\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
sd = os.path.join(root, "seeded")
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), ", ".join(k for k, v in sorted(mx.get(i, {}).items()) if v) or "–")
open(os.path.join(root, "DESIGN.md"), "w").write(out)
