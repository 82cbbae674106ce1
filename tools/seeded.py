#!/usr/bin/env python3
"""python3 tools/seeded.py < output of tools/catch.py : rewrites the table of planted bugs in DESIGN.md (bugs not in the input keep their line)."""
import sys, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); s = open(V + "/DESIGN.md").read(); a = s.index("<!-- BEGIN SEEDED -->") + 22; b = s.index("<!-- END SEEDED -->")
rows = {m.group(1): m.group(0) for m in re.finditer(r"^\| (b\S+) \|.*$", s[a:b], re.M)}
for l in sys.stdin:
    w = l.split()
    if len(w) < 3 or not os.path.isdir(V + "/seeded/" + w[0]): continue
    m = json.load(open(f"{V}/seeded/{w[0]}/meta.json")); r = re.search(r"replay/P\d+-(\w+)-\d+\.json", l)
    rows[w[0]] = f"| {w[0]} | {w[1]} | {m['what_it_breaks']} | {'caught by `' + r.group(1) + '`' if r else 'caught' if w[2] == 'CAUGHT' else 'missed'} |"
rows = {k: v for k, v in rows.items() if os.path.isdir(V + "/seeded/" + k)}
open(V + "/DESIGN.md", "w").write(s[:a] + "\n| bug | property | what it breaks | result |\n|---|---|---|---|\n" + "\n".join(rows[k] for k in sorted(rows)) + "\n\n" + s[b:])
