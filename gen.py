#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import spec
with open(V + "/properties.jsonl", "w") as f:
    for pid, c in sorted(list(spec.CHECKS.items()) + [(n["pid"], n) for n in spec.NOT_APPLICABLE]):
        assert len(c["title"]) <= 80, c["title"]
        assert c["statement"].count(". ") <= 2, pid
        for x in c["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(dict(id=pid, title=c["title"], statement=c["statement"], quantifier=dict(over=c["over"], text=c["text"]), why_tests_cant=c["why"],
                                anchors=dict(files=c["files"], mechanism=[dict(name=a, where=b) for a, b in c["mech"]]))) + "\n")
checks = []
for pid, c in sorted(spec.CHECKS.items()):
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
                       technique="symbolic execution of the real code's LLVM IR, assertions decided by z3 (bit-vectors), counterexamples replayed natively", level="model_checking",
                       level_note="Exhaustive within the bounds, not a proof beyond them. Bounds: %s. Trusts: the executor's IR semantics and memory model, the C++ runtime stand-ins in rt/%s" % (c["bounds"], ("; " + "; ".join(c["assumptions"])) if c["assumptions"] else ".")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[dict(property=n["pid"], reason=n["reason"]) for n in spec.NOT_APPLICABLE]), open(V + "/MANIFEST.json", "w"), indent=1)
out = []
for pid, c in sorted(spec.CHECKS.items()):
    out.append("### %s %s\n\n%s\n\nDecided by the entries %s. Bounds: %s.%s Why tests cannot: %s.\n" % (pid, c["title"], c["statement"],
        "; ".join("`%s` in `harness/%s` (quick %s, thorough %s)" % (" ".join(h["entries"]), h["file"], h["quick"] or "-", h["thorough"] or "-") for h in c["harnesses"]),
        c["bounds"], (" Assumes: " + "; ".join(c["assumptions"]) + ".") if c["assumptions"] else "", c["why"]))
for n in spec.NOT_APPLICABLE:
    out.append("### %s %s (not applicable)\n\n%s\n\n%s\n" % (n["pid"], n["title"], n["statement"], n["reason"]))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- BEGIN GENERATED -->"), s.index("<!-- END GENERATED -->")
s = s[:a] + "<!-- BEGIN GENERATED -->\n" + "\n".join(out) + s[b:]
open(p, "w").write(s)
