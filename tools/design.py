#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (harnesses, findings, planted bugs)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check

def sub(s, tag, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + body + m.group(2), s, flags=re.S)

out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    q = {(h["pkg"], h["fn"]) for h in check.harnesses(p["id"], "quick")}
    out.append("**%s %s**\n\n" % (p["id"], p["title"]))
    for h in check.harnesses(p["id"], "thorough"):
        m = "det" if "det" in h["dir"] else "full"
        if h["dir"].get("preempt"):
            m += " " + h["dir"]["preempt"].replace("-1", "no limit")
        if (h["pkg"], h["fn"]) not in q:
            m += ", T"
        out.append("* `%s.%s` (%s): %s\n" % (h["pkg"], h["fn"], m, h["doc"] or "(see the harness)"))
    out.append("\n")
s = open(os.path.join(V, "DESIGN.md")).read()
s = sub(s, "HARNESSES", "".join(out))
s = sub(s, "FINDINGS", "".join("* %s `%s`: %s\n" % (f["property"], f["commit"], f["what"]) for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"]))
sd = os.path.join(V, "seeded")
rows = ["| planted bug | property | needs | caught by |\n|---|---|---|---|\n"]
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s | check %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught", m["property"])))
s = sub(s, "SEEDED", "".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
