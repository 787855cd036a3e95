#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md (list of fixes, table of planted bugs)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
fixes = {}
for l in open(os.path.join(HERE, "KNOWN_FINDINGS.jsonl")):
    d = json.loads(l)
    if d.get("status") == "fixed":
        fixes.setdefault(d["commit"], [[], d["text"].split(d["commit"], 1)[1].strip()])[0].append(d["property"])
f = "\n".join("* `%s` (%s): %s." % (c, ", ".join(ps), t.rstrip(".")) for c, (ps, t) in fixes.items())
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    rows.append("| `%s` | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"] + " quick")))
def sub(name, text):
    global s
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda k: k.group(1) + text + "\n" + k.group(2), s, flags=re.S)
sub("fixes", f); sub("seeded", "\n".join(rows))
open(p, "w").write(s)
