#!/usr/bin/env python3
"""Regenerates KNOWN_FINDINGS.jsonl from findings.py."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []


def fixed(props, commit, what):
    for p in props:
        K.append({"property": p, "status": "fixed", "commit": commit, "text": "fixed: property=%s %s %s" % (p, commit, what)})


def known(id, prop, rule, match, what):
    K.append({"id": id, "property": prop, "status": "known", "rule": rule, "match": match, "what": what})


exec(open(os.path.join(HERE, "tools", "findings.py")).read())
with open(os.path.join(HERE, "KNOWN_FINDINGS.jsonl"), "w") as f:
    f.write("".join(json.dumps(k) + "\n" for k in K))
