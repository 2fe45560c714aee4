#!/usr/bin/env python3
"""Refresh the tables of DESIGN.md: repaired defects (known_findings.json)
and planted bugs (seeded/*/meta.json; "missed_first" says what was added)."""
import json
import os

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open("DESIGN.md").read()


def put(s, start, end, text):
    i = s.index(start) + len(start)
    return s[:i] + text + s[s.index(end, i):]


by = {}
for e in json.load(open("known_findings.json"))["fixed"]:
    _, prop, commit, text = e.split(" ", 3)
    by.setdefault(prop[9:], []).append("  - `%s` %s\n" % (commit, text))
s = put(s, "<!-- fixes -->\n", "<!-- end -->", "".join(
    "* **%s**\n%s" % (p, "".join(by[p])) for p in sorted(by)))
rows = ""
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows += "| %s | %s | %s |\n" % (d, m["property"],
                                   m.get("missed_first", "\u2013"))
s = put(s, "|-----|-----------|------------------------------|\n",
        "<!-- end plants -->", rows)
open("DESIGN.md", "w").write(s)
