#!/usr/bin/env python3
"""Regenerates sections 3, 4's table and 6 of DESIGN.md (between the markers) from meta/props.py, the checks' docstrings
and seeded/*/meta.json."""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from meta import props  # noqa: E402

rows, by = [], {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    by.setdefault(d["property"], []).append(i)
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/").split(". ")[0][:150],
                                           d["needs"].replace("|", "/").split(". ")[0][:130]))
seeds = "| planted bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"

sec = []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    f = V + "/checks/%s.py" % p["id"]
    doc = ast.get_docstring(ast.parse(open(f).read())) or ""
    doc = doc.split("\n\n", 1)[1] if "\n\n" in doc else ""
    sec.append("### %s %s\n\n*Claim.* %s\n\n*Decided by* %s. %s\n%s\n*Planted bugs:* %s.\n" % (
        p["id"], p["title"], p["statement"], p["technique"], p["level_note"], "\n" + doc + "\n" if doc else "",
        ", ".join(by.get(p["id"], [])) or "none"))
na = ["- **%s** %s: %s" % (p["id"], p["title"], p["reason"]) for p in props.NA]
parts = {"props": "\n".join(sec), "seeds": seeds, "na": "\n".join(na) + "\n"}
p = V + "/DESIGN.md"
s = open(p).read()
for k, t in parts.items():
    s, n = re.subn(r"(<!-- %s -->\n).*(<!-- /%s -->)" % (k, k), lambda x: x.group(1) + t + x.group(2), s, flags=re.S)
    assert n == 1, k
open(p, "w").write(s)
print(len(sec), "properties", len(rows), "planted bugs")
