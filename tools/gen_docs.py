#!/usr/bin/env python3
# rewrites the generated tables of DESIGN.md (between the markers): planted bugs and the checks that catch them, bounds, repaired defects
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = os.path.join(V, "DESIGN.md"); s = open(p).read()
import sys; sys.path.insert(0, V)
import checks_table
def put(mark, text):
    global s
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    i, j = s.index(a) + len(a), s.index(b); s = s[:i] + "\n" + text + "\n" + s[j:]
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], re.sub(r"\s+", " ", d["needs"]).replace("|", "\\|")))
put("seeds", "\n".join(rows))
put("bounds", "\n".join("* **%s**: %s." % (k, v["bound"]) for k, v in sorted(checks_table.CHECKS.items())))
K = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
put("defects", "\n".join("* " + (k.get("line") or "KNOWN property=%s %s" % (k["property"], k["what"])) for k in K))
open(p, "w").write(s)
