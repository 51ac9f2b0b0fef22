#!/usr/bin/env python3
"""Appends sections 5-7 to DESIGN.md (repairs, findings, planted bugs) from the committed data."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
missed = json.load(open(V + "/tools/missed_first.json"))
out = []
w = out.append
w("## 5. Planted bugs (`seeded/`)\n")
w("Every entry applies to /repo's HEAD, changes original lines, keeps the 937 tests passing, and has a")
w("demonstration. `caught by` is the property's quick check (run with `MC_REPO` pointing to a scratch copy")
w("with the patch). Entries marked * were missed when first planted; the note says what was added.\n")
w("| id | property | needs | caught by |")
w("|---|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + i + "/meta.json"))
    note = missed.get(i)
    w("| %s%s | %s | %s | %s%s |" % (i, "*" if note else "", m["property"], m["needs"], m["property"],
      "; " + note if note else ""))
w("")
w("## 6. Defects found and repaired (`fix:` commits in /repo)\n")
w("Each was reported by the check of the property named, with a failing case, on the original tree.\n")
for f in k["fixed"]:
    w("* " + f.replace("fixed: property=", ""))
w("")
w("## 7. Known findings (not repaired)\n")
for f in k["findings"]:
    w("* **%s, %s**: %s" % (f["property"], f["key"], f["what"]))
w("")
p = V + "/DESIGN.md"
s = open(p).read().split("## 5. Planted bugs")[0]
open(p, "w").write(s + "\n".join(out))
