#!/usr/bin/env python3
"""Developer tool (never run by a check): rewrites the "fixed" entries of known-findings.json from /repo's fix: commits,
keeping the hand-written "known" entries."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in """
28101e9 E01|ba10b3c E07 R01|4236d16 E08|db6e110 E01|f3f69ed E01 A01|1e3e382 E06|9b1c3fb E02|6af4563 E07|e7bcd55 E01|9d740bf E03
22742c5 E03 M01|8252f75 A01 E03|230e740 E07 G01|716227f E06 M01|500340f G01|b9f7a89 E06 A01|519b9ae G01|3acef2f E06|655105f E06
30b1075 E07|ca8e32e E04|3e92edf E04|80c2d20 E04|eebd22b E05|642c7b1 E05|9e0da77 E05|bf255de E05 M01|80bb5db E08|9e28f84 M03 G02 M02
c5e74c1 G01|1fcf565 G01|6a4ce9f G01|301672a G01
""".split("\n"):
    for part in line.split("|"):
        if part.strip():
            h, *ps = part.split()
            PROP[h] = ps
extra = os.path.join(ROOT, "tools", "fixprops.txt")
if os.path.exists(extra):
    for l in open(extra):
        if l.strip():
            h, *ps = l.split()
            PROP[h] = ps
kf = os.path.join(ROOT, "known-findings.json")
out = [k for k in json.load(open(kf)) if k.get("status") == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s", "6f52011..HEAD"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split("|", 1)
    if s.startswith("fix:"):
        for p in PROP.get(h) or [None]:
            if p is None:
                raise SystemExit("no property for %s %s" % (h, s))
            out.append({"property": p, "status": "fixed", "commit": h, "what": s[4:].strip(), "line": "fixed: property=%s %s %s" % (p, h, s[4:].strip())})
json.dump(out, open(kf, "w"), indent=1)
open(kf, "a").write("\n")
