#!/usr/bin/env python3
"""Rewrites the "fixed:" part of known-findings.txt from /repo's fix commits.

Each fix is attributed to the property whose check showed the defect: by the
table below, else by the first keyword found in the subject line."""
import subprocess, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(here, "known-findings.txt")
TABLE = {}
exec(open(os.path.join(here, "tools", "fixmap.py")).read())
KEY = [("PGM", "R01"), ("PNM", "R01"), ("BMP", "R02"), ("TGA", "R03"), ("PNG", "R04"), ("GF", "R05")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "4930bfb..HEAD"], text=True)
out = ["# Findings of the checks.",
       "# KNOWN-FINDING: property=<id> [probe] <what fails>   still present; the probe decides whether it still shows",
       "# fixed: property=<id> <commit> <what failed>          repaired in /repo; suppresses nothing", ""]
out += KNOWN
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = TABLE.get(s) or next((v for k, v in KEY if k in s), None)
    assert p, s
    out.append("fixed: property=%s %s %s" % (p, h, s))
open(f, "w").write("\n".join(out) + "\n")
print(len(out) - 4)
