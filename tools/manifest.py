#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the claims below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
GEN = "property-based testing: "
TRUST = " Trusted: the oracle and encoders in harness/, clang's sanitizers. Sampling, not proof: holds on every generated case."
# id -> (technique, note)
CLAIMS = {}


def claim(id, technique, note):
    CLAIMS[id] = (GEN + technique, note + TRUST)


exec(open(os.path.join(here, "tools", "claims.py")).read())
PENDING = "the check for this property is not finished"
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds /repo's working tree with AddressSanitizer into /verif/build and runs /verif/build/pat/vprop; DESIGN.md describes each property. VERIF_SEED selects the cases, VERIF_TIER the number of cases. No hooks are needed in /repo.",
}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": CLAIMS[i][0], "level": "exploration", "level_note": CLAIMS[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING})
if not m["not_applicable"]:
    del m["not_applicable"]
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed")
