#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the check registry."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/engine", ROOT + "/checks"]
import registry

NA = {
    "C36": "quantifies over floating-point rounding error; the analysis works over exact numbers and no sound static error bound for sums of unbounded length is in reach here",
    "C37": "the numerical accuracy of statrs' distribution functions is a property of a dependency's floating-point algorithms, not of this repository's source",
    "C38": "an asymptotic statement about the output stream of a pseudo-random generator; nothing in the source decides it",
}
NOTE = {}
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": c.technique,
            "level": "other",
            "level_note": ("Sound static argument over the typed program (THIR) of /repo, for all inputs, under the assumptions listed in the evidence: "
                           + "; ".join(registry.BASE_ASSUMPTIONS + c.assumptions) + ". Incomplete: code the analysis cannot follow is reported as a violation naming the construct."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 engine/build.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check dumps the typed program of /repo's working tree with a rustc driver (driver/), interprets it abstractly (engine/) and decides its property on the resulting value graphs (checks/). See DESIGN.md.",
}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
