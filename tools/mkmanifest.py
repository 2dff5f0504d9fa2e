#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every checks/cNN.py, a reason for every other property."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "ASan/UBSan build of the real encoders and decoder; offline trace checker comparing wire bytes and decoder events with an independent codec",
 "C02": "ASan/UBSan build of the real encoders and decoder; offline trace checker comparing wire bytes and decoder events with an independent codec",
 "C03": "ASan/UBSan monitored execution of every decoder on hostile streams, with a split-independence and error-reporting oracle",
 "C18": "ASan/UBSan monitored operation histories against an executable reference list",
 "C19": "ASan/UBSan monitored operation histories against an executable reference algebra",
 "C20": "ASan/UBSan monitored parsing with independent reference readers and round-trip oracle",
}
NOTE = {
 "C01": "Random exploration of argument values and stream fragmentations; exact comparison with an independently written codec. Trusts that codec and the harness's signal printer.",
 "C02": "As C01, for replies.",
 "C03": "Memory errors and undefined behaviour are decided by the sanitizers on the streams executed; well-formedness by an independent codec.",
 "C18": "Random histories; the reference list is compared after every operation.",
 "C19": "Random histories plus all pairs of statuses.",
 "C20": "Random and listed inputs; the strict and widest grammar readings bracket the parser.",
}
REASON = {}
exec(open(os.path.join(V, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_extra.py")) else None
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = "checks/%s.py" % p.lower()
    if os.path.exists(os.path.join(V, f)) and p not in REASON:
        checks.append(dict(property=p, quick_cmd="python3 %s" % f, thorough_cmd="python3 %s --thorough" % f,
                           technique=TECH[p], level="exploration", level_note=NOTE[p]))
    else:
        na.append(dict(property=p, reason=REASON.get(p, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check observes the code from outside (public library API, wire packets, process state).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", ", ".join(n["property"] for n in na), "without")
