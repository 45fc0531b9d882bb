#!/usr/bin/env python3
"""Development aid: rewrites the list of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head, _ = open(V + "/DESIGN.md").read().split("## Planted bugs\n")
rows = ["| seeded | check which catches it | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"]))
open(V + "/DESIGN.md", "w").write(head + """## Planted bugs

See `seeded/`; each was written from the property and the code, then the checks were tried on it.
Every one is caught by the quick check of its property. Missed at first, and what was added:
S03-step-compared-roughly (sequences of nearly equal steps), R01-end-within-absolute-threshold
(problems in another unit of time, 1e-16 to 1e9), R07-limit-of-iterations-lowered (after every
scenario the used object is compared with a new one on unrecorded integrations, in traces of their
own, so that an earlier disagreement of another property does not hide it). Besides these, some
hundreds of mechanical mutants (operators, constants, deleted statements; also "wrong only at the
n-th execution") were run; the survivors are equivalent (unused dense output coefficients, unused
entries of tables, thresholds below the smallest positive number).

""" + "\n".join(rows) + "\n")
