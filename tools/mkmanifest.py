#!/usr/bin/env python3
"""Writes MANIFEST.json. DONE: properties which have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
DONE = open(os.path.join(V, "tools", "claimed.txt")).read().split()
NOTE = {
 "D": "TLC: exhaustive check of the control of the integrator (spec/Rodas.tla, small integers), and validation against the same specification, with real arithmetic, of executions recorded from the real code for generated problems, options, faults and object histories. Trusts: TLC, the arithmetic class Num, the grouping of evaluations into attempts.",
 "R": "TLC: exhaustive check of the control of the integrator (spec/Radau.tla), and validation against the same specification, with real arithmetic, of executions recorded from the real code for generated problems, options, faults and object histories. Trusts: TLC, the arithmetic class Num, the grouping of evaluations into Newton iterations.",
 "K": "TLC: exhaustive check of the specification on small constants and validation of executions recorded from the real code against it. Trusts: TLC, class Num, the recording right-hand side.",
 "L": "TLC: validation, against the specification of the method, of executions recorded from the real code (all degrees). Trusts: TLC, class Num, the recording operator.",
 "I": "TLC: specification of the method and of call sequences; behaviours generated by TLC are replayed on the real objects, and the recorded operations are validated. Trusts: TLC, class Num, the recording operator.",
 "S": "TLC: exhaustive check of the control and validation of executions recorded from the real code. Trusts: TLC, class Num.",
 "M": "TLC: behaviours of the specification replayed on the real containers and factorisations, results validated by TLC. Trusts: TLC, class Num, the memory interposer.",
 "G": "TLC: behaviours of the specification of the log replayed on the real class, and logs of integrations validated. Trusts: TLC.",
}
checks = []
for p in props:
    i = p["id"]
    if i in DONE:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification, TLC model checking and trace validation of the real code",
                       "level": "model_checking", "level_note": NOTE[i[0]]})
na = [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in DONE]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ and TLC. Nothing is instrumented in /repo: the checks compile its headers with harnesses which record what the user-supplied objects see."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
