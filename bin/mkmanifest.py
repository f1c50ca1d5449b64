#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl and props.py"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONC = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C35", "C36"}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i not in props.CHECKS:
        na.append({"property": i, "reason": "check under construction"})
        continue
    if i in CONC:
        tech = "TLA+ (TLC): abstract specification validates every history of the unmodified code under a controlled scheduler; schedules come from every transition of a model-checked implementation-level specification, preemption-bounded search, random and PCT"
        note = ("Every explored schedule of the real code is a behaviour of the abstract TLA+ specification. Trusted: the scheduler "
                "substituted for std::mutex/condition_variable/atomic/thread (sequentially consistent interleaving; weak orders are "
                "judged by the happens-before specification of C10), TLC, and the scenario bounds given in the evidence.")
    else:
        tech = "TLA+ (TLC): every transition of a model-checked layout/generator specification and random scripts run on the real code; TLC validates every recorded trace against the abstract specification"
        note = ("Every executed script of public calls is a behaviour of the TLA+ specification, with sanitizers and object/allocation tracking "
                "feeding the trace. Trusted: the interpreter that records observations, TLC; bounded by the generated scripts.")
    checks.append({"property": i, "quick_cmd": "bin/check.py %s --tier quick" % i, "thorough_cmd": "bin/check.py %s --tier thorough" % i,
                   "technique": tech, "level": props.CHECKS[i][1], "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the headers are compiled unmodified. Language: TLA+ checked with TLC. known_findings.txt lists defects found."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
