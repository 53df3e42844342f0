"""Writes /verif/MANIFEST.json from props/meta.py and properties.jsonl"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props.meta import META  # noqa: E402

props = [json.loads(q) for q in open(V + "/properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over schedules, faults and histories; replayable minimised plans"
PURE = "a pure function of its inputs: no thread, clock, I/O, crash point or outside party takes part, so there is no schedule or fault for a simulator to choose; "
WHY = dict(
    C31="deciding it is input generation against an algebraic oracle",
    C32="deciding it is input generation against the inverse function",
    C33="deciding it is input generation and linear algebra",
    C34="deciding it is symbolic algebra or input generation",
    C35="deciding it is numerical convergence analysis",
    C36="deciding it is computational geometry over inputs",
    C37="deciding it is computational geometry over inputs",
    C38="deciding it is convergence analysis (and the repository's own tests do it)",
    C39="deciding it is integer arithmetic over inputs",
)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in META and os.path.exists(f"{V}/props/{i.lower()}.py"):
        m = META[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json", technique=TECH, level="exploration",
                           level_note=f"Real: {'; '.join(m['real'])}. Simulated: {'; '.join(m['stub'])}. Oracle: {m['note']}. Assumes: {'; '.join(m['assumptions'])}."))
    else:
        na.append(dict(property=i, reason=PURE + WHY[i] if i in WHY else "check not finished"))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the seams are module attributes, sys.settrace and an LD_PRELOAD shim compiled into a scratch directory by each check."), open(V + "/MANIFEST.json", "w"), indent=1)
