"""Trace cache: histories of near-identical questions, failing traces, restarts"""
import os

import numpy as np

from sim import disk
from sim.core import diff

from . import cache as C
from . import points as P

QUICK = (2500, 45)
THOROUGH = (400000, 780)


def gen(rng, tier):
    kind = rng.choice(["stub"] * 6 + ["real", "reversible"])
    qs = C.questions(rng, rng.choice([2, 3, 4, 6, 9]))
    if kind != "stub":
        for q in qs:
            q["how"] = "C" if q["how"] == "f4" else q["how"]
            q["opts"] = {k: v for k, v in q["opts"].items() if k == "rtol" and (v is None or v < 1e-3)}
            if "x" in q:
                q["x"] = [2.0 + (v % 1.0) for v in q["x"]]
                q["z"] = [v % 1.0 for v in q["z"]]
            q["y"] = sorted({round(v % 1.0, 12) for v in q["y"]})
            if len(q["y"]) < 2:
                q["y"] = [q["y"][0], q["y"][0] + 0.25]
            if kind == "reversible" and "n" in q:
                q["n"] = 300
                q["edit"] = [[w, i % 300, d] for w, i, d in q["edit"]]
    plan = dict(tracer=kind, name=rng.choice(C.NAMES), debug=rng.random() < 0.1, reuse=rng.random() < 0.35, questions=qs, lives=[])
    for _ in range(rng.choice([1, 2, 3])):
        life = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            op = rng.choice(["ask"] * 7 + ["new", "spoil", "failing"])
            life.append([op, rng.randrange(len(qs))])
        plan["lives"].append(life)
    plan["lives"].append([["ask", i] for i in range(len(qs))])
    return plan


def life(plan, ops, answered):
    """In a process of its own; returns (problems, questions answered, log)"""
    t = C.make_tracer(plan["tracer"])
    oracle = C.make_tracer(plan["tracer"])
    c = C.make_cache(t, plan["name"])
    c.debug = plan["debug"]
    problems, log, answered = [], [], set(answered)
    spoil, kept = None, {}
    for op, i in ops:
        q = plan["questions"][i]
        if op == "new":
            c = C.make_cache(t, plan["name"])
            continue
        if op == "spoil":
            if spoil is not None and spoil.flags.writeable:
                spoil[...] = -777.0
            continue
        x, z, y = C.arrays(q)
        if plan.get("reuse"):
            # the caller keeps its arrays and writes the next question into them
            key = (x.shape, x.dtype.str, len(y), x.flags.c_contiguous)
            if key in kept and kept[key][0].flags.writeable:
                kept[key][0][...], kept[key][1][...], kept[key][2][:] = x, z, y
                x, z, y = kept[key]
            else:
                kept[key] = x, z, y
        before = P.snapshot(x, z, y)
        calls = t.calls
        t.fail_at = {calls + 1} if op == "failing" else set()
        name = C.ident(q)
        what = f"question {i}"
        try:
            r = c.follow_field_lines(x, z, y, **q["opts"])
        except Exception as e:
            if op == "failing" and isinstance(e, RuntimeError) and "simulated" in str(e):
                log.append((op, i, "raised"))
                continue
            problems.append(("spurious-failure", f"{what}: {type(e).__name__}: {e}"))
            continue
        exp = oracle.answer(x, z, y, q["opts"])
        sent = t.calls - calls
        log.append((op, i, sent))
        if not P.unchanged(before, (x, z, y)):
            problems.append(("inputs-modified", f"{what}: the start points or planes were changed"))
        d = diff(exp, np.asarray(r))
        if d is not None:
            problems.append(("wrong-answer", f"{what} ({sent} calls of the tracer): {d}"))
        if op == "failing" and sent:
            problems.append(("failure-hidden", f"{what}: the tracer failed, but the cache returned something"))
        if sent > (0 if name in answered else 1):
            problems.append(("asked-again", f"{what}: was answered before, the tracer was called {sent} times"))
        answered.add(name)
        spoil = r
    return problems, sorted(answered), log


def run(plan, ctx):
    if plan["name"] and "/" in plan["name"]:
        os.makedirs(os.path.join(ctx.scratch, "sub"))
    answered = []
    for n, ops in enumerate(plan["lives"]):
        L = disk.live(lambda: life(plan, ops, answered), ctx.scratch, disk=False)
        ctx.check(L.status == "ok", "process-failed", lambda: f"life {n}: {L.error}")
        problems, answered, log = L.value
        ctx.log("life", n, log)
        for cls, msg in problems:
            ctx.violate(cls, f"life {n}: {msg}")
        ctx.faults["tracer_failure"] += sum(1 for e in log if e[2] == "raised")
        ctx.faults["restart"] += n > 0
        ctx.probes["answered_from_cache"] += sum(1 for e in log if e[2] == 0)
        ctx.probes["answered_by_tracer"] += sum(1 for e in log if e[2] == 1)
    ctx.state(plan["tracer"], plan["name"], len(set(C.ident(q) for q in plan["questions"])), len(plan["lives"]), [q["how"] for q in plan["questions"]][:3])
    ctx.nontrivial = True
