"""Trace cache on a failing disk: kills, power loss, I/O errors, full disk, concurrent processes"""
import os
import random

import numpy as np

from sim import disk
from sim.core import diff

from . import cache as C

QUICK = (1600, 45)
THOROUGH = (400000, 780)


def gen_faults(rng, n=14):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(["crash", "crash", "torn", "torn", "eio", "enospc", "short", "eintr", "read_eio"])
        out.append([rng.randrange(1, n), k, rng.choice([0, 1, 7, 100, 4000, 8191])])
    return out


def gen(rng, tier):
    qs = C.questions(rng, rng.choice([1, 2, 3, 4]), big=rng.random() < 0.35)
    for q in qs:
        q["how"] = "C"
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        L = dict(kind=rng.choice(["one", "one", "one", "two"]), ask=[rng.randrange(len(qs)) for _ in range(rng.choice([1, 2, 3, 5]))], faults=gen_faults(rng) if rng.random() < 0.85 else [],
                 budget=rng.choice([None] * 6 + [0, 50, 900, 5000, 20000]), power=None)
        if L["kind"] == "two":
            L["ask2"] = [rng.randrange(len(qs)) for _ in range(rng.choice([1, 2, 3]))] if rng.random() < 0.4 else list(L["ask"])
            L["sched"] = rng.randrange(10**6)
            L["bias"] = rng.choice([0.5, 0.5, 0.8, 0.2])
            L["kill"] = rng.choice([None, None, rng.randrange(1, 40)])
            L["faults"] = L["faults"] if rng.random() < 0.4 else []
        elif rng.random() < 0.35:
            L["power"] = [rng.randrange(10**6), rng.choice([0.0, 0.3, 0.7, 1.0])]
            L["faults"] = [f for f in L["faults"] if f[1] in ("crash", "torn")][:1]
        lives.append(L)
    return dict(name=rng.choice([None, None, None, "c-%s", "sub/c-%s.txt", "c-%s.dat"]), questions=qs, lives=lives)


def asks(plan, which):
    """In a process of its own: ask, compare, report"""
    t, oracle = C.Stub(), C.Stub()
    c = C.make_cache(t, plan["name"])
    out = []
    for i in which:
        q = plan["questions"][i]
        x, z, y = C.arrays(q)
        calls = t.calls
        fired = dict(disk.fired())
        try:
            r = c.follow_field_lines(x, z, y, **q["opts"])
        except Exception as e:
            now = disk.fired()
            hit = sum(now.get(k, 0) - fired.get(k, 0) for k in ("eio", "enospc", "read_eio"))
            out.append((i, "raised", f"{type(e).__name__}: {e}", hit))
            continue
        d = diff(oracle.answer(x, z, y, q["opts"]), np.asarray(r))
        out.append((i, "ok" if d is None else "wrong", d, t.calls - calls))
    return out


def judge(ctx, what, res):
    for i, how, msg, n in res:
        ctx.check(how != "wrong", "wrong-trace", f"{what}: question {i}: {msg}")
        if how == "raised":
            ctx.check(n > 0, "raised-on-healthy-disk", f"{what}: question {i}: {msg}")
            ctx.probes["raised_under_fault"] += 1
        elif n == 0:
            ctx.probes["answered_from_cache"] += 1


def run(plan, ctx):
    base = os.path.join(ctx.scratch, "disk")
    os.makedirs(os.path.join(base, "sub"))
    journal = os.path.join(ctx.scratch, "journal")
    for n, L in enumerate(plan["lives"]):
        what = f"life {n}"
        if L["kind"] == "two":
            r = random.Random(L["sched"])
            turn = [0]

            def choose(ready, ops):
                turn[0] += 1
                if L["kill"] is not None and turn[0] == L["kill"]:
                    ctx.faults["crash"] += 1
                    return (ready[-1], "X")
                if len(ready) == 1:
                    return ready[0]
                return ready[0] if r.random() < L["bias"] else ready[1]

            lives, order = disk.interleave([lambda: asks(plan, L["ask"]), lambda: asks(plan, L["ask2"])], base, choose,
                                           faults={0: L["faults"]})
            ctx.log(what, "two", order)
            ctx.faults["interleaved_operations"] += len(order)
            ctx.state("two", [o[0] for o in order][:30])
        else:
            before = disk.snapshot(base)
            lives = [disk.live(lambda: asks(plan, L["ask"]), base, faults=L["faults"], budget=L["budget"], journal=journal if L["power"] else None)]
            if L["power"]:
                recs = disk.read_journal(journal)
                after = disk.power_loss(before, recs, L["power"][1], random.Random(L["power"][0]))
                disk.restore(base, after)
                ctx.faults["power_loss"] += 1
                ctx.log(what, "power", sorted((os.path.basename(p), len(b)) for p, b in after.items()))
        for k, q in enumerate(lives):
            ctx.check(q.status != "broken" and q.status != "raised", "process-failed", lambda: f"{what}: {q.error}")
            ctx.log(what, k, q.status, q.fired, q.ops)
            ctx.faults.update(q.fired)
            if q.status == "killed":
                ctx.faults["crash"] += L["kind"] == "one"
            else:
                judge(ctx, what, q.value)
            ctx.state(q.status, sorted(q.fired), L["power"] is not None, [f[:2] for f in L["faults"]])
    q = disk.live(lambda: asks(plan, range(len(plan["questions"]))), base)
    ctx.check(q.status == "ok", "process-failed", lambda: f"final life: {q.error}")
    judge(ctx, "after the faults", q.value)
    ctx.log("final", [(v[0], v[1], v[3]) for v in q.value])
    # and now everything is in the cache
    q = disk.live(lambda: asks(plan, range(len(plan["questions"]))), base)
    judge(ctx, "second healthy life", q.value)
    ctx.check(all(v[3] == 0 for v in q.value), "not-cached", "a healthy life did not leave its answers in the cache")
