"""A grid file that passes for complete is complete"""
import os

from sim import disk
from sim.core import diff

from . import build as B
from . import export as E

QUICK = (2000, 80)
THOROUGH = (400000, 780)


def prepare():
    E.prepare()


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    return dict(older=E.gen_opt(rng) if rng.random() < 0.4 else None, steps=[dict(opt=E.gen_opt(rng), fault=E.gen_fault(rng)) for _ in range(n)])


def directed():
    """Every export option once without and once with a kill close to the end"""
    out = []
    for m in E.NAMES:
        for how in ("writer", "function", "separate"):
            o = dict(model=m, new_names=how == "function", metric2d=how == "separate", dagp=False, how=how)
            out.append(dict(older=None, steps=[dict(opt=o, fault=None)]))
            for at in (0.9, 0.97, 0.99):
                out.append(dict(older=None, steps=[dict(opt=o, fault=dict(kind="disk", at=at, fault="crash", arg=0))]))
    return out


def run(plan, ctx):
    base = os.path.join(ctx.scratch, "disk")
    os.makedirs(base)
    fn = os.path.join(base, E.FN)
    old = None
    if plan["older"]:
        L = disk.live(lambda: E.do(plan["older"]), base)
        ctx.check(L.status == "ok", "healthy-export-fails", lambda: f"older file {plan['older']}: {L.error}")
        old = B.read(fn)
    steps = list(plan["steps"]) + [dict(opt=plan["steps"][-1]["opt"], fault=None)]
    for n, s in enumerate(steps):
        opt, fault = s["opt"], s["fault"]
        case = E.CASES[E.key(opt)]
        what = f"export {n} {opt}, {fault}"
        L = disk.live(lambda: E.attempt(fault, case, lambda: E.do(opt)), base, faults=[[10**9, "crash", 0]])
        err, line = L.value if L.value else ("killed", None)
        ctx.log(n, L.status, L.fired, L.ops, err and ctx.plain(err)[:80], line)
        ctx.check(L.status in ("ok", "killed"), "process-failed", lambda: f"{what}: {L.error}")
        ctx.faults.update(L.fired)
        if L.status == "killed":
            ctx.faults["kill"] += 1
        if line:
            ctx.faults["interrupted_line"] += 1
        hit = bool(line or L.fired or L.status == "killed")
        ctx.check(err is None or hit, "healthy-export-fails", f"{what}: {err}")
        try:
            v, a = B.read(fn)
        except Exception as e:
            ctx.check(err is not None, "success-but-unreadable", f"{what}: reported success, but the file does not open: {type(e).__name__}: {e}")
            ctx.state(E.key(opt), "unreadable", line)
            ctx.probes["unreadable_file"] += 1
            old = None
            continue
        complete = E.passes_for_complete(v, a)
        ctx.state(E.key(opt), opt["how"], fault and fault["kind"], L.status, complete, len(v), line)
        if err is None:
            ref = case.content
            d = diff(ref[0], v) or diff(ref[1], {k: q for k, q in a.items() if k not in B.IDS})
            ctx.check(d is None, "success-but-damaged", f"{what}: reported success, but {d}")
            ctx.check(complete, "success-but-incomplete", f"{what}: reported success without identifier and sizes")
            ctx.probes["successful_with_fault" if hit else "successful"] += 1
        elif complete and old is not None and a.get("id") == old[1].get("id"):
            d = diff(old[0], v)
            ctx.check(d is None, "older-file-damaged", f"{what}: failed, the file still carries the older identifier, but {d}")
            ctx.probes["older_file_kept"] += 1
        elif complete:
            want = E.required(case.content)
            d = diff(want, {k: v.get(k) for k in want})
            ctx.check(d is None, "passes-for-complete", f"{what}: failed ({err}); the file has its identifier and sizes, but {d}")
            ctx.probes["complete_after_fault"] += 1
        else:
            ctx.probes["marked_incomplete"] += 1
        old = (v, a) if complete else None
        ctx.nontrivial = True
