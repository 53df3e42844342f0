"""Exports that fail leave grid, field and maps reusable in the same process"""
import copy
import os
import random

import numpy as np

from sim import disk
from sim.boot import zb
from sim.core import diff

from . import build as B
from . import export as E

QUICK = (2000, 80)
THOROUGH = (400000, 780)

FRESH = {}  # model -> what the in-memory objects say before anything was exported


def state_of(m):
    """Observable state of grid, field and maps"""
    g, f = m.grid, m.field
    pol, y = g.getPoloidalGrid(0)
    mid = (pol.R[1:-1, 1:-1], pol.Z[1:-1, 1:-1], y)
    return copy.deepcopy(dict(
        maps=m.maps,
        grid=dict(R=[p.R for p in g.poloidal_grids], Z=[p.Z for p in g.poloidal_grids], y=g.ycoords, Ly=g.Ly, shape=list(g.shape), yperiodic=g.yperiodic),
        field=dict(B=f.Bmag(*mid), Bx=f.Bxfunc(*mid), By=f.Byfunc(*mid), Bz=f.Bzfunc(*mid), p=np.asarray(f.pressure(*mid)), attributes=sorted(f.attributes)),
    ))


def metrics(m):
    met, bjg = zb.zoidberg.get_metric(m.grid, m.field)
    return copy.deepcopy(dict(grid=dict(m.grid.metric()), full=met, BJg=bjg))


def prepare():
    E.prepare()
    names = sorted(E.MODELS)
    for n, v in zip(names, disk.spread(lambda n: (state_of(E.MODELS[n]), metrics(E.MODELS[n])), names)):
        FRESH[n] = v


def gen(rng, tier):
    m = rng.choice(E.NAMES)
    steps = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        u = rng.random()
        if u < 0.12:
            steps.append(dict(do="metric"))
        else:
            f = None
            if rng.random() < 0.65:
                f = E.gen_fault(rng, 0.35)
                if f.get("fault") in ("crash", "torn"):
                    f["fault"] = rng.choice(["eio", "enospc", "short"])
            o = E.gen_opt(rng)
            if rng.random() < 0.8:
                o["model"] = m
            steps.append(dict(do="export", opt=o, fault=f, name=rng.choice([0, 0, 1])))
    return dict(steps=steps)


def life(plan):
    """All steps in one process; returns their observations"""
    out = []
    for s in plan["steps"]:
        rec = dict(err=None, line=None)
        if s["do"] == "metric":
            rec["metrics"] = {}
            for n in {q["opt"]["model"] for q in plan["steps"] if q["do"] == "export"}:
                rec["metrics"][n] = metrics(E.MODELS[n])
            out.append(rec)
            continue
        fn = E.FN if s["name"] == 0 else "other.nc"
        rec["err"], rec["line"] = E.attempt(s["fault"], E.CASES[E.key(s["opt"])], lambda: E.do(s["opt"], fn))
        rec["fired"] = disk.fired()
        if rec["err"] is None:
            try:
                rec["content"] = B.content(fn)
            except Exception as e:
                rec["content"] = f"{type(e).__name__}: {e}"
        rec["state"] = state_of(E.MODELS[s["opt"]["model"]])
        out.append(rec)
    return out


def run(plan, ctx):
    base = os.path.join(ctx.scratch, "disk")
    os.makedirs(base)
    for m in E.MODELS.values():
        m.maps  # every run starts from the prepared objects
    # the same process writes the files again without faults at the end
    last = {}
    for s in plan["steps"]:
        if s["do"] == "export":
            last[(s["opt"]["model"], s["name"])] = s["opt"]
    tail = [dict(do="export", opt=o, fault=None, name=k[1]) for k, o in last.items()] + [dict(do="metric")]
    plan = dict(steps=list(plan["steps"]) + tail)
    L = disk.live(lambda: life(plan), base, faults=[[10**9, "crash", 0]])
    ctx.log(L.status, L.fired, L.ops)
    if L.status == "killed":
        # the netCDF library crashed on the I/O error
        ctx.faults["library_crash"] += 1
        ctx.check(any(s.get("fault") for s in plan["steps"]), "process-failed", "the process died without a fault")
        return
    ctx.check(L.status == "ok", "process-failed", lambda: f"{L.error}")
    ctx.faults.update(L.fired)
    before = {}
    iofail = False
    half_open = set()
    for n, (s, r) in enumerate(zip(plan["steps"], L.value)):
        what = f"step {n} {s}"
        ctx.log(n, s["do"], r["err"] and r["err"][:60], r["line"])
        if s["do"] == "metric":
            for name, got in r["metrics"].items():
                d = diff(FRESH[name][1], got)
                ctx.check(d is None, "metric-changed", f"{what}: metric of {name}: {d}")
            continue
        new = {k: v - before.get(k, 0) for k, v in r["fired"].items() if v > before.get(k, 0)}
        before = r["fired"]
        hit = bool(r["line"] or new)
        iofail = iofail or bool(new.keys() & {"eio", "enospc"})
        if r["line"]:
            ctx.faults["interrupted_line"] += 1
            if r["line"][3]:
                half_open.add(s["name"])
        ctx.state(E.key(s["opt"]), s["opt"]["how"], r["line"] and r["line"][:3:2], sorted(new), r["err"] is None, n and L.value[n - 1]["err"] is None)
        name = s["opt"]["model"]
        d = diff(FRESH[name][0], r["state"])
        ctx.check(d is None, "objects-changed", f"{what} ({'failed: ' + r['err'][:100] if r['err'] else 'succeeded'}): grid, field or maps differ from before: {d}")
        if r["err"] is not None:
            if not hit and s["name"] in half_open:
                # interrupted while the file was being opened or closed: the language gives no way to always close it
                ctx.probes["file_left_open_by_interrupt_in_close"] += 1
                continue
            if not hit and iofail:
                # the netCDF library may keep a file open that it could not write; not zoidberg's doing
                ctx.probes["library_refuses_after_io_error"] += 1
                continue
            ctx.check(hit, "export-fails-after-failure", f"{what}: {r['err']}")
            ctx.nontrivial = True
            continue
        c = r["content"]
        ctx.check(not isinstance(c, str), "unreadable", f"{what}: exported, but {c}")
        ref = E.CASES[E.key(s["opt"])].content
        d = diff(ref[0], c[0]) or diff(ref[1], c[1])
        ctx.check(d is None, "different-file", f"{what}: exported file differs from that of an undisturbed process: {d}")
        ctx.probes["exports_equal"] += 1
