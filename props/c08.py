"""Interrupted and resumed generation of the finite-volume coefficients"""
import os
import shutil
import sys

import numpy as np

from sim import disk
from sim.boot import zb
from sim.core import diff
from sim.sched import EXCEPTIONS, LineFault, LineProfile, make_exception

from . import build as B

QUICK = (2000, 80)
THOROUGH = (400000, 780)

MODELS = {}
FN = "fci.grid.nc"


def _counted(model):
    """Record on which planes coordinates are computed"""
    seen = []
    for j, pol in enumerate(model.grid.poloidal_grids):
        def wrap(*a, _f=pol.getCoordinate, _j=j, **k):
            if not seen or seen[-1] != _j:
                seen.append(_j)
            return _f(*a, **k)

        pol.getCoordinate = wrap
    return seen


def writer(**kw):
    return zb.zoidberg.MapWriter(FN, quiet=True, **kw)


def first(model, at_dagp=lambda: None):
    with writer() as mw:
        mw.add_grid_field(model.grid, model.field)
        mw.add_maps(model.maps)
        at_dagp()
        mw.add_dagp()


def resume(model, style):
    mw = writer(create=False)
    if style == "open":
        mw.open()
        try:
            mw.add_field(model.field)
            mw.add_grid(model.grid)
            mw.add_dagp()
        finally:
            mw.__exit__(None, None, None)
    else:
        with mw:
            mw.add_grid_field(model.grid, model.field)
            mw.add_dagp()


def prepare():
    import tempfile

    for name, make in (("slab", lambda: B.slab(ny=4)), ("pinch", lambda: B.pinch(ny=4)), ("straight", lambda: B.straight(ny=3)), ("small", lambda: B.slab(nx=5, ny=1, nz=4)), ("many", lambda: B.pinch(nx=4, ny=8, nz=5))):
        m = make()
        m.maps
        tmp = tempfile.mkdtemp(dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        try:
            def ref():
                out = {}
                B.export(FN, m)
                with open(FN, "rb") as f:
                    out["maps_file"] = f.read()
                # the expected file: what was there, and the coefficients of each plane on its own
                before = B.content(FN)
                slabby = isinstance(m.field, zb.field.Slab)
                each = [zb.stencil_dagp_fv.doit([p], isSlab=slabby) for p in m.grid.poloidal_grids]
                for k in each[0]:
                    before[0][k] = np.stack([np.asarray(e[k]).reshape(e[k].shape[0], e[k].shape[-1]) for e in each], axis=1)
                out["ref"] = before
                # profiles: resume from nothing
                with LineProfile() as p:
                    resume(m, "with")
                out["resume_prof"] = p
                seen = _counted(m)
                p = LineProfile()
                try:
                    first(m, lambda: (seen.clear(), p.__enter__()))
                finally:
                    p.__exit__()
                out["first_prof"] = p
                out["seen"] = seen
                return out

            L = disk.live(ref, tmp)
            if L.status != "ok":
                raise RuntimeError(f"{name}: {L.error}")
            o = L.value
            m.maps_file, m.ref = o["maps_file"], o["ref"]
            m.prof = dict(first=o["first_prof"], resume=o["resume_prof"])
            # file operations
            with open(os.path.join(tmp, FN), "wb") as f:
                f.write(m.maps_file)
            m.ops = dict(resume=disk.live(lambda: resume(m, "with"), tmp).ops, reads=disk.live(lambda: resume(m, "with"), tmp).reads)

            def countfirst():
                n = []
                first(m, lambda: n.append(disk.ops()))
                return n[0]

            L = disk.live(countfirst, tmp)
            m.ops["first"] = L.ops - L.value
            MODELS[name] = m
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def gen_fault(rng):
    u = rng.random()
    if u < 0.5:
        return dict(kind="line", u=round(rng.random(), 6), v=round(rng.random(), 6), exc=rng.choice(EXCEPTIONS), dagp=rng.random() < 0.7)
    if u < 0.95:
        return dict(kind="disk", at=round(rng.random(), 6), fault=rng.choice(["crash", "crash", "torn", "torn", "eio", "enospc", "short", "eintr"]), arg=rng.choice([0, 1, 50, 400]))
    if u < 0.97:
        return dict(kind="read", at=round(rng.random(), 6))
    return dict(kind="budget", bytes=rng.choice([0, 200, 2000, 8000]))


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3, 5])
    return dict(model=rng.choice(["slab", "slab", "pinch", "straight", "small", "many"]), start=rng.choice(["same", "separate"]),
                sessions=[dict(style=rng.choice(["with", "with", "open"]), fault=gen_fault(rng)) for _ in range(n)])


def session(model, kind, style, fault):
    """In a process of its own"""
    seen = _counted(model)
    at = fault["kind"] if fault else None
    lf = None
    if at == "line":
        prof = model.prof[kind]
        if fault["dagp"] and kind == "resume":
            sub = LineProfile()
            sub.count = {k: v for k, v in prof.count.items() if k in model.prof["first"].count}
            prof = sub if sub.count else prof
        pt = prof.pick(fault["u"], fault["v"])
        lf = LineFault(pt[0], pt[1], make_exception(fault["exc"]))

    def arm():
        seen.clear()
        if at == "disk":
            disk.plan_faults([[disk.ops() + 1 + int(fault["at"] * model.ops[kind]), fault["fault"], fault["arg"]]])
        elif at == "read":
            disk.plan_faults([[disk.reads() + 1 + int(fault["at"] * model.ops["reads"]), "read_eio", 0]])
        elif at == "budget":
            disk._lib.sim_set_budget(fault["bytes"])
        elif lf:
            lf.__enter__()

    err = None
    try:
        if kind == "first":
            first(model, arm)
        else:
            arm()
            resume(model, style)
    except BaseException as e:
        err = f"{type(e).__name__}: {e}"
    finally:
        if lf:
            sys.settrace(None)
    return dict(err=err, seen=list(seen), line=(lf.name, lf.n, lf.where) if lf is not None and lf.fired else None)


BAD = ("eio", "enospc", "read_eio")


def run(plan, ctx):
    model = MODELS[plan["model"]]
    ny = model.grid.shape[1]
    base = os.path.join(ctx.scratch, "disk")
    os.makedirs(base)
    fn = os.path.join(base, FN)
    if plan["start"] == "separate":
        with open(fn, "wb") as f:
            f.write(model.maps_file)
    ref, attrs = model.ref
    others = {k: v for k, v in ref.items() if "dagp" not in k}
    coefs = {k: v for k, v in ref.items() if k.startswith("dagp_fv")}
    others_attrs = attrs
    finished = 0  # planes known to be in the file
    doubt = False  # a kill or disk error happened: the file may be unreadable
    complete = False
    sessions = list(plan["sessions"]) + [dict(style="with", fault=None), dict(style="with", fault=None)]
    for n, s in enumerate(sessions):
        kind = "first" if n == 0 and plan["start"] == "same" else "resume"
        what = f"session {n} ({kind}{', ' + str(s['fault']) if s['fault'] else ''})"
        L = disk.live(lambda: session(model, kind, s["style"], s["fault"]), base, faults=[[10**9, "crash", 0]])
        ctx.log(n, kind, L.status, L.fired, L.ops, L.value and (L.value["err"] and L.value["err"][:60], L.value["seen"], L.value["line"]))
        ctx.check(L.status in ("ok", "killed"), "process-failed", lambda: f"{what}: {L.error}")
        ctx.faults.update(L.fired)
        err = L.value["err"] if L.value else "killed"
        seen = L.value["seen"] if L.value else []
        line = L.value["line"] if L.value else None
        hurt = L.status == "killed" or any(L.fired.get(k) for k in BAD)
        fault = hurt or line or any(L.fired.get(k) for k in ("short", "eintr"))
        if L.status == "killed":
            ctx.faults["kill"] += 1
        if line:
            ctx.faults["interrupted_line"] += 1
            ctx.state("line", line[0], line[2])
        ctx.state(plan["model"], kind, L.status, sorted(L.fired), seen, finished)
        if err is not None and not fault:
            # a healthy session failed: only acceptable if an earlier kill or disk error damaged the file
            ctx.check(doubt, "resume-fails", f"{what}: {err}")
            ctx.probes["refused_damaged_file"] += 1
            return
        again = [p for p in seen if p < finished]
        ctx.check(not again, "planes-recomputed", f"{what}: planes {again} were computed again, the first {finished} were finished before")
        if kind == "first" and hurt and err is not None:
            # Killed before the first plane was on the disk: some values of the same session may not
            # have reached the disk either.  They must not change any further.
            try:
                v, a = B.content(fn)
                if int(v.get("_dagp_generation_progress", 0)) <= 0:
                    others = {k: q for k, q in v.items() if "dagp" not in k}
                    others_attrs = a
                    ctx.probes["killed_before_first_plane"] += 1
            except Exception:
                pass
        doubt = doubt or hurt
        if err is None:
            try:
                v, a = B.content(fn)
            except Exception as e:
                ctx.check(doubt and not complete, "unreadable", f"{what}: succeeded, but {type(e).__name__}: {e}")
                return
            complete = True
            d = diff(coefs, {k: q for k, q in v.items() if k.startswith("dagp_fv")})
            ctx.check(d is None, "wrong-coefficients", f"{what}: finished, but {d}")
            d = diff(others, {k: q for k, q in v.items() if "dagp" not in k})
            if d is not None and others is not model.ref[0]:
                # add_grid of the resuming session rewrites the positions
                d = diff({k: q for k, q in others.items() if k not in "RZ"}, {k: q for k, q in v.items() if "dagp" not in k and k not in "RZ"})
                d = d or diff({k: ref[k] for k in "RZ"}, {k: v.get(k) for k in "RZ"})
            ctx.check(d is None, "other-contents", f"{what}: finished, but {d}")
            d = diff(others_attrs, a)
            ctx.check(d is None, "wrong-attributes", f"{what}: finished, but attributes {d}")
            finished = ny
        elif seen:
            finished = max(finished, max(seen)) if not hurt else 0
        elif hurt:
            finished = 0
    ctx.check(complete, "never-finished", "no session finished")
    ctx.nontrivial = True
