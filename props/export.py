"""Exports of prepared models under interruption, shared by the grid-file checks"""
import os
import shutil
import sys
import tempfile

import numpy as np

from sim import disk
from sim.sched import EXCEPTIONS, LineFault, LineProfile, make_exception

from . import build as B

FN = "fci.grid.nc"
FILL = -2147483647

MODELS = {}
CASES = {}  # (model, new_names, metric2d, dagp) -> Case

HOW = ["writer", "writer", "function", "separate"]


class Case:
    """An undisturbed export: content, line profile, number of file operations"""


def tmpdir():
    return tempfile.mkdtemp(dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)


def key(opt):
    return opt["model"], bool(opt["new_names"]), bool(opt["metric2d"]), bool(opt["dagp"])


def do(opt, fn=FN, maps=None):
    """One export as described by opt"""
    how = opt["how"]
    if opt["dagp"] and how == "function":
        how = "writer"
    B.export(fn, MODELS[opt["model"]], maps, new_names=opt["new_names"], metric2d=opt["metric2d"], dagp=opt["dagp"], how=how)


def gen_opt(rng):
    m = rng.choice(sorted(MODELS) or NAMES)
    return dict(model=m, new_names=rng.random() < 0.4, metric2d=rng.random() < 0.4, dagp=rng.random() < 0.15, how=rng.choice(HOW))


NAMES = ["curved", "open", "pinch2", "slab", "straight"]


MAKE = dict(
    slab=lambda: B.slab(),
    open=lambda: B.slab(nx=7, ny=3, nz=4, yperiodic=False),
    curved=lambda: B.curved(),
    pinch2=lambda: B.pinch(nslice=2, ny=5),
    straight=lambda: B.straight(),
)


def models(names=NAMES):
    for n in names:
        MODELS[n] = MAKE[n]()
        MODELS[n].maps


def reference(opt, profile=True):
    tmp = tmpdir()

    def ref():
        c = Case()
        c.prof = None
        if profile:
            with LineProfile() as c.prof:
                do(opt)
        else:
            do(opt)
        c.content = B.content(FN)
        return c

    try:
        L = disk.live(ref, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if L.status != "ok":
        raise RuntimeError(f"reference export {opt}: {L.error}")
    L.value.ops = L.ops
    return L.value


def prepare(names=NAMES, dagp=(False, True), profile=True):
    models(names)
    opts = [dict(model=m, new_names=nn, metric2d=m2, dagp=d, how="writer") for m in MODELS for nn in (False, True) for m2 in (False, True) for d in dagp]
    for o, c in zip(opts, disk.spread(lambda o: reference(o, profile), opts)):
        CASES[key(o)] = c


def gen_fault(rng, disk_share=0.5):
    if rng.random() >= disk_share:
        return dict(kind="line", u=round(rng.random(), 6), v=round(rng.random(), 6), exc=rng.choice(EXCEPTIONS))
    if rng.random() < 0.9:
        u = rng.random()
        if rng.random() < 0.4:
            u = 1 - 0.08 * u  # closing writes most metadata at the end
        return dict(kind="disk", at=round(u, 6), fault=rng.choice(["crash", "crash", "crash", "torn", "torn", "eio", "enospc", "short", "eintr"]), arg=rng.choice([0, 1, 50, 400]))
    return dict(kind="budget", bytes=rng.choice([0, 100, 2000, 20000, 60000, 100000]))


def attempt(fault, case, fn, arm_disk=True):
    """fn() with the fault; in a process of its own"""
    lf = None
    at = fault["kind"] if fault else None
    if at == "line":
        pt = case.prof.pick(fault["u"], fault["v"])
        lf = LineFault(pt[0], pt[1], make_exception(fault["exc"]))
    elif at == "disk":
        disk.plan_faults([[disk.ops() + 1 + int(fault["at"] * case.ops), fault["fault"], fault["arg"]]])
    elif at == "budget":
        disk._lib.sim_set_budget(fault["bytes"])
    err = None
    try:
        if lf:
            with lf:
                fn()
        else:
            fn()
    except BaseException as e:
        err = f"{type(e).__name__}: {e}"
    finally:
        sys.settrace(None)
        if at in ("disk", "budget"):
            disk.clear_faults()
            disk._lib.sim_set_budget(-1)
    return err, ((lf.name, lf.n, lf.where, bool({'__enter__', '__exit__', 'open', 'close'} & set(lf.stack))) if lf is not None and lf.fired else None)


def passes_for_complete(v, a):
    """Carries the identifier and the sizes"""
    return "id" in a and all(k in v and v[k].shape == () and int(v[k]) != FILL for k in ("nx", "ny", "nz"))


def required(content):
    """Maps, metrics, positions and sizes of a complete export"""
    return {k: v for k, v in content[0].items() if not k.startswith("ixseps") and "dagp" not in k}
