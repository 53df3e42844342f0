"""The whole build of a grid file over faulty process lives"""
import hashlib
import os
import shutil
import sys

import numpy as np

from sim import disk
from sim.boot import zb
from sim.core import diff
from sim.sched import EXCEPTIONS, LineFault, LineProfile, make_exception
from sim.world import Service, World

from . import build as B
from . import export as E

QUICK = (1500, 80)
THOROUGH = (400000, 780)

FN = "fci.grid.nc"
CONFIGS = {
    # field, tracer, parallel slices, options of the writer
    "demand": dict(field="demand", tracer="web", nslice=1, new_names=False, metric2d=False),
    "demand2": dict(field="demand", tracer="web", nslice=2, new_names=True, metric2d=False),
    "saved": dict(field="saved", tracer="web", nslice=1, new_names=False, metric2d=True),
    "savedlocal": dict(field="saved", tracer="local", nslice=1, new_names=False, metric2d=False),
    "pinch": dict(field="pinch", tracer="local", nslice=1, new_names=True, metric2d=True),
}
CASES = {}


class Asked:
    """The tracer behind the cache; notes what it is asked, outside of the simulated disk"""

    def __init__(self, tracer, note):
        self.tracer, self.note = tracer, note

    def follow_field_lines(self, x_values, z_values, y_values, **kw):
        h = hashlib.md5(repr([np.asarray(v).tolist() for v in (x_values, z_values, y_values)] + [sorted(kw.items())]).encode()).hexdigest()[:8]
        self.note(f"start {h}")
        r = self.tracer.follow_field_lines(x_values, z_values, y_values, **kw)
        self.note(f"end {h}")
        return r


def build(cfg, script, note=lambda s: None):
    """What the user's script does"""
    c = CONFIGS[cfg]
    note("begin")
    grid = B._ring(5, 3 if c["nslice"] == 2 else 2, 5, 1.5 if c["field"] == "pinch" else 5.55, 2 * np.pi / 5)
    if c["field"] == "demand":
        field = zb.field.W7X_vacuum_on_demand(5)
    elif c["field"] == "saved":
        field = zb.field.W7X_vacuum(nx=6, ny=5, nz=6, x_range=(4.9, 6.2), z_range=(-0.6, 0.6), phimax=2 * np.pi, configuration=1, include_plasma_field=True)
    else:
        field = zb.field.Screwpinch(xcentre=1.5, shear=0.3)
    note("field")
    if c["tracer"] == "web":
        tracer = zb.fieldtracer.FieldTracerWeb(configId=5, chunk=8, retry=3, run_timeout=60)
    else:
        tracer = zb.fieldtracer.FieldTracer(field)
    tracer = zb.fieldtracer.CachingFieldTracer(Asked(tracer, note))

    if script == "resume" and os.path.exists(FN):
        try:
            v, a = B.read(os.path.abspath(FN))
        except B.Unreadable:
            v = None
        if v is not None and E.passes_for_complete(v, a) and all(k in v and int(v[k]) != E.FILL for k in ("ixseps1", "ixseps2")):
            note("resume")
            with zb.zoidberg.MapWriter(FN, create=False, new_names=c["new_names"], metric2d=c["metric2d"], quiet=True) as mw:
                mw.add_grid_field(grid, field)
                mw.add_dagp()
            note("done")
            return
    if script != "simple" and os.path.exists(FN):
        os.unlink(FN)
    maps = zb.zoidberg.make_maps(grid, field, nslice=c["nslice"], quiet=True, field_tracer=tracer, n_chunks=2, refine_parallel_integral=4)
    note("maps")
    with zb.zoidberg.MapWriter(FN, new_names=c["new_names"], metric2d=c["metric2d"], quiet=True) as mw:
        mw.add_grid_field(grid, field)
        mw.add_maps(maps)
        note("export")
        mw.add_dagp()
    note("done")


def life(cfg, script, L, logfile, marks=None):
    """One process: returns (error, fault point, what the service saw, faults of the service)"""
    fd = os.open(logfile, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)

    def note(s):
        os.write(fd, (s + "\n").encode())
        if marks is not None:
            marks[s.split()[0]] = disk.ops()

    w = World(L.get("seed", 1))
    s = Service(w, forward=L.get("forward", True))
    s.faults = {int(k): v for k, v in L.get("service", {}).items()}
    if L.get("down") is not None:
        s.down = L["down"]
    w.service = s
    zb.field.tracer = None
    np.random.seed(L.get("seed", 1))
    lf = err = None
    fault = L.get("fault")
    if fault and fault["kind"] == "line":
        pt = CASES[cfg].prof.pick(fault["u"], fault["v"])
        lf = LineFault(pt[0], pt[1], make_exception(fault["exc"]))
    with w:
        try:
            if lf:
                with lf:
                    build(cfg, script, note)
            else:
                build(cfg, script, note)
        except BaseException as e:
            err = f"{type(e).__name__}: {e}"
        finally:
            sys.settrace(None)
    traced = sum(r["kind"] == "trace" and r["mode"] == "phi" for r in s.requests)
    return err, (lf.name, lf.n, lf.where) if lf is not None and lf.fired else None, dict(requests=s.n, traced=traced, time=w.now), dict(w.faults)


class Case:
    pass


def reference(cfg):
    tmp = E.tmpdir()
    logs = os.path.join(E.tmpdir(), "log")

    def ref():
        c = Case()
        with World(1) as w:
            w.service = Service(w)
            zb.field.tracer = None
            with LineProfile() as c.prof:
                build(cfg, "simple")
        c.content = B.content(FN)
        return c

    try:
        q = disk.live(ref, tmp)
        if q.status != "ok":
            raise RuntimeError(f"undisturbed build {cfg}: {q.error}")
        case = q.value
        shutil.rmtree(tmp)
        os.mkdir(tmp)
        marks = {}
        q = disk.live(lambda: life(cfg, "simple", {}, logs, marks) + (marks,), tmp)
        if q.status != "ok" or q.value[0]:
            raise RuntimeError(f"undisturbed build {cfg}: {q.error or q.value[0]}")
        m = q.value[4]
        # file operations up to the end of each stage: saved field and trace cache, export, stencil and closing
        case.stages = [0, m["maps"], m["export"], q.ops]
        case.ops, case.reads, case.requests, case.traced = q.ops, q.reads, q.value[2]["requests"], q.value[2]["traced"]
        return case
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(os.path.dirname(logs), ignore_errors=True)


def prepare():
    import matplotlib.pyplot  # noqa
    import xarray  # noqa

    for n, c in zip(CONFIGS, disk.spread(reference, list(CONFIGS))):
        CASES[n] = c


def gen_service(rng):
    """Faults of the service, placed as fractions of the requests of the undisturbed build"""
    out = []
    u = rng.random()
    if rng.random() < 0.35:
        # a service that is unwell for a while
        f = rng.choice([["error", "oserror"], ["error", "runtime"], ["empty"], ["hang"], ["short", 1]])
        return [[round(u, 6), k, f] for k in range(rng.choice([2, 2, 3, 5, 8]))]
    for _ in range(rng.choice([1, 1, 2, 4])):
        f = rng.choice([["error", "oserror"], ["error", "runtime"], ["error", "value"], ["short", 1], ["empty"], ["hang"], ["slow", 100.0], ["interrupt", "key"], ["interrupt", "exit"]])
        out.append([round(min(0.999999, u + (0 if rng.random() < 0.5 else rng.random() * 0.1)), 6), rng.choice([0, 0, 1, 2, 3]), f])
    return out


def gen(rng, tier):
    cfg = rng.choice(sorted(CONFIGS))
    lives = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 5])):
        L = dict(seed=rng.randrange(1000), sfaults=[], fault=None)
        u = rng.random()
        if u < 0.4 and cfg != "pinch":
            L["sfaults"] = gen_service(rng)
        elif u < 0.57:
            L["fault"] = dict(kind="line", u=round(rng.random(), 6), v=round(rng.random(), 6), exc=rng.choice(EXCEPTIONS))
        else:
            k = rng.choice(["crash", "crash", "crash", "torn", "torn", "eio", "eio", "enospc", "enospc", "short", "eintr", "read_eio", "budget"])
            if k == "budget":
                L["fault"] = dict(kind="budget", bytes=rng.choice([0, 100, 1000, 3000, 10000, 40000, 100000]))
            else:
                L["fault"] = dict(kind="disk", stage=rng.choice([0, 0, 0, 1, 1, 2]), at=round(rng.choice([rng.random(), rng.random(), 1 - 0.05 * rng.random()]), 6), fault=k, arg=rng.choice([0, 1, 50, 400]))
        lives.append(L)
    return dict(config=cfg, script=rng.choice(["simple", "again", "resume", "resume"]), lives=lives)


def directed():
    """A kill at evenly spread points, restarted each time a little later"""
    out = []
    for cfg in CONFIGS:
        out.append(dict(config=cfg, script="resume", lives=[dict(seed=i, sfaults=[], fault=dict(kind="disk", stage=i // 2, at=0.3 + 0.4 * (i % 2), fault="crash", arg=0)) for i in range(6)]))
    # errors of the disk while the file is closed
    for cfg in "pinch", "demand2", "saved":
        out.append(dict(config=cfg, script="again", lives=[dict(seed=9, sfaults=[], fault=dict(kind="disk", stage=2, at=at, fault=k, arg=0))
                                                           for at in (0.9, 0.97, 0.999) for k in ("eio", "enospc")]))
    return out


def run(plan, ctx):
    cfg, script = plan["config"], plan["script"]
    case = CASES[cfg]
    base = os.path.join(ctx.scratch, "disk")
    os.makedirs(base)
    cached = set()
    lives = list(plan["lives"]) + [None, None]
    for n, L in enumerate(lives):
        what = f"life {n}" if L else ["after the faults", "once more"][n - len(plan["lives"])]
        L = dict(L or dict(seed=n))
        L["service"] = {int(at * case.requests) + off: f for at, off, f in L.get("sfaults", [])}
        logfile = os.path.join(ctx.scratch, f"log{n}")
        kw = {}
        fault = L.get("fault")
        kind = fault and fault["kind"]
        reading = kind == "disk" and fault["fault"] == "read_eio"
        if kind == "disk":
            a, b = (0, case.reads) if reading else case.stages[fault["stage"]:fault["stage"] + 2]
            kw["faults"] = [[1 + a + int(fault["at"] * (b - a)), fault["fault"], fault["arg"]]]
        elif kind == "budget":
            kw["budget"] = fault["bytes"]
        q = disk.live(lambda: life(cfg, script, L, logfile), base, **kw)
        ctx.check(q.status in ("ok", "killed"), "process-failed", lambda: f"{what}: {q.error}")
        with open(logfile) as f:
            notes = f.read().split("\n")[:-1]
        ctx.faults.update(q.fired)
        hit = dict(q.fired)
        err = None
        if q.status == "killed":
            ctx.faults["crash"] += 1
            ctx.check(bool(kw), "process-failed", f"{what}: died without a fault")
        else:
            err, line, seen, sf = q.value
            ctx.faults.update(sf)
            if line:
                ctx.faults["interrupted_line"] += 1
                hit["line"] = 1
            hit.update(sf)
            ctx.simtime += seen["time"]
        stage = ([s for s in notes if s.split()[0] not in ("start", "end")] or ["begin"])[-1]
        ended = sum(s.startswith("end") for s in notes)
        ctx.log(what, q.status, err and ctx.plain(err)[:80], stage, ended, sorted(hit.items()), q.ops, q.reads)
        ctx.state(cfg, script, stage, ended, sorted(hit), err and err.split(":")[0], q.status)

        # nothing that was in the cache is computed again
        if not reading:
            again = [s.split()[1] for s in notes if s.startswith("start") and s.split()[1] in cached]
            ctx.check(not again, "cached-work-repeated", f"{what}: asks the tracer again for {again}, which an earlier process had computed and gone past")
        for i, s in enumerate(notes):
            if s.startswith("end") and any(not t.startswith("end") for t in notes[i + 1:]):
                cached.add(s.split()[1])

        if q.status == "killed":
            ctx.nontrivial = True
            continue
        if err is not None:
            ctx.nontrivial = True
            ctx.check(bool(hit), "build-fails-without-fault", f"{what}: {err}")
            continue
        try:
            got = B.content(os.path.join(base, FN))
        except B.Unreadable as e:
            ctx.violate("unreadable", f"{what}: the build succeeded, but {e}")
        d = diff(case.content[0], got[0]) or diff(case.content[1], got[1])
        ctx.check(d is None, "different-file", f"{what}: the file differs from that of an undisturbed build: {d}")
        ctx.probes["builds_equal"] += 1
        if what == "once more":
            ctx.check(seen["traced"] == 0, "cached-work-repeated", f"{what}: {seen['traced']} requests to the tracing service")
