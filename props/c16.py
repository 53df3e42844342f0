"""Progress back ends, verbosity, bar options and clocks"""
import importlib
import os
import sys
import types

import numpy as np

from sim import disk, world
from sim.boot import zb
from sim.core import diff

from . import build as B
from . import export as E
from . import ops as O

QUICK = (1500, 40)
THOROUGH = (400000, 780)

MODELS = {}
REF = {}
SIMPLE = dict(slab=lambda: B.slab(nx=5, ny=3, nz=4), pinch=lambda: B.pinch(nx=5, ny=3, nz=6), open=lambda: B.slab(nx=5, ny=2, nz=4, yperiodic=False, nslice=2), one=lambda: B.slab(nx=5, ny=1, nz=4),
              sub=lambda: B.slab(nx=5, ny=2, nz=4, samples_per_dim=2), curved=lambda: B.curved(nx=5, ny=2, nz=4))
OPS = ["maps", "upscale", "stencil", "dagp", "export", "build"]
CLOCKS = ["runs", "stands", "backwards", "jumps", "leaps", "ancient"]
FACTORS = [1, 2, 3, 4]


def clock(kind, seed):
    r = np.random.default_rng(seed)
    steps = r.uniform(-1e5, 1e5, 64)

    def now(t, n):
        if kind == "stands":
            return 1.7e9
        if kind == "backwards":
            return 1.7e9 - 7.5 * n
        if kind == "jumps":
            return 1.7e9 + t + float(steps[n % 64])
        if kind == "leaps":
            return 1.7e9 + 1e7 * (n // 3 % 3)
        if kind == "ancient":
            return 0.25 * n
        return 1.7e9 + t + 0.01 * n

    return now


class Bar:
    """Stands in for tqdm"""

    made = 0

    def __init__(self, iterable=None, desc=None, total=None, **kw):
        Bar.made += 1
        self.iterable, self.desc, self.total, self.n = iterable, desc, total, 0

    def __iter__(self):
        for x in self.iterable:
            yield x
            self.n += 1

    def __len__(self):
        return self.total if self.total is not None else len(self.iterable)

    def __bool__(self):
        # as tqdm: an empty bar is false
        return self.total > 0 if self.total is not None else bool(len(self.iterable)) if hasattr(self.iterable, "__len__") else True

    def update(self, n=1):
        self.n += n
        return True

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def set_description(self, *a, **k):
        pass

    set_postfix = refresh = reset = set_description


def install(back):
    """Import zoidberg's users of the progress bar again, with or without the package"""
    for k in "tqdm", "tqdm.auto", "tqdm.std":
        sys.modules.pop(k, None)
    if back == "tqdm":
        for k in "tqdm", "tqdm.auto", "tqdm.std":
            m = types.ModuleType(k)
            m.tqdm = Bar
            m.trange = lambda *a, **k: Bar(range(*a), **k)
            sys.modules[k] = m
        sys.modules["tqdm"].auto = sys.modules["tqdm.auto"]
        sys.modules["tqdm"].std = sys.modules["tqdm.std"]
    else:
        sys.modules.update({"tqdm": None, "tqdm.auto": None})
    for m in zb.progress, zb.stencil_dagp_fv, zb.zoidberg:
        for k in [k for k in vars(m) if not k.startswith("__")]:
            delattr(m, k)
        importlib.reload(m)


class Console:
    """What the process writes to its standard output, however it does that"""

    def __enter__(self):
        sys.stdout.flush()
        self.keep = os.dup(1)
        self.fd = os.memfd_create("console")
        os.dup2(self.fd, 1)
        return self

    def __exit__(self, *a):
        try:
            sys.stdout.flush()
        finally:
            os.dup2(self.keep, 1)
            os.close(self.keep)
        self.text = os.pread(self.fd, 1 << 22, 0).decode(errors="replace")
        os.close(self.fd)


FN = "out.nc"


def perform(p):
    m = MODELS[p["model"]]
    bar = dict(p["bar"])
    op = p["op"]
    Z = zb.zoidberg
    if op == "maps":
        return Z.make_maps(m.grid, m.field, nslice=m.nslice, quiet=p["quiet"], refine_parallel_integral=3, **dict(m.map_kw, **bar))
    if op == "upscale":
        f = np.sin(np.arange(m.maps["R"].size, dtype=float)).reshape(m.maps["R"].shape)
        maps = {k: np.array(v) for k, v in m.maps.items()}
        return Z.upscale(f, maps, upscale_factor=p["factor"], quiet=p["quiet"])
    if op == "stencil":
        zb.stencil_dagp_fv.verbose = p["verbose"]
        return zb.stencil_dagp_fv.doit(list(m.grid.poloidal_grids), isSlab=p["model"] in ("slab", "open", "one", "sub"))
    if os.path.exists(FN):
        os.unlink(FN)
    if op == "build":
        maps = Z.make_maps(m.grid, m.field, nslice=m.nslice, quiet=p["quiet"], refine_parallel_integral=3, **dict(m.map_kw, **bar))
        Z.write_maps(m.grid, m.field, maps, gridfile=FN, quiet=p["quiet"], metric2d=p["metric2d"])
        return B.plain(FN)
    zb.stencil_dagp_fv.verbose = p["verbose"]
    with Z.MapWriter(FN, quiet=p["quiet"], metric2d=p["metric2d"]) as mw:
        mw.add_grid_field(m.grid, m.field)
        mw.add_maps(m.maps)
        if op == "dagp":
            mw.add_dagp()
    return B.plain(FN)


def key(p):
    return p["model"], p["op"], bool(p["metric2d"]) if p["op"] in ("export", "dagp", "build") else False, p["factor"] if p["op"] == "upscale" else 0


def prepare():
    for k, f in SIMPLE.items():
        MODELS[k] = f()
        MODELS[k].maps
    plans = {}
    for m in MODELS:
        for o in OPS:
            for m2 in (False, True):
                for f in FACTORS:
                    p = dict(model=m, op=o, metric2d=m2, factor=f, quiet=True, verbose=1, bar={})
                    plans.setdefault(key(p), p)

    def one(k):
        d = E.tmpdir()
        try:
            def go():
                os.chdir(d)
                install("none")
                return O.plain(perform(plans[k]))

            L = disk.live(go, d, disk=False)
            if L.status != "ok":
                raise RuntimeError(f"{k}: {L.error}")
            return L.value
        finally:
            import shutil

            shutil.rmtree(d, ignore_errors=True)

    ks = sorted(plans)
    REF.update(zip(ks, disk.spread(one, ks)))


def gen_bar(rng):
    b = {}
    if rng.random() < 0.5:
        b["barLength"] = rng.choice([1, 2, 7, 10, 20, 40, 80, 200])
    if rng.random() < 0.5:
        b["ascii"] = rng.random() < 0.5
    if rng.random() < 0.4:
        b["zoidberg"] = rng.random() < 0.8
    return b


def gen_step(rng):
    if rng.random() < 0.12:
        return dict(op="bar", bar=gen_bar(rng), values=[rng.choice([0, 1, 0.0, 1.0, 0.5, round(rng.random(), 3), -1, -0.5, 1.5, 2, 1e-9, 0.999999]) for _ in range(rng.choice([1, 3, 6]))])
    if rng.random() < 0.12:
        return dict(op="timer", values=[rng.choice([0, 0.0, 1, 1.0, 1e-12, 0.5, round(rng.random(), 4)]) for _ in range(rng.choice([0, 1, 3, 6]))])
    return dict(op=rng.choice(["maps", "maps", "maps", "upscale", "upscale", "stencil", "dagp", "export", "build"]), model=rng.choice(sorted(SIMPLE)), quiet=rng.random() < 0.4, verbose=rng.choice([0, 1, 1, 2, 3]),
                metric2d=rng.random() < 0.4, factor=rng.choice(FACTORS), bar=gen_bar(rng) if rng.random() < 0.7 else {})


def gen(rng, tier):
    return dict(back=rng.choice(["none", "tqdm"]), clock=rng.choice(CLOCKS), seed=rng.randrange(10**6), steps=[gen_step(rng) for _ in range(rng.choice([1, 1, 2, 3]))])


def directed():
    """Every operation with every back end, talkative and quiet"""
    out = []
    for back in "none", "tqdm":
        for quiet in True, False:
            for m in sorted(SIMPLE):
                out.append(dict(back=back, clock="runs", seed=1, steps=[dict(op=o, model=m, quiet=quiet, verbose=2, metric2d=False, factor=2, bar=dict(zoidberg=True) if m == "pinch" else {}) for o in OPS]))
    return out


def run(plan, ctx):
    Bar.made = 0
    w = world.World(plan["seed"], clock=clock(plan["clock"], plan["seed"]))
    with w:
        install(plan["back"])
        for p in plan["steps"]:
            before = Bar.made
            err = r = None
            what = f"{p} with progress back end {plan['back']}, clock {plan['clock']}"
            con = Console()
            with con:
                try:
                    if p["op"] == "bar":
                        for v in p["values"]:
                            zb.progress.update_progress(v, **p["bar"])
                    elif p["op"] == "timer":
                        with zb.progress.Progress() as t:
                            for v in p["values"]:
                                t.update(v)
                    else:
                        r = O.plain(perform(p))
                except BaseException as e:
                    err = e
            ctx.log(plan["back"], plan["clock"], p, type(err).__name__, len(con.text) if p["op"] != "timer" else 0, Bar.made - before)
            ctx.check(err is None, "operation-fails", lambda: f"{what}: {type(err).__name__}: {err}")
            ctx.state(p["op"], p.get("model"), plan["back"], plan["clock"], p.get("quiet"), sorted(p.get("bar", {})))
            ctx.probes["talkative" if con.text or Bar.made > before else "silent"] += 1
            ctx.nontrivial = True
            if p["op"] in ("bar", "timer"):
                continue
            d = diff(REF[key(p)], r)
            ctx.check(d is None, "different-result", f"{what}: {d}")
            if p["quiet"] and p["op"] in ("maps", "upscale"):
                ctx.check(not con.text, "not-quiet", lambda: f"{what}: printed {con.text[:80]!r}")
                ctx.check(Bar.made == before, "not-quiet", f"{what}: started a progress bar")
            if p["quiet"] and p["op"] == "build" or p["op"] == "export" and p["quiet"]:
                ctx.check("\r" not in con.text and "%" not in con.text and Bar.made == before, "not-quiet", lambda: f"{what}: printed {con.text[:80]!r}")
    ctx.faults["clock_" + plan["clock"]] += plan["clock"] != "runs"
    ctx.faults["back_end_" + plan["back"]] += 1
    ctx.simtime += w.now
