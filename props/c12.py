"""Uninitialised memory: the same computation with different contents of freshly allocated memory

Every allocation of uninitialised arrays (numpy.empty, numpy.empty_like) is filled from a seeded stream, the C
allocator fills what it hands out with a chosen byte, and the service faults of the remote traces are part of the plan.
"""
import ctypes
import os

import numpy as np

from sim import disk, world
from sim.boot import zb
from sim.core import diff
from sim.sched import EXCEPTIONS, LineFault, make_exception
from sim.world import Service, World

from . import build as B
from . import c15 as F
from . import ops as O
from . import points as P
from . import web as W

QUICK = (2200, 48)
THOROUGH = (400000, 780)

ENV = None
REF = {}
SLOW = {"make_maps/4", "make_maps/10"}
WEIGHTED = None
_libc = ctypes.CDLL(None)
M_PERTURB = -6

KINDS = ["random", "random", "random", "nan", "huge", "zero", "ones"]


def prepare():
    global ENV, REF, WEIGHTED
    ENV = O.Env()
    REF = O.references(ENV)
    REF.update(O.references(ENV, ["stencil/slab", "stencil/pinch"], profile=True))
    extra_models()
    WEIGHTED = weighted()
    F.MODELS.update(F.make_models())
    for m in BROKEN:
        F.MODELS[m].maps


BROKEN = ["curved", "open", "pinch", "slab"]
MODELS = {}


def extra_models():
    MODELS["slab"] = B.slab(nx=5, ny=3, nz=4)
    MODELS["pinch"] = B.pinch(nx=5, ny=3, nz=6)
    for m in MODELS.values():
        m.maps


def weighted():
    """Operations that allocate uninitialised memory more often than the others"""
    uses = []
    for n in O.NAMES:
        w = 6 if n.startswith(("make_maps", "weights", "stencil", "export", "diff", "elliptic", "rzline", "remote", "modify")) else 1
        if n in SLOW:
            w = 1
        uses += [n] * w
    return uses


def gen(rng, tier):
    u = rng.random()
    pair = [[rng.choice(KINDS), rng.randrange(10**6)] for _ in range(2)]
    plan = dict(poison=pair, malloc=rng.choice([0, 0, 0x41, 0xFF, 0x7F]), stale=rng.random() < 0.3)
    if u < 0.15:
        plan["what"] = "field"
        o = rng.choice(["trace", "trace", "reversible", "poincare", "maps", "metric", "export"])
        f = dict(kind=rng.choice(["nan", "nan", "inf", "-inf", "huge", "zero", "raise"]), when=rng.choice(["from", "from", "once", "every", "while"]), where=rng.choice(["all", "all", "one", "region"]),
                 edge=round(rng.uniform(0.2, 2.2), 3), funcs=list(rng.choice(F.SETS)), at=rng.choice([1, 2, 5, 20, 60, 200]))
        plan["broken"] = dict(model=rng.choice(BROKEN), op=o, n=rng.randrange(F.NUM[o]), fault=f)
        if rng.random() < 0.5:
            plan["malloc"] = rng.choice([0x41, 0xFF, 0x7F])
    elif u < 0.5:
        plan["what"] = "ops"
        plan["ops"] = [rng.choice(WEIGHTED or weighted()) for _ in range(rng.choice([1, 1, 2, 3]))]
    elif u < 0.85:
        plan["what"] = "web"
        plan["web"] = W.gen(rng, tier)
        plan["web"]["down"] = None
    else:
        plan["what"] = "session"
        plan["model"] = rng.choice(["slab", "pinch"])
        plan["metric2d"] = rng.random() < 0.3
        plan["fault"] = dict(u=round(rng.random(), 6), v=round(rng.random(), 6), exc=rng.choice(EXCEPTIONS))
    return plan


def poison(kind, seed):
    rnd = world.make_poison(seed)
    if kind == "random":
        return rnd

    def fill(arr):
        if not isinstance(arr, np.ndarray) or arr.size == 0:
            return
        if arr.dtype.kind in "fc":
            arr[...] = dict(nan=np.nan, huge=-3e250, zero=0.0, ones=1.0)[kind]
        elif arr.dtype.kind in "iub":
            arr[...] = dict(nan=1, huge=-3 if arr.dtype.kind == "i" else 3, zero=0, ones=1)[kind]

    return fill


def stale(seed):
    """Leave numbers behind in freed memory, also in numpy's own free lists"""
    r = np.random.default_rng(seed)
    keep = [world.real_empty(n) for n in list(range(1, 130)) * 4 + [200, 500, 1000, 5000] * 3]
    for a in keep:
        a[...] = r.uniform(-9, 9)
    del keep


def under(plan, n, fn):
    kind, seed = plan["poison"][n]
    if plan["malloc"]:
        _libc.mallopt(M_PERTURB, (plan["malloc"] + 13 * n) & 0xFF)
    if plan["stale"]:
        stale(seed)
    world.poison = poison(kind, seed)
    try:
        return fn()
    finally:
        world.poison = None
        if plan["malloc"]:
            _libc.mallopt(M_PERTURB, 0)


def run(plan, ctx):
    ctx.log(plan["what"], plan["poison"])
    ctx.faults["memory_filled"] += 2
    if plan["what"] == "ops":
        for name in plan["ops"]:
            exp = REF[name][0]
            for n in range(2):
                def go():
                    with O.services():
                        return O.perform(name, ENV)

                try:
                    got = under(plan, n, go)
                except Exception as e:
                    ctx.violate("depends-on-memory", f"{name} fails if fresh memory holds {plan['poison'][n]}: {type(e).__name__}: {e}")
                d = diff(exp, got)
                ctx.check(d is None, "depends-on-memory", f"{name} with fresh memory holding {plan['poison'][n]}: {d}")
            ctx.log(name)
            ctx.state(name, plan["poison"][0][0])
            ctx.probes[name.split("/")[0]] += 1
    elif plan["what"] == "field":
        b = plan["broken"]
        out = [under(plan, n, lambda: broken(b)) for n in range(2)]
        d = diff(out[0], out[1])
        ctx.check(d is None, "depends-on-memory", f"{b}: fresh memory {plan['poison'][0]} and {plan['poison'][1]}: {d}")
        ctx.log(out[0][0], out[0][2])
        ctx.faults["field_" + b["fault"]["kind"]] += out[0][2]
        ctx.state("field", b["model"], b["op"], b["n"], b["fault"]["kind"], out[0][0])
    elif plan["what"] == "web":
        out = [under(plan, n, lambda: calls(plan["web"], ctx if n == 0 else None)) for n in range(2)]
        for k, (a, b) in enumerate(zip(*out)):
            d = diff(a, b)
            ctx.check(d is None, "depends-on-memory", f"remote call {k}: fresh memory {plan['poison'][0]} and {plan['poison'][1]}: {d}")
            ctx.state("web", len(out[0]), a[0])
    else:
        out = []
        for n in range(2):
            fn = f"s{n}.nc"
            L = disk.live(lambda: under(plan, n, lambda: session(plan, fn)), os.getcwd(), disk=False)
            out.append(L.value if L.status == "ok" else [[L.status, L.error and L.error[0]]])
            ctx.log(out[-1][0])
        d = diff(out[0], out[1])
        ctx.check(d is None, "depends-on-memory", f"file of an interrupted and continued session, fresh memory {plan['poison'][0]} and {plan['poison'][1]}: {d}")
        ctx.faults["line_exception"] += 1
        ctx.state("session", plan["model"], tuple(out[0][0]))
    ctx.nontrivial = True


def broken(b):
    """What comes of an operation whose field goes wrong"""
    sw = F.Switch()
    c = F.Case(b["model"], sw)
    sw.arm(b["fault"], b["fault"]["at"], 200000)
    try:
        return ["ok", O.plain(F.OPS[b["op"]](c, b["n"])), sw.hits]
    except (Exception, F.OverBudget) as e:
        return [type(e).__name__, None, sw.hits]


def calls(wp, ctx):
    """Results (or kinds of failure) of a history of remote calls with service faults"""
    out = []
    w = World(wp["seed"])
    s = Service(w, forward=wp["forward"])
    w.service = s
    np.random.seed(wp["seed"])
    with w:
        kw, _ = W.make_config(wp)
        for k in "retry", "run_timeout", "stepsize", "chunk":
            if wp[k] is not None:
                kw[k] = wp[k]
        t = zb.fieldtracer.FieldTracerWeb(**kw)
        for call in wp["calls"]:
            x, z, xe, _ = P.make_points(call["points"])
            y = P.make_planes(call["planes"])
            chunk = call["chunk"] or wp["chunk"] or 10000
            pooled = "config" not in kw and xe.size > chunk
            s.faults = {s.n + int(k): v for k, v in call["faults"].items() if pooled or v[0] != "hang"}
            s.latency = W.latency_fn(call)
            args = {k: call[k] for k in ("chunk", "retry", "timeout", "stepsize", "rtol") if call[k] is not None}
            try:
                out.append(["ok", np.array(t.follow_field_lines(x, z, y, **args))])
            except (Exception, KeyboardInterrupt) as e:
                out.append([type(e).__name__, None])
            s.faults = {}
    if ctx is not None:
        ctx.world(w)
    return out


def session(plan, fn):
    m = MODELS[plan["model"]]
    note = []
    name = "zoidberg.py:MapWriter.add_dagp" if plan["fault"]["u"] < 0.4 else None
    prof = REF[f"stencil/{plan['model']}"][1]
    pt = prof.pick(plan["fault"]["u"], plan["fault"]["v"])
    lf = LineFault(name or pt[0], 1 + int(plan["fault"]["v"] * (60 if name else 3 * prof.count[pt[0]])), make_exception(plan["fault"]["exc"]))
    try:
        with lf:
            B.export(fn, m, metric2d=plan["metric2d"], dagp=True)
        note.append("complete")
    except BaseException as e:
        note.append(type(e).__name__)
    with zb.zoidberg.MapWriter(fn, metric2d=plan["metric2d"], quiet=True, create=False) as mw:
        mw.add_grid_field(m.grid, m.field)
        mw.add_dagp()
    v, a = B.plain(os.path.abspath(fn))
    return [note, v, a]
