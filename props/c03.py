"""Requests to external services: mixed histories of calls on shared tracers, fields and configuration objects"""
import copy

import numpy as np

from sim import world
from sim.boot import zb
from sim.core import diff
from sim.sched import Baton, LineProfile
from sim.world import Service, World, bfield, flow

from . import points as P
from .web import expected, gen_fault, table_conf

QUICK = (2500, 45)
THOROUGH = (400000, 780)

CONFS = [0, 1, 2, 5, 6, -1, "FMM002"]
SH = [[1], [2], [5], [7], [3, 4], [2, 2, 2]]


def gen_step(rng):
    kind = rng.choice(["web", "web", "web", "w7x", "w7x", "fsc", "fsc", "fscfield", "axis", "plot"])
    st = dict(kind=kind, points=P.gen_points(rng, SH, ["C", "C", "F", "strided", "readonly"]), planes=P.gen_planes(rng, monotone=kind != "web" or rng.random() < 0.75), who=rng.randrange(4), faults={})
    if kind == "web":
        st["points"] = P.gen_points(rng, SH)
        st["chunk"] = rng.choice([None, None, 1, 2, 3])
        st["stepsize"] = rng.choice([None, None, 0.03, 0.3])
        st["rtol"] = rng.choice([None, 1e-7])
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 2, 4])):
                st["faults"][str(rng.randrange(6))] = gen_fault(rng, 50.0)
    elif kind == "w7x":
        st["conf"] = rng.choice(CONFS)
        st["fn"] = rng.choice(["Bxfunc", "Byfunc", "Bzfunc", "Bmag", "Bxyzfunc", "Bxfunc"])
        st["phi"] = rng.choice(["scalar", "array"])
        if rng.random() < 0.3:
            st["faults"]["0"] = ["error", rng.choice(world.ERRORS)]
    elif kind in ("axis", "plot"):
        st["conf"] = rng.choice(CONFS)
        st["phi"] = rng.choice(world.AXIS_PHI)
        if rng.random() < 0.3:
            st["faults"][str(rng.randrange(2))] = ["error", rng.choice(world.ERRORS)]
    elif kind == "fsc":
        st["rtol"] = rng.choice([None, None, 1e-3, 1e-6])
        if rng.random() < 0.2:
            st["faults"]["0"] = ["error", "runtime"]
    else:
        st["fn"] = rng.choice(["Bxfunc", "Byfunc", "Bzfunc", "Bmag", "Bxyzfunc"])
        st["phi"] = rng.choice(["scalar", "array"])
    return st


def gen(rng, tier):
    plan = dict(seed=rng.randrange(10**6), flip=rng.random() < 0.5, tracers=[], threads=rng.random() < 0.3,
                objects=[rng.choice([0, 1, 3, 5]) for _ in range(2)])
    for i in range(4):
        u = rng.choice(["id", "id", "table", "object", "object"])
        plan["tracers"].append(dict(cfg=u, conf=rng.choice([0, 1, 2, 5, 12]) if u == "id" else rng.choice([-1, "FMM002"]) if u == "table" else rng.randrange(2),
                                    stepsize=rng.choice([None, 0.02, 0.2]), chunk=rng.choice([None, 2, 100]), rtol=rng.choice([None, 1e-2, 1e-5])))
    plan["steps"] = [gen_step(rng) for _ in range(rng.choice([2, 3, 4, 6, 8]))]
    if plan["threads"]:
        plan["steps"] = plan["steps"][:2]
        for s in plan["steps"]:
            s["faults"] = {}
            s["chunk"] = None
        plan["switches"] = [[rng.randrange(2), round(rng.random(), 6), round(rng.random(), 6)] for _ in range(rng.choice([1, 2, 3, 5]))]
    return plan


class Setup:
    def __init__(self, plan):
        self.plan = plan
        self.objects = [world.Obj(configIds=c, custom=0.01 * (i + 1), inverseField=bool(i), note=["kept"]) for i, c in enumerate(plan["objects"])]
        self.tracers, self.confs, self.fsc = [], [], []
        for t in plan["tracers"]:
            kw = {k: t[k] for k in ("stepsize", "chunk") if t[k] is not None}
            if t["cfg"] == "object":
                o = self.objects[t["conf"] % len(self.objects)]
                kw["config"] = o
                conf = world.config_number(o)
            else:
                kw["configId"] = t["conf"]
                conf = 0.25 + 0.04 * (t["conf"] % 7) if t["cfg"] == "id" else table_conf(t["conf"])
            self.tracers.append(zb.fieldtracer.FieldTracerWeb(**kw))
            self.confs.append(conf)
            kw = {} if t["rtol"] is None else dict(targetError=t["rtol"])
            self.fsc.append(zb.fieldtracer.FusionSCTracer(world.FscField(conf), **kw))
        self.before = [copy.deepcopy(o.__dict__) for o in self.objects]


def w7x_conf(c):
    return table_conf(c) if c in (-1, "FMM002") else 0.25 + 0.04 * (c % 7)


def cyl(b, phi):
    return b[0] * np.cos(phi) + b[1] * np.sin(phi), -b[0] * np.sin(phi) + b[1] * np.cos(phi), b[2]


def pick_fn(fn, b, phi):
    r, p, z = cyl(b, phi)
    return {"Bxfunc": r, "Byfunc": p, "Bzfunc": z, "Bmag": np.sqrt(r**2 + p**2 + z**2), "Bxyzfunc": (r, p, z)}[fn]


def step_fn(setup, st):
    """(function to call, expected value, inputs)"""
    x, z, xe, ze = P.make_points(st["points"])
    y = P.make_planes(st["planes"])
    ye = np.asarray(st["planes"]["y"], float)
    who = st["who"] % len(setup.tracers)
    t = setup.plan["tracers"][who]
    if st["kind"] == "web":
        kw = {k: st[k] for k in ("chunk", "stepsize", "rtol") if st[k] is not None}
        step = st["stepsize"] or t["stepsize"] or 0.01
        exp = expected(xe, ze, ye, setup.confs[who], step)
        return (lambda: setup.tracers[who].follow_field_lines(x, z, y, **kw)), exp, (x, z, y)
    if st["kind"] == "fsc":
        # the stub, like the real one, finds the first crossing: keep planes within one turn
        tol = st["rtol"] or t["rtol"] or 1e-4
        exp = np.zeros((len(ye),) + xe.shape + (2,))
        exp[0, ..., 0], exp[0, ..., 1] = xe, ze
        for k in range(1, len(ye)):
            exp[k, ..., 0], exp[k, ..., 1] = flow(xe, ze, ye[0], ye[k], setup.confs[who], tol * 100)
        kw = {} if st["rtol"] is None else dict(rtol=st["rtol"])
        return (lambda: setup.fsc[who].follow_field_lines(x, z, y, **kw)), exp, (x, z, y)
    if st["kind"] == "axis":
        # magnetic_axis uses nothing of the object, and an object would ask for a whole grid
        return (lambda: zb.field.W7X_vacuum.magnetic_axis(None, st["phi"], st["conf"])), np.array(world.w7x_axis(st["phi"], w7x_conf(st["conf"]))), (x,)
    if st["kind"] == "plot":
        r, phi, z = np.meshgrid(np.linspace(xe.min() - 0.1, xe.max() + 0.1, 2), np.linspace(0, 0.5 + abs(ye[0]), 2), np.linspace(ze.min() - 0.1, ze.max() + 0.1, 2), indexing="ij")
        b = bfield(r * np.cos(phi), r * np.sin(phi), z, w7x_conf(st["conf"]))
        return (lambda: zb.field.W7X_vacuum.field_values(r, phi, z, st["conf"], True)), cyl(b, phi), (r, phi, z)
    phi = float(ye[0]) if st["phi"] == "scalar" else ye[0] + 0.1 * np.arange(xe.size).reshape(xe.shape)
    if st["kind"] == "w7x":
        conf = w7x_conf(st["conf"])
        f = zb.field.W7X_vacuum_on_demand(st["conf"])
        phi = phi + np.zeros_like(xe)
    else:
        conf = setup.confs[who]
        f = zb.field.FusionSCField(world.FscField(conf))
    b = bfield(xe * np.cos(phi), xe * np.sin(phi), ze, conf)
    exp = pick_fn(st["fn"], b, phi)
    return (lambda: getattr(f, st["fn"])(x, z, phi)), exp, (x, z, phi)


def check_requests(ctx, setup, st, reqs, what):
    """Also requests of failed calls have to be right"""
    _, _, xe, ze = P.make_points(st["points"])
    ye = np.asarray(st["planes"]["y"], float)
    who = st["who"] % len(setup.tracers)
    t = setup.plan["tracers"][who]
    have = {(round(a, 7), round(b, 7)) for a, b in zip(np.ravel(xe), np.ravel(ze))}
    for q in reqs:
        if st["kind"] in ("axis", "plot"):
            ctx.check(abs(q["conf"] - w7x_conf(st["conf"])) < 1e-9, "wrong-configuration", f"{what}: request {q['n']} ({q['kind']}) is for another magnetic configuration")
            if q["kind"] == "poincare":
                ctx.check(np.all(q["x"] > 5) and len(q["x"]) > 1 and not np.any(q["y"]) and not np.any(q["z"]), "wrong-plane", f"{what}: the plot starts elsewhere")
            continue
        R = np.sqrt(q["x"] ** 2 + q["y"] ** 2)
        pts = {(round(a, 7), round(b, 7)) for a, b in zip(np.ravel(R), np.ravel(q["z"]))}
        ctx.check(pts <= have, "foreign-points", f"{what}: request {q['n']} asks for points that the caller did not give")
        if st["kind"] in ("web", "fsc"):
            phi = np.arctan2(q["y"], q["x"])
            ctx.check(np.allclose(np.cos(phi), np.cos(ye[0]), atol=1e-7) and np.allclose(np.sin(phi), np.sin(ye[0]), atol=1e-7),
                      "wrong-plane", f"{what}: start points of request {q['n']} are not on the plane {ye[0]}")
        if q["kind"] == "trace":
            ctx.check(abs(q["conf"] - setup.confs[who]) < 1e-9, "wrong-configuration", f"{what}: request {q['n']} is for another magnetic configuration")
            step = st["stepsize"] or t["stepsize"] or 0.01
            ctx.check(q["step"] == step, "wrong-accuracy", f"{what}: step {q['step']} instead of {step}")
            ctx.check(any(abs(q["dphi"] - (v - ye[0])) < 1e-9 for v in ye[1:]), "wrong-direction",
                      f"{what}: request {q['n']} goes {q['dphi']}, planes are {list(ye - ye[0])}")
        elif q["kind"] == "field":
            ctx.check(abs(q["conf"] - w7x_conf(st["conf"])) < 1e-9, "wrong-configuration", f"{what}: request {q['n']} is for another magnetic configuration")
        elif q["kind"] == "fsc":
            tol = st["rtol"] or t["rtol"]
            ctx.check(q["kw"].get("targetError") == tol, "wrong-accuracy", f"{what}: target error {q['kw'].get('targetError')} instead of {tol}")


def run(plan, ctx):
    if not plan["tracers"]:
        return
    w = World(plan["seed"])
    flip = plan["flip"]
    s = Service(w, forward=lambda conf: (int(round(conf * 1e4)) % 2 == 0) != flip)
    w.service = s
    np.random.seed(plan["seed"])
    zb.field.tracer = None
    with w:
        try:
            setup = Setup(plan)
            ctx.check(all(o.__dict__ == b for o, b in zip(setup.objects, setup.before)), "configuration-modified", "creating tracers changed a configuration object")
            if plan["threads"] and len(plan["steps"]) == 2:
                threads(plan, ctx, setup, s)
            else:
                serial(plan, ctx, setup, w, s)
        finally:
            ctx.world(w)
    ctx.nontrivial = True


def same_config(ctx, setup, what):
    for i, (o, b) in enumerate(zip(setup.objects, setup.before)):
        ctx.check(o.__dict__ == b, "configuration-modified", lambda: f"{what}: configuration object {i} was {b}, is {o.__dict__}")


def serial(plan, ctx, setup, w, s):
    for i, st in enumerate(plan["steps"]):
        if st["kind"] == "web" and plan["tracers"][st["who"] % len(plan["tracers"])]["cfg"] == "object":
            st = dict(st, faults={k: v for k, v in st["faults"].items() if v[0] != "hang"})
        fn, exp, inputs = step_fn(setup, st)
        before = P.snapshot(*inputs)
        base = s.n
        nreq = len(s.requests)
        s.faults = {base + int(k): v for k, v in st["faults"].items() if v[0] != "hang"}
        what = f"step {i} ({st['kind']})"
        nf = sum(w.faults.values())
        try:
            res, err = fn(), None
        except Exception as e:
            res, err = None, e
        s.faults = {}
        ctx.log(what, type(err).__name__, len(s.requests) - nreq)
        check_requests(ctx, setup, st, s.requests[nreq:], what)
        ctx.check(P.unchanged(before, inputs), "inputs-modified", f"{what} changed its inputs")
        same_config(ctx, setup, what)
        if err is None:
            d = diff(exp, res, 1e-9, 1e-9)
            ctx.check(d is None, "wrong-answer", f"{what}: {d}")
            ctx.check(len(s.requests) > nreq, "no-request", f"{what}: answered without asking the service")
        else:
            ctx.check(sum(w.faults.values()) > nf, "spurious-failure", f"{what}: {type(err).__name__}: {err}")
        ctx.state(st["kind"], plan["tracers"][st["who"] % 4]["cfg"] if plan["tracers"] else None, type(err).__name__, len(st["planes"]["y"]))


def threads(plan, ctx, setup, s):
    fns = [step_fn(setup, st) for st in plan["steps"]]
    switches = []
    profs = []
    for fn, exp, _ in fns:
        with LineProfile() as p:
            fn()
        profs.append(p)
    for th, u, v in plan["switches"]:
        q = profs[th].pick(u, v)
        if q is not None:
            switches.append((th, q[0], q[1], 1 - th))
    b = Baton([f[0] for f in fns], switches)
    res = b.run()
    ctx.faults["preemption"] += len(b.taken)
    ctx.log("switches", b.taken)
    ctx.state("threads", [st["kind"] for st in plan["steps"]], [t[1] for t in b.taken])
    for i, (r, (_, exp, _)) in enumerate(zip(res, fns)):
        what = f"thread {i} ({plan['steps'][i]['kind']})"
        ctx.check(r[0] == "ok", "concurrent-failure", lambda: f"{what}: {r[1]!r}")
        d = diff(exp, r[1], 1e-9, 1e-9)
        ctx.check(d is None, "concurrent-leak", f"{what}: {d}")
    same_config(ctx, setup, "threads")
