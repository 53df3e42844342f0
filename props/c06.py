"""W7-X field service: evaluations with failing, hanging, incomplete and interrupted requests"""
import numpy as np

from sim import world
from sim.boot import zb
from sim.core import diff
from sim.world import Deadlock, Service, World, bfield

from . import points as P
from .c03 import pick_fn, w7x_conf
from .web import BUGS

QUICK = (4000, 45)
THOROUGH = (400000, 780)

CONFS = [0, 1, 2, 5, 12, -1, "FMM002"]
SHAPES = [[], [1], [2], [5], [7], [3, 4], [2, 1, 3], [1500]]


def gen_fault(rng, n):
    limit = 10 + n / 1000
    return rng.choice([
        lambda: ["error", rng.choice(world.ERRORS)],
        lambda: ["error", rng.choice(world.ERRORS)],
        lambda: ["hang"],
        lambda: ["slow", round(limit * rng.choice([0.2, 0.9, 1.1, 5]), 3)],
        lambda: ["short", rng.choice([1, 2, 10000])],
        lambda: ["long", rng.choice([1, 2])],
        lambda: ["empty"],
        lambda: ["interrupt", rng.choice(["key", "key", "exit"])],
    ])()


def gen(rng, tier):
    plan = dict(seed=rng.randrange(10**6), steps=[], down=rng.choice([None] * 9 + [1]), latscale=rng.choice([0.0, 0.3, 3.0]))
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        kind = rng.choice(["eval"] * 7 + ["grid", "trace"])
        st = dict(kind=kind, conf=rng.choice(CONFS), fn=rng.choice(["Bxfunc", "Byfunc", "Bzfunc", "Bmag", "Bxyzfunc"]),
                  points=P.gen_points(rng, SHAPES[1:], ["C", "C", "F", "strided", "readonly", "reversed", "scalar-x", "scalar-z"]), scalar=rng.random() < 0.1,
                  phi=rng.choice(["scalar", "array"]), phi0=round(rng.uniform(-7, 7), 6), faults={})
        n = int(np.prod(st["points"]["shape"]))
        u = rng.random()
        if u < 0.35:
            st["faults"]["0"] = gen_fault(rng, n)
        elif u < 0.7:
            st["faults"]["0"] = gen_fault(rng, n)
            st["faults"]["1"] = gen_fault(rng, n)
        if kind == "trace":
            st["points"]["shape"] = [2]
            st["at"] = round(rng.random(), 4)
            st["double"] = rng.random() < 0.4
            st["faults"] = {}
            st["kindf"] = rng.choice(["error", "hang", "interrupt"])
            st["mode"] = rng.choice(["once", "from"])
        if kind == "grid":
            st["dims"] = [rng.choice([2, 3, 5]) for _ in range(3)]
            st["plasma"] = False
        plan["steps"].append(st)
    return plan


def question(st):
    """callable, expected, inputs, number of points"""
    conf = w7x_conf(st["conf"])
    if st["kind"] == "grid":
        nx, ny, nz = st["dims"]
        r, ph, z = np.meshgrid(np.linspace(5, 6, nx), np.linspace(0, 1.2, ny), np.linspace(-1, 1, nz), indexing="ij")
        b = bfield(r * np.cos(ph), r * np.sin(ph), z, conf)
        exp = pick_fn("Bxyzfunc", b, ph)
        return (lambda: zb.field.W7X_vacuum.field_values(r, ph, z, st["conf"])), exp, (r, ph, z), r.size
    x, z, xe, ze = P.make_points(st["points"])
    if st["scalar"]:
        x = z = None
        xe, ze = np.float64(5.7), np.float64(0.2)
        x, z = xe, ze
    phi = st["phi0"] if st["phi"] == "scalar" else st["phi0"] + 0.1 * np.arange(np.size(xe)).reshape(np.shape(xe))
    phi = phi + 0.0 * xe
    f = zb.field.W7X_vacuum_on_demand(st["conf"])
    b = bfield(xe * np.cos(phi), xe * np.sin(phi), ze, conf)
    exp = pick_fn(st["fn"], b, phi)
    if np.shape(x) != np.shape(z):
        x, z = xe, ze
    return (lambda: getattr(f, st["fn"])(x, z, phi)), exp, (x, z, phi), np.size(xe)


def run(plan, ctx):
    w = World(plan["seed"])
    s = Service(w)
    w.service = s
    s.latency = lambda n: plan["latscale"] * (1 + n % 3)
    zb.field.tracer = None
    import os

    with w:
        try:
            for i, st in enumerate(plan["steps"]):
                for f in os.listdir("."):
                    if f.startswith(("B.w7x", "tmp-")):
                        os.unlink(f)
                if i == 0 and plan["down"]:
                    s.down = "osa"
                    w.faults["service_down"] += 1
                    try:
                        question(st)[0]()
                        ctx.violate("ignored-dead-service", "a field was returned although the service is down")
                    except OSError:
                        pass
                    s.down = None
                one(plan, ctx, w, s, st, f"step {i} ({st['kind']})")
            # faults have stopped
            for c in (0, "FMM002"):
                f = zb.field.W7X_vacuum_on_demand(c)
                x, z, phi = np.array([5.5, 5.8]), np.array([0.1, -0.3]), np.array([0.3, 2.0])
                exp = pick_fn("Bxyzfunc", bfield(x * np.cos(phi), x * np.sin(phi), z, w7x_conf(c)), phi)
                d = diff(exp, f.Bxyzfunc(x, z, phi), 1e-12, 1e-12)
                ctx.check(d is None, "unusable-afterwards", f"later evaluation: {d}")
        finally:
            ctx.world(w)
    ctx.nontrivial = True


def one(plan, ctx, w, s, st, what):
    if st["kind"] == "trace":
        return trace(plan, ctx, w, s, st, what)
    fn, exp, inputs, n = question(st)
    before = P.snapshot(*inputs)
    base, start = s.n, w.now
    s.faults = {base + int(k): v for k, v in st["faults"].items()}
    err = res = None
    try:
        res = fn()
    except Exception as e:
        err = e
    except (KeyboardInterrupt, SystemExit) as e:
        err = e
    s.faults = {}
    used = s.n - base
    limit = 10 + n / 1000
    seen = [st["faults"].get(str(k)) for k in range(used)]
    fail = [f is not None and (f[0] in ("error", "hang") or (f[0] == "slow" and f[1] > limit)) for f in seen]
    mangled = [f is not None and f[0] in ("short", "long", "empty") for f in seen]
    inter = [f is not None and f[0] == "interrupt" for f in seen]
    ctx.log(what, type(err).__name__, used, round(w.now - start, 9))
    ctx.state(st["kind"], [f and f[0] for f in seen], type(err).__name__, st["conf"] if isinstance(st["conf"], str) else st["conf"] >= 0)
    tell = f"{what}, {n} points, requests {[f[0] if f else 'ok' for f in seen]}"
    ctx.check(not w.deadlocks and not isinstance(err, Deadlock), "waits-for-ever", lambda: f"{tell}: {w.deadlocks}")
    ctx.check(P.unchanged(before, inputs), "inputs-modified", f"{tell}: the points were changed")
    ctx.check(used <= 8, "too-many-requests", f"{tell}: {used} requests")
    ctx.check(w.now - start <= used * (limit + plan["latscale"] * 3 + 2) + 2, "unbounded-time", f"{tell}: took {w.now - start} s")
    if any(inter):
        k = inter.index(True)
        ctx.check(isinstance(err, (KeyboardInterrupt, SystemExit)), "interrupt-swallowed", f"{tell}: the interrupt did not reach the caller ({err!r})")
        ctx.check(used == k + 1, "interrupt-retried", f"{tell}: {used - k - 1} more requests after the interrupt")
        return
    ctx.check(not isinstance(err, (KeyboardInterrupt, SystemExit)), "spurious-interrupt", f"{tell}: {err!r}")
    if err is None:
        d = diff(exp, res, 1e-12, 1e-12)
        ctx.check(d is None, "wrong-field", f"{tell}: {d}")
        ctx.check(used >= 1, "no-request", f"{tell}: answered without asking")
        ctx.check(len(fail) < 2 or not (fail[0] and fail[1]), "failure-hidden", f"{tell}: two failures in a row, but a field was returned")
    else:
        ctx.check(any(fail) or any(mangled), "spurious-failure", f"{tell}: {type(err).__name__}: {err}")
        ctx.check(sum(fail) != 1 or any(mangled), "not-retried", f"{tell}: one failed request was not masked: {type(err).__name__}: {err}")
        ctx.check(not isinstance(err, BUGS), "internal-error", f"{tell}: {type(err).__name__}: {err}")
        if len(fail) >= 2 and fail[0] and fail[1] and seen[1][0] == "error":
            kind = type(world.make_error(seen[1][1]))
            ctx.check(isinstance(err, (kind, type(world.make_error(seen[0][1] if seen[0][0] == "error" else "timeout")))), "wrong-error",
                      f"{tell}: caller got {type(err).__name__}: {err}")


def trace(plan, ctx, w, s, st, what):
    """A trace on the on-demand field, with one or two failing requests in the middle"""
    f = zb.field.W7X_vacuum_on_demand(st["conf"])
    x, z, _, _ = P.make_points(dict(st["points"], layout="C"))
    y = [0.1, 0.14]
    s.faults = {}
    base = s.n
    ref = zb.fieldtracer.FieldTracer(f).follow_field_lines(x, z, y)
    total = s.n - base
    ctx.check(total > 0, "no-request", f"{what}: no requests")
    a = min(int(st["at"] * total), total - 1)
    base, start = s.n, w.now
    fault = {"error": ["error", "oserror"], "hang": ["hang"], "interrupt": ["interrupt", "key"]}[st["kindf"]]
    s.faults = {base + a: fault}
    if st["double"]:
        s.faults[base + a + 1] = ["error", "runtime"]
    err = res = None
    try:
        res = zb.fieldtracer.FieldTracer(f).follow_field_lines(x, z, y)
    except (Exception, KeyboardInterrupt) as e:
        err = e
    s.faults = {}
    ctx.log(what, type(err).__name__, a, total)
    tell = f"{what}: request {a} of {total} meets {fault}{' and so does its repetition' if st['double'] else ''}"
    ctx.state("trace", st["kindf"], st["double"], type(err).__name__)
    if st["kindf"] == "interrupt":
        ctx.check(isinstance(err, KeyboardInterrupt), "interrupt-swallowed", f"{tell}: {err!r}")
    elif st["double"]:
        ctx.check(isinstance(err, Exception), "failure-hidden", f"{tell}: but a trace was returned")
    else:
        ctx.check(err is None, "not-retried", lambda: f"{tell}: {err!r}")
        d = diff(ref, res, 1e-12, 1e-12)
        ctx.check(d is None, "wrong-field", f"{tell}: {d}")


def prepare():
    # imported lazily by the code under test; here once per worker instead of once per run
    import matplotlib.pyplot  # noqa
    import xarray  # noqa
