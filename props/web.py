"""Scenario shared by C01 and C02: calls of FieldTracerWeb over a simulated pool and service"""
import multiprocessing

import numpy as np

from sim import world
from sim.boot import zb
from sim.core import diff
from sim.world import Service, World, flow

from . import points as P

BUGS = (NameError, AttributeError, TypeError, IndexError, UnboundLocalError, RecursionError, AssertionError)


def gen_fault(rng, timeout):
    u = rng.random()
    if u < 0.3:
        return ["error", rng.choice(world.ERRORS)]
    if u < 0.45:
        return ["hang"]
    if u < 0.6:
        return ["slow", round(rng.choice([timeout * rng.uniform(0.3, 0.95), timeout * rng.uniform(1.05, 2.5), timeout * 1.0 - 0.6]), 3)]
    if u < 0.75:
        return ["short", rng.choice([1, 1, 2, 100])]
    if u < 0.85:
        return ["long", rng.choice([1, 2])]
    if u < 0.92:
        return ["empty"]
    return ["ok", round(rng.uniform(0, 30), 3)]


def gen_call(rng, tier, serial):
    pts = P.gen_points(rng)
    n = int(np.prod(pts["shape"]))
    call = dict(points=pts, planes=P.gen_planes(rng, monotone=rng.random() < 0.75), seed=rng.randrange(10**6))
    call["chunk"] = rng.choice([None, None, 1, 2, 3, 4, 5, 7, n, max(1, n - 1), n + 1])
    call["retry"] = rng.choice([None, None, 0, 1, 2, 3, 4, 6])
    call["timeout"] = rng.choice([None, None, None, 5.0, 5.0, 20.0, 20.0, 100.0, 100.0, 600.0, 600.0, 0.0])
    call["stepsize"] = rng.choice([None, None, 0.01, 0.05, 0.2])
    call["rtol"] = rng.choice([None, None, 1e-6])
    call["latency"] = rng.choice(["const", "rising", "falling", "random"])
    call["latscale"] = rng.choice([0.1, 0.5, 2.0])
    nreq = max(1, n * (len(call["planes"]["y"]) - 1))
    k = rng.choice([0, 1, 1, 2, 3, 3, 4, 6, 9])
    faults = {}
    for _ in range(k):
        where = rng.random()
        at = rng.randrange(min(nreq, 8)) if where < 0.6 else rng.randrange(nreq + 4)
        f = gen_fault(rng, call["timeout"] or 60.0)
        if serial and f[0] in ("hang",):
            f = ["error", "runtime"]
        faults[str(at)] = f
    call["faults"] = faults
    call["interrupt"] = rng.choice([None] * 8 + [rng.randrange(0, 6)])
    return call


def gen(rng, tier):
    cfg = rng.choice(["id", "id", "id", "table", "name", "object"])
    plan = dict(seed=rng.randrange(10**6), forward=rng.random() < 0.5, cfg=cfg, configId=rng.choice([0, 1, 3, 5, 12]),
                chunk=rng.choice([None, 1, 2, 3, 5, 8, 100]), retry=rng.choice([None, None, 0, 1, 2, 3, 5]),
                run_timeout=rng.choice([None, None, 10.0, 50.0, 300.0]), stepsize=rng.choice([None, 0.02, 0.1]),
                down=None)
    u = rng.random()
    if u < 0.06:
        plan["down"] = rng.choice(["refused", "blackhole", "503", "404", "osa", "probe-error", "probe-hang-short", "probe-empty"])
        plan["probe_timeout"] = rng.choice([None, 1, 3, 7.5])
    plan["calls"] = [gen_call(rng, tier, cfg == "object") for _ in range(rng.choice([1, 1, 2, 3]))]
    return plan


def latency_fn(call):
    scale, kind, seed = call["latscale"], call["latency"], call["seed"]

    def lat(n):
        if kind == "const":
            return scale
        if kind == "rising":
            return scale * (0.1 + 0.2 * n)
        if kind == "falling":
            return scale * max(0.05, 4 - 0.3 * n)
        return scale * 10 * float(np.random.default_rng([seed, n]).random()) ** 2

    return lat


def make_config(plan):
    if plan["cfg"] == "id":
        return dict(configId=plan["configId"]), 0.25 + 0.04 * (plan["configId"] % 7)
    if plan["cfg"] == "table":
        return dict(configId=-1), None
    if plan["cfg"] == "name":
        return dict(configId="FMM002"), None
    o = world.Obj(configIds=plan["configId"], custom=0.05)
    return dict(config=o), 0.25 + 0.04 * (plan["configId"] % 7) + 0.05


def table_conf(configId):
    cur = {-1: [1] * 7, "FMM002": [13423] * 5 + [-3544] * 2}[configId]
    table = {}
    for g in range(5):
        for k in range(10):
            table[160 + g + 5 * k] = 108 * cur[g]
    for k in range(10):
        table[210 + 2 * k] = 36 * cur[5]
        table[211 + 2 * k] = 36 * cur[6]
    return world.config_number(world.Obj(coilsIds=list(table), coilsIdsCurrents=[table[k] for k in table]))


def expected(x, z, y, conf, step):
    out = np.zeros((len(y),) + x.shape + (2,))
    out[0, ..., 0], out[0, ..., 1] = x, z
    for k in range(1, len(y)):
        out[k, ..., 0], out[k, ..., 1] = flow(x, z, y[0], y[k], conf, step)
    return out


def run(plan, ctx, prop):
    w = World(plan["seed"])
    s = Service(w, forward=plan["forward"])
    w.service = s
    np.random.seed(plan["seed"])
    with w:
        try:
            _run(plan, ctx, prop, w, s)
        finally:
            ctx.world(w)


def build(plan, ctx, prop, w, s):
    kw, conf = make_config(plan)
    if conf is None:
        conf = table_conf(kw["configId"])
    for k in "retry", "run_timeout", "stepsize", "chunk":
        if plan[k] is not None:
            kw[k] = plan[k]
    down = plan.get("down")
    if down:
        if plan.get("probe_timeout") is not None:
            kw["timeout"] = plan["probe_timeout"]
        limit = plan.get("probe_timeout") or 1
        if down.startswith("probe"):
            s.faults[0] = {"probe-error": ["error", "oserror"], "probe-hang-short": ["error", "timeout"], "probe-empty": ["empty"]}[down]
        else:
            s.down = down
        w.faults["service_down"] += 1
        try:
            zb.fieldtracer.FieldTracerWeb(**kw)
        except Exception as e:
            ctx.log("ctor", type(e).__name__)
            ok = True
        else:
            ok = False
        ctx.check(not w.deadlocks, "ctor-hang", f"creating a tracer waits for ever while the service is {down}")
        ctx.check(ok, "ctor-accepts-dead-service", f"a tracer could be created while the service is {down}")
        if down in ("refused", "blackhole", "503", "404"):
            ctx.check(s.n == 0, "trace-on-dead-service", f"{s.n} requests were sent to a service that is {down}")
            ctx.check(w.now <= limit + 0.5, "ctor-slow", f"failed only after {w.now} s (probe timeout {limit})")
        s.down = None
        s.faults.clear()
        kw.pop("timeout", None)
    return zb.fieldtracer.FieldTracerWeb(**kw), kw, conf


def _run(plan, ctx, prop, w, s):
    t, kw, conf = build(plan, ctx, prop, w, s)
    serial_cfg = "config" in kw
    for ci, call in enumerate(plan["calls"]):
        x, z, xe, ze = P.make_points(call["points"])
        y = P.make_planes(call["planes"])
        before = P.snapshot(x, z, y)
        args = {k: call[k] for k in ("chunk", "retry", "timeout", "stepsize", "rtol") if call[k] is not None}
        chunk = call["chunk"] or plan["chunk"] or 10000
        step = call["stepsize"] or plan["stepsize"] or 0.01
        N = next(v for v in (call["retry"], plan["retry"], 3) if v is not None)
        N = max(1, N)
        timeout = next(v for v in (call["timeout"], plan["run_timeout"], 1800) if v is not None)
        pooled = not serial_cfg and xe.size > chunk
        nch = -(-xe.size // chunk)
        base = s.n
        faults = {base + int(k): v for k, v in call["faults"].items() if pooled or v[0] != "hang"}
        s.faults = faults
        s.latency = latency_fn(call)
        w.interrupt_at = call["interrupt"] if pooled else None
        npools, start, ncounted = len(w.pools), w.now, sum(w.faults.values())
        ctx.log("call", ci, xe.shape, chunk, N, timeout, pooled)
        err = res = None
        try:
            res = t.follow_field_lines(x, z, y, **args)
        except Exception as e:
            err = e
        except KeyboardInterrupt as e:
            err = e
        interrupted = pooled and w.interrupt_at == "done"
        w.interrupt_at = None
        injected = sum(w.faults.values()) - ncounted
        s.faults = {}
        pools = w.pools[npools:]
        waits = [q for p in pools for q in p.waits]
        fails = sum(1 for q in waits if q[2] != "ok")
        spent = w.now - start
        ctx.log("end", type(err).__name__, len(waits), fails, round(spent, 6))
        ctx.state(prop, pooled, nch, N, min(fails, 9), type(err).__name__, len(y))
        what = f"call {ci}: {xe.shape} points, chunks of {chunk}, {len(y)} planes, {N} tries, timeout {timeout}, {fails} failed waits"

        ctx.check(P.unchanged(before, (x, z, y)), "inputs-modified", f"{what}: the start points or planes were changed")
        ctx.check(not w.deadlocks, "waits-for-ever", lambda: f"{what}: {w.deadlocks}")
        if err is None:
            exp = expected(xe, ze, np.asarray(call["planes"]["y"], float), conf, step)
            exp = exp.reshape((len(y),) + (np.atleast_1d(xe)).shape + (2,))
            ctx.check(isinstance(res, np.ndarray) and res.shape == exp.shape, "wrong-shape", lambda: f"{what}: got {getattr(res, 'shape', type(res))}, expected {exp.shape}")
            d = diff(exp, res, 1e-9, 1e-9)
            ctx.check(d is None, "wrong-positions", f"{what}: {d}")
        else:
            ctx.check(injected > 0 or interrupted, "spurious-failure", f"{what}: {type(err).__name__}: {err} although nothing failed")
            ctx.check(not isinstance(err, BUGS), "internal-error", f"{what}: {type(err).__name__}: {err}")
        if pooled and prop == "C02":
            if interrupted:
                ctx.check(isinstance(err, KeyboardInterrupt), "interrupt-swallowed", f"{what}: control-C while waiting, but the call ended with {err!r}")
            elif err is None:
                ctx.check(fails < N, "budget-exceeded", f"{what}: returned a result")
            else:
                ctx.check(fails >= N, "gave-up-early", f"{what}: raised {type(err).__name__}: {err}")
            ctx.check(fails <= N, "budget-exceeded", f"{what}: more failed waits than tries")
            for num, waited, how in waits:
                ctx.check(waited <= timeout * (1 + 1e-9) + 1e-6, "waited-too-long", f"{what}: waited {waited} s for request {num}")
                if how == "timeout":
                    ctx.check(waited >= timeout - 1e-6, "gave-up-early", f"{what}: gave up on request {num} after {waited} s")
            ctx.check(spent <= (nch + N) * (timeout + 1) + 60, "unbounded-time", f"{what}: took {spent} s")
            for p in pools:
                ctx.check(p.terminated, "workers-leaked", f"{what}: the pool was not shut down")
        elif prop == "C02":
            ctx.check(err is None or injected, "spurious-failure", f"{what}: {err!r}")
        if w.deadlocks:
            break
    # faults have stopped: the tracer works
    if prop == "C02":
        xs, zs = np.array([5.4, 5.6, 5.9, 6.0]), np.array([0.1, -0.2, 0.3, 0.0])
        s.latency = lambda n: 0.2
        before = w.now
        for kwargs in (dict(chunk=3), {}):
            r = t.follow_field_lines(xs, zs, [0.1, 0.3], **kwargs)
            d = diff(expected(xs, zs, [0.1, 0.3], conf, plan["stepsize"] or 0.01), r, 1e-9, 1e-9)
            ctx.check(d is None, "unusable-afterwards", f"after the faults: {d}")
        ctx.check(w.now - before < 30, "unusable-afterwards", "a later call is slow")
    ctx.nontrivial = True
