"""Saved W7-X fields: process lives with different requests on a failing disk"""
import os
import pickle
import random

import numpy as np

from sim import disk, world
from sim.boot import zb
from sim.core import diff
from sim.world import Service, World, bfield, plasma

from .c03 import pick_fn, w7x_conf

QUICK = (1200, 50)
THOROUGH = (400000, 780)

RANGES = [[[5.0, 6.0], 1.2, [-1.0, 1.0]], [[5.0, 6.004], 1.2, [-1.0, 1.0]], [[5.0, 6.0], 1.2, [-1.0, 1.0031]], [[4.5, 6.2], 6.283185307179586, [-1.2, 1.1]],
          [[5.0, 6.01], 1.2, [-1.0, 1.0]], [[5.0, 6.0], 0.6, [-1.0, 1.0]], [[5.0, 6.0], 1.2, [-0.5, 1.0]], [[5.1, 6.0], 1.2, [-1.0, 1.0]]]
CONFS = [0, 0, 1, 5, 12, -1, "FMM002"]


def prepare():
    import matplotlib.pyplot  # noqa
    import xarray  # noqa


def gen(rng, tier):
    reqs = []
    dims = [[rng.choice([2, 3, 4]), rng.choice([2, 3]), rng.choice([2, 4])] for _ in range(2)]
    if rng.random() < 0.15:
        dims[0] = [12, 9, 15]
    for _ in range(rng.choice([1, 2, 3, 4])):
        reqs.append(dict(what=rng.choice(["vac", "vac", "vac", "plasma", "object", "object+plasma"]), dims=rng.choice(dims), range=rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7]), conf=rng.choice(CONFS)))
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        L = dict(ask=[rng.randrange(len(reqs)) for _ in range(rng.choice([1, 1, 2, 3]))], faults=[], budget=None, power=None, service={})
        u = rng.random()
        if u < 0.6:
            n = rng.choice([6, 20, 60, 60, 120])
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(["crash", "crash", "torn", "torn", "eio", "enospc", "short", "eintr", "read_eio"])
                L["faults"].append([rng.randrange(1, n), k, rng.choice([0, 1, 7, 100, 500])])
            if rng.random() < 0.3:
                L["faults"] = [f for f in L["faults"] if f[1] in ("crash", "torn")][:1]
                L["power"] = [rng.randrange(10**6), rng.choice([0.0, 0.5, 1.0])]
        elif u < 0.7:
            L["budget"] = rng.choice([0, 100, 1000, 4000, 9000])
        elif u < 0.8:
            L["power"] = [rng.randrange(10**6), rng.choice([0.0, 0.5, 1.0])]
        if rng.random() < 0.2:
            L["service"] = {str(rng.randrange(3)): rng.choice([["error", "oserror"], ["short", 1], ["empty"], ["interrupt", "key"]])}
        lives.append(L)
    plan = dict(requests=reqs, lives=lives, legacy=[])
    if rng.random() < 0.3:
        plan["legacy"] = [rng.randrange(len(reqs)) for _ in range(1)]
    return plan


def directed():
    """The two known findings, and each kind of request in a life of its own"""
    q = lambda what="vac", rng=0, conf=0: dict(what=what, dims=[3, 2, 2], range=rng, conf=conf)
    life = lambda *ask: dict(ask=list(ask), faults=[], budget=None, power=None, service={})
    out = [dict(requests=[q(), q(rng=1)], lives=[life(0), life(1)], legacy=[]), dict(requests=[q(), q(conf=5)], lives=[life(1)], legacy=[0])]
    for what in "vac", "plasma", "object", "object+plasma":
        out.append(dict(requests=[q(what), q(what, 5), q(what, 0, 5)], lives=[life(0), life(1), life(2, 0)], legacy=[]))
    return out


def mesh(q):
    (r0, r1), ph, (z0, z1) = RANGES[q["range"]]
    nx, ny, nz = q["dims"]
    return np.meshgrid(np.linspace(r0, r1, nx), np.linspace(0, ph, ny), np.linspace(z0, z1, nz), indexing="ij")


def expected(q, part=None):
    r, ph, z = mesh(q)
    part = part or q["what"]
    vac = np.array(pick_fn("Bxyzfunc", bfield(r * np.cos(ph), r * np.sin(ph), z, w7x_conf(q["conf"])), ph))
    if part in ("vac", "object"):
        return vac
    pl = np.array(plasma(r, ph, z))
    return pl if part == "plasma" else vac + pl


def ask(q):
    r, ph, z = mesh(q)
    if q["what"] == "vac":
        return np.array(zb.field.W7X_vacuum.field_values(r, ph, z, q["conf"]))
    if q["what"] == "plasma":
        return np.array(zb.field.W7X_vacuum.plasma_field(r, ph, z))
    (r0, r1), pm, (z0, z1) = RANGES[q["range"]]
    nx, ny, nz = q["dims"]
    f = zb.field.W7X_vacuum(nx=nx, ny=ny, nz=nz, x_range=(r0, r1), z_range=(z0, z1), phimax=pm, configuration=q["conf"],
                            include_plasma_field=q["what"] == "object+plasma")
    return np.array([f.br_interp.values, f.bphi_interp.values, f.bz_interp.values])


def rounded(q):
    (r0, r1), ph, (z0, z1) = RANGES[q["range"]]
    return [f"{v:.2f}" for v in (r0, r1, 0, ph, z0, z1)]


def stale(plan, q, got):
    """Which known finding explains this wrong answer, if any"""
    for o in plan["requests"]:
        if o["dims"] != q["dims"] or rounded(o) != rounded(q):
            continue
        same_range = RANGES[o["range"]] == RANGES[q["range"]]
        for part in {q["what"]} | ({"object+plasma"} if q["what"] == "object+plasma" else set()):
            if o["conf"] == q["conf"] and not same_range and diff(expected(o, part), got, 1e-12, 1e-12) is None:
                return "C07-range-rounding"
        if q["what"] == "object+plasma" and o["conf"] == q["conf"] and not same_range:
            # only one of the two parts may be stale
            for a, b in ((o, q), (q, o)):
                if diff(expected(a, "vac") + expected(b, "plasma"), got, 1e-12, 1e-12) is None:
                    return "C07-range-rounding"
        if q["what"] == "plasma" and not same_range and diff(expected(o, "plasma"), got, 1e-12, 1e-12) is None:
            return "C07-range-rounding"
        if q["what"] == "object+plasma" and not same_range and diff(expected(q, "vac") + expected(o, "plasma"), got, 1e-12, 1e-12) is None:
            return "C07-range-rounding"
    for i in plan["legacy"]:
        o = plan["requests"][i]
        if o["dims"] == q["dims"] and rounded(o) == rounded(q) and q["what"] != "plasma":
            for pl in {i} | {k for k, p in enumerate(plan["requests"]) if p["dims"] == q["dims"] and rounded(p) == rounded(q)}:
                e = expected(o, "vac")
                if q["what"] == "object+plasma":
                    e = e + expected(plan["requests"][pl], "plasma")
                if diff(e, got, 1e-12, 1e-12) is None:
                    return "C07-legacy-configuration" if o["conf"] != q["conf"] else "C07-range-rounding"
    return None


def asks(plan, which, service):
    w = World(1)
    s = Service(w)
    w.service = s
    zb.field.tracer = None
    out = []
    with w:
        for i in which:
            q = plan["requests"][i]
            fired = dict(disk.fired())
            nf = w.faults.copy()
            s.faults = {s.n + int(k): v for k, v in service.items()}
            try:
                r = ask(q)
            except (Exception, KeyboardInterrupt) as e:
                now = disk.fired()
                hit = sum(now.get(k, 0) - fired.get(k, 0) for k in ("eio", "enospc", "read_eio", "short", "eintr"))
                hit += sum(w.faults.values()) - sum(nf.values())
                out.append((i, "raised", f"{type(e).__name__}: {e}", hit))
                continue
            finally:
                s.faults = {}
            d = diff(expected(q), r, 1e-12, 1e-12)
            out.append((i, "ok" if d is None else "wrong", d, stale(plan, q, r) if d else None))
    return out, dict(w.faults)


def judge(ctx, what, res):
    for i, how, msg, n in res:
        if how == "raised":
            ctx.check(n > 0, "raised-without-fault", f"{what}: request {i}: {msg}")
            ctx.probes["raised_under_fault"] += 1
        elif how == "wrong":
            ctx.violate("wrong-field", f"{what}: request {i}: {msg}", finding=n)


def run(plan, ctx):
    base = os.path.join(ctx.scratch, "disk")
    os.makedirs(base)
    journal = os.path.join(ctx.scratch, "journal")
    for i in plan["legacy"]:
        q = plan["requests"][i]
        a, b, c, d, e, f = rounded(q)
        nx, ny, nz = q["dims"]
        with open(os.path.join(base, f"B.w7x.{nx}.{ny}.{nz}.{a}-{b}.{c}-{d}.{e}-{f}.dat"), "wb") as fh:
            pickle.dump(list(expected(q, "vac")), fh)
    for n, L in enumerate(plan["lives"]):
        what = f"life {n}"
        before = disk.snapshot(base)
        q = disk.live(lambda: asks(plan, L["ask"], L["service"]), base, faults=L["faults"], budget=L["budget"], journal=journal if L["power"] else None)
        if L["power"]:
            after = disk.power_loss(before, disk.read_journal(journal), L["power"][1], random.Random(L["power"][0]))
            disk.restore(base, after)
            ctx.faults["power_loss"] += 1
            ctx.log(what, "power", sorted((os.path.basename(p), len(b)) for p, b in after.items()))
        ctx.check(q.status in ("ok", "killed"), "process-failed", lambda: f"{what}: {q.error}")
        ctx.log(what, q.status, q.fired, q.ops, q.reads)
        ctx.faults.update(q.fired)
        ctx.faults["crash"] += q.status == "killed"
        if q.status == "ok":
            ctx.faults.update(q.value[1])
            judge(ctx, what, q.value[0])
        ctx.state(q.status, sorted(q.fired), L["power"] is not None, [plan["requests"][i]["what"] for i in L["ask"]], [f[:2] for f in L["faults"]])
    for rep in range(2):
        q = disk.live(lambda: asks(plan, range(len(plan["requests"])), {}), base)
        ctx.check(q.status == "ok", "process-failed", lambda: f"after the faults: {q.error}")
        judge(ctx, "after the faults", q.value[0])
        ctx.log("final", [v[:2] for v in q.value[0]])
    ctx.nontrivial = True
