"""Histories of writer sessions against a dictionary model of the file"""
import os
import random as _random
import uuid

import numpy as np

from sim import disk, world
from sim.boot import zb
from sim.core import diff
from sim.sched import EXCEPTIONS, LineFault, LineProfile, make_exception

from . import build as B
from . import export as E
from . import filemodel as F

QUICK = (3000, 45)
THOROUGH = (400000, 780)

RTOL, ATOL = 1e-9, 1e-12
NAMES = ["slab", "open", "curved", "pinch2", "straight", "ellipse3", "geqdsk", "sub"]
MAKE = dict(E.MAKE, ellipse3=lambda: B.ellipse(nslice=3, ny=4), geqdsk=lambda: B.geqdsk(ny=3), sub=lambda: B.slab(nx=5, ny=2, nz=4, samples_per_dim=2))
M = {}
VARIANTS = {}
PROF = {}


def variant(model, v):
    """Maps of the model: as traced, with other values, without line lengths, with Rxy given"""
    key = (model, v)
    if key not in VARIANTS:
        maps = M[model].maps
        if v == 1:
            maps = {k: (q * 1.03 if isinstance(q, np.ndarray) and q.dtype.kind == "f" else q) for k, q in maps.items()}
        elif v == 2:
            maps = {k: q for k, q in maps.items() if not k.startswith("Ly")}
        elif v == 3:
            maps = dict(maps, Rxy=maps["R"] + 0.5)
        VARIANTS[key] = maps
    return VARIANTS[key]


def prepare():
    for n in NAMES:
        M[n] = MAKE[n]()
        M[n].maps

    def prof(n):
        os.chdir(E.tmpdir())
        try:
            with LineProfile() as p:
                B.export("x.nc", M[n])
            return p
        finally:
            if os.path.exists("x.nc"):
                os.unlink("x.nc")
            os.rmdir(os.getcwd())

    for n, p in zip(NAMES, disk.spread(prof, NAMES)):
        PROF[n] = p


CLOCKS = ["runs", "stands", "backwards", "jumps", "same_start"]


def gen(rng, tier):
    two = rng.random() < 0.4
    model = rng.choice(NAMES)
    sessions = []
    for n in range(rng.choice([1, 2, 2, 3, 4])):
        create = n == 0 or rng.random() < 0.25
        if create:
            two = rng.random() < 0.4
            if rng.random() < 0.4:
                model = rng.choice(NAMES)
        ops = []
        kind = rng.choice(["full", "full", "grid", "extra", "fieldonly"])
        if kind in ("full", "grid"):
            ops += rng.choice([["gridfield"], ["field", "grid"], ["grid", "field"]])
        elif kind == "fieldonly":
            ops += ["field"]
        if kind == "full":
            ops += ["maps"] * rng.choice([1, 1, 1, 2])
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.insert(rng.randrange(len(ops) + 1), "extra")
        if not create and rng.random() < 0.1:
            ops = []
        ops = [dict(op=o, seed=rng.randrange(1000), variant=rng.choice([0, 0, 1, 2, 3])) for o in ops]
        if two and any(o["op"] == "maps" for o in ops):
            pass
        fault = None
        u = rng.random()
        if ops and u < 0.2:
            fault = dict(kind="between", at=rng.randrange(len(ops) + 1), exc=rng.choice(EXCEPTIONS))
        elif ops and u < 0.4:
            fault = dict(kind="line", u=round(rng.random(), 6), v=round(rng.random(), 6), exc=rng.choice(EXCEPTIONS))
        sessions.append(dict(create=create, model=model, new_names=rng.random() < 0.4, metric2d=two, ops=ops, fault=fault,
                             how=rng.choice(["with", "with", "open", "function"]), newproc=rng.random() < 0.4))
    # a session that did not create may only follow one that did, with the same 2D option: different shapes cannot be stored under one name
    return dict(sessions=sessions, clock=rng.choice(CLOCKS))


def extra(seed, shape):
    r = np.random.default_rng(seed)
    d = {}
    names = ["e3", "flat3", "count", "level", "note"]
    for k in r.permutation(names)[: 1 + seed % 3]:
        if k == "e3":
            d[k] = r.random(shape)
        elif k == "flat3":
            d[k] = r.random(shape)
        elif k == "count":
            d[k] = int(r.integers(-5, 1000))
        elif k == "level":
            d[k] = float(r.random())
        else:
            d[k] = r.random(shape) - 0.5
    return {str(k): v for k, v in d.items()}


def life(sessions, start, clock, lifeno):
    """One process: its sessions, until the first that is in another process; returns what each did"""
    uuid._generate_time_safe = None
    uuid._node = 0x123456789ABC
    uuid._last_timestamp = None
    seq = iter(range(64 * lifeno, 64 * lifeno + 64))
    _random.getrandbits = lambda k: next(seq) % (1 << k)
    T = 1.7e9

    def now(t, n):
        if clock == "stands":
            return T
        if clock == "backwards":
            return T + 1000 - 1e-3 * n - 10 * lifeno
        if clock == "jumps":
            return T + ((n * 7919 + lifeno * 31) % 13) * 3600.0
        if clock == "same_start":
            return T + 1e-6 * n
        return T + 60 * lifeno + 1e-3 * n

    out = []
    with world.World(clock=now) as w:
        for s in sessions:
            out.append(session(s))
    return out


def session(s):
    m = M[s["model"]]
    done, err = [], None
    lf = None
    if s["fault"] and s["fault"]["kind"] == "line":
        pt = PROF[s["model"]].pick(s["fault"]["u"], s["fault"]["v"])
        lf = LineFault(pt[0], pt[1], make_exception(s["fault"]["exc"]))
    stop = s["fault"] if s["fault"] and s["fault"]["kind"] == "between" else None

    def ops(mw):
        for n, o in enumerate(s["ops"]):
            if stop and stop["at"] == n:
                raise make_exception(stop["exc"])
            done.append(("start", n))
            if o["op"] == "gridfield":
                mw.add_grid_field(m.grid, m.field)
            elif o["op"] == "grid":
                mw.add_grid(m.grid)
            elif o["op"] == "field":
                mw.add_field(m.field)
            elif o["op"] == "extra":
                mw.write_dict(extra(o["seed"], m.grid.shape))
                mw.write_dict({"f" + k: v for k, v in extra(o["seed"], m.grid.shape).items() if k == "flat3"}, always3d=False)
            elif o["op"] == "maps":
                mw.add_maps(variant(s["model"], o["variant"]))
            done.append(("end", n))
        if stop:
            raise make_exception(stop["exc"])

    kw = dict(new_names=s["new_names"], metric2d=s["metric2d"], quiet=True, create=s["create"])
    try:
        try:
            if lf:
                lf.__enter__()
            if as_function(s):
                o = s["ops"][-1]
                done.append(("start", 0))
                done.append(("end", 0))
                done.append(("start", 1))
                zb.zoidberg.write_maps(m.grid, m.field, variant(s["model"], o["variant"]), gridfile=E.FN, new_names=s["new_names"], metric2d=s["metric2d"], quiet=True)
                done.append(("end", 1))
            elif s["how"] == "open":
                mw = zb.zoidberg.MapWriter(E.FN, **kw)
                try:
                    mw.open()
                    done.append(("opened", 0))
                    ops(mw)
                finally:
                    if ("opened", 0) in done:
                        sys_trace_off()
                        mw.__exit__(None, None, None)
            else:
                with zb.zoidberg.MapWriter(E.FN, **kw) as mw:
                    done.append(("opened", 0))
                    ops(mw)
        except BaseException as e:
            err = f"{type(e).__name__}: {e}"
    finally:
        sys_trace_off()
    mw = None
    line = (lf.name, lf.n, lf.where, bool({"__enter__", "__exit__", "open", "close", "__init__"} & set(lf.stack))) if lf is not None and lf.fired else None
    try:
        content = B.read(os.path.abspath(E.FN))
    except Exception as e:
        content = f"{type(e).__name__}: {e}"
    return dict(err=err, done=done, line=line, content=content)


def as_function(s):
    return s["how"] == "function" and s["create"] and [o["op"] for o in s["ops"]] == ["gridfield", "maps"] and not (s["fault"] and s["fault"]["kind"] == "between")


def sys_trace_off():
    import sys

    sys.settrace(None)


def effect(s, o):
    """What an operation stores"""
    m = M[s["model"]]
    if o["op"] in ("grid", "gridfield"):
        return F.positions(m.grid), False
    if o["op"] == "extra":
        d = {k: np.asarray(v) for k, v in extra(o["seed"], m.grid.shape).items()}
        if "flat3" in d:
            d["fflat3"] = d["flat3"][:, :, 0] if s["metric2d"] else d["flat3"]
        return d, False
    if o["op"] == "maps":
        return F.from_maps(m.grid, m.field, variant(s["model"], o["variant"]), s["new_names"], s["metric2d"]), True
    return {}, False


def run(plan, ctx):
    base = os.path.join(ctx.scratch, "disk")
    os.makedirs(base)
    todo = list(plan["sessions"])
    # sessions up to the first creating one are not possible
    while todo and not todo[0]["create"]:
        todo.pop(0)
    fixed = []
    shape2d = None
    for s in todo:
        if s["create"]:
            shape2d, model = s["metric2d"], s["model"]
        s = dict(s, metric2d=shape2d, model=model)
        fixed.append(s)
    state, ident, seen_ids = {}, None, set()
    groups = []
    for s in fixed:
        if s["newproc"] or not groups:
            groups.append([])
        groups[-1].append(s)
    n = -1
    half_open = False
    for g, sessions in enumerate(groups):
        L = disk.live(lambda: life(sessions, 0, plan["clock"], g), base)
        ctx.check(L.status == "ok", "process-failed", lambda: f"{L.error}")
        half_open = False
        for s, r in zip(sessions, L.value):
            n += 1
            what = f"session {n} (process {g}): create={s['create']} {s['model']} new_names={s['new_names']} metric2d={s['metric2d']} {[o['op'] for o in s['ops']]}{' fault ' + str(s['fault']) if s['fault'] else ''}"
            ctx.log(n, g, r["err"] and r["err"][:60], r["done"], r["line"])
            hit = bool(r["line"] or (s["fault"] and s["fault"]["kind"] == "between"))
            if hit:
                ctx.faults["interrupted_line" if r["line"] else "interrupted_between"] += 1
            # every call that was made properly has to succeed
            needs = legal(s)
            if r["err"] is not None and not hit and needs is None:
                if half_open:
                    return
                ctx.violate("session-fails", f"{what}: {r['err']}")
            if r["err"] is None:
                ctx.check(needs is None, "missing-input-accepted", f"{what}: {needs} is missing, but the session succeeded")
            if r["line"] and r["line"][3]:
                # interrupted while opening or closing
                ctx.probes["interrupted_while_opening_or_closing"] += 1
                return
            started = {k for t, k in r["done"] if t == "start"}
            ended = {k for t, k in r["done"] if t == "end"}
            if isinstance(r["content"], str):
                ctx.violate("unreadable", f"{what}: {r['content']}")
            v, a = r["content"]
            new_id = ident
            if s["create"]:
                state, ident, new_id = {}, None, None
            maybe = {}
            completed = partial = False
            for k, o in enumerate(s["ops"]):
                if as_function(s) and k == 0 and r["err"] is not None:
                    e, final = effect(s, o)
                    for q, val in e.items():
                        maybe.setdefault(q, []).append(val)
                    continue
                e, final = effect(s, o)
                if k in ended:
                    for q, val in e.items():
                        state[q] = val
                    maybe = {q: w for q, w in maybe.items() if q not in e}
                    completed = completed or final
                    if final:
                        partial = False
                elif k in started:
                    # interrupted: each variable is as before or as asked for
                    for q, val in e.items():
                        maybe.setdefault(q, []).append(val)
                    if o["op"] == "maps":
                        for q, val in F.positions(M[s["model"]].grid).items():
                            maybe.setdefault(q, []).append(val)
                        m3 = variant(s["model"], o["variant"])
                        for q in m3:
                            maybe.setdefault(q, []).append(np.asarray(m3[q]))
                        partial = True
            for q in sorted(set(v) | set(state) | set(maybe)):
                allowed = list(maybe.get(q, ()))
                if q in state:
                    allowed.insert(0, state[q])
                if q not in v:
                    ctx.check(q not in state, "variable-missing", f"{what}: {q} is missing")
                    continue
                ctx.check(allowed, "variable-unexpected", f"{what}: unexpected variable {q}")
                ds = [diff(np.asarray(w), v[q], rtol=RTOL, atol=ATOL, path=q) for w in allowed]
                ctx.check(None in ds, "wrong-value", f"{what}: {ds[0]}")
                if q in maybe:
                    state[q] = allowed[ds.index(None)]
            got = a.get("id")
            ctx.check(got == a.get("grid_id") or not completed or partial, "identifiers-differ", f"{what}: id {got}, grid_id {a.get('grid_id')}")
            if completed:
                ctx.check(got is not None, "no-identifier", f"{what}: no identifier after a completed export")
                ctx.check(got not in seen_ids, "identifier-repeated", f"{what}: the identifier {got} was used before")
                ctx.check(a.get("title") == "BOUT++ grid file" and a.get("software_name") == "zoidberg", "attributes", f"{what}: attributes {a}")
                ctx.probes["completed_exports"] += 1
            elif got is not None and not partial:
                ctx.check(got == ident, "identifier-changed", f"{what}: the identifier changed from {ident} to {got} without an export")
            if got is not None:
                seen_ids.add(got)
            ident = got
            ctx.state(s["model"], s["create"], s["new_names"], s["metric2d"], s["how"], [o["op"] for o in s["ops"]], r["line"] and r["line"][0], plan["clock"])
    ctx.faults["odd_clock"] += plan["clock"] != "runs"
    ctx.nontrivial = True


def legal(s):
    """None, or what is missing for the operations of the session"""
    grid = field = False
    for o in s["ops"]:
        grid = grid or o["op"] in ("grid", "gridfield")
        field = field or o["op"] in ("field", "gridfield")
        if o["op"] == "maps" and not (grid and field):
            return "grid or field"
    return None
