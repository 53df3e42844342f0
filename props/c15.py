"""Fields that go wrong: at evaluation k, once, now and then, from k on, or in a region"""
import copy
import os
import warnings

import numpy as np

from sim import disk
from sim.boot import zb
from sim.core import diff

from . import build as B
from . import export as E
from . import ops as O

QUICK = (2000, 45)
THOROUGH = (400000, 780)

FUNCS = ["Bxfunc", "Byfunc", "Bzfunc", "Bmag", "Rfunc", "pressure", "attributes", "outside"]
SETS = [["Bxfunc"], ["Byfunc"], ["Bzfunc"], ["Bxfunc", "Bzfunc"], ["Bxfunc", "Byfunc", "Bzfunc", "Bmag"], ["Bmag"], ["Rfunc"], ["pressure"], ["attributes"], FUNCS]
KINDS = ["nan", "nan", "inf", "-inf", "zero", "huge", "raise", "raise"]


BUDGET = lambda normal: 1000000 + 1000 * normal  # evaluations that a disturbed operation may take


class FieldError(Exception):
    """Raised by a field"""


class OverBudget(BaseException):
    pass


class Switch:
    """Decides which evaluations go wrong"""

    def __init__(self):
        self.count = self.hits = 0
        self.fault = None
        self.budget = None
        self.bad = 0  # non-finite numbers handed out

    def arm(self, fault, at, budget):
        self.count = self.hits = self.bad = 0
        self.fault, self.at, self.budget = fault, at, budget

    def off(self):
        self.fault = self.budget = None

    def __call__(self, name, x, val):
        f = self.fault
        if f is not None and name not in f["funcs"]:
            return val
        self.count += 1
        if self.budget is not None and self.count > self.budget:
            raise OverBudget(f"{self.count} evaluations")
        if f is None or not self.due(f):
            return val
        bad = dict(nan=np.nan, inf=np.inf, huge=1e300, zero=0.0)
        bad["-inf"] = -np.inf
        if f["kind"] == "raise":
            self.hits += 1
            raise FieldError(f"{name} evaluation {self.count}")
        if val is None or name == "outside":
            return val
        v = np.array(val, dtype=float)
        if f["where"] == "region":
            m = np.broadcast_to(np.asarray(x) > f["edge"], v.shape) if v.shape else np.any(np.asarray(x) > f["edge"])
            if not np.any(m):
                return val
            v[m] = bad[f["kind"]]
        elif f["where"] == "one" and v.size:
            v.flat[int(f["edge"] * v.size) % v.size] = bad[f["kind"]]
        else:
            v[...] = bad[f["kind"]]
        self.hits += 1
        self.bad += int(np.sum(~np.isfinite(v)))
        return v if v.shape else v[()]

    def due(self, f):
        k = self.count - self.at
        if f["when"] == "once":
            return k == 0
        if f["when"] == "every":
            return k >= 0 and k % 7 == 0
        if f["when"] == "while":
            return 0 <= k < 40
        return k >= 0


class Outside:
    def __init__(self, inner, sw):
        self.inner, self.sw = inner, sw

    def outside(self, x, y, z):
        return self.sw("outside", x, self.inner.outside(x, y, z))


def faulty(field, sw):
    """The same field, with all its functions behind the switch"""
    f = copy.copy(field)

    def wrap(name, fn):
        return lambda *pos: sw(name, pos[0], fn(*pos))

    for name in FUNCS[:6]:
        # what the functions call inside the field goes through the switch too
        setattr(f, name, wrap(name, getattr(type(field), name).__get__(f) if name in dir(type(field)) and name not in vars(field) else getattr(field, name)))
    f.attributes = {k: wrap("attributes", v) for k, v in field.attributes.items()}
    f.boundary = Outside(field.boundary, sw)
    return f


MODELS = {}
FIELDS = {}
REF = {}
COUNT = {}


def make_models():
    m = dict(slab=B.slab(nx=5, ny=3, nz=4), pinch=B.pinch(nx=5, ny=3, nz=6), straight=B.straight(nx=5, ny=2, nz=5), open=B.slab(nx=5, ny=2, nz=4, yperiodic=False, nslice=2),
             geqdsk=B.geqdsk(nx=5, ny=2, nz=6), curved=B.curved(nx=5, ny=2, nz=4))
    return m


class Case:
    """The objects of one run"""

    def __init__(self, name, sw):
        m = MODELS[name]
        self.name, self.maps = name, m.maps
        g = m.grid
        self.grid = zb.grid.Grid(g.poloidal_grids, g.ycoords, g.Ly, yperiodic=g.yperiodic)
        self.field = faulty(m.field, sw)
        self.nslice = m.nslice
        self.tracer = zb.fieldtracer.FieldTracer(self.field)
        self.rev = zb.fieldtracer.FieldTracerReversible(self.field, nsteps=4)


FOR_CENTRE = dict(slab="slab", pinch="pinch", straight="straight", open="slab", geqdsk="geqdsk", curved="curved")
FN = "out.nc"


def op_trace(c, n):
    x, z = O.pts(FOR_CENTRE[c.name], [(), (4,), (3, 4)][n % 3], 5)
    ys = [[0.0, 0.2], [0.1, 0.3, 0.7], [0.6, 0.2, 0.1]][n % 3]
    return c.tracer.follow_field_lines(x, z, ys, **(dict(rtol=1e-5) if n == 1 else {}))


def op_many(c, n):
    x, z = O.pts(FOR_CENTRE[c.name], (1200,), 5)
    return c.tracer.follow_field_lines(x, z, [0.0, 0.1, 0.2])


def op_rev(c, n):
    x, z = O.pts(FOR_CENTRE[c.name], [(), (3,), (2, 2)][n % 3], 6)
    return c.rev.follow_field_lines(x, z, [[0.0, 0.2], [0.1, 0.2, 0.5], [0.6, 0.2]][n % 3])


def op_poincare(c, n):
    x, z = O.pts(FOR_CENTRE[c.name], (3,), 7)
    return list(zb.fieldtracer.trace_poincare(c.field, x, z, 1.0, nplot=2, revs=2, nover=3) if n % 2 else zb.fieldtracer.trace_poincare(c.field, x, z, 1.2, y_slices=[0.1, 0.5], revs=3, nover=2))


def op_maps(c, n):
    kw = [{}, dict(field_tracer=c.rev, refine_parallel_integral=2), dict(samples_per_dim=2, refine_parallel_integral=3)][n % 3]
    return zb.zoidberg.make_maps(c.grid, c.field, nslice=c.nslice, quiet=True, **kw)


def op_metric(c, n):
    m, bjg = zb.zoidberg.get_metric(c.grid, c.field)
    return [dict(m), bjg]


def clear():
    if os.path.exists(FN):
        os.unlink(FN)


def op_export(c, n):
    clear()
    m = B.Model(c.name, c.grid, c.field, c.nslice)
    B.export(FN, m, c.maps, new_names=bool(n & 1), metric2d=bool(n & 2), how=["writer", "function", "separate"][n % 3], dagp=n == 4)
    return B.plain(FN)


def op_build(c, n):
    clear()
    maps = zb.zoidberg.make_maps(c.grid, c.field, nslice=c.nslice, quiet=True, refine_parallel_integral=3, **(dict(field_tracer=c.rev) if n == 1 else {}))
    zb.zoidberg.write_maps(c.grid, c.field, maps, gridfile=FN, quiet=True, metric2d=bool(n & 2))
    return B.plain(FN)


OPS = dict(trace=op_trace, many=op_many, reversible=op_rev, poincare=op_poincare, maps=op_maps, metric=op_metric, export=op_export, build=op_build)
NUM = dict(trace=3, many=1, reversible=3, poincare=2, maps=3, metric=1, export=6, build=3)
WRITES = {"export", "build"}
SLOW = {("geqdsk", "maps"), ("geqdsk", "build"), ("straight", "maps"), ("straight", "build"), ("geqdsk", "many"), ("geqdsk", "poincare"), ("straight", "many"), ("pinch", "many")}
MODEL_NAMES = ["curved", "geqdsk", "open", "pinch", "slab", "straight"]
EXTRA = ["float", "float64", "float32", "array", "array32", "zero-d", "list", "maps", "maps-scalar"]


def prepare():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    MODELS.update(make_models())
    for m in MODELS.values():
        m.maps
    cases = [(m, o, n) for m in MODELS for o in OPS for n in range(NUM[o]) if (m, o) not in SLOW]
    cases += [(m, o, 0) for m, o in sorted(SLOW) if o not in ("many", "poincare")]

    def one(k):
        d = E.tmpdir()
        try:
            def go():
                os.chdir(d)
                sw = Switch()
                c = Case(k[0], sw)
                counts = {}
                real = sw.__class__.__call__

                def count(self, name, x, val):
                    counts[name] = counts.get(name, 0) + 1
                    return real(self, name, x, val)

                Switch.__call__ = count
                try:
                    r = O.plain(OPS[k[1]](c, k[2]))
                finally:
                    Switch.__call__ = real
                return r, counts

            L = disk.live(go, d, disk=False)
            if L.status != "ok":
                raise RuntimeError(f"{k}: {L.error}")
            return L.value
        finally:
            import shutil

            shutil.rmtree(d, ignore_errors=True)

    for k, (r, c) in zip(cases, disk.spread(one, cases)):
        REF[k], COUNT[k] = r, c


def gen(rng, tier):
    if rng.random() < 0.06:
        return dict(extra=rng.choice(EXTRA), bad=rng.choice(["nan", "inf", "-inf"]), model=rng.choice(["slab", "pinch", "open"]), metric2d=rng.random() < 0.3, field=rng.random() < 0.7, u=round(rng.random(), 4))
    m = rng.choice(MODEL_NAMES)
    o = rng.choice(["trace", "reversible", "reversible", "poincare", "maps", "metric", "export", "export", "export", "build", "build"] + (["many"] if rng.random() < 0.2 else []))
    if (m, o) in SLOW and rng.random() < 0.8 or (m, o) in SLOW and o in ("many", "poincare"):
        m = "slab"
    n = rng.randrange(NUM[o]) if (m, o) not in SLOW else 0
    steps = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if o in WRITES and rng.random() < 0.5:
            funcs = rng.choice([["Bmag"], ["pressure"], ["attributes"], ["Rfunc"], FUNCS, ["Bxfunc"], ["Byfunc"], ["Bzfunc"]])
        else:
            funcs = rng.choice(SETS)
        if rng.random() < 0.05:
            funcs = ["outside"]
        u = rng.random()
        steps.append(dict(kind=rng.choice(KINDS), when=rng.choice(["from", "from", "once", "once", "every", "while"]), where=rng.choice(["all", "all", "one", "region"]),
                          edge=round(rng.uniform(0.2, 2.2), 3), funcs=list(funcs), at=round(u if rng.random() < 0.7 else 0.0, 6)))
    return dict(model=m, op=o, n=n, steps=steps)


def directed():
    """Every operation with the field broken from its first evaluation on"""
    out = []
    for m in MODEL_NAMES:
        for o in OPS:
            if (m, o) in SLOW:
                continue
            for n in range(NUM[o]):
                for kind in ("nan", "raise"):
                    out.append(dict(model=m, op=o, n=n, steps=[dict(kind=kind, when="from", where="all", edge=0.0, funcs=list(FUNCS), at=0.0)]))
    for e in EXTRA:
        out.append(dict(extra=e, bad="nan", model="slab", metric2d=False, field=True, u=0.5))
    return out


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


TRACES = {"trace", "many", "reversible", "poincare"}


def certain(f):
    """This fault leaves no way to a finite end of any line"""
    return f["when"] == "from" and f["where"] == "all" and f["at"] <= 0.5 and f["kind"] in ("nan", "inf", "-inf") and ("Bxfunc" in f["funcs"] or "Bzfunc" in f["funcs"]) and "Bmag" not in f["funcs"]


def has_bad(x):
    if isinstance(x, dict):
        return any(has_bad(v) for v in x.values())
    if isinstance(x, list):
        return any(has_bad(v) for v in x)
    return isinstance(x, np.ndarray) and x.dtype.kind == "f" and not np.all(np.isfinite(x))


def finite_file(ctx, what, failed):
    """What a grid file holds; non-finite numbers are never stored"""
    if not os.path.exists(FN):
        return None
    v, a = B.read_file(FN)
    for k, q in v.items():
        if q.dtype.kind in "fc":
            ctx.check(bool(np.all(np.isfinite(q))), "non-finite-stored", lambda: f"{what}: variable {k} of the grid file is not finite in {int(np.sum(~np.isfinite(q)))} of {q.size} cells")
    if failed:
        ctx.check(not E.passes_for_complete(v, a), "passes-for-complete", f"{what}: failed, but the grid file carries its identifier and sizes")
    return v


def run_extra(plan, ctx):
    """Values given by the caller"""
    m = MODELS[plan["model"]]
    bad = float(plan["bad"])
    maps = dict(m.maps)
    e = plan["extra"]
    arr = np.ones(m.maps["R"].shape)
    arr.flat[int(plan["u"] * arr.size)] = bad
    if e == "maps":
        k = sorted(q for q in maps if isinstance(maps[q], np.ndarray) and maps[q].ndim == 3)
        maps[k[int(plan["u"] * len(k))]] = arr
        extra = {}
    elif e == "maps-scalar":
        maps["extra"] = bad
        extra = {}
    else:
        extra = dict(extra=dict(float=bad, float64=np.float64(bad), float32=np.float32(bad), array=arr, array32=arr.astype("f4"), list=[1.0, bad]).get(e, np.array(bad)))
    err = None
    try:
        with zb.zoidberg.MapWriter(FN, metric2d=plan["metric2d"], quiet=True) as mw:
            mw.add_grid_field(m.grid, m.field)
            if extra:
                mw.write_dict(extra)
            mw.add_maps(maps)
    except Exception as q:
        err = q
    what = f"{e} holding {plan['bad']}"
    ctx.log(e, type(err).__name__)
    ctx.faults["bad_value_given"] += 1
    ctx.check(err is not None, "non-finite-accepted", f"export of {what} reported success")
    finite_file(ctx, what, True)
    ctx.state("extra", e, plan["metric2d"])
    clear()
    B.export(FN, m, how="writer")
    d = diff(REF[(plan["model"], "export", 0)], B.plain(FN))
    ctx.check(d is None, "not-recovered", f"after {what}: {d}")


def run(plan, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    if "extra" in plan:
        run_extra(plan, ctx)
        return
    key = (plan["model"], plan["op"], plan["n"])
    ref, counts = REF[key], COUNT[key]
    sw = Switch()
    c = Case(plan["model"], sw)
    fn = OPS[plan["op"]]
    for s, f in enumerate(plan["steps"]):
        normal = sum(counts.get(q, 0) for q in f["funcs"])
        sw.arm(f, 1 + int(f["at"] * normal), BUDGET(normal))
        what = f"{key}, field {f['kind']} ({f['when']} evaluation {sw.at}, {f['where']}, {'+'.join(f['funcs'])})"
        err = r = None
        try:
            r = O.plain(fn(c, plan["n"]))
        except OverBudget:
            ctx.violate("unbounded", f"{what}: still evaluating the field after {sw.count} evaluations ({normal} when undisturbed)")
        except BaseException as e:
            err = e
        hits, bad, count = sw.hits, sw.bad, sw.count
        sw.off()
        ctx.log(key, f["kind"], hits, bad, count, type(err).__name__ if err else "returned")
        ctx.state(key, f["kind"], f["when"], f["where"], tuple(f["funcs"]), type(err).__name__, bool(hits))
        if hits:
            ctx.faults["field_" + f["kind"]] += hits
            ctx.nontrivial = True
        if f["kind"] == "raise" and hits:
            ctx.check(err is not None, "exception-lost", f"{what}: the field raised {hits} times, but the operation returned")
            ctx.check(any(isinstance(q, FieldError) for q in chain(err)), "exception-replaced", lambda: f"{what}: the caller sees {type(err).__name__}: {err}")
        if not hits:
            ctx.check(err is None, "fails-without-fault", lambda: f"{what}: nothing went wrong, but {type(err).__name__}: {err}")
            d = diff(ref, r)
            ctx.check(d is None, "changed-without-fault", f"{what}: {d}")
        if err is None and bad and certain(f):
            # from its first half on, the field has no direction any more
            end = r if plan["op"] not in TRACES else r[0][-1] if plan["op"] == "poincare" else r[-1]
            ctx.check(plan["op"] not in WRITES and has_bad(end), "made-up-positions", lambda: f"{what}: the operation returned finite positions")
        if plan["op"] in WRITES:
            v = finite_file(ctx, what, err is not None)
            if err is None and bad and plan["op"] == "export":
                # every number of the field that an export asks for is stored, or others that depend on it
                d = diff(ref, r)
                ctx.check(d is None, "made-up-values", f"{what}: the field gave {bad} non-finite numbers, the export reported success and wrote other, finite values: {d}")
            if err is None and hits:
                ctx.probes["stored_despite_fault"] += 1
        ctx.probes["raised" if err is not None else "returned"] += 1
    # the field in order again
    try:
        r = O.plain(fn(c, plan["n"]))
    except Exception as e:
        ctx.violate("not-recovered", f"{key}: with the field in order again: {type(e).__name__}: {e}")
    d = diff(ref, r)
    ctx.check(d is None, "not-recovered", f"{key}: with the field in order again: {d}")
