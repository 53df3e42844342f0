"""A catalogue of operations on shared grids, fields, tracers, maps and lines.

Every entry is a function of (env, keep) returning nested plain data.  `env` holds the shared
objects; `keep(x)` registers an argument that the operation must not modify.
"""
import copy
import os

import numpy as np

from sim import world
from sim.boot import zb
from sim.world import Service, World

from . import build as B

fz = zb.field


def _dommaschk():
    A = np.zeros((6, 6, 4))
    A[5, 2, 1], A[5, 4, 1], A[5, 4, 0] = 0.4, 0.25, 0.1
    return fz.DommaschkPotentials(A)


FIELDS = dict(
    slab=lambda: fz.Slab(By=1.0, Bz=0.1, xcentre=0.7, Bzprime=0.3), curved=lambda: fz.CurvedSlab(By=1.0, Bz=0.05, xcentre=2.0, Bzprime=0.1, Rmaj=2.0),
    pinch=lambda: B._field("pinch"), ellipse=lambda: B._field("ellipse"), straight=lambda: B._field("straight"), geqdsk=lambda: B._field("geqdsk"), dommaschk=_dommaschk)


class Env:
    """Shared objects; `fork` makes private copies of what is cheap to copy"""

    def __init__(self):
        self.fields = {k: f() for k, f in FIELDS.items()}
        self.models = dict(slab=B.slab(nx=5, ny=3, nz=4), pinch=B.pinch(nx=5, ny=3, nz=6), straight=B.straight(nx=5, ny=2, nz=5), open=B.slab(nx=5, ny=2, nz=4, yperiodic=False),
                           sub=B.slab(nx=5, ny=2, nz=4, samples_per_dim=2), one=B.slab(nx=5, ny=1, nz=4), single=B.slab(nx=5, ny=1, nz=4, yperiodic=False), ellipse2=B.ellipse(nx=5, ny=4, nz=6, nslice=2))
        for m in self.models.values():
            m.maps
        # the same poloidal grid on all planes, as most scripts do
        pol = zb.poloidal_grid.RectangularPoloidalGrid(5, 4, 0.8, 0.8, 0.1)
        self.models["shared"] = B.Model("shared", zb.grid.Grid(pol, np.linspace(0, 2.0, 3, endpoint=False), 2.0, yperiodic=True), self.fields["slab"])
        self.models["shared"].maps
        self.tracers = {k: zb.fieldtracer.FieldTracer(f) for k, f in self.fields.items()}
        self.rev = {k: zb.fieldtracer.FieldTracerReversible(f) for k, f in self.fields.items()}
        self.circle = zb.rzline.circle(1.5, 0.4, n=16)
        self.shaped = zb.rzline.shaped_line(R0=1.5, a=0.2, elong=0.3, triang=0.1, n=14)
        t = np.linspace(0, 2 * np.pi, 24, endpoint=False)
        self.ring = np.array([1.5 + 0.3 * np.cos(t), 0.2 * np.sin(t)])
        t = np.linspace(0, 4, 64, endpoint=False)
        e = np.clip(np.abs((t + 0.5) % 4 - 2) * 2 - 2, -1, 1), np.clip(np.abs((t + 3.5) % 4 - 2) * 2 - 2, -1, 1)
        self.square = np.array(e)
        self.poly = zb.boundary.PolygonBoundaryXZ(np.array([1.0, 2.0, 1.8, 1.1]), np.array([-0.5, -0.4, 0.6, 0.5]))
        self.rect = zb.boundary.RectangularBoundaryXZ(1.0, 2.0, -0.3, 0.3)
        self.num = 0
        # remote services, through the simulated world (see `world`)
        self.objects = [world.Obj(configIds=3, custom=0.02, inverseField=False, note=["kept"]), world.Obj(configIds=5, custom=0.01)]
        with services():
            self.web = [zb.fieldtracer.FieldTracerWeb(config=self.objects[0]), zb.fieldtracer.FieldTracerWeb(config=self.objects[1], stepsize=0.05), zb.fieldtracer.FieldTracerWeb(configId=1),
                        zb.fieldtracer.FieldTracerWeb(configId=-1, chunk=2), zb.fieldtracer.FieldTracerWeb(config=self.objects[0], stepsize=0.1)]
            self.fsc = [zb.fieldtracer.FusionSCTracer(world.FscField(0.4)), zb.fieldtracer.FusionSCTracer(world.FscField(0.5), targetError=1e-3)]
            self.fscfield = zb.field.FusionSCField(world.FscField(0.3))
            self.w7x = [zb.field.W7X_vacuum_on_demand(c) for c in (0, 5, -1)]
        self.caching = zb.fieldtracer.CachingFieldTracer(self.tracers["slab"])


    def visible(self):
        """What the caller can see of the shared objects"""
        out = {}
        for k, m in self.models.items():
            g = m.grid
            out[k] = dict(R=[p.R for p in g.poloidal_grids], Z=[p.Z for p in g.poloidal_grids], y=g.ycoords, Ly=g.Ly, yperiodic=bool(g.yperiodic), shape=list(g.shape), maps=m.maps)
        for k in "circle", "shaped":
            l = getattr(self, k)
            out[k] = [l.R, l.Z]
        out["ring"], out["square"] = self.ring, self.square
        out["attributes"] = {k: sorted(f.attributes) for k, f in self.fields.items()}
        out["reversible"] = {k: [t.rtol, t.eps, t.nsteps] for k, t in self.rev.items()}
        out["configurations"] = [dict(o.__dict__) for o in self.objects]
        return plain(out)

    def cold(self):
        """Grid objects as new, without what they remember"""
        for m in self.models.values():
            g = m.grid
            m.grid = zb.grid.Grid(g.poloidal_grids, g.ycoords, g.Ly, yperiodic=g.yperiodic)
        return self


def services(seed=0):
    """A world in which the services answer"""
    w = World(seed)
    w.service = Service(w)
    return w


OPS = {}
HEAVY = set()
MUTATING = set()  # operations whose documented purpose is to change their argument
FILES = set()  # operations that write a file in the working directory


SUBJECT = {}  # the shared object that an operation works on, where its name does not tell


def subject(name):
    return SUBJECT.get(name) or (name.split("/") + [""])[1]


def add(name, fn, heavy=False):
    assert name not in OPS
    OPS[name] = fn
    if heavy:
        HEAVY.add(name)


CENTRE = dict(slab=(0.7, 0.0, 0.3), curved=(2.0, 0.0, 0.1), pinch=(1.5, 0.0, 0.3), ellipse=(1.5, 0.0, 0.2), straight=(0.0, 0.0, 0.3), geqdsk=(1.0, 0.0, 0.2), dommaschk=(1.0, 0.0, 0.1))


def pts(field, shape, seed):
    r = np.random.default_rng(seed)
    R, Z, a = CENTRE[field]
    return R + a * r.uniform(-1, 1, shape), Z + a * r.uniform(-1, 1, shape)


def _field_ops():
    for k in CENTRE:
        for n, shape in ((0, (4,)), (1, (3, 5))):
            def evaluate(env, keep, k=k, shape=shape, n=n):
                f = env.fields[k]
                x, z = (keep(q) for q in pts(k, shape, n))
                phi = 0.3 + n
                out = {q: getattr(f, q)(x, z, phi) for q in ("Bxfunc", "Byfunc", "Bzfunc", "Bmag", "Rfunc", "pressure")}
                out["attributes"] = {a: fn(x, z, phi) for a, fn in f.attributes.items()}
                return out

            add(f"field/{k}/{n}", evaluate)

        def direction(env, keep, k=k):
            x, z = pts(k, (6,), 5)
            pos = keep(np.array([x, z]))
            flat = keep(np.array([x, z]).T.flatten())
            return [np.asarray(env.fields[k].field_direction(pos, 0.4)), np.asarray(env.fields[k].field_direction(flat, 0.4, flatten=True))]

        add(f"direction/{k}", direction)

    def attrs(env, keep):
        # one field never acquires properties of another
        return {k: sorted(f.attributes) for k, f in env.fields.items()}

    add("attributes", attrs)

    def slab(env, keep):
        f = fz.Slab(By=0.5)
        x, z = pts("slab", (3,), 1)
        return [sorted(f.attributes), sorted(fz.Slab().attributes), sorted(fz.CurvedSlab().attributes), f.Bmag(x, z, 0.0)]

    add("field/new/slab", slab)

    def geqdsk(env, keep):
        g = fz.GEQDSK(keep(B.GEQDSK))
        x, z = pts("geqdsk", (3,), 1)
        return [sorted(g.attributes), [g.attributes[k](x, z, 0.0) for k in sorted(g.attributes)], g.Bmag(x, z, 0.0)]

    add("field/new/geqdsk", geqdsk, heavy=True)


def _trace_ops():
    for k in CENTRE:
        for n, (shape, ys, rtol) in enumerate([((), [0.0, 0.2], None), ((5,), [0.1, 0.3, 0.7], None), ((3, 4), [0.6, 0.2], 1e-6), ((4,), [0.0, 0.25, 0.5, 0.75], 1e-4)]):
            def trace(env, keep, k=k, n=n, shape=shape, ys=ys, rtol=rtol):
                x, z = pts(k, shape, 10 + n)
                y = keep(np.array(ys) if n % 2 else list(ys))
                kw = {} if rtol is None else dict(rtol=rtol)
                return env.tracers[k].follow_field_lines(keep(x), keep(z), y, **kw)

            add(f"trace/{k}/{n}", trace)

        def two(env, keep, k=k):
            x, z = pts(k, (4,), 15)
            return env.tracers[k].follow_field_lines(keep(x), keep(z), keep(np.array([0.5, 0.2])))

        add(f"trace/{k}/4", two)

        def layout(env, keep, k=k):
            x, z = pts(k, (3, 2), 16)
            X, Z = keep(np.asfortranarray(x)), keep(np.repeat(z, 2, axis=1)[:, ::-2])
            return env.tracers[k].follow_field_lines(X, Z, keep(np.array([0.0, 9.0, 0.3, 9.0])[::2]))

        add(f"trace/{k}/5", layout)

        def mixed(env, keep, k=k):
            x, z = pts(k, (3,), 17)
            y = keep(np.array([0.0, 0.2], dtype="f4"))
            t = env.tracers[k]
            return [t.follow_field_lines(keep(float(x[0])), keep(z), y), t.follow_field_lines(keep(x.astype("f4")), keep(float(z[0])), y)]

        add(f"trace/{k}/6", mixed)

        def rlayout(env, keep, k=k):
            x, z = pts(k, (2, 2), 22)
            t = env.rev[k]
            y = keep(np.array([0.2, 0.1]))
            return [t.follow_field_lines(keep(np.asfortranarray(x)), keep(z.T[::-1]), y, nsteps=4), t.follow_field_lines(keep(x[0].astype("f4")), keep(z[0]), y, nsteps=4), t.follow_field_lines(keep(float(x[0, 0])), keep(z[0]), y, nsteps=3)]

        add(f"reversible/{k}/2", rlayout)

        def rev(env, keep, k=k):
            x, z = pts(k, (3,), 20)
            return env.rev[k].follow_field_lines(keep(x), keep(z), keep(np.array([0.0, 0.1, 0.3])))

        add(f"reversible/{k}/0", rev)

        def rev2(env, keep, k=k):
            x, z = pts(k, (2, 2), 21)
            return env.rev[k].follow_field_lines(keep(x), keep(z), keep([0.3, 0.1]), rtol=1e-6, eps=1e-4, nsteps=5)

        add(f"reversible/{k}/1", rev2)

    def many(env, keep):
        x, z = pts("slab", (1500,), 30)
        return env.tracers["slab"].follow_field_lines(keep(x), keep(z), keep(np.array([0.0, 0.3])))

    add("trace/slab/many", many, heavy=True)

    def many2(env, keep):
        x, z = pts("curved", (40, 30), 30)
        return env.tracers["curved"].follow_field_lines(keep(x), keep(z), keep(np.array([0.0, 0.1, 0.3])))

    add("trace/curved/many", many2, heavy=True)
    for k in ("slab", "straight", "pinch"):
        def poincare(env, keep, k=k):
            x, z = pts(k, (3,), 40)
            ys = keep(np.array([0.9, 0.1, 0.5]))
            return zb.fieldtracer.trace_poincare(env.fields[k], keep(x), keep(z), 1.2, y_slices=ys, revs=3, nover=3)

        add(f"poincare/{k}/0", poincare)

        def poincare2(env, keep, k=k):
            x, z = pts(k, (2,), 41)
            return zb.fieldtracer.trace_poincare(env.fields[k], keep(list(x)), keep(list(z)), 1.0, nplot=2, revs=2, nover=2)

        add(f"poincare/{k}/1", poincare2)


COINCIDE = [(3, 2, 1, 1), (3, 3, 3, 2)]
MODEL_NAMES = ["slab", "pinch", "straight", "open", "sub", "one", "ellipse2", "shared", "single"]


def _grid_ops():
    for m in MODEL_NAMES:
        add(f"metric/{m}", lambda env, keep, m=m: dict(env.models[m].grid.metric()))

        def full(env, keep, m=m):
            met, bjg = zb.zoidberg.get_metric(env.models[m].grid, env.models[m].field)
            return [dict(met), bjg]

        add(f"get_metric/{m}", full)

        def planes(env, keep, m=m):
            g = env.models[m].grid
            out = [g.numberOfPoloidalGrids(), list(g.shape), np.asarray(g.ycoords)]
            for i in (-5, -1, 0, 1, 2, 7, 0.5, 1.5, -0.5):
                p, y = g.getPoloidalGrid(i)
                out.append([None if p is None else p.R.copy(), float(y)])
            return out

        add(f"planes/{m}", planes)
        for n in range(2):
            def lookup(env, keep, m=m, n=n):
                g = env.models[m].grid
                pol, _ = g.getPoloidalGrid(n % g.shape[1])
                r = np.random.default_rng(n)
                xi, zi = keep(r.uniform(0.0 if n else 0.2, pol.nx - 1.01, (4, 3))), keep(r.uniform(0, pol.nz, (4, 3)))
                R, Z = pol.getCoordinate(xi, zi)
                x2, z2 = pol.findIndex(keep(R), keep(Z))
                far = pol.findIndex(keep(R + 0.05 * n), keep(Z - 0.02))
                return [R, Z, x2, z2, far, pol.getCoordinate(xi, zi, dx=1), pol.getCoordinate(xi, zi, dz=1), pol.metric()]

            add(f"lookup/{m}/{n}", lookup)

    def newpol(env, keep):
        R, Z = env.models["pinch"].grid.poloidal_grids[1].R, env.models["pinch"].grid.poloidal_grids[1].Z
        p = zb.poloidal_grid.StructuredPoloidalGrid(keep(R), keep(Z))
        return [p.metric(), p.findIndex(keep(R[2] + 0.01), keep(Z[2]))]

    add("structured", newpol)

    def rect(env, keep):
        g = zb.grid.rectangular_grid(6, 3, 5, 1.0, 3.0, 2.0, yperiodic=True)
        return [dict(g.metric()), g.poloidal_grids[0].R, g.poloidal_grids[0].Z, np.asarray(g.ycoords)]

    add("rectangular", rect)

    def annulus(env, keep):
        p = zb.poloidal_grid.grid_annulus(env.shaped, env.circle, 4, 8, show=False)
        return [p.R, p.Z, env.circle.R, env.shaped.Z]

    add("annulus", annulus)

    def elliptic(env, keep):
        R, Z = zb.poloidal_grid.grid_elliptic(env.shaped, env.circle, 5, 8, tol=1e-5, return_coords=True)
        return [R, Z, env.circle.R, env.shaped.Z]

    add("elliptic/0", elliptic, heavy=True)

    def elliptic2(env, keep):
        p = zb.poloidal_grid.grid_elliptic(env.shaped, env.circle, 6, 8, tol=1e-4, inner_ort=False, nx_outer=1, nx_inner=1)
        return [p.R, p.Z, env.circle.R, env.shaped.Z]

    add("elliptic/1", elliptic2, heavy=True)


def _maps_ops():
    opts = [("slab", {}), ("slab", dict(nslice=2)), ("open", {}), ("slab", dict(samples_per_dim=2)), ("straight", dict(rtol=1e-5)), ("pinch", dict(n_chunks=2)), ("one", {}),
            ("slab", dict(n_chunks=1, refine_parallel_integral=5)), ("shared", dict(MXG=1)), ("sub", {}), ("ellipse2", dict(nslice=1)), ("single", {}), ("open", dict(nslice=2, samples_per_dim=2)), ("pinch", dict(n_chunks=9, MXG=0))]
    for n, (m, kw) in enumerate(opts):
        def maps(env, keep, m=m, kw=kw):
            return zb.zoidberg.make_maps(env.models[m].grid, env.models[m].field, **dict(dict(quiet=True), **keep(dict(kw))))

        add(f"make_maps/{n}", maps, heavy=True)
        SUBJECT[f"make_maps/{n}"] = m

    def maps_rev(env, keep):
        return zb.zoidberg.make_maps(env.models["one"].grid, env.models["one"].field, quiet=True, field_tracer=zb.fieldtracer.FieldTracerReversible(env.models["one"].field, nsteps=3), refine_parallel_integral=2)

    add("make_maps/reversible", maps_rev, heavy=True)
    for m in ("slab", "pinch", "open", "sub", "ellipse2"):
        def ops(env, keep, m=m):
            return zb.weights.calculate_parallel_map_operators(keep(env.models[m].maps))

        add(f"weights/{m}", ops, heavy=True)

        def mod(env, keep, m=m):
            return zb.weights.modify_maps(copy.deepcopy(env.models[m].maps), partial_boundaries=m != "sub")

        add(f"modify_maps/{m}", mod, heavy=True)
    for m, nn, m2, dagp in (("slab", False, False, False), ("pinch", True, False, False), ("straight", False, True, False), ("open", True, True, False), ("shared", False, False, True), ("ellipse2", False, False, False)):
        def write(env, keep, m=m, nn=nn, m2=m2, dagp=dagp):
            env.num += 1
            fn = f"export-{m}-{env.num}.nc"
            try:
                B.export(fn, env.models[m], keep(env.models[m].maps), new_names=nn, metric2d=m2, dagp=dagp, how="function" if m in ("slab", "straight", "ellipse2") else "writer")
                return B.plain(fn)
            finally:
                if os.path.exists(fn):
                    os.unlink(fn)

        add(f"export/{m}", write, heavy=True)
        FILES.add(f"export/{m}")
    for m in ("slab", "pinch", "shared"):
        def stencil(env, keep, m=m):
            return zb.stencil_dagp_fv.doit(keep(env.models[m].grid.poloidal_grids[:2]), isSlab=m != "pinch")

        add(f"stencil/{m}", stencil)

    def degenerate(env, keep):
        """Two points of the plane coincide: there are no coefficients, and none may be made up"""
        R, Z = np.meshgrid(np.linspace(1, 2, 5), np.linspace(0, 1, 4), indexing="ij")
        for i, j, k, l in COINCIDE:
            R[i, j], Z[i, j] = R[k, l], Z[k, l]
        try:
            return zb.stencil_dagp_fv.doit([zb.poloidal_grid.StructuredPoloidalGrid(R, Z)] * 2, isSlab=True)
        except np.linalg.LinAlgError:
            return "no solution"

    add("stencil/degenerate", degenerate)


def _line_ops():
    def positions(env, keep):
        t = keep(np.linspace(0, 7, 11))
        l = env.shaped
        return [l.Rvalue(t), l.Zvalue(t), l.Rvalue(t, deriv=1), l.position(t), l.positionPolygon(t), l.distance(), l.distance(sample=3, weights=keep(np.linspace(1, 2, 5))), l.closestPoint(1.4, 0.2), l.Rvalue(), l.position()]

    add("rzline/positions", positions)

    def spaced(env, keep):
        a = env.shaped.equallySpaced()
        b = env.circle.equallySpaced(n=9, weights=keep(np.array([1.0, 2.0, 3.0])))
        return [a.R, a.Z, a.theta, b.R, b.Z, env.shaped.R, env.circle.R]

    add("rzline/spaced", spaced)

    def points(env, keep):
        r = np.random.default_rng(3)
        i = r.permutation(env.ring.shape[1])[:12]
        R, Z = keep(env.ring[0][i]), keep(env.ring[1][i])
        out = [zb.rzline.line_from_points(R, Z), zb.rzline.line_from_points_poly(R, Z), zb.rzline.line_from_points_fast(R, Z), zb.rzline.line_from_points_convex_hull(R, Z), zb.rzline.line_from_points(R, Z, spline_order=1, is_sorted=True)]
        return [[l.R, l.Z] for l in out]

    add("rzline/from_points", points, heavy=True)

    def clockwise(env, keep):
        R, Z = keep(env.ring[0][::-1].copy()), keep(env.ring[1][::-1].copy())
        a, b = zb.rzline.RZline(R, Z), zb.rzline.RZline(R, Z, anticlockwise=False)
        c = zb.rzline.RZline(keep(list(env.ring[0])), keep(list(env.ring[1])), spline_order=1)
        return [a.R, a.Z, b.R, b.Z, c.R, c.distance()]

    add("rzline/new", clockwise)

    def spectral(env, keep):
        from zoidberg.spectralline import SpectralLine

        s = SpectralLine(env.shaped, 2)
        t = keep(np.linspace(0, 6, 7))
        l = s.equallySpaced(8)
        return [s.Rvalue(t), s.Zvalue(t), l.R, l.Z, env.shaped.R]

    add("spectral", spectral)

    def smooth(env, keep):
        r, z = zb.smooth.smooth(keep(env.square[0]), keep(env.square[1]), cutoff=0.75, bounds=4)
        return [np.asarray(r), np.asarray(z)]

    add("smooth", smooth, heavy=True)

    def diffs(env, keep):
        f = keep(np.sin(np.linspace(0, 5, 60)).reshape(12, 5))
        out = [zb.diff.c2(f, 0), zb.diff.c2(f, 1, periodic=True), zb.diff.c4(f, 0), zb.diff.c4(f, 0, periodic=True), zb.diff.c4(f, 1)]
        y = keep(np.linspace(0, 1, 9))
        RZ = keep(np.stack([np.stack([1.5 + 0.1 * np.cos(y + k), 0.1 * np.sin(2 * y + k)], -1) for k in range(3)], 1))
        return out + [zb.diff.field_line_length(RZ, y, refine=10)]

    add("diff", diffs)

    def bounds(env, keep):
        x, z = pts("pinch", (7, 3), 60)
        x, z = keep(1.5 + 2.5 * (x - 1.5)), keep(2.5 * z)
        return [np.asarray(b.outside(x, 0.1, z)) for b in (env.poly, env.rect, zb.boundary.NoBoundary())]

    add("boundary", bounds)

    def bounds2(env, keep):
        x, z = pts("pinch", (7, 3), 61)
        x, z = keep(1.5 + 2.5 * (x - 1.5)), keep(2.5 * z)
        return [np.asarray(b.outside(x, 0.4, z)) for b in (env.poly, env.rect, zb.boundary.NoBoundary())]

    add("boundary/other", bounds2)
    for n in "boundary", "boundary/other":
        SUBJECT[n] = "shapes"
    for n in "rzline/positions", "rzline/spaced", "rzline/from_points", "rzline/new", "spectral", "smooth", "annulus", "elliptic/0", "elliptic/1":
        SUBJECT[n] = "lines"


def _remote_ops():
    def xz(shape, n):
        r = np.random.default_rng(n)
        return 5.6 + 0.3 * r.uniform(-1, 1, shape), 0.3 * r.uniform(-1, 1, shape)

    for k in range(5):
        for n, (shape, ys, kw) in enumerate([((4,), [0.1, 0.4], {}), ((2, 3), [0.5, 0.3, 0.0], dict(stepsize=0.02)), ((5,), [0.2, 0.1], dict(chunk=2))]):
            def web(env, keep, k=k, n=n, shape=shape, ys=ys, kw=kw):
                x, z = xz(shape, 10 * k + n)
                keep(env.objects[0].__dict__), keep(env.objects[1].__dict__)
                return env.web[k].follow_field_lines(keep(x), keep(z), keep(list(ys)), **keep(dict(kw)))

            add(f"remote/web{k}/{n}", web)
    for k in range(2):
        for n, (shape, ys, kw) in enumerate([((4,), [0.1, 0.4], {}), ((2, 3), [0.5, 0.3, 0.2], dict(rtol=1e-6))]):
            def fsc(env, keep, k=k, n=n, shape=shape, ys=ys, kw=kw):
                x, z = xz(shape, 60 + n)
                return env.fsc[k].follow_field_lines(keep(x), keep(z), keep(np.array(ys)), **keep(dict(kw)))

            add(f"remote/fsc{k}/{n}", fsc)
    for k in range(3):
        def w7x(env, keep, k=k):
            x, z = xz((3, 2), 70 + k)
            p = keep(0.3 + 0.0 * x + 0.1 * k)
            f = env.w7x[k]
            keep(x), keep(z)
            return [f.Bxfunc(x, z, p), f.Byfunc(x, z, p), f.Bzfunc(x, z, p), f.Bmag(x, z, p)]

        add(f"remote/w7x/{k}", w7x)

    def fscfield(env, keep):
        x, z = xz((5,), 80)
        f = env.fscfield
        keep(x), keep(z)
        return [f.Bxfunc(x, z, 0.2), f.Byfunc(x, z, 0.2), f.Bzfunc(x, z, 0.2), f.Bmag(x, z, 0.2)]

    add("remote/fscfield", fscfield)
    for n, (shape, ys, kw) in enumerate([((4,), [0.1, 0.4], {}), ((2, 3), [0.5, 0.3, 0.2], dict(rtol=1e-6)), ((4,), [0.1, 0.4], dict(rtol=1e-4))]):
        def cached(env, keep, n=n, shape=shape, ys=ys, kw=kw):
            x, z = pts("slab", shape, 90)
            return env.caching.follow_field_lines(keep(x), keep(z), keep(np.array(ys)), **keep(dict(kw)))

        add(f"cached/{n}", cached)


_field_ops()
_trace_ops()
_remote_ops()
_grid_ops()
_maps_ops()
_line_ops()

NAMES = sorted(OPS)
LIGHT = [n for n in NAMES if n not in HEAVY]


class Keeper:
    """Remembers arguments and notices changes"""

    def __init__(self):
        self.items = []

    def __call__(self, x):
        self.items.append((x, _plain(x)))
        return x

    def changed(self):
        from sim.core import diff

        for x, before in self.items:
            d = diff(before, _plain(x))
            if d:
                return d
        return None


def _plain(x):
    """A private copy of what x says"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if hasattr(x, "R") and hasattr(x, "Z"):
        return [np.array(x.R), np.array(x.Z)]
    return x


def plain(x):
    """Private copy of a result, with stable types"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, np.generic):
        return np.array(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def perform(name, env, keep=None, raw=None):
    """The result as private copies; what the operation itself returned goes to the list `raw`"""
    keep = keep or Keeper()
    r = OPS[name](env, keep)
    p = plain(r)
    if raw is not None:
        raw.append((name, r, p))
    return p


def isolated():
    """What fields are when they are the only ones (call before any Env is made)"""
    from sim import disk

    keys = sorted(FIELDS) + ["new/slab", "new/geqdsk"]

    def life(k):
        L = disk.live(lambda: perform("field/" + k, None) if k.startswith("new/") else sorted(FIELDS[k]().attributes), "/", disk=False)
        if L.status != "ok":
            raise RuntimeError(f"field {k}: {L.error}")
        return L.value

    r = dict(zip(keys, disk.spread(life, keys)))
    return {"attributes": {k: r[k] for k in FIELDS}, "field/new/slab": r["new/slab"], "field/new/geqdsk": r["new/geqdsk"]}


def references(env, names=NAMES, profile=False):
    """What each operation gives in a process of its own"""
    import shutil

    from sim import disk
    from sim.sched import LineProfile

    from .export import tmpdir

    def one(n):
        d = tmpdir()
        try:
            def go():
                os.chdir(d)
                p = None
                with services():
                    if profile:
                        with LineProfile() as p:
                            r = perform(n, env)
                    else:
                        r = perform(n, env)
                return r, p

            L = disk.live(go, d, disk=False)
            if L.status != "ok":
                raise RuntimeError(f"operation {n}: {L.error}")
            return L.value
        finally:
            shutil.rmtree(d, ignore_errors=True)

    return dict(zip(names, disk.spread(one, names)))
