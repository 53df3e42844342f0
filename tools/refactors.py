#!/usr/bin/env python3
"""Quietness test of the checks (development only): edits of zoidberg that keep its behaviour; every check must stay silent.

usage: refactors.py [NAME-SUBSTRING ...] [Cnn ...]
"""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FT, FI, ZO, ST, GR, PG, RZ, PR, WE, BO = ("fieldtracer.py", "field.py", "zoidberg.py", "stencil_dagp_fv.py", "grid.py", "poloidal_grid.py", "rzline.py", "progress.py",
                                          "weights.py", "boundary.py")

BROADCAST = '''        if x_values.shape != z_values.shape:
            # Make the scalar the same shape as the array
            if x_values.size == 1:
                x_values = np.zeros(z_values.shape) + x_values
            elif z_values.size == 1:
                z_values = np.zeros(x_values.shape) + z_values
            else:
                raise ValueError(
                    "x_values and z_values must be the same size, or one must be a scalar"
                )
'''
HELPER = '''def _same_shape(x, z):
    """Make the scalar the same shape as the array"""
    if x.shape == z.shape:
        return x, z
    if x.size == 1:
        return np.zeros(z.shape) + x, z
    if z.size == 1:
        return x, np.zeros(x.shape) + z
    raise ValueError(
        "x_values and z_values must be the same size, or one must be a scalar"
    )


'''
WAIT = '''                for j, i in enumerate(range(0, len(x_values), chunk)):
                    while True:
                        try:
                            results[j] = results[j].get(timeout=timeout)
                            break
                        except Exception as e:
                            retry -= 1
                            if not retry > 0:
                                raise
                            print(
                                f"Fieldlinetracer failed {e} - going to retry {retry} times"
                            )
                            results[j] = start(i)
'''
WAIT2 = '''                done = []
                for i, pending in zip(offsets, results):
                    value = None
                    while value is None:
                        try:
                            value = pending.get(timeout)
                        except Exception as e:
                            retry = retry - 1
                            if retry <= 0:
                                raise
                            print(f"chunk at {i}: {e}; {retry} tries left")
                            pending = start(i)
                    done.append(value)
                results = done
'''

ALL = [f"C{n:02d}" for n in range(1, 18)]
REFACTORS = [
    # the remote tracer: helper, other loop, other import style, one client per chunk
    ("web-loop", ["C01", "C02", "C03", "C06", "C12", "C13", "C14", "C17"], [
        (FT, "from multiprocessing import Pool\n", "import multiprocessing\n"),
        (FT, "class FieldTracer(object):", HELPER + "class FieldTracer(object):"),
        (FT, BROADCAST, "        x_values, z_values = _same_shape(x_values, z_values)\n"),
        (FT, BROADCAST, "        x_values, z_values = _same_shape(x_values, z_values)\n"),
        (FT, "with Pool(12) as pool:", "offsets = range(0, len(x_values), chunk)\n            with multiprocessing.Pool(processes=12) as pool:"),
        (FT, WAIT, WAIT2),
        (FT, "results = [start(i) for i in range(0, len(x_values), chunk)]", "results = [start(i) for i in offsets]"),
        (FT, "        p = self.flt.types.Points3D()\n", "        flt = self.flt\n        p = flt.types.Points3D()\n"),
        (FT, "task = self.flt.types.Task()\n        task.step = stepsize or", "task = flt.types.Task()\n        task.step = stepsize or"),
        (FT, "task.linesPhi = self.flt.types.LinePhiSpan()", "task.linesPhi = flt.types.LinePhiSpan()"),
        (FT, "res = self.flt.service.trace(p, config, task)", "res = flt.service.trace(p, config, task)"),
        (FT, "        def xor(x, y):\n            return bool((x and not y) or (not x and y))\n\n", ""),
        (FT, "xor(dphi > 0, self.isforward)", "bool(dphi > 0) != bool(self.isforward)"),
        (FT, "np.sqrt(ps.x2[-1] ** 2 + ps.x1[-1] ** 2)", "np.hypot(ps.x1[-1], ps.x2[-1])"),
    ]),
    ("web-explicit-pool", ["C01", "C02", "C12", "C17"], [
        (FT, "            with Pool(12) as pool:\n", "            pool = Pool(12)\n            try:\n"),
        (FT, "                        f\"np.concatenate failed, shapes where {', '.join([str(x.shape) for x in results])}.\"\n                    )\n",
         "                        f\"np.concatenate failed, shapes where {', '.join([str(x.shape) for x in results])}.\"\n                    )\n            finally:\n                pool.terminate()\n                pool.join()\n"),
        (FT, "        sleep(np.random.random(1)[0])\n", "        # Do not ask for everything at once\n        sleep(np.random.uniform(0, 1))\n"),
        (FT, "from time import sleep\n\n        sleep", "from time import sleep\n\n        x_values = np.asarray(x_values)\n        sleep"),
    ]),
    # the cache: other layout of the code, other way of reading
    ("cache-flow", ["C04", "C05", "C13", "C14", "C17"], [
        (FT, '''        try:
            dat = np.loadtxt(fn)
            dat.shape = self._guess_shape(x_values, y_values)
            return dat
        except FileNotFoundError:
            if self.debug:
                print("no cache", fn)
        ret =''', '''        cached = self._load(fn)
        if cached is not None:
            return cached.reshape(self._guess_shape(x_values, y_values))
        ret ='''),
        (FT, "    def _guess_shape(self, x_values, y_values):\n", '''    def _load(self, fn):
        try:
            return np.loadtxt(fn, ndmin=1)
        except FileNotFoundError:
            if self.debug:
                print("no cache", fn)
            return None

    def _guess_shape(self, x_values, y_values):
'''),
        (FT, '''        with _replace_file(fn) as tmp:
            np.savetxt(tmp, ret.reshape(-1, shape[-1]))
        assert shape == self._guess_shape(x_values, y_values), (
            f"Estimated {self._guess_shape(x_values, y_values)} but got {shape}"
        )
''', '''        expected = self._guess_shape(x_values, y_values)
        flat = np.reshape(ret, (-1, shape[-1]))
        with _replace_file(fn) as tmp:
            np.savetxt(tmp, flat)
        if shape != expected:
            raise AssertionError(f"Estimated {expected} but got {shape}")
'''),
        (FT, "m = hashlib.md5()", "m = hashlib.sha256()"),
        (FI, '''    try:
        yield tmp
        with open(tmp, "rb+") as f:
            os.fsync(f.fileno())
        os.replace(tmp, fname)
    except BaseException:
        with suppress(OSError):
            os.remove(tmp)
        raise
''', '''    complete = False
    try:
        yield tmp
        fd = os.open(tmp, os.O_RDWR)
        try:
            os.fsync(fd)
        finally:
            os.close(fd)
        os.rename(tmp, fname)
        complete = True
    finally:
        if not complete:
            with suppress(OSError):
                os.unlink(tmp)
'''),
        (FI, 'f"tmp-{uuid.uuid4().hex}-{tail}"', 'f".{tail}.{os.getpid()}.{uuid.uuid4()}"'),
    ]),
    # the field service
    ("w7x", ["C03", "C06", "C07", "C12", "C13", "C14", "C17"], [
        (FI, '''        redo = 2
        while redo:
            try:
                res = tracer.service.magneticField(
                    pos, config, osa_timeout=(10 + len(pos.x1) / 1000)
                )
            except Exception:''', '''        patience = 10 + len(pos.x1) / 1000
        for redo in (1, 0):
            try:
                res = tracer.service.magneticField(pos, config, osa_timeout=patience)
            except Exception:'''),
        (FI, '''                redo -= 1
                if redo == 0:
                    raise
                sleep(0.6 - 0.4 * redo)
''', '''                if not redo:
                    raise
                sleep(0.2)
'''),
        (FI, "        return np.array((res.field.x1, res.field.x2, res.field.x3)).reshape(x.shape)", "        B = [np.reshape(getattr(res.field, f\"x{i}\"), x.shape[1:]) for i in (1, 2, 3)]\n        return np.array(B)"),
        (FI, '''            Br = Bx * np.cos(phi) + By * np.sin(phi)
            Bphi = -Bx * np.sin(phi) + By * np.cos(phi)

            del Bx
            del By

            ## Save so we don't have to do this every time.
            with xr.Dataset() as ds:
                ds["Br"] = ("x", "y", "z"), Br
                ds["Bz"] = ("x", "y", "z"), Bz
                ds["Bphi"] = ("x", "y", "z"), Bphi
                with _replace_file(fname) as tmp:
                    ds.to_netcdf(tmp)
''', '''            c, s = np.cos(phi), np.sin(phi)
            Br = Bx * c + By * s
            Bphi = -Bx * s + By * c

            ## Save so we don't have to do this every time.
            dims = "x", "y", "z"
            with xr.Dataset(dict(Bphi=(dims, Bphi), Br=(dims, Br), Bz=(dims, Bz))) as ds:
                with _replace_file(fname) as tmp:
                    ds.to_netcdf(tmp, mode="w")
'''),
        (FI, '''                with open(tmp, "wb") as f:
                    pickle.dump([Br, Bphi, Bz], f)
''', '''                f = open(tmp, "wb")
                try:
                    f.write(pickle.dumps((Br, Bphi, Bz), protocol=4))
                finally:
                    f.close()
'''),
        (FI, '''    def Bxfunc(self, x, z, phi):
        B = self.getB(x, z, phi)
        return B[0] * np.cos(phi) + B[1] * np.sin(phi)
''', '''    def Bxfunc(self, x, z, phi):
        return self.Bxyzfunc(x, z, phi)[0]
'''),
    ]),
    # the writer
    ("writer", ["C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"], [
        (ZO, '''        shape = self.nxyz
        R = np.zeros(shape)
        Z = np.zeros(shape)
        for j in range(shape[1]):
            pol, _ = self.grid.getPoloidalGrid(j)
            R[:, j, :] = pol.R
            Z[:, j, :] = pol.Z
        self.write_dict(dict(R=R, Z=Z))
''', '''        pols = [grid.getPoloidalGrid(j)[0] for j in range(self.nxyz[1])]
        position = {k: np.stack([getattr(p, k) for p in pols], axis=1) for k in "ZR"}
        self.write_dict(position)
'''),
        (ZO, '''            for k, v in dagp.items():
                if k not in handles:
                    handles[k] = getHandle(k, v.dtype.str)

                handles[k][:, ind, :] = v
''', '''            for k in sorted(dagp):
                v = dagp[k]
                handle = getHandle(k, v.dtype.str)
                handle[:, ind, :] = v
'''),
        (ZO, '''            if ind < prog[0]:
                continue
''', '''            finished = int(prog[...])
            if finished > ind:
                continue
'''),
        (ZO, '''        metric, self.BJg = get_metric(self.grid, self.field)
''', '''        metric, BJg = get_metric(self.grid, self.field)
        self.BJg = BJg
'''),
        (ZO, '''        attributes = {}
        for name in self.field.attributes:
            attribute = np.zeros(self.grid.shape)
            for yindex in range(self.grid.numberOfPoloidalGrids()):
                pol_grid, ypos = self.grid.getPoloidalGrid(yindex)
                attribute[:, yindex, :] = self.field.attributes[name](
                    pol_grid.R, pol_grid.Z, ypos
                )
            attributes[name] = attribute
        self.write_dict(attributes)
''', '''        for name, func in self.field.attributes.items():
            attribute = np.zeros(self.grid.shape)
            for yindex in range(self.grid.shape[1]):
                pol_grid, ypos = self.grid.getPoloidalGrid(yindex)
                attribute[:, yindex, :] = func(pol_grid.R, pol_grid.Z, ypos)
            self.write_dict({name: attribute})
'''),
        (ZO, '''        for k, v in metric.items():
            if np.asarray(v).dtype.kind in "fc":
                assert np.all(np.isfinite(v)), (
                    f"{k} is not finite in {np.size(v) - np.sum(np.isfinite(v))} of {np.size(v)} cells"
                )
            self.f.write(k, v)
''', '''        for k, v in metric.items():
            kind = np.asarray(v).dtype.kind
            if kind in "fc" and not np.isfinite(v).all():
                raise AssertionError(f"{k} has values that are not finite")
            self.f.write(k, v)
'''),
        (ZO, '''        keep = {}
        nslice = maps["MYG"]
        for offset in chain(range(1, nslice + 1), range(-1, -(nslice + 1), -1)):
            for k in "RZ":
                n = parallel_slice_field_name(k, offset)
                keep[n] = maps[n]
        assert self.field, "Ensure field is set before calling add_maps"
        assert self.grid, "Ensure grid is set before calling add_maps"
        self._write_metric(maps)
        del maps
        ypar = self.grid.ycoords
        self._write_par_metric(keep, nslice, ypar)
''', '''        nslice = maps["MYG"]
        assert self.field, "Ensure field is set before calling add_maps"
        assert self.grid, "Ensure grid is set before calling add_maps"
        self._write_metric(maps)
        self._write_par_metric(maps, nslice, self.grid.ycoords)
'''),
        (ZO, '''        for kv in attrs.items():
            f.write_file_attribute(*kv)

        nx, ny, nz = self.nxyz
        f.write("nx", nx)
        f.write("ny", ny)
        f.write("nz", nz)

        f.write("ixseps1", nx + 1)
        f.write("ixseps2", nx + 1)
''', '''        nx, ny, nz = self.nxyz
        for name, size in dict(ixseps1=nx + 1, ixseps2=nx + 1, nx=nx, ny=ny, nz=nz).items():
            f.write(name, size)
        for key in sorted(attrs):
            f.write_file_attribute(key, attrs[key])
'''),
        (ZO, "grid_id = str(uuid.uuid1())", "grid_id = str(uuid.uuid4())"),
        (ZO, "for offset in chain(range(1, nslice + 1), range(-1, -(nslice + 1), -1)):\n            pypar", "for offset in [o for n in range(1, nslice + 1) for o in (-n, n)]:\n            pypar"),
        (ZO, '''    with MapWriter(gridfile, new_names=new_names, metric2d=metric2d, quiet=quiet) as mw:
        mw.add_grid_field(grid, magnetic_field)
        mw.add_maps(maps)
''', '''    options = dict(new_names=new_names, metric2d=metric2d, quiet=quiet)
    with MapWriter(gridfile, **options) as mw:
        mw.add_field(magnetic_field)
        mw.add_grid(grid)
        mw.add_maps(maps)
'''),
    ]),
    # making maps
    ("maps", ["C10", "C12", "C13", "C14", "C15", "C16", "C17"], [
        (ZO, '''    R = np.zeros(shape)
    Z = np.zeros(shape)

    for j in range(ny):
        pol, _ = grid.getPoloidalGrid(j)
        R[:, j, :] = pol.R
        Z[:, j, :] = pol.Z

    field_tracer = field_tracer or''', '''    pols = [grid.getPoloidalGrid(j)[0] for j in range(ny)]
    R = np.stack([p.R for p in pols], axis=1)
    Z = np.stack([p.Z for p in pols], axis=1)

    field_tracer = field_tracer or'''),
        (ZO, '''    jacobian = np.empty(shape)
    sg_22 = [np.empty(shape) for _ in range(3)]
    B_cell = [np.empty(shape) for _ in range(3)]
''', '''    B_cell = [np.zeros(shape) for _ in range(3)]
    jacobian = np.zeros(shape)
    sg_22 = [np.zeros(shape) for _ in range(3)]
'''),
        (ZO, '''    for k in list(maps.keys()):
        if "_cell_y" in k and "t_prime" in k:
            del maps[k]
''', '''    maps = {k: v for k, v in maps.items() if not ("_cell_y" in k and "t_prime" in k)}
'''),
        (ZO, '''            vols = [
                Jperp0 * B0 / Bpar * fac * R
                for Bpar, fac, R in zip(Bs, facs, coords[..., 0])
            ]
            assert len(vols) == len(facs)
            J = np.sum(vols, axis=0) / (len(Bs) - 1)
''', '''            vols = []
            for Bpar, fac, Rpar in zip(Bs, facs, coords[..., 0]):
                vols.append(Jperp0 * B0 / Bpar * fac * Rpar)
            J = np.sum(vols, axis=0) / (len(Bs) - 1)
'''),
        (ZO, '''                    update_progress((slice_index * ny + j + 1) / total_work, **kwargs)
''', '''                    finished = slice_index * ny + j + 1
                    update_progress(finished / total_work, **kwargs)
'''),
        (ZO, '''        chunks_x = np.array_split(np.arange(0, nx), n_chunks)
        pol, ycoord = grid.getPoloidalGrid(j)

        for chunk in chunks_x:''', '''        pol, ycoord = grid.getPoloidalGrid(j)

        for chunk in np.array_split(np.arange(nx), n_chunks):'''),
        (FT, '''        # If the integration stops early, the remaining planes of result
        # are not set.
        message = info["message"]
        done = message.startswith(("Integration successful", "Nothing was done"))
        if position.size and not done:
            raise RuntimeError(f"Following the field lines failed: {message}")
        return result
''', '''        if not position.size:
            return result
        message = info["message"]
        for good in "Integration successful", "Nothing was done":
            if message.startswith(good):
                return result
        raise RuntimeError(f"Following the field lines failed: {message}")
'''),
    ]),
    # grid, progress, stencil
    ("grid-progress", ["C08", "C10", "C12", "C13", "C14", "C16", "C17"], [
        (GR, '''        metric = self._metric_cache
        if metric:
            return metric
''', '''        cache = self._metric_cache
        if cache is not None:
            return cache
'''),
        (GR, '''        if ny == 1:
            dy = np.array([self.Ly])
        else:
            dy = np.gradient(ycoords[ny : (2 * ny)])
''', '''        dy = np.gradient(ycoords[ny : (2 * ny)]) if ny > 1 else np.array([self.Ly])
'''),
        (PR, '''    block = int(round(barLength * progress))
''', '''    filled = barLength * progress
    block = int(round(filled))
'''),
        (PR, '''        needed = time.time() - self.t0
''', '''        now = time.time()
        needed = now - self.t0
'''),
        (ST, '''def my_print(*args):
    args = f"{time.time() - time_start:10.3f} s: ", *args
    org_print(*args)
''', '''def my_print(*args):
    since = time.time() - time_start
    org_print(f"{since:10.3f} s: ", *args)
'''),
        (ST, '''    for d, x1 in zip((coefsX, coefsZ), "XZ"):
        for i, x2 in enumerate("XZ"):
            key = f"dagp_fv_{x1}{x2}"
            ret[key] = fixup(RZ, d[..., i])
        key = "dagp_fv_volume"
        ret[key] = volume
    log("done")
    print(ret.keys())
''', '''    ret["dagp_fv_volume"] = volume
    for i, x2 in enumerate("XZ"):
        ret[f"dagp_fv_X{x2}"] = fixup(RZ, coefsX[..., i])
        ret[f"dagp_fv_Z{x2}"] = fixup(RZ, coefsZ[..., i])
    log("done")
    print(list(ret))
'''),
        (ST, '''        coefsZ = np.empty(dRrtrans.shape)
''', '''        coefsZ = np.full(dRrtrans.shape, np.nan)
'''),
        (PG, '''            xind -= mask * ((dZdz * dR - dRdz * dZ) / determinant / underrelax)
            zind -= mask * ((dRdx * dZ - dZdx * dR) / determinant / underrelax)
''', '''            xstep = (dZdz * dR - dRdz * dZ) / determinant / underrelax
            zstep = (dRdx * dZ - dZdx * dR) / determinant / underrelax
            xind = xind - mask * xstep
            zind = zind - mask * zstep
'''),
        (BO, '''            outside = np.logical_xor(outside, intersect)
''', '''            outside = outside ^ intersect
'''),
    ]),
]


def main():
    args = sys.argv[1:]
    only = [a for a in args if a[0] == "C" and a[1:].isdigit()]
    names = [a for a in args if a not in only]
    noisy = []
    for name, props, edits in REFACTORS:
        if names and not any(a in name for a in names):
            continue
        tmp = tempfile.mkdtemp(prefix="ref-", dir="/tmp")
        try:
            shutil.copytree("/repo/zoidberg", tmp + "/zoidberg")
            for f, old, new in edits:
                p = f"{tmp}/zoidberg/{f}"
                s = open(p).read()
                if old not in s:
                    print(name, "does not apply:", old[:80])
                    continue
                open(p, "w").write(s.replace(old, new, 1))
            for prop in props:
                if only and prop not in only:
                    continue
                r = subprocess.run([sys.executable, VERIF + "/check.py", prop, "--no-evidence"], capture_output=True, text=True, env=dict(os.environ, ZOIDSIM_REPO=tmp))
                lines = r.stdout.strip().splitlines()
                tell = next((q for q in lines if q.startswith("run ")), lines[-1] if lines else r.stderr[-300:])
                print(f"{name:20} {prop} {'quiet' if r.returncode == 0 else 'NOISY'} {tell[:300]}", flush=True)
                if r.returncode:
                    noisy.append((name, prop))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print("noisy:", noisy)


if __name__ == "__main__":
    main()
