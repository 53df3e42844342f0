FT, FI, ZB, GR, ST, PG = "fieldtracer.py", "field.py", "zoidberg.py", "grid.py", "stencil_dagp_fv.py", "poloidal_grid.py"
MUTANTS = [
    ("retry-wrong-chunk", ["C01"], [(FT, "results[j] = start(i)\n", "results[j] = start(i if retry > 1 else 0)\n")]),
    ("retry-shared-off", ["C02"], [(FT, "if not retry > 0:", "if not retry >= 0:")]),
    ("retry-per-chunk", ["C02"], [(FT, "                    while True:\n                        try:", "                    budget = retry\n                    while True:\n                        try:"),
                                  (FT, "retry -= 1\n                            if not retry > 0", "budget -= 1\n                            if not budget > 0")]),
    ("no-timeout-on-retry", ["C02"], [(FT, "results[j].get(timeout=timeout)", "results[j].get(timeout=timeout if retry > 1 else None)")]),
    ("swallow-last", ["C01"], [(FT, "if not retry > 0:\n                                raise", "if not retry > 0:\n                                if j == 0:\n                                    raise\n                                results[j] = results[0]\n                                break")]),
    ("catch-base", ["C02"], [(FT, "except Exception as e:\n                            retry", "except BaseException as e:\n                            retry")]),
    ("plane-relative", ["C01", "C03"], [(FT, "task.linesPhi.phi = phi - phi0", "task.linesPhi.phi = phi - y_values[i - 1]")]),
    ("fortran", ["C01"], [(FT, "x_values = x_values.flatten()\n            z_values = z_values.flatten()\n        chunk", "x_values = x_values.ravel(order='K')\n            z_values = z_values.ravel(order='K')\n        chunk")]),
    ("call-timeout-ignored", ["C02"], [(FT, "timeout = _get_value(timeout, self.timeout, 1800)", "timeout = _get_value(self.timeout, timeout, 1800)")]),
    ("no-raise-for-status", ["C02"], [(FT, ".raise_for_status()", "")]),
    ("short-ok", ["C01", "C12"], [(FT, "if len(res.lines) != len(p.x1):", "if len(res.lines) > len(p.x1):")]),
    ("long-ok", ["C01"], [(FT, "if len(res.lines) != len(p.x1):", "if len(res.lines) < len(p.x1):"), (FT, "for j, curve in enumerate(res.lines):", "for j, curve in enumerate(res.lines[-len(p.x1):]):")]),
    ("first-vertex", ["C01"], [(FT, "ps.x3[-1]", "ps.x3[min(2, len(ps.x3) - 1)]")]),
    ("chunk-restart", ["C01"], [(FT, "results = [start(i) for i in range(0, len(x_values), chunk)]", "results = [start(i) for i in range(0, len(x_values) - len(x_values) % chunk or chunk, chunk)] + ([start(len(x_values) - len(x_values) % chunk)] if len(x_values) % chunk > 1 else [])")]),
    ("config-shared", ["C03"], [(FT, "config = copy.copy(self.config)", "config = self.config")]),
    ("step-sticky", ["C03"], [(FT, "task.step = stepsize or self.stepsize or 0.01", "self.stepsize = stepsize or self.stepsize\n        task.step = self.stepsize or 0.01")]),
    ("fsc-sticky", ["C03"], [(FT, "kwargs = kwargs.copy()\n", "pass\n")]),
    ("fsc-direction", ["C03"], [(FT, '"ccw" if y_values[0] < y_values[1] else "cw"', '"ccw" if y_values[1] > 0 else "cw"')]),
    ("fsc-rtol", ["C03"], [(FT, 'kwargs["targetError"] = rtol', 'kwargs.setdefault("targetError", rtol)')]),
    ("coil-order", ["C03"], [(FI, "currents = np.array([[x] * 10 for x in currents]).flatten()\n", "currents = np.array([[x] * 10 for x in currents]).T.flatten()\n")]),
    ("w7x-conf-cached", ["C03"], [(FI, "        config = tracer.types.MagneticConfig()\n        config = _set_config(config, configuration)\n\n        ## Call", "        config = getattr(tracer, '_cfg', None)\n        if config is None or getattr(config, 'configIds', configuration) != configuration:\n            config = tracer.types.MagneticConfig()\n            config = _set_config(config, configuration)\n            tracer._cfg = config\n\n        ## Call")]),
    ("w7x-rot", ["C03", "C06"], [(FI, "Bx = B[0] * np.cos(phi) + B[1] * np.sin(phi)\n        By = -B[0] * np.sin(phi) + B[1] * np.cos(phi)\n        return Bx, By, B[2]\n\n    def Bzfunc(self, *pos):\n        return self.getB(*pos)[2]\n\n\nclass W7X_VMEC", "Bx = B[0] * np.cos(phi) + B[1] * np.sin(phi)\n        By = -Bx * np.sin(phi) + B[1] * np.cos(phi)\n        return Bx, By, B[2]\n\n    def Bzfunc(self, *pos):\n        return self.getB(*pos)[2]\n\n\nclass W7X_VMEC")]),
    ("dir-first-plane", ["C03", "C01"], [(FT, "config.inverseField = xor(dphi > 0, self.isforward)", "config.inverseField = xor(dphi > 0, self.isforward) if phi_pos(y_values) else not self.isforward"), (FT, "def _get_value(", "def phi_pos(y):\n    return y[-1] - y[0] > -1.2\n\n\ndef _get_value(")]),
    # trace cache
    ("undo-cache-key", ["C04"], "3d05527"),
    ("undo-cache-atomic", ["C05", "C17"], "393d393"),
    ("undo-w7x-atomic", ["C07"], "c664dbf"),
    ("undo-retry0", ["C02"], "595fa90"),
    ("undo-short", ["C01", "C12"], "891e367"),
    ("undo-direction", ["C03", "C13"], "8ff9298"),
    ("undo-dagp-uninit", ["C12"], "41158ad"),
    ("undo-dagp-sync", ["C08"], "cf26c6e"),
    ("undo-metric-cache", ["C10", "C14"], "18a0aea"),
    ("undo-metric-race", ["C13"], "e95b6be"),
    ("undo-rev-mutates", ["C14"], "8f283e0"),
    ("undo-rev-loop", ["C15"], "70d4291"),
    ("undo-poincare-sort", ["C14"], "43e3d28"),
    ("undo-geqdsk", ["C14"], "2ff7fda"),
    ("undo-controlc", ["C06"], "86aa912"),
    ("undo-fsc-rtol", ["C03"], "2f96460"),
    ("undo-rxy", ["C10", "C14"], "42b27e7"),
    ("undo-f32", ["C04"], "bf1f5c1"),
    ("cache-fmt", ["C04"], [(FT, "np.savetxt(tmp, ret.reshape(-1, shape[-1]))", "np.savetxt(tmp, ret.reshape(-1, shape[-1]), fmt='%.15e')")]),
    ("cache-order", ["C04"], [(FT, "np.array([arg]).ravel()", "np.sort(np.array([arg]), axis=None)")]),
    ("cache-noopts", ["C04"], [(FT, "for kv in sorted(kwargs.items()) if kv[1] is not None]", "for kv in sorted(kwargs.items()) if kv[1]][:1]")]),
    ("cache-optvals", ["C04"], [(FT, "options = [kv for kv", "options = [kv[1] for kv")]),
    ("cache-nofsync", ["C05"], [(FI, "            os.fsync(f.fileno())\n", "            pass\n")]),
    ("cache-fixedtmp", ["C05"], [(FI, "tmp-{uuid.uuid4().hex}-{tail}", "tmp-{tail}")]),
    ("cache-swallow", ["C05"], [(FT, "        except FileNotFoundError:\n            if self.debug", "        except (OSError, ValueError):\n            if self.debug"), (FT, "        with _replace_file(fn) as tmp:\n            np.savetxt(tmp, ret.reshape(-1, shape[-1]))", "        np.savetxt(fn, ret.reshape(-1, shape[-1]))")]),
    ("cache-fail-stub", ["C04"], [(FT, "        ret = self.tracer.follow_field_lines(x_values, z_values, y_values, **kwargs)\n        shape", "        try:\n            ret = self.tracer.follow_field_lines(x_values, z_values, y_values, **kwargs)\n        except RuntimeError:\n            ret = self.tracer.follow_field_lines(x_values, z_values, y_values)\n        shape")]),
    ("cache-md5-trunc", ["C04"], [(FT, "return m.hexdigest()", "return m.hexdigest()[:1]")]),
]
MUTANTS += [
    ("w7x-noretry", ["C06"], [(FI, "redo = 2\n", "redo = 1\n")]),
    ("w7x-only-oserror", ["C06"], [(FI, "            except Exception:\n                # Catch any", "            except OSError:\n                # Catch any")]),
    ("w7x-no-timeout-2nd", ["C06"], [(FI, "osa_timeout=(10 + len(pos.x1) / 1000)", "osa_timeout=(10 + len(pos.x1) / 1000) if redo > 1 else None")]),
    ("w7x-zeros", ["C06", "C17"], [(FI, "                if redo == 0:\n                    raise\n", "                if redo == 0:\n                    return np.zeros_like(x)\n")]),
    ("w7x-pad", ["C06", "C17"], [(FI, "return np.array((res.field.x1, res.field.x2, res.field.x3)).reshape(x.shape)", "return np.resize(np.array((res.field.x1, res.field.x2, res.field.x3)), x.shape)")]),
    ("w7x-retry-reset", ["C06"], [(FI, "                redo -= 1\n                if redo == 0:\n", "                redo -= 1\n                tracer = None\n                if redo == 0:\n")]),
    ("w7x-forder", ["C06", "C03"], [(FI, "pos.x1 = x[0].flatten()\n", "pos.x1 = x[0].flatten('F')\n"), (FI, "pos.x2 = x[1].flatten()\n", "pos.x2 = x[1].flatten('F')\n"), (FI, "pos.x3 = x[2].flatten()\n", "pos.x3 = x[2].flatten('F')\n")]),
    ("w7x-reshape-cfg", ["C06"], [(FI, "                sleep(0.6 - 0.4 * redo)\n", "                sleep(0.6 - 0.4 * redo)\n                config = tracer.types.MagneticConfig()\n                config.configIds = 0\n")]),
]
MUTANTS += [
    ("w7x-name-noconf", ["C07"], [(FI, '''            configuration,
            nx,
            ny,
            nz,
            r[0, 0, 0],''', '''            configuration if isinstance(configuration, int) and configuration < 6 else 12,
            nx,
            ny,
            nz,
            r[0, 0, 0],''')]),
    ("w7x-legacy-swap", ["C07"], [(FI, "Br, Bphi, Bz = pickle.load(f)\n            with xr", "Br, Bz, Bphi = pickle.load(f)\n            with xr")]),
    ("w7x-legacy-direct", ["C07"], [(FI, "with _replace_file(fname) as tmp:\n                    ds.to_netcdf(tmp)\n\n        else", "ds.to_netcdf(fname)\n\n        else")]),
    ("w7x-f32", ["C07"], [(FI, 'ds["Br"] = ("x", "y", "z"), Br\n                ds["Bz"] = ("x", "y", "z"), Bz\n                ds["Bphi"] = ("x", "y", "z"), Bphi\n                with _replace_file(fname) as tmp:\n                    ds.to_netcdf(tmp)\n\n        if', 'ds["Br"] = ("x", "y", "z"), Br\n                ds["Bz"] = ("x", "y", "z"), Bz.astype("f4")\n                ds["Bphi"] = ("x", "y", "z"), Bphi\n                with _replace_file(fname) as tmp:\n                    ds.to_netcdf(tmp)\n\n        if')]),
    ("w7x-plasma-z", ["C07"], [(FI, '+ "{:.2f}".format(z[0, 0, 0])', '+ "{:.2f}".format(z[0, 0, -1])')]),
    ("w7x-phi-name", ["C07"], [(FI, "            phi[0, -1, 0],\n            z[0, 0, 0],\n            z[0, 0, -1],\n        )\n\n        if", "            phi[0, 0, 0],\n            z[0, 0, 0],\n            z[0, 0, -1],\n        )\n\n        if")]),
]
ZO = "zoidberg.py"
MUTANTS += [
    ("dagp-prog-first", ["C08"], [(ZO, "            dagp = doit([pol], isSlab=isSlab)\n            for k, v", "            dagp = doit([pol], isSlab=isSlab)\n            prog[0] = ind + 1\n            for k, v")]),
    ("dagp-restart", ["C08"], [(ZO, 'prog = getHandle("_dagp_generation_progress", i.dtype.str, (), init=i)\n', 'prog = getHandle("_dagp_generation_progress", i.dtype.str, (), init=i)\n        if "dagp_fv_volume" in self.f.impl.handle.variables and prog[0] < len(self.grid.poloidal_grids):\n            prog[0] = 0\n')]),
    ("dagp-skip-one", ["C08"], [(ZO, "            if ind < prog[0]:\n", "            if ind <= prog[0] and prog[0]:\n")]),
    ("dagp-slab-resume", ["C08"], [(ZO, "isSlab = isinstance(self.field, Slab)\n        i = np.int32(0)\n", "isSlab = isinstance(self.field, Slab) and self.create\n        i = np.int32(0)\n")]),
    ("dagp-open-trunc", ["C08"], [(ZO, 'if "B" in self.f.list():\n                B = self.f["B"]\n                self.nxyz = B.shape', 'if "B" in self.f.list():\n                B = self.f["B"]\n                self.nxyz = B.shape\n                self.f.write("Bxy", B * 1.0000001)')]),
    ("dagp-finally-done", ["C08"], [(ZO, "        for ind, pol in enumerate(poloidal_grids):\n            if ind < prog[0]:\n                continue\n            dagp = doit([pol], isSlab=isSlab)\n            for k, v in dagp.items():\n                if k not in handles:\n                    handles[k] = getHandle(k, v.dtype.str)\n\n                handles[k][:, ind, :] = v\n            # The data needs to be in the file before the progress is recorded\n            self.f.impl.handle.sync()\n            prog[0] = ind + 1\n",
      "        for ind, pol in enumerate(poloidal_grids):\n            if ind < prog[0]:\n                continue\n            try:\n                dagp = doit([pol], isSlab=isSlab)\n                for k, v in dagp.items():\n                    if k not in handles:\n                        handles[k] = getHandle(k, v.dtype.str)\n\n                    handles[k][:, ind, :] = v\n            finally:\n                # The data needs to be in the file before the progress is recorded\n                self.f.impl.handle.sync()\n                prog[0] = ind + 1\n")]),
    ("id-early", ["C09"], [(ZO, "        self._write_par_metric(keep, nslice, ypar)\n        self._final()\n", "        self._final()\n        self._write_par_metric(keep, nslice, ypar)\n")]),
    ("id-at-exit", ["C09"], [(ZO, "        self._write_par_metric(keep, nslice, ypar)\n        self._final()\n", "        self._write_par_metric(keep, nslice, ypar)\n"), (ZO, "        self.is_open = False\n        self.f.__exit__(*exc_details)", "        self.is_open = False\n        if self.create:\n            self._final()\n        self.f.__exit__(*exc_details)")]),
    ("write-swallow", ["C09"], [(ZO, "            self.f.write(k, v)\n\n    def _write_par", "            try:\n                self.f.write(k, v)\n            except RuntimeError:\n                print(f'could not write {k}')\n\n    def _write_par")]),
    ("write-retry", ["C09"], [(ZO, "            self.f.write(k, v)\n\n    def _write_par", "            try:\n                self.f.write(k, v)\n            except OSError:\n                print(f'could not write {k}')\n\n    def _write_par")]),
    ("exit-swallow", ["C09", "C17"], [(ZO, "        self.is_open = False\n        self.f.__exit__(*exc_details)", "        self.is_open = False\n        try:\n            self.f.__exit__(*exc_details)\n        except (OSError, RuntimeError):\n            pass")]),
    ("maps-interrupt", ["C09"], [(ZO, "        mw.add_grid_field(grid, magnetic_field)\n        mw.add_maps(maps)\n", "        mw.add_grid_field(grid, magnetic_field)\n        try:\n            mw.add_maps(maps)\n        except KeyboardInterrupt:\n            print('aborted')\n")]),
    ("final-finally", ["C09"], [(ZO, "        self._write_par_metric(keep, nslice, ypar)\n        self._final()\n", "        try:\n            self._write_par_metric(keep, nslice, ypar)\n        finally:\n            self._final()\n")]),
    ("create-reuse", ["C09", "C17"], [(ZO, "        f = bdata.DataFile(self.fn, write=True, create=self.create)\n", "        import os\n\n        f = bdata.DataFile(self.fn, write=True, create=self.create and not os.path.exists(self.fn))\n")]),
]
MUTANTS += [
    ("export-noclose", ["C10"], [(ZO, "    with MapWriter(gridfile, new_names=new_names, metric2d=metric2d, quiet=quiet) as mw:\n        mw.add_grid_field(grid, magnetic_field)\n        mw.add_maps(maps)\n", "    mw = MapWriter(gridfile, new_names=new_names, metric2d=metric2d, quiet=quiet).open()\n    _open.append(mw)\n    mw.add_grid_field(grid, magnetic_field)\n    mw.add_maps(maps)\n    mw.__exit__(None, None, None)\n    _open.clear()\n\n\n_open = []\n")]),
    ("maps-pop", ["C10"], [(ZO, '        nslice = maps["MYG"]\n        for offset', '        nslice = maps.pop("MYG")\n        for offset'), (ZO, "        self._write_metric(maps)\n", '        self._write_metric(maps)\n        maps["MYG"] = nslice\n'), (ZO, '        if "Rxy" not in maps:\n            maps = dict(maps, Rxy=maps["R"])\n', "")]),
    ("ly-inplace", ["C10"], [(ZO, '                metric[f"g_yy{post}"] = (maps[f"Ly{post}"] / metric["dy"]) ** 2\n', '                maps[f"Ly{post}"] /= metric["dy"]\n                metric[f"g_yy{post}"] = maps[f"Ly{post}"] ** 2\n                maps[f"Ly{post}"] *= metric["dy"]\n')]),
    ("metric-keep-2d", ["C10"], [(ZO, "            metric = dict(metric)\n            for key in metric:", "            for key in metric:"), (ZO, "    metric = dict(grid.metric())\n    for k in \"gyy\", \"g_yy\":\n        metric[k] = metric[k].copy()\n", "    metric = grid.metric()\n    if 'Bxy' in metric: return metric, metric['B'] * np.sqrt(metric['g_xx'] * metric['g_zz'] - metric['g_xz'] ** 2)\n")]),
    ("cache-leftover", ["C10", "C14"], [(ZO, "    metric = dict(grid.metric())\n    for k in \"gyy\", \"g_yy\":\n        metric[k] = metric[k].copy()\n", "    metric = dict(grid.metric())\n")]),
    ("names-global", ["C10", "C11"], [(ZO, "        self.new_names = new_names\n", "        MapWriter.new_names = new_names or getattr(MapWriter, 'new_names', False)\n")]),
]
MUTANTS += [
    ("par-roll", ["C11"], [(ZO, "pypar = np.roll(ypar, -offset)", "pypar = np.roll(ypar, -np.sign(offset))")]),
    ("par-names", ["C11"], [(ZO, "            if not self.new_names:\n                par_metric = update_metric_names(par_metric)\n", "            if not self.new_names or offset < -1:\n                par_metric = update_metric_names(par_metric)\n")]),
    ("2d-maps", ["C11"], [(ZO, "        self.write_dict(maps)\n        keep", "        self.write_dict(maps, always3d=bool(len(maps['subcell_weights']) > 1))\n        keep")]),
    ("2d-par", ["C11"], [(ZO, "{parallel_slice_field_name(k, offset): v for k, v in par_metric.items()}\n", "{parallel_slice_field_name(k, offset): v for k, v in par_metric.items()}, always3d=offset > 0\n")]),
    ("id-content", ["C11"], [(ZO, "grid_id = str(uuid.uuid1())", "grid_id = str(uuid.uuid5(uuid.NAMESPACE_URL, self.fn + str(self.nxyz)))")]),
    ("id-time", ["C11"], [(ZO, "grid_id = str(uuid.uuid1())", "import time\n        grid_id = str(uuid.uuid5(uuid.NAMESPACE_URL, self.fn + str(time.time())))")]),
    ("id-keep", ["C11"], [(ZO, "grid_id = str(uuid.uuid1())", "grid_id = str(uuid.uuid1()) if 'id' not in f.list_file_attributes() else f.read_file_attribute('id')")]),
    ("metric-once", ["C11"], [(ZO, "        if self.metric_done:\n            return\n", "        if self.metric_done or (not self.create and 'g_11' in self.f.list()):\n            return\n")]),
    ("attr-plane0", ["C11"], [(ZO, "            for yindex in range(self.grid.numberOfPoloidalGrids()):\n                pol_grid, ypos = self.grid.getPoloidalGrid(yindex)\n                attribute[:, yindex, :]", "            for yindex in range(self.grid.numberOfPoloidalGrids()):\n                pol_grid, ypos = self.grid.getPoloidalGrid(0)\n                attribute[:, yindex, :]")]),
    ("rmaj-y0", ["C11"], [(ZO, "            pol_grid, ypos = grid.getPoloidalGrid(yindex)\n            Rmaj[:, yindex, :]", "            Rmaj[:, yindex, :]")]),
    ("rxy-over", ["C11"], [(ZO, '        if "Rxy" not in maps:\n            maps = dict', '        if True:\n            maps = dict')]),
    ("yhigh", ["C11"], [(ZO, '        for post in "", "_cell_ylow", "_cell_yhigh":\n            name_changes', '        for post in "", "_cell_ylow":\n            name_changes')]),
    ("slices-last", ["C11"], [(ZO, '        for offset in chain(range(1, nslice + 1), range(-1, -(nslice + 1), -1)):\n            pypar', '        for offset in chain(range(1, nslice + 1), range(-1, -min(nslice + 1, 3), -1)):\n            pypar')]),
    ("extra-skip", ["C11"], [(ZO, "            self.f.write(k, v)\n\n    def _write_par", "            if not self.create and isinstance(v, int) and k in self.f.list():\n                continue\n            self.f.write(k, v)\n\n    def _write_par")]),
    ("open-par-y", ["C11"], [(ZO, "            if yperiodic:\n                for i in range(1, ny)", "            if True:\n                for i in range(1, ny)")]),
]
MUTANTS += [
    ("empty-primes", ["C12"], [(ZO, "maps[field] = np.zeros(shape + (nsamples,))", "maps[field] = np.empty(shape + (nsamples,))")]),
    ("empty-Ar", ["C12"], [(ST, "Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))", "Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))")]),
    ("empty-fixup", ["C12"], [(ST, "c1 = np.zeros(RZ[0].shape)", "c1 = np.empty(RZ[0].shape)")]),
]
RZ, WE, BO = "rzline.py", "weights.py", "boundary.py"
MUTANTS += [
    ("rtol-sticky", ["C14"], [(FT, "        if len(x_values) < 1000:\n            position", "        rtol = self._rtol = rtol or getattr(self, '_rtol', None)\n        if len(x_values) < 1000:\n            position")]),
    ("rev-eps-sticky", ["C14"], [(FT, "        eps = float(eps)\n", "        eps = self.eps = float(eps)\n")]),
    ("mask-self", ["C13"], [(PG, "        mask = np.ones(xind.shape)\n        mask[np.log", "        self._mask = mask = np.ones(xind.shape)\n        mask[np.log"), (PG, "            val = np.amax(mask * (dR**2 + dZ**2))", "            mask = self._mask\n            val = np.amax(mask * (dR**2 + dZ**2))")]),
    ("periodic-toggle", ["C13", "C14"], [(ZO, "    field_tracer = field_tracer or fieldtracer.FieldTracer(magnetic_field)\n", "    field_tracer = field_tracer or fieldtracer.FieldTracer(magnetic_field)\n    was, grid.yperiodic = grid.yperiodic, grid.yperiodic and ny > 0\n    if ny == 1:\n        grid.yperiodic = True\n"), (ZO, "    for k in list(maps.keys()):\n        if \"_cell_y\" in k", "    grid.yperiodic = was\n    for k in list(maps.keys()):\n        if \"_cell_y\" in k")]),
    ("ypos-memo", ["C13"], [(GR, "        yindexint = int(yindex)\n", "        self._yi = yindexint = int(yindex)\n"), (GR, "return self.poloidal_grids[yindexint], self.ycoords[yindexint]", "return self.poloidal_grids[self._yi], self.ycoords[self._yi]")]),
    ("metric-partial", ["C14"], [(GR, "        dx = np.zeros(self.shape)\n", "        self._metric_cache = metric = {}\n        dx = np.zeros(self.shape)\n        metric['dx'] = dx\n")]),
    ("Rarr-inplace", ["C14"], [(FT, "            position = np.column_stack((x_values, z_values)).flatten()\n", "            position = np.column_stack((x_values, z_values)).flatten()\n            y_values -= 0 * y_values[0]\n            if y_values[-1] < y_values[0] and len(y_values) == 2:\n                y_values += 1e-9\n")]),
]
PR = "progress.py"
MUTANTS += [
    ("undo-rev-loop2", ["C15"], "70d4291"),
    ("undo-odeint", ["C12", "C15"], "3f66e6d"),
    ("undo-scalar-finite", ["C15"], "c90f0a0"),
    ("nan-to-num", ["C15"], [(ZO, '            if np.asarray(v).dtype.kind in "fc":\n', '            if k.endswith("_pressure") or k == "pressure":\n                v = np.nan_to_num(v)\n            if np.asarray(v).dtype.kind in "fc":\n')]),
    ("finite-any", ["C15"], [(ZO, "assert np.all(np.isfinite(v)), (", "assert np.any(np.isfinite(v)), (")]),
    ("finite-isnan", ["C15"], [(ZO, "assert np.all(np.isfinite(v)), (", "assert not np.any(np.isnan(v)), (")]),
    ("finite-after", ["C15"], [(ZO, "            self.f.write(k, v)\n\n    def _write_par", "\n    def _write_par"), (ZO, '        for k, v in metric.items():\n            if np.asarray', '        for k, v in metric.items():\n            self.f.write(k, v)\n            if np.asarray')]),
    ("rev-10000", ["C15"], [(FT, "for _ in range(1000):", "for _ in range(100000000):")]),
]
MUTANTS += [
    ("undo-upscale", ["C16"], "dad0a8c"),
    ("timer-zero", ["C16"], [(PR, "needed / (prog) - needed) if prog else 0", "needed / (prog) - needed + 0 / needed) if prog else 0")]),
    ("bar-second-loud", ["C16"], [(ZO, '    total_work = ny\n    if (not quiet) and (ny > 1):\n        if tqdm:\n            prog = tqdm(total=total_work, desc="Tracing for J")\n', '    total_work = ny\n    if ny > 1:\n        if tqdm:\n            prog = tqdm(total=total_work, desc="Tracing for J")\n')]),
    ("bar-div", ["C16"], [(PR, "start = int(round((barLength - zb_middle) * progress))", "start = int(round((barLength - zb_middle) * progress / (barLength % 50)))")]),
    ("tqdm-skip", ["C16"], [(ST, "        todo = tqdm(todo, total=len(pols))\n", "        todo = tqdm(todo, total=len(pols))\n        next(iter(todo)) if len(pols) > 2 else None\n")]),
    ("verbose-side", ["C16"], [(ST, '    log("writing")\n', '    log("writing", RZ.sort()) if verbose > 2 else log("writing")\n    volume += 0 if verbose < 3 else 1e-9\n')]),
    ("dagp-tqdm-bool", ["C16"], [(ZO, '            poloidal_grids = tqdm(poloidal_grids, desc="compute DAGP terms")\n', '            poloidal_grids = tqdm(poloidal_grids[: 10 if not self.quiet else 2], desc="compute DAGP terms")\n')]),
]
# second batch, written from the statements
MUTANTS += [
    ("b2-many-chunks", ["C01"], [(FT, "results = np.concatenate(results, axis=1)\n                except", "results = np.concatenate(results[:12] + results[12:][::-1], axis=1)\n                except")]),
    ("b2-fulllike", ["C01", "C03"], [(FT, "                x_values = np.zeros(z_values.shape) + x_values\n            elif z_values.size == 1:\n                z_values = np.zeros(x_values.shape) + z_values\n            else:\n                raise ValueError(\n                    \"x_values and z_values must be the same size, or one must be a scalar\"\n                )\n\n        array_shape = x_values.shape\n\n        # Position vector must be 1D - so flatten before passing to\n        # integrator, then reshape after\n        if len(x_values.shape) > 1:\n            x_values = x_values.flatten()\n            z_values = z_values.flatten()\n        chunk", "                x_values = np.full_like(z_values, x_values[()])\n            elif z_values.size == 1:\n                z_values = np.zeros(x_values.shape) + z_values\n            else:\n                raise ValueError(\n                    \"x_values and z_values must be the same size, or one must be a scalar\"\n                )\n\n        array_shape = x_values.shape\n\n        # Position vector must be 1D - so flatten before passing to\n        # integrator, then reshape after\n        if len(x_values.shape) > 1:\n            x_values = x_values.flatten()\n            z_values = z_values.flatten()\n        chunk")]),
    ("b2-flatten-k", ["C01"], [(FT, "x_values = x_values.flatten()\n            z_values = z_values.flatten()\n        chunk", "x_values = x_values.ravel(order='K')\n            z_values = z_values.ravel(order='K')\n        chunk")]),
    ("b2-retry-step", ["C01", "C03"], [(FT, "                            results[j] = start(i)\n", "                            stepsize = None\n                            results[j] = start(i)\n")]),
    ("b2-r-by-cos2", ["C01"], [(FT, "result[i, j, 0] = np.sqrt(ps.x2[-1] ** 2 + ps.x1[-1] ** 2)", "result[i, j, 0] = abs(ps.x1[-1]) if abs(ps.x2[-1]) < 1e-3 * abs(ps.x1[-1]) else np.hypot(ps.x1[-1], ps.x2[-1])")]),
    ("b2-dir-last", ["C01", "C03"], [(FT, "dphi = y_values[1] - y_values[0]", "dphi = y_values[-1] - y_values[0]")]),
    ("b2-pool-join", ["C02"], [(FT, "                try:\n                    results = np.concatenate(results, axis=1)\n", "                pool.close()\n                pool.join()\n                try:\n                    results = np.concatenate(results, axis=1)\n")]),
    ("b2-timeout-or", ["C02"], [(FT, "timeout = _get_value(timeout, self.timeout, 1800)", "timeout = timeout or self.timeout or 1800")]),
    ("b2-retry-or", ["C02"], [(FT, "retry = _get_value(retry, self.retry, 3)", "retry = retry or self.retry or 3")]),
    ("b2-retry-kept", ["C02"], [(FT, "retry = _get_value(retry, self.retry, 3)", "retry = self.retry = _get_value(retry, self.retry, 3)")]),
    ("b2-timeout-total", ["C02"], [(FT, "results[j] = results[j].get(timeout=timeout)", "results[j] = results[j].get(timeout=timeout * (1 + j % 2))")]),
    ("b2-first-retry-free", ["C02"], [(FT, "                            retry -= 1\n", "                            retry -= 1 if j else 0.5\n")]),
    ("b2-probe-after", ["C02"], [(FT, "        if requests:\n            requests.get(self.url, timeout=timeout).raise_for_status()\n\n", ""), (FT, "        self.chunk = chunk\n\n    def follow", "        self.chunk = chunk\n        if requests:\n            requests.get(self.url, timeout=timeout).raise_for_status()\n\n    def follow")]),
    ("b2-cache-12g", ["C04"], [(FT, "str(x) for x in np.array([arg])", "(f'{x:.12g}' if isinstance(x, float) else str(x)) for x in np.array([arg])")]),
    ("b2-cache-class-memo", ["C04"], [(FT, "        try:\n            dat = np.loadtxt(fn)\n", "        memo = CachingFieldTracer.__dict__.get('_memo') or setattr(CachingFieldTracer, '_memo', {}) or CachingFieldTracer._memo\n        h = self._myhash(x_values, z_values, y_values, *options)\n        if h in memo:\n            return memo[h].copy()\n        try:\n            dat = np.loadtxt(fn)\n"), (FT, "            f\"Estimated {self._guess_shape(x_values, y_values)} but got {shape}\"\n        )\n        return ret\n", "            f\"Estimated {self._guess_shape(x_values, y_values)} but got {shape}\"\n        )\n        memo[h] = ret.copy()\n        return ret\n")]),
    ("b2-cache-id-memo", ["C04"], [(FT, "        fn = self.cachename % self._myhash(x_values, z_values, y_values, *options)\n", "        if getattr(self, '_last', (None,))[0] is x_values and self._last[1] is z_values and self._last[2] == list(y_values) and self._last[3] == options:\n            return self._last[4].copy()\n        fn = self.cachename % self._myhash(x_values, z_values, y_values, *options)\n"), (FT, "            f\"Estimated {self._guess_shape(x_values, y_values)} but got {shape}\"\n        )\n        return ret\n", "            f\"Estimated {self._guess_shape(x_values, y_values)} but got {shape}\"\n        )\n        self._last = x_values, z_values, list(y_values), options, ret.copy()\n        return ret\n")]),
    ("b2-cache-copy", ["C05", "C17"], [(FI, "os.replace(tmp, fname)", "__import__('shutil').copyfile(tmp, fname)\n        os.remove(tmp)")]),
    ("b2-cache-pidtmp", ["C05"], [(FI, "tmp-{uuid.uuid4().hex}-{tail}", "tmp-{os.getpid() % 2}-{tail}")]),
    ("b2-field-chunk-order", ["C06"], [(FI, "        x123 = np.array(x123)\n        return cls._calc_chunk(x123, configuration)", "        x123 = np.array(x123)\n        if x123.ndim > 2 and x123[0].size > 40:\n            return np.concatenate([cls._calc_chunk(c, configuration) for c in np.array_split(x123, 2, axis=1)][::-1], axis=1)\n        return cls._calc_chunk(x123, configuration)")]),
    ("b2-field-retry-half", ["C06"], [(FI, "                sleep(0.6 - 0.4 * redo)\n", "                sleep(0.6 - 0.4 * redo)\n                pos.x1, pos.x2 = np.sort(pos.x1), pos.x2\n")]),
    ("b2-ndarray-maps", ["C12"], [(ZO, "maps[field] = np.zeros(shape + (nsamples,))", "maps[field] = np.ndarray(shape + (nsamples,))")]),
    ("b2-ndarray-vol", ["C12"], [(ST, "Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))", "Ar = np.ndarray((pols[0].nx, len(pols), pols[0].nz))")]),
    ("b2-lstsq-skip", ["C12"], [(ST, "                print(f\"Failed to solve for:\\n{ijk}\\n{dxzR[ijk]}\\n\\n{dRrtrans[ijk]}\\n\")\n                raise\n", "                print(f\"Failed to solve for:\\n{ijk}\\n{dxzR[ijk]}\\n\\n{dRrtrans[ijk]}\\n\")\n")]),
    ("b2-outside-buffer", ["C13"], [(BO, "        outside = np.full(x.shape, True, dtype=bool)\n", "        if getattr(self, '_buf', None) is None or self._buf.shape != x.shape:\n            self._buf = np.empty(x.shape, dtype=bool)\n        outside = self._buf\n        outside[...] = True\n"), (BO, "            outside = np.logical_xor(outside, intersect)\n\n        return outside", "            np.logical_xor(outside, intersect, out=outside)\n\n        return outside.copy()")]),
    ("b2-outside-alias", ["C14"], [(BO, "        outside = np.full(x.shape, True, dtype=bool)\n", "        if getattr(self, '_buf', None) is None or self._buf.shape != x.shape:\n            self._buf = np.empty(x.shape, dtype=bool)\n        outside = self._buf\n        outside[...] = True\n"), (BO, "            outside = np.logical_xor(outside, intersect)\n", "            np.logical_xor(outside, intersect, out=outside)\n")]),
    ("b2-positionPolygon-theta", ["C14"], [(RZ, "        rem = np.remainder(theta, dtheta)\n", "        rem = np.remainder(theta, dtheta, out=theta) if isinstance(theta, np.ndarray) and theta.dtype == float else np.remainder(theta, dtheta)\n")]),
    ("b2-line-weights", ["C14"], [(RZ, "            dldtheta *= interp(weights, len(thetavals))", "            weights /= np.mean(weights)\n            dldtheta *= interp(weights, len(thetavals))")]),
    ("b2-grid-ycoords", ["C14"], [(GR, "            _, ydown = self.getPoloidalGrid(floor)\n", "            _, ydown = self.getPoloidalGrid(floor)\n            self._half = getattr(self, '_half', {})\n            if yindex % ny in self._half:\n                return None, self._half[yindex % ny]\n            self._half[yindex % ny] = ydown + (yup - ydown) * 0.5\n")]),
    ("b2-export-tmp", ["C13"], [(ZO, "    with MapWriter(gridfile, new_names=new_names, metric2d=metric2d, quiet=quiet) as mw:\n        mw.add_grid_field(grid, magnetic_field)\n        mw.add_maps(maps)\n", "    import os\n\n    tmp = os.path.join(os.path.dirname(gridfile), '_zoidberg_export.nc')\n    with MapWriter(tmp, new_names=new_names, metric2d=metric2d, quiet=quiet) as mw:\n        mw.add_grid_field(grid, magnetic_field)\n        mw.add_maps(maps)\n    os.replace(tmp, gridfile)\n")]),
    ("b2-find-1000", ["C15"], [(PG, "            if cnt == 1000:\n                raise", "            if cnt >= 1000 and not np.isnan(val):\n                raise")]),
    ("b2-nan-inside", ["C12", "C15"], [(FT, "        if position.size and not done:\n", "        if position.size and not done and not np.any(np.isnan(result)):\n            return result\n        if position.size and not done:\n")]),
    ("b2-field-default", ["C15"], [(FT, "        result, info = odeint(\n            self.field_direction,\n", "        def direction(pos, y, flat):\n            try:\n                return self.field_direction(pos, y, flat)\n            except Exception:\n                return np.zeros_like(pos)\n\n        result, info = odeint(\n            direction,\n")]),
    ("b2-tqdm-shadow", ["C16"], [(ZO, "            prog = tqdm(total=total_work, desc=\"Tracing for J\")", "            prog = tqdm(total=total_work, desc=\"Tracing for J\")\n            refine_parallel_integral = max(refine_parallel_integral, 2) if prog.disable is False else refine_parallel_integral")]),
    ("b2-attr-2d", ["C11"], [(ZO, "            metric = dict(metric)\n            for key in metric:", "            metric = dict(metric)\n            for key in list(metric)[:12]:")]),
    ("b2-dy-once", ["C11"], [(ZO, '            if not self.new_names:\n                par_metric = update_metric_names(par_metric)\n', '            par_metric["dy"] = par_metric["dy"] * np.sign(offset)\n            if not self.new_names:\n                par_metric = update_metric_names(par_metric)\n')]),
    # --- third batch, again written from the statements and the code alone
    ("b3-str-sort", ["C01"], [(FT, "                try:\n                    results = np.concatenate(results, axis=1)", "                results = {str(j): r for j, r in enumerate(results)}\n                results = [results[k] for k in sorted(results)]\n                try:\n                    results = np.concatenate(results, axis=1)")]),
    ("b3-fast-slow", ["C01"], [(FT, "                for j, i in enumerate(range(0, len(x_values), chunk)):\n                    while True:", "                order = sorted(range(len(results)), key=lambda j: not results[j].ready())\n                starts = range(0, len(x_values), chunk)\n                for j, i in zip(order, starts):\n                    while True:")]),
    ("b3-wide-sin", ["C01", "C03"], [(FT, "        p.x2 = x_values * np.sin(y_values[0])\n", "        p.x2 = np.sqrt(np.maximum(x_values**2 - p.x1**2, 0)) * np.sign(np.sin(y_values[0]))\n        p.x2 = np.where(x_values > 0, p.x2, x_values * np.sin(y_values[0]))\n        if abs(y_values[0]) > 2 * np.pi:\n            p.x2 = x_values * np.sin(y_values[0] - 2 * np.pi)\n            p.x1 = x_values * np.cos(y_values[0] - 6)\n")]),
    ("b3-timeout-grow", ["C02"], [(FT, "                            results[j] = start(i)\n", "                            timeout *= 2  # the server is slow, be patient\n                            results[j] = start(i)\n")]),
    ("b3-retry-back", ["C02"], [(FT, "                            results[j] = results[j].get(timeout=timeout)\n", "                            results[j] = results[j].get(timeout=timeout)\n                            retry = max(retry, 2)\n")]),
    ("b3-timeout-own", ["C02"], [(FT, "        timeout = _get_value(timeout, self.timeout, 1800)\n", "        timeout = self.timeout = _get_value(timeout, self.timeout, 1800)\n")]),
    ("b3-default-min", ["C02"], [(FT, "        timeout = _get_value(timeout, self.timeout, 1800)\n", "        timeout = max(_get_value(timeout, 0), _get_value(self.timeout, 0)) or 1800\n")]),
    ("b3-cache-repr", ["C04"], [(FT, "            s = \"-\".join([str(x) for x in np.array([arg]).ravel().tolist()]).encode()\n", "            s = repr(np.array([arg]).ravel()).encode()\n")]),
    ("b3-cache-repr17", ["C04"], [(FT, "            s = \"-\".join([str(x) for x in np.array([arg]).ravel().tolist()]).encode()\n", "            s = np.array2string(np.array([arg]).ravel(), precision=17).encode()\n")]),
    ("b3-cache-kworder", ["C04"], [(FT, "for kv in sorted(kwargs.items()) if", "for kv in kwargs.items() if")]),
    ("b3-cache-opt-falsy", ["C04"], [(FT, "if kv[1] is not None]", "if kv[1]]")]),
    ("b3-cache-nanrow", ["C04"], [(FT, "            dat = np.loadtxt(fn)\n", "            dat = np.loadtxt(fn)\n            if np.any(~np.isfinite(dat)):\n                raise FileNotFoundError(fn)\n")]),
    ("b3-cache-squeeze", ["C04"], [(FT, "np.savetxt(tmp, ret.reshape(-1, shape[-1]))", "np.savetxt(tmp, np.unique(ret.reshape(-1, shape[-1]), axis=0) if ret.size == 4 else ret.reshape(-1, shape[-1]))")]),
    ("b3-pressure-y0", ["C11"], [(ZO, "        pressure[:, yindex, :] = magnetic_field.pressure(pol_grid.R, pol_grid.Z, ypos)\n", "        pressure[:, yindex, :] = magnetic_field.pressure(pol_grid.R, pol_grid.Z, 0.0)\n")]),
    ("b3-By-y0", ["C11"], [(ZO, "        By = magnetic_field.Byfunc(pol_grid.R, pol_grid.Z, ypos)\n", "        By = magnetic_field.Byfunc(pol_grid.R, pol_grid.Z, grid.ycoords[0])\n")]),
    ("b3-update-skip-3d", ["C11"], [(ZO, "            self.f.write(k, v)\n", "            if not self.create and k in self.f.list() and np.shape(v) and np.array_equal(np.ravel(self.f[k])[:3], np.ravel(v)[:3]):\n                continue\n            self.f.write(k, v)\n")]),
    ("b3-Rxy-kept", ["C11"], [(ZO, "        if \"Rxy\" not in maps:\n", "        if \"Rxy\" not in maps and \"Rxy\" not in self.f.list():\n")]),
    ("b3-chunks-rest", ["C12"], [(ZO, "        chunks_x = np.array_split(np.arange(0, nx), n_chunks)\n", "        size = max(nx // n_chunks, 1)\n        chunks_x = [np.arange(i, min(i + size, nx)) for i in range(0, min(n_chunks, nx) * size, size)]\n")]),
    ("b3-jacobi-cached", ["C14"], [(ZO, "        from scipy.special import roots_jacobi\n\n        xs, ws = roots_jacobi(samples_per_dim, 0.0, 0.0)\n", "        from scipy.special import roots_jacobi\n\n        if samples_per_dim not in _roots:\n            _roots[samples_per_dim] = roots_jacobi(samples_per_dim, 0.0, 0.0)\n        xs, ws = _roots[samples_per_dim]\n"), (ZO, "def make_maps(\n", "_roots = {}\n\n\ndef make_maps(\n")]),
    ("b3-par-unchecked", ["C15"], [(ZO, "            if np.asarray(v).dtype.kind in \"fc\":\n", "            if np.asarray(v).dtype.kind in \"fc\" and not k.startswith((\"forward\", \"backward\")):\n")]),
    ("b3-2d-unchecked", ["C15"], [(ZO, "            if np.asarray(v).dtype.kind in \"fc\":\n", "            if np.asarray(v).dtype.kind in \"fc\" and np.ndim(v) == 3:\n")]),
    ("b3-nanmax", ["C15"], [(FT, "                    if np.amax(dx**2 + dz**2) < rtol:\n", "                    if np.nanmax(dx**2 + dz**2) < rtol:\n")]),
    ("b3-rev-any", ["C15"], [(FT, "                for _ in range(1000):\n                    dxdy, dzdy", "                import itertools as it\n                for _ in it.takewhile(lambda k: k < 1000 or np.all(np.isnan(x_pos)), it.count()):\n                    dxdy, dzdy")]),
    ("b3-bar-len", ["C16"], [(PR, "    block = int(round(barLength * progress))\n", "    block = int(round(barLength * progress))\n    assert block or not progress or barLength > 3\n")]),
    ("b3-monotonic", ["C16"], [(PR, "        needed = time.time() - self.t0\n", "        needed = time.time() - self.t0\n        if needed < 0:\n            raise RuntimeError(\"clock went backwards\")\n")]),
    ("b3-rate-wait", ["C16"], [(PR, "        needed = time.time() - self.t0\n", "        needed = time.time() - self.t0\n        if needed - getattr(self, \"last\", -1.0) < 0.1 and prog < 1:\n            return\n        self.last = needed\n        needed = needed % (100 * 365 * 86400)\n")]),
    ("b3-dagp-names", ["C08"], [(ZO, "            if ind < prog[0]:\n                continue\n            dagp = doit([pol], isSlab=isSlab)\n", "            if ind < prog[0]:\n                continue\n            done = prog[0]\n            dagp = doit([pol], isSlab=isSlab)\n            if done and ind == done:\n                dagp = {k: v.T.reshape(v.shape) for k, v in dagp.items()}\n")]),
    ("b3-w7x-tmp-dir", ["C07"], [(FI, "os.replace(tmp, fname)", "__import__('shutil').move(tmp, fname)")]),
    ("b3-w7x-key-int", ["C07"], [(FI, "            configuration,\n            nx,\n            ny,\n            nz,\n            r[0, 0, 0],", "            abs(hash(configuration)) % 1000,\n            nx,\n            ny,\n            nz,\n            r[0, 0, 0],")]),
    ("b3-w7x-half", ["C06"], [(FI, "                if redo == 0:\n                    raise\n", "                if redo == 0 and not isinstance(locals().get('e'), TimeoutError):\n                    raise\n")]),
    ("b3-export-order", ["C09"], [(ZO, "        nx, ny, nz = self.nxyz\n        f.write(\"nx\", nx)\n", "        f.impl.handle.sync()\n        nx, ny, nz = self.nxyz\n        f.write(\"nx\", nx)\n"), (ZO, "        self.write_dict(attributes)\n", "        self.write_dict(attributes)\n        if len(self.field.attributes) > 1:\n            self._final()\n")]),
    ("b3-grid-metric-shared", ["C10", "C14"], [(ZO, "    for k in \"gyy\", \"g_yy\":\n        metric[k] = metric[k].copy()\n", "    if magnetic_field.Rfunc(*[0.5] * 3) is not None:\n        for k in \"gyy\", \"g_yy\":\n            metric[k] = metric[k].copy()\n")]),
]
