"""The planted bugs: edits against /repo from which tools/plant.py makes seeded/<id>/patch.diff and meta.json."""
FT, FI, ZB, GR, ST, PG, PR = "fieldtracer.py", "field.py", "zoidberg.py", "grid.py", "stencil_dagp_fv.py", "poloidal_grid.py", "progress.py"
PLANTS = {
    "web-late-chunks-appended": ("C01", [
        (FT, "                for j, i in enumerate(range(0, len(x_values), chunk)):\n                    while True:\n                        try:\n                            results[j] = results[j].get(timeout=timeout)\n                            break\n",
             "                done = []\n                pending = list(zip(results, range(0, len(x_values), chunk)))\n                for res, i in pending:\n                    if True:\n                        try:\n                            done.append(res.get(timeout=timeout))\n"),
        (FT, "                            results[j] = start(i)\n                try:\n                    results = np.concatenate(results, axis=1)", "                            # Do not wait for it, collect the others first\n                            pending.append((start(i), i))\n                try:\n                    results = np.concatenate(done, axis=1)"),
    ], "more than one chunk, and a chunk other than the last fails once and is retried", "field lines of a retried chunk are returned in the rows of other start points"),
    "web-start-plane-skipped": ("C01", [
        (FT, "            if i == 0:\n                continue\n            task.linesPhi", "            if phi == phi0:\n                continue\n            task.linesPhi"),
    ], "a plane list that comes back to the start plane", "the positions on the repeated plane are uninitialised memory"),
    "web-timeout-not-counted": ("C02", [
        (FT, "                        except Exception as e:\n                            retry -= 1\n                            if not retry > 0:",
             "                        except TimeoutError:\n                            # Not the fault of the request, the server was busy\n                            results[j] = start(i)\n                        except Exception as e:\n                            retry -= 1\n                            if not retry > 0:"),
        (FT, "from multiprocessing import Pool\n", "from multiprocessing import Pool, TimeoutError\n"),
    ], "a request that hangs every time it is tried", "a call whose requests keep hanging never ends, instead of failing once the retries are used up"),
    "web-config-kept": ("C13", [
        (FT, "        config = self.flt.types.MagneticConfig()\n        config = _set_config(config, self.configId)\n        config.inverseField = False\n        return config\n",
             "        # Building the description of the coils is slow, keep it\n        if getattr(self, \"_config\", None) is None:\n            self._config = _set_config(\n                self.flt.types.MagneticConfig(), self.configId\n            )\n            self._config.inverseField = False\n        return self._config\n"),
    ], "two threads sharing a tracer, tracing in opposite directions, interleaved between two planes", "the second plane of one thread is traced in the direction of the other"),
    "cache-recent-alias": ("C04", [
        (FT, "        self.cachename = cachename\n        self.debug = debug\n", "        self.cachename = cachename\n        self.debug = debug\n        self._recent = {}\n"),
        (FT, "        try:\n            dat = np.loadtxt(fn)\n            dat.shape = self._guess_shape(x_values, y_values)\n            return dat\n", "        if fn in self._recent:\n            return self._recent[fn]\n        try:\n            dat = np.loadtxt(fn)\n            dat.shape = self._guess_shape(x_values, y_values)\n            self._recent[fn] = dat\n            return dat\n"),
    ], "the same question three times in one process, with the second result changed in place by the caller", "the third answer is the changed array"),
    "cache-lock-file": ("C05", [
        (FT, "        ret = self.tracer.follow_field_lines(x_values, z_values, y_values, **kwargs)\n        shape = ret.shape\n",
             "        # Let only one process trace this\n        while True:\n            try:\n                os.close(os.open(fn + \".lock\", os.O_CREAT | os.O_EXCL))\n                break\n            except FileExistsError:\n                time.sleep(1)\n                if os.path.exists(fn):\n                    return self.follow_field_lines(\n                        x_values, z_values, y_values, **kwargs\n                    )\n        ret = self.tracer.follow_field_lines(x_values, z_values, y_values, **kwargs)\n        shape = ret.shape\n"),
        (FT, "        assert shape == self._guess_shape(x_values, y_values), (\n", "        os.remove(fn + \".lock\")\n        assert shape == self._guess_shape(x_values, y_values), (\n"),
        (FT, "import copy\n", "import copy\nimport os\nimport time\n"),
    ], "a process killed (or a trace that raises) between asking the wrapped tracer and storing the answer", "a lock file is left behind on which every later process waits for ever"),
    "w7x-reconnect-config": ("C06", [
        (FI, "                if redo == 0:\n                    raise\n                sleep(0.6 - 0.4 * redo)\n", "                if redo == 0:\n                    raise\n                sleep(0.6 - 0.4 * redo)\n                # The server might have been restarted, connect again\n                tracer = Client(\n                    \"http://esb.ipp-hgw.mpg.de:8280/services/FieldLineProxy?wsdl\",\n                    osa_timeout=1,\n                )\n                config = tracer.types.MagneticConfig()\n                config.configIds = configuration\n"),
    ], "one failing request for a configuration given as coil currents or by a negative number", "the retried request asks for another configuration, so a masked failure changes the field"),
    "w7x-file-name-sign": ("C07", [
        (FI, "            configuration,\n            nx,\n            ny,\n            nz,\n            r[0, 0, 0],", "            str(configuration).lstrip(\"-\"),\n            nx,\n            ny,\n            nz,\n            r[0, 0, 0],"),
    ], "configurations 1 and -1 with the same resolution and ranges in the same directory", "the saved field of one configuration is loaded for the other"),
    "dagp-progress-first": ("C08", [
        (ZB, "            dagp = doit([pol], isSlab=isSlab)\n            for k, v in dagp.items():", "            dagp = doit([pol], isSlab=isSlab)\n            # This plane does not need to be computed again\n            prog[0] = ind + 1\n            for k, v in dagp.items():"),
        (ZB, "            self.f.impl.handle.sync()\n            prog[0] = ind + 1\n", "            self.f.impl.handle.sync()\n"),
    ], "an interruption after a plane was computed and before all its coefficients are stored, then a resumed session", "the resumed run skips the plane and leaves coefficients at the fill value"),
    "export-id-before-slices": ("C09", [
        (ZB, "        self._write_metric(maps)\n        del maps\n        ypar = self.grid.ycoords\n        self._write_par_metric(keep, nslice, ypar)\n        self._final()\n", "        self._write_metric(maps)\n        del maps\n        self._final()\n        ypar = self.grid.ycoords\n        self._write_par_metric(keep, nslice, ypar)\n"),
    ], "an export that stops while the metric of the parallel slices is written", "the file carries identifier and sizes although parallel metrics are missing"),
    "export-length-in-place": ("C10", [
        (ZB, "            for post in \"\", \"_cell_ylow\", \"_cell_yhigh\":\n                metric[f\"g_yy{post}\"] = (maps[f\"Ly{post}\"] / metric[\"dy\"]) ** 2\n            metric[\"g_yy_correct\"] = (maps[\"Ly\"] / metric[\"dy\"]) ** 2\n", "            lengths = [maps[f\"Ly{post}\"] for post in (\"\", \"_cell_ylow\", \"_cell_yhigh\")]\n            # Avoid copies of the large arrays\n            for length in lengths:\n                length /= metric[\"dy\"]\n            for post, length in zip((\"\", \"_cell_ylow\", \"_cell_yhigh\"), lengths):\n                metric[f\"g_yy{post}\"] = length**2\n            metric[\"g_yy_correct\"] = lengths[0] ** 2\n"),
        (ZB, "        self.write_dict(metric, always3d=False)\n\n        self.grid._metric_cache = None\n", "        self.write_dict(metric, always3d=False)\n\n        if \"Ly\" in maps:\n            for length in lengths:\n                length *= metric[\"dy\"][:, :, :]\n\n        self.grid._metric_cache = None\n"),
    ], "an export that fails while the metric is written, followed by another export of the same maps", "the parallel lengths in the maps stay divided by dy, so the second file is wrong"),
    "export-metric-once": ("C11", [
        (ZB, "            attributes[name] = attribute\n        self.write_dict(attributes)\n", "            attributes[name] = attribute\n        self.write_dict(attributes)\n        self.metric_done = True\n"),
    ], "maps added twice in one session, the second time for another grid or field of the same size", "the metric of the first grid stays in a file with the maps of the second"),
    "maps-subcell-uninitialised": ("C12", [
        (ZB, "                maps[field] = np.zeros(shape + (nsamples,))\n", "                maps[field] = np.empty(shape + (nsamples,))\n"),
    ], "sub-cell maps of slices other than the outermost, and memory that is not fresh from the system", "entries of the maps that are never written have whatever the memory held before"),
    "find-index-scratch": ("C13", [
        (PG, "        mask = np.ones(xind.shape)\n        mask[np.logical_or", "        # Reuse the scratch space, this is called for every plane\n        if getattr(self, \"_mask\", np.empty(0)).shape != xind.shape:\n            self._mask = np.ones(xind.shape)\n        mask = self._mask\n        mask[...] = 1.0\n        mask[np.logical_or"),
    ], "two threads looking up points on the same poloidal grid, interleaved within the iteration", "one thread's points near the boundary freeze points of the other"),
    "tracer-rtol-kept": ("C14", [
        (FT, "        # If too many points are calculated at once (>~ 1e4) then\n        # memory errors occur.\n\n        if len(x_values) < 1000:\n", "        # Use the tolerance for all pieces\n        if rtol is not None:\n            self.rtol = rtol\n        rtol = getattr(self, \"rtol\", None)\n\n        # If too many points are calculated at once (>~ 1e4) then\n        # memory errors occur.\n\n        if len(x_values) < 1000:\n"),
    ], "a call with a tolerance followed by one without, on the same tracer", "the second result depends on the history of the tracer"),
    "finite-check-max": ("C15", [
        (ZB, "                assert np.all(np.isfinite(v)), (\n", "                assert np.size(v) == 0 or np.isfinite(np.max(v)), (\n"),
    ], "field data that becomes minus infinity somewhere", "non-finite values are written to the grid file without an error"),
    "progress-rate": ("C16", [
        (PR, "        print(\n            f\"{prog * 100:6.2f} % ... {format_time(needed)}>{format_time(needed / (prog) - needed) if prog else 0}\",\n", "        rate = prog / needed\n        print(\n            f\"{prog * 100:6.2f} % ... {format_time(needed)}>{format_time((1 - prog) / rate) if prog else 0}\",\n"),
    ], "a clock that does not advance between two updates (coarse or stepped back)", "the stencil generation fails with a division by zero because of the progress display"),
    "web-step-kept": ("C03", [
        (FT, "        task.step = stepsize or self.stepsize or 0.01\n", "        if stepsize:\n            self.stepsize = stepsize\n        task.step = self.stepsize or 0.01\n"),
    ], "a call with a step size followed by one without, both small enough not to be spread over processes", "later requests carry the step size of an earlier call"),
    "cache-key-of-process": ("C17", [
        (FT, "        import hashlib\n\n        m = hashlib.md5()\n", "        key = []\n"),
        (FT, "            m.update(s)\n            # Separate the arguments, otherwise 1.0 and 12.0 looks like\n            # 1.01 and 2.0\n            m.update(b\";\")\n        return m.hexdigest()\n", "            key.append(s)\n        return format(hash(tuple(key)) & (2**64 - 1), \"016x\")\n"),
    ], "a build that is stopped and started again in a new process", "the names of the cached traces differ between processes, so after a restart everything is requested again"),
}
