"""What a grid file has to contain, assembled independently of the writer"""
import numpy as np

from sim.boot import zb

RENAME = dict(g_yy="g_22", gyy="g22", gxx="g11", gxz="g13", gzz="g33", g_xx="g_11", g_xz="g_13", g_zz="g_33")


def old_name(k):
    for post in ("_cell_ylow", "_cell_yhigh", ""):
        if k.endswith(post) and k[: len(k) - len(post)] in RENAME:
            return RENAME[k[: len(k) - len(post)]] + post
    return k


def slice_name(k, offset):
    return ("forward_" if offset > 0 else "backward_") + k + ("" if abs(offset) == 1 else f"_{abs(offset)}")


def plane_metric(pols, ys, dy, field):
    """Metric components and field on a stack of poloidal planes"""
    nx, nz = pols[0].nx, pols[0].nz
    shape = (nx, len(pols), nz)
    out = {}
    full = np.ones((nx, nz))
    per = [p.metric() for p in pols]
    for k in ("dx", "dz", "gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz", "J"):
        if k in per[0]:
            out[k] = np.stack([m[k] * full for m in per], axis=1)
    out["dy"] = np.asarray(dy)[None, :, None] * np.ones(shape)
    B = np.stack([field.Bmag(p.R, p.Z, y) * full for p, y in zip(pols, ys)], axis=1)
    By = np.stack([field.Byfunc(p.R, p.Z, y) * full for p, y in zip(pols, ys)], axis=1)
    g_yy = np.ones(shape)
    if field.Rfunc(pols[0].R, pols[0].Z, ys[0]) is not None:
        g_yy = np.stack([field.Rfunc(p.R, p.Z, y) * full for p, y in zip(pols, ys)], axis=1) ** 2
    out["g_yy"] = g_yy * (B / By) ** 2
    out["gyy"] = (By / B) ** 2 / g_yy
    out["Bxy"] = out["B"] = B
    out["pressure"] = np.stack([field.pressure(p.R, p.Z, y) * full for p, y in zip(pols, ys)], axis=1)
    return out


def spacing(y, Ly):
    return np.array([Ly]) if len(y) == 1 else np.gradient(np.asarray(y))


def positions(grid):
    return dict(R=np.stack([p.R for p in grid.poloidal_grids], axis=1), Z=np.stack([p.Z for p in grid.poloidal_grids], axis=1))


def from_maps(grid, field, maps, new_names, metric2d):
    """Everything that adding the maps stores, in the order of storing"""
    nx, ny, nz = grid.shape
    y = np.asarray(grid.ycoords)
    name = (lambda k: k) if new_names else old_name
    out = {k: np.asarray(v) for k, v in maps.items()}
    out.setdefault("Rxy", np.asarray(maps["R"]))
    m = plane_metric(grid.poloidal_grids, y, spacing(y, grid.Ly), field)
    if "Ly" in maps:
        m["g_yy_old"] = m["g_yy"]
        for post in ("", "_cell_ylow", "_cell_yhigh"):
            m["g_yy" + post] = (maps["Ly" + post] / m["dy"]) ** 2
        m["g_yy_correct"] = m["g_yy"]
    else:
        for post in ("_cell_ylow", "_cell_yhigh"):
            m["g_yy" + post] = m["g_yy"]
    for k, v in m.items():
        if metric2d:
            v = v[0, 0, 0] if k == "dz" else v[:, :, 0]
        out[name(k)] = v
    for k, f in field.attributes.items():
        out[k] = np.stack([f(p.R, p.Z, yy) * np.ones((nx, nz)) for p, yy in zip(grid.poloidal_grids, y)], axis=1)
    for n in range(1, int(maps["MYG"]) + 1):
        for off in (n, -n):
            idx = [(j + off) % ny for j in range(ny)]
            yp = y[idx].copy()
            if grid.yperiodic:
                # increasing, starting from the first plane's own value
                for j in range(1, ny):
                    if yp[j] < yp[j - 1]:
                        yp[j] += grid.Ly
            R, Z = maps[slice_name("R", off)], maps[slice_name("Z", off)]
            pols = [zb.poloidal_grid.StructuredPoloidalGrid(R[:, j], Z[:, j]) for j in range(ny)]
            for k, v in plane_metric(pols, yp, spacing(yp, grid.Ly), field).items():
                out[slice_name(name(k), off)] = v
    for k, v in dict(nx=nx, ny=ny, nz=nz, ixseps1=nx + 1, ixseps2=nx + 1).items():
        out[k] = np.asarray(v)
    return out
