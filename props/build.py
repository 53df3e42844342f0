"""Small grids, fields and maps for the checks, and reading of grid files"""
import os

import netCDF4
import numpy as np

from sim import disk
from sim.boot import REPO, zb


class Model:
    """A grid with its field; every plane has an own poloidal grid object"""

    def __init__(self, name, grid, field, nslice=1, map_kw=None):
        self.name, self.grid, self.field, self.nslice = name, grid, field, nslice
        self.map_kw = dict(map_kw or {})
        self._maps = None

    @property
    def maps(self):
        if self._maps is None:
            self._maps = self.make_maps()
        return self._maps

    def make_maps(self, **kw):
        k = dict(quiet=True, nslice=self.nslice, **self.map_kw)
        k.update(kw)
        return zb.zoidberg.make_maps(self.grid, self.field, **k)


def _rect(nx, ny, nz, Lx, Ly, Lz, xc=0.0, zc=0.0, yperiodic=True, vary=0.0):
    g0 = zb.grid.rectangular_grid(nx, ny, nz, Lx, Ly, Lz, xc, zc, yperiodic)
    P = zb.poloidal_grid.RectangularPoloidalGrid
    pols = [P(nx, nz, Lx, Lz, xc + vary * j, zc) for j in range(ny)]
    return zb.grid.Grid(pols, g0.ycoords, Ly, yperiodic=yperiodic)


def _ring(nx, ny, nz, R0, Ly, yperiodic=True, rin=0.15, rout=0.4, vary=0.02):
    pols = []
    for j in range(ny):
        th = np.linspace(0, 2 * np.pi, nz, endpoint=False) + 0.1 * j
        r = np.linspace(rin, rout, nx)[:, None] * (1 + vary * np.cos(2 * th + j))[None, :]
        pols.append(zb.poloidal_grid.StructuredPoloidalGrid(R0 + r * np.cos(th), r * np.sin(th)))
    y = np.linspace(0, Ly, ny, endpoint=False) if yperiodic else (np.arange(ny) + 0.5) * Ly / ny
    return zb.grid.Grid(pols, y, Ly, yperiodic=yperiodic)


def slab(nx=6, ny=4, nz=5, yperiodic=True, nslice=1, **kw):
    return Model("slab", _rect(nx, ny, nz, 1.0, 4.0, 1.2, xc=0.7, yperiodic=yperiodic), zb.field.Slab(By=1.0, Bz=0.1, xcentre=0.7, Bzprime=0.3), nslice, kw)


def curved(nx=6, ny=3, nz=5, nslice=1, **kw):
    return Model("curved", _rect(nx, ny, nz, 0.4, 1.5, 0.5, xc=2.0), zb.field.CurvedSlab(By=1.0, Bz=0.05, xcentre=2.0, Bzprime=0.1, Rmaj=2.0), nslice, kw)


GEQDSK = os.path.join(REPO if os.path.exists(REPO + "/examples/test_1.geqdsk") else "/repo", "examples", "test_1.geqdsk")
_fields = {}


def _field(name):
    if name not in _fields:
        _fields[name] = {
            "pinch": lambda: zb.field.Screwpinch(xcentre=1.5, shear=0.3),
            "ellipse": lambda: zb.field.RotatingEllipse(xcentre=1.5, radius=0.8, I_coil=0.4, Btor=1.0),
            "straight": lambda: zb.field.StraightStellarator(I_coil=0.1, radius=1.5),
            "geqdsk": lambda: zb.field.GEQDSK(GEQDSK),
        }[name]()
    return _fields[name]


def pinch(nx=5, ny=4, nz=8, nslice=1, yperiodic=True, **kw):
    return Model("pinch", _ring(nx, ny, nz, 1.5, 2 * np.pi if yperiodic else 1.0, yperiodic), _field("pinch"), nslice, kw)


def ellipse(nx=5, ny=3, nz=8, nslice=1, **kw):
    return Model("ellipse", _ring(nx, ny, nz, 1.5, 2 * np.pi / 5), _field("ellipse"), nslice, kw)


def straight(nx=5, ny=3, nz=7, nslice=1, **kw):
    return Model("straight", _rect(nx, ny, nz, 0.8, 6.0, 0.8), _field("straight"), nslice, kw)


def geqdsk(nx=5, ny=2, nz=8, nslice=1, **kw):
    return Model("geqdsk", _ring(nx, ny, nz, 1.0, 0.4, rin=0.1, rout=0.3), _field("geqdsk"), nslice, kw)


def read_file(fn):
    """({variable: array}, {attribute: value}) of a grid file; raises if it does not open"""
    with netCDF4.Dataset(fn) as f:
        f.set_auto_mask(False)
        out = {}
        for k, v in f.variables.items():
            a = np.array(v[...]) if v.shape else np.array(v[()])
            out[k] = a
        return out, {k: f.getncattr(k) for k in f.ncattrs()}


class Unreadable(Exception):
    pass


def read(fn):
    """read_file in a process of its own: the netCDF library may keep a damaged file open, or crash on it"""
    L = disk.live(lambda: read_file(fn), os.path.dirname(fn), disk=False)
    if L.status != "ok":
        raise Unreadable(str(L.error)[:200])
    return L.value


IDS = ("id", "grid_id", "creation_date", "conventions", "software_version")


def content(fn):
    """Variables and stable attributes"""
    v, a = read(os.path.abspath(fn))
    return v, {k: q for k, q in a.items() if k not in IDS}


def plain(fn):
    """content(fn), read in this process"""
    v, a = read_file(fn)
    return [v, {k: q for k, q in a.items() if k not in IDS}]


def export(fn, model, maps=None, new_names=False, metric2d=False, dagp=False, how="writer", extra=None):
    """One complete export"""
    maps = model.maps if maps is None else maps
    if how == "function":
        zb.zoidberg.write_maps(model.grid, model.field, maps, gridfile=fn, new_names=new_names, metric2d=metric2d, quiet=True)
        return
    with zb.zoidberg.MapWriter(fn, new_names=new_names, metric2d=metric2d, quiet=True) as mw:
        if how == "separate":
            mw.add_grid(model.grid)
            mw.add_field(model.field)
        else:
            mw.add_grid_field(model.grid, model.field)
        if extra:
            mw.write_dict(extra)
        mw.add_maps(maps)
        if dagp:
            mw.add_dagp()
