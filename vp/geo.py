"""The three implementations of the conversions between longitude/latitude and Cartesian positions."""
import math
from fractions import Fraction

import numpy as np

from . import arr, stubs, sym
from .arr import base, sa
from .loader import Namespace
from .sym import Sym, cos_deg, sand, sin_deg, sor, sqrt, var

R_GENERIC = 6370997.0
R_VII = 6371008.7714


def mats(names, shape, **kw):
    out = np.empty(shape, dtype=object)
    for k in np.ndindex(shape):
        out[k] = var('%s%s' % (names, ''.join('_%d' % i for i in k)), **kw)
    return sa(out)


class Generic:
    name = 'generic'
    radius_arg = True
    low_arg = True
    default_radius = R_GENERIC

    def __init__(self, job):
        self.m = job.loader().load('geotiepoints.geointerpolator')

    def encode(self, lon, lat, radius=None):
        kw = {} if radius is None else {'radius': radius}
        return self.m.lonlat2xyz(lon, lat, **kw)

    def decode(self, x, y, z, radius=None, thr=None, low=None):
        kw = {}
        if radius is not None:
            kw['radius'] = radius
        if thr is not None:
            kw['thr'] = thr
        if low is not None:
            kw['low_lat_z'] = low
        return self.m.xyz2lonlat(x, y, z, **kw)


class Modis:
    name = 'modis'
    radius_arg = False
    low_arg = True
    default_radius = R_GENERIC

    def __init__(self, job):
        self.m = job.loader().load('geotiepoints._modis_utils')

    def encode(self, lon, lat, radius=None):
        xyz = arr.fullfill(lon.shape + (3,), sym.junk(), np.float64)
        self.m.lonlat2xyz(lon, lat, xyz)
        return xyz[..., 0], xyz[..., 1], xyz[..., 2]

    def decode(self, x, y, z, radius=None, thr=None, low=None):
        xyz = sa(np.ascontiguousarray(np.stack([base(v) for v in (x, y, z)], axis=-1)))
        lon = arr.fullfill(x.shape, sym.junk(), np.float64)
        lat = arr.fullfill(x.shape, sym.junk(), np.float64)
        kw = {}
        if thr is not None:
            kw['thr'] = thr
        if low is not None:
            kw['low_lat_z'] = low
        self.m.xyz2lonlat(xyz, lon, lat, **kw)
        return lon, lat


class Vii:
    name = 'vii'
    radius_arg = False
    low_arg = False
    default_radius = Fraction(str(R_VII))

    def __init__(self, job):
        xr = Namespace('xarray', None, where=arr._where, DataArray=object)
        self.m = job.loader(overrides={'xarray': xr}).load('geotiepoints.viiinterpolator')
        for k, v in vars(self.m).items():
            if k.isupper() and isinstance(v, float):
                setattr(self.m, k, Fraction(str(v)))     # exact arithmetic

    def encode(self, lon, lat, radius=None):
        return self.m._lonlat2xyz(lon, lat)

    def decode(self, x, y, z, radius=None, thr=None, low=None):
        kw = {} if thr is None else {'z_threshold_use_xy': thr}
        return self.m._xyz2lonlat(x, y, z, **kw)


IMPL = {c.name: c for c in (Generic, Modis, Vii)}

# --------------------------------------------------------------------------
# the real implementations (for replays; the package is on sys.path)

PROBE = '''

def vp_lonlat2xyz(floating[:, ::1] lons, floating[:, ::1] lats, floating[:, :, ::1] xyz):
    lonlat2xyz(lons, lats, xyz)


def vp_xyz2lonlat(floating[:, :, ::1] xyz, floating[:, ::1] lons, floating[:, ::1] lats, low_lat_z=None, thr=None):
    cdef bint low
    cdef floating t
    if low_lat_z is None and thr is None:
        xyz2lonlat(xyz, lons, lats)
        return
    low = True if low_lat_z is None else low_lat_z
    if thr is None:
        xyz2lonlat(xyz, lons, lats, low)
    else:
        t = thr
        xyz2lonlat(xyz, lons, lats, low, t)
'''


def edit_scratch(pkg):
    """Makes the C functions of the scratch copy callable."""
    import os
    with open(os.path.join(pkg, '_modis_utils.pyx'), 'a') as f:
        f.write(PROBE)


def real_encode(name, lon, lat, radius=None):
    lon, lat = np.array(lon, dtype=float), np.array(lat, dtype=float)
    if name == 'generic':
        from geotiepoints.geointerpolator import lonlat2xyz
        return lonlat2xyz(lon, lat, **({} if radius is None else {'radius': radius}))
    if name == 'modis':
        from geotiepoints._modis_utils import vp_lonlat2xyz
        xyz = np.full(lon.shape + (3,), np.nan)
        vp_lonlat2xyz(lon, lat, xyz)
        return xyz[..., 0], xyz[..., 1], xyz[..., 2]
    from geotiepoints.viiinterpolator import _lonlat2xyz
    import xarray as xr
    return tuple(v.values for v in _lonlat2xyz(xr.DataArray(lon, dims=('a', 'b')), xr.DataArray(lat, dims=('a', 'b'))))


def real_decode(name, x, y, z, radius=None, thr=None, low=None):
    x, y, z = (np.array(v, dtype=float) for v in (x, y, z))
    kw = {}
    if thr is not None:
        kw['z_threshold_use_xy' if name == 'vii' else 'thr'] = thr
    if low is not None:
        kw['low_lat_z'] = low
    if name == 'generic':
        from geotiepoints.geointerpolator import xyz2lonlat
        if radius is not None:
            kw['radius'] = radius
        return xyz2lonlat(x, y, z, **kw)
    if name == 'modis':
        from geotiepoints._modis_utils import vp_xyz2lonlat
        lon, lat = np.full(x.shape, np.nan), np.full(x.shape, np.nan)
        vp_xyz2lonlat(np.ascontiguousarray(np.stack([x, y, z], axis=-1)), lon, lat, **kw)
        return lon, lat
    from geotiepoints.viiinterpolator import _xyz2lonlat
    import xarray as xr
    r = _xyz2lonlat(*(xr.DataArray(v, dims=('a', 'b')) for v in (x, y, z)), **kw)
    return tuple(v.values for v in r)
