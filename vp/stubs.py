"""Stand-ins for the numerical libraries the code under test calls.

scipy's spline, grid and coordinate interpolators are linear in the data they
interpolate: the real scipy function is applied to the coefficient array of
every symbol of the data (exact in real arithmetic).  Where positions are
symbolic the interpolators become uninterpreted functions.
"""
import types

import numpy as np

from . import arr, sym
from .arr import SA, sa, base, linear, is_concrete, concrete
from .loader import Namespace
from .sym import Unsupported


def _c(x):
    if isinstance(x, (list, tuple)) and not arr._has_sa(x):
        x = np.asarray(x)
    if isinstance(x, SA) and not is_concrete(x):
        raise Unsupported('symbolic position')
    return concrete(arr.asarray(x))


def real_scipy(name):
    import importlib
    return importlib.import_module('scipy.' + name)


class RectBivariateSpline:
    """scipy.interpolate.RectBivariateSpline applied coefficient-wise."""

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0, maxit=20):
        self.bbox = [None] * 4 if bbox is None else bbox
        z = arr.asarray(z)
        self.z, self.x, self.y = z, _c(x), _c(y)
        self.k = dict(kx=kx, ky=ky, s=s, bbox=self.bbox)
        R = real_scipy('interpolate').RectBivariateSpline
        if not isinstance(z, SA):
            self.ms, self.spl = None, R(self.x, self.y, z, **self.k)
            return
        if s and not is_concrete(z):
            raise Unsupported('smoothing spline')
        self.ms = arr.monomials(z) or [()]
        self.spl = [R(self.x, self.y, a, **self.k) for a in arr.slabs(z, self.ms)]

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        x, y = _c(x), _c(y)
        if self.ms is None:
            return self.spl(x, y, dx=dx, dy=dy, grid=grid)
        return arr.assemble(self.ms, np.stack([s(x, y, dx=dx, dy=dy, grid=grid) for s in self.spl]))

    def ev(self, x, y, dx=0, dy=0):
        return self(x, y, dx=dx, dy=dy, grid=False)


class Tck:
    def __init__(self, ms, tcks):
        self.ms, self.tcks = ms, tcks


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
    f = real_scipy('interpolate').splrep
    kw = dict(w=w, xb=xb, xe=xe, k=k, task=task, s=s, t=t, per=per, quiet=quiet)
    y = arr.asarray(y)
    if not isinstance(y, SA):
        return f(_c(x), y, **kw)
    if (s or (w is not None and s is None)) and not is_concrete(y):
        raise Unsupported('smoothing spline')
    ms = arr.monomials(y) or [()]
    return Tck(ms, [f(_c(x), a, **kw) for a in arr.slabs(y, ms)])


def splev(x, tck, der=0, ext=0):
    f = real_scipy('interpolate').splev
    if not isinstance(tck, Tck):
        return f(_c(x), tck, der=der, ext=ext)
    return arr.assemble(tck.ms, np.stack([f(_c(x), t, der=der, ext=ext) for t in tck.tcks]))


class RegularGridInterpolator:
    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=np.nan, **kw):
        R = real_scipy('interpolate').RegularGridInterpolator
        values = arr.asarray(values)
        points = tuple(_c(p) for p in points)
        self.method, self.fill_value, self.bounds_error = method, fill_value, bounds_error
        kw = dict(kw, method=method, bounds_error=bounds_error)
        self.values = values
        if not isinstance(values, SA):
            self.ms, self.f = None, R(points, values, fill_value=fill_value, **kw)
            return
        if method == 'pchip' and not is_concrete(values):
            raise Unsupported('pchip is not linear')
        self.ms = arr.monomials(values)
        if () not in self.ms:
            self.ms = [()] + self.ms
        self.f = [R(points, a, fill_value=fill_value if not m or fill_value is None else 0.0, **kw)
                  for m, a in zip(self.ms, arr.slabs(values, self.ms))]

    def __call__(self, xi, method=None, **kw):
        if isinstance(xi, (list, tuple)):
            xi = tuple(_c(x) for x in xi)
        else:
            xi = _c(xi)
        if method is not None:
            kw['method'] = method
        if self.ms is None:
            return self.f(xi, **kw)
        return arr.assemble(self.ms, np.stack([f(xi, **kw) for f in self.f]))


def map_coordinates(input, coordinates, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
    f = real_scipy('ndimage').map_coordinates
    inp, co = arr.asarray(input), _c(coordinates).astype(float)
    if cval and not is_concrete(inp):
        raise Unsupported('cval')
    r = linear(lambda a: f(np.asarray(a, dtype=float), co, order=order, mode=mode, cval=cval, prefilter=prefilter), inp)
    if output is None:
        return r
    if isinstance(output, np.ndarray):
        if output.shape != r.shape:
            raise RuntimeError('output shape not correct')
        if not isinstance(output, SA):
            output[...] = r
        else:
            base(output)[...] = base(r) if isinstance(r, SA) else r
        return output
    return r.astype(output)


def make_interp1d(*a, **k):
    raise Unsupported('interp1d')


def scipy_overrides():
    interp = Namespace('scipy.interpolate', None, RectBivariateSpline=RectBivariateSpline, splrep=splrep, splev=splev,
                       RegularGridInterpolator=RegularGridInterpolator)
    nd = Namespace('scipy.ndimage', None, map_coordinates=map_coordinates)
    top = Namespace('scipy', None, interpolate=interp, ndimage=nd)
    return {'scipy': top, 'scipy.interpolate': interp, 'scipy.ndimage': nd}


# --------------------------------------------------------------------------
# decoding of Cartesian positions

class Decode:
    """What a decoded longitude or latitude was computed from."""
    __slots__ = ('what', 'x', 'y', 'z', 'params')

    def __init__(self, what, x, y, z, params):
        self.what, self.x, self.y, self.z, self.params = what, x, y, z, params


def decode_cython(loader, module):
    """Loader hook: the decoding of the compiled modules is recorded, not executed."""
    if module.__name__.rpartition('.')[2] != '_modis_utils':
        return
    real = getattr(module, 'xyz2lonlat', None)
    if real is None or real.__code__.co_argcount < 3:
        raise Unsupported('xyz2lonlat of _modis_utils not found')

    def xyz2lonlat(xyz, lons, lats, low_lat_z=True, thr=0.8):
        from .cyrt import _g3, _s2
        p = (bool(low_lat_z), float(thr), 6370997.0)
        for i in range(xyz.shape[0]):
            for j in range(xyz.shape[1]):
                x, y, z = _g3(xyz, i, j, 0), _g3(xyz, i, j, 1), _g3(xyz, i, j, 2)
                _s2(lons, i, j, sym.opaque('lon', Decode('lon', x, y, z, p)))
                _s2(lats, i, j, sym.opaque('lat', Decode('lat', x, y, z, p)))
    module.xyz2lonlat = xyz2lonlat


def decode_python(loader, module):
    """Loader hook: the decoding of the generic interpolators is recorded, not executed."""
    if module.__name__.rpartition('.')[2] != 'geointerpolator':
        return
    real = getattr(module, 'xyz2lonlat', None)
    if real is None or real.__code__.co_argcount < 3:
        raise Unsupported('xyz2lonlat of geointerpolator not found')

    def xyz2lonlat(x__, y__, z__, radius=module.EARTH_RADIUS, thr=0.8, low_lat_z=True):
        p = (bool(low_lat_z), float(thr), float(radius))
        x__, y__, z__ = (arr.asarray(v) for v in (x__, y__, z__))
        bx, by, bz = np.broadcast_arrays(base(x__), base(y__), base(z__))
        lon = np.empty(bx.shape, dtype=object)
        lat = np.empty(bx.shape, dtype=object)
        for k in np.ndindex(bx.shape):
            lon[k] = sym.opaque('lon', Decode('lon', bx[k], by[k], bz[k], p))
            lat[k] = sym.opaque('lat', Decode('lat', bx[k], by[k], bz[k], p))
        dt = arr.result_dtype([x__, y__, z__])
        return sa(lon, dt), sa(lat, dt)
    module.xyz2lonlat = xyz2lonlat


def decoded(v):
    """Decode record of an output element, or None."""
    s = sym.single_atom(v)
    if s is None or s[0] != 1 or s[1].kind != 'opaque' or not isinstance(s[1].payload, Decode):
        return None
    return s[1].payload


def positions(lons, lats, radius=6370997.0, params=None):
    """(x, y, z) symbolic arrays (unit sphere) of decoded arrays, and a list of what is wrong with them."""
    bl, bb = base(lons), base(lats)
    if bl.shape != bb.shape:
        return None, ['longitude and latitude have shapes %s and %s' % (bl.shape, bb.shape)]
    params = params or (True, 0.8, radius)
    out = [np.empty(bl.shape, dtype=object) for _ in range(3)]
    for k in np.ndindex(bl.shape):
        a, b = decoded(bl[k]), decoded(bb[k])
        if a is None or b is None:
            return None, ['element %s is not a decoded position' % (k,)]
        if a.what != 'lon' or b.what != 'lat':
            return None, ['longitude and latitude are exchanged at %s' % (k,)]
        if b.params != params:
            return None, ['decoded with %s at %s' % (b.params, k)]
        if a.x is not b.x or a.y is not b.y or a.z is not b.z:
            if any(sym.vkey(p) != sym.vkey(q) for p, q in ((a.x, b.x), (a.y, b.y), (a.z, b.z))):
                return None, ['longitude and latitude of different positions at %s' % (k,)]
        for o, v in zip(out, (a.x, a.y, a.z)):
            o[k] = v / radius if isinstance(v, sym.Sym) else sym.num(v) / radius
    return [sa(o) for o in out], []
