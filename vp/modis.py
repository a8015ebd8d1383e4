"""Symbolic tie points, specification and replay of the MODIS interpolators."""
import math

import numpy as np

from . import stubs, sym
from .arr import base, sa
from .sym import Sym, single_atom, sphere_point, var

R_KM, H_KM = 6370.997, 709.0
RADIUS = 6370997.0
FINE = {250: 4, 500: 2, 1000: 1}
PAIRS = {'5000-1000': 'modis_5km_to_1km', '5000-500': 'modis_5km_to_500m', '5000-250': 'modis_5km_to_250m',
         '1000-500': 'modis_1km_to_500m', '1000-250': 'modis_1km_to_250m'}


def ties(h, w, name=''):
    """Longitudes and latitudes of h x w tie points at arbitrary positions, and the positions' symbols."""
    lon, lat = np.empty((h, w), object), np.empty((h, w), object)
    xyz = [np.empty((h, w), object) for _ in range(3)]
    for i in range(h):
        for j in range(w):
            v = [var('%s%s_%d_%d' % (c, name, i, j), lo=-1, hi=1) for c in 'XYZ']
            lon[i, j], lat[i, j] = sphere_point('%s%d_%d' % (name, i, j), *v)
            for a, b in zip(xyz, v):
                a[i, j] = b
    return sa(lon), sa(lat), xyz


def satz_pattern(kind, h, w, seed=1):
    """Satellite zenith angles of the tie points in degrees."""
    if kind == 'nadir':
        return np.zeros((h, w))
    r = np.random.RandomState(seed)
    ref = np.abs(np.linspace(-64, 64, w))[None, :] + 0.05 * np.arange(h)[:, None]
    if kind == 'sensor':
        return ref
    step = 4 + 40 * r.rand(h, w)          # 'any': neighbouring angles have nothing to do with each other
    out = np.cumsum(step, axis=1) % 75 + 1
    for j in range(1, w):                 # but are not nearly the same
        close = np.abs(out[:, j] - out[:, j - 1]) < 2
        out[:, j] = np.where(close, (out[:, j] + 20) % 75 + 1, out[:, j])
    return out


def coefficients(a, b, width_km):
    """Expansion and alignment of the Compact VIIRS format for zenith angles a and b (degrees)."""
    a, b = math.radians(a), math.radians(b)
    pa, pb = (math.asin(R_KM * math.sin(v) / (R_KM + H_KM)) for v in (a, b))
    ta, tb = a - pa, b - pb
    if ta == tb:
        if ta == 0:
            return 0.0, 0.0
        den = 2 * ta
    else:
        den = ta - tb
    phi = (pa + pb) / 2
    zeta = math.asin((R_KM + H_KM) * math.sin(phi) / R_KM)
    theta = zeta - phi
    exp = 4 * (((ta + tb) / 2 - theta) / den)
    d = ((R_KM + H_KM) / R_KM * math.cos(phi) - math.cos(zeta)) * width_km / (2 * H_KM)
    e = math.cos(zeta) - math.sqrt(math.cos(zeta) ** 2 - d ** 2)
    return exp, 4 * e * math.sin(zeta) / den


def geometry(coarse, fine, width):
    """Rows, columns per scan and, per fine row and column, the tie cell and relative position."""
    f = FINE[fine]
    km = coarse // 1000
    rows = 10 // km
    fr, fc = 10 * f, 1354 * f
    off = (km - 1) / 2      # tie points in the middle of the coarse pixel
    row = [((r - (f - 1) / 2) / f - off) / km for r in range(fr)]
    col = [(c / f - off) / km for c in range(fc)]
    ri = [min(max(math.floor(v), 0), rows - 2) for v in row]
    ci = [min(max(math.floor(v), 0), width - 2) for v in col]
    return rows, [(i, v - i) for i, v in zip(ri, row)], [(i, v - i) for i, v in zip(ci, col)]


def scan_weights(coarse, fine, width, satz):
    """For every fine pixel of a scan: cell row, cell column, track and scan coordinate."""
    _rows, row, col = geometry(coarse, fine, width)
    co = {}
    t = np.empty((len(row), len(col)))
    s = np.empty_like(t)
    ii = np.array([r[0] for r in row])[:, None] + np.zeros((1, len(col)), int)
    jj = np.array([c[0] for c in col])[None, :] + np.zeros((len(row), 1), int)
    for a, (i, tt) in enumerate(row):
        for b, (k, ss) in enumerate(col):
            c = co.get((i, k))
            if c is None:
                c = co[i, k] = coefficients(satz[i, k], satz[i, k + 1], coarse // 1000)
            t[a, b] = tt
            s[a, b] = ss + ss * (1 - ss) * c[0] + tt * (1 - tt) * c[1]
    return ii, jj, t, s


def blend(i, j, t, s, tie):
    """Position of a pixel from the tie points of its cell (symbols)."""
    p = {}
    for di, dj, w in ((0, 0, (1 - t) * (1 - s)), (0, 1, (1 - t) * s), (1, 0, t * (1 - s)), (1, 1, t * s)):
        if w:
            (m, c), = tie[i + di, j + dj].p.items()
            p[m] = p.get(m, 0) + c * w
    return sym.mk(p)


def want_arrays(coarse, fine, width, satz, xyz):
    rows = geometry(coarse, fine, width)[0]
    n = satz.shape[0] // rows
    out = [[] for _ in range(3)]
    for k in range(n):
        sl = slice(k * rows, (k + 1) * rows)
        ii, jj, t, s = scan_weights(coarse, fine, width, satz[sl])
        for o, c in zip(out, xyz):
            tie = c[sl]
            a = np.empty(t.shape, object)
            for idx in np.ndindex(t.shape):
                a[idx] = blend(ii[idx], jj[idx], t[idx], s[idx], tie)
            o.append(a)
    return [sa(np.concatenate(o)) for o in out]


# --------------------------------------------------------------------------
# concrete

def concrete_ties(h, w, seed=0):
    """A smooth but irregular field of tie points away from the poles."""
    r = np.random.RandomState(seed)
    lon = np.linspace(-20, 20, w)[None, :] + 0.1 * np.arange(h)[:, None] + 0.05 * r.rand(h, w)
    lat = np.linspace(-10, 15, w)[None, :] - 0.1 * np.arange(h)[:, None] + 0.05 * r.rand(h, w)
    return lon, lat


def unit(lon, lat):
    a, b = np.radians(lon), np.radians(lat)
    return [np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)]


def want_concrete(coarse, fine, satz, lon, lat):
    """Longitude and latitude by the specification."""
    width = lon.shape[1]
    rows = geometry(coarse, fine, width)[0]
    out = [[] for _ in range(3)]
    for k in range(satz.shape[0] // rows):
        sl = slice(k * rows, (k + 1) * rows)
        ii, jj, t, s = scan_weights(coarse, fine, width, satz[sl])
        for o, c in zip(out, unit(lon[sl], lat[sl])):
            o.append((1 - t) * ((1 - s) * c[ii, jj] + s * c[ii, jj + 1]) + t * ((1 - s) * c[ii + 1, jj] + s * c[ii + 1, jj + 1]))
    return decode(*[np.concatenate(o) for o in out])


def decode(x, y, z):
    with np.errstate(invalid='ignore'):
        lat = np.where(np.abs(z) < 0.8, np.degrees(np.arcsin(z)), np.sign(z) * np.degrees(np.arccos(np.hypot(x, y))))
    return np.degrees(np.arctan2(y, x)), lat


def differ(got, want, tol=1e-6):
    """Text describing the first difference, or None."""
    for n, g, w in zip(('longitude', 'latitude'), got, want):
        g = np.asarray(g)
        if g.shape != w.shape:
            return '%s has shape %s instead of %s' % (n, g.shape, w.shape)
        d = np.abs(g - w)
        if n == 'longitude':
            d = np.minimum(d, np.abs(360 - d))
        bad = ~(d <= tol) & ~np.isnan(w)
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            return '%s at %s is %r instead of %r (%d elements differ)' % (n, k, float(g[k]), float(w[k]), bad.sum())
    return None


def got_positions(j, result, case, what):
    """Positions decoded to the result, or None after reporting a failure."""
    ok = isinstance(result, tuple) and len(result) == 2
    if not j.require(ok, case, '%s: not a pair of longitude and latitude' % what):
        return None
    pos, problems = stubs.positions(*result, radius=RADIUS)
    for q in problems:
        j.fail(case(None, None) if callable(case) else case, '%s: %s' % (what, q))
        return None
    return pos
