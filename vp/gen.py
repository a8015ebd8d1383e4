"""Tie points with given polynomial positions for the interpolators without zenith angles, and their replays."""
import numpy as np

from . import arr, stubs, sym
from .arr import base, sa
from .sym import sphere_point, var

RADIUS = 6370997.0


def combine(fields, name, lo=-1, hi=1):
    """Symbolic array: sum of one symbol per field times the field."""
    ms = []
    for k in range(len(fields)):
        (m,), = [list(var('%s%d' % (name, k), lo=lo, hi=hi).p)]
        ms.append(m)
    return arr.assemble(ms, np.stack([np.asarray(f, dtype=float) for f in fields])), ms


def lonlat(xyz):
    """Longitude and latitude arrays of positions given by symbolic arrays."""
    shape = xyz[0].shape
    lon, lat = np.empty(shape, object), np.empty(shape, object)
    x, y, z = (base(v) for v in xyz)
    for k in np.ndindex(shape):
        lon[k], lat[k] = sphere_point('_'.join(map(str, k)), x[k], y[k], z[k])
    return sa(lon), sa(lat)


def points(fields):
    """Longitude and latitude arrays whose x, y and z are combinations of the fields; and the symbols per coordinate."""
    xyz, ms = zip(*(combine(fields, c) for c in 'XYZ'))
    return lonlat(xyz) + (xyz, ms)


def decoded(j, result, case, what, radius=RADIUS):
    """Positions of a (longitude, latitude) result, or None after reporting."""
    ok = isinstance(result, (tuple, list)) and len(result) == 2
    if not j.require(ok, case, '%s: not a pair of longitude and latitude' % what):
        return None
    pos, problems = stubs.positions(*result, radius=radius)
    for q in problems:
        j.fail(case() if callable(case) else case, '%s: %s' % (what, q))
        return None
    return pos


EPS = 1e-5      # rad
BASES = [np.eye(3)[[0, 1, 2]], np.array([[0, 1, 0], [-1, 0, 0], [0, 0, 1.0]]), np.array([[0, 0, 1.0], [1, 0, 0], [0, 1, 0]]),
         np.array([[-1.0, 0, 0], [0, -1, 0], [0, 0, 1]]), np.array([[0, 0, -1.0], [0, 1, 0], [1, 0, 0]]),
         np.array([[0.48, -0.6, -0.64], [0.8, 0, 0.6], [-0.36, -0.8, 0.48]])]


def directions(r, n):
    """n points all over the unit sphere."""
    p = r.normal(size=(3, n))
    return p / np.sqrt((p ** 2).sum(0))


def geographic(p):
    """Longitude and latitude of positions in units of the radius (G02 with the low-latitude formula)."""
    x, y, z = p
    with np.errstate(invalid='ignore'):
        return np.degrees(np.arctan2(y, x)), np.where(np.abs(z) < 0.8, np.degrees(np.arcsin(np.clip(z, -1, 1))),
                                                      np.sign(z) * (90 - np.degrees(np.arcsin(np.clip(np.hypot(x, y), 0, 1)))))


def same_place(got, want, tol=1e-5):
    """Difference of two (longitude, latitude) pairs as text, or None."""
    names = ('longitude', 'latitude')
    got, want = [np.array(v, float) for v in got], [np.array(v, float) for v in want]
    if got[0].shape == want[0].shape:
        turn = np.round((got[0] - want[0]) / 360) * 360
        got[0] = got[0] - np.where(np.isfinite(turn), turn, 0)
    return compare(got, want, tol, names)


def small(f1, f2, b):
    """Longitude and latitude of a patch near BASES[b][0] whose two tangential coordinates are EPS times f1 and f2."""
    u, v, w = BASES[b]
    p = [EPS * f1 * v[i] + EPS * f2 * w[i] + np.sqrt(1 - EPS ** 2 * (f1 ** 2 + f2 ** 2)) * u[i] for i in range(3)]
    lat = np.degrees(np.where(np.abs(p[2]) < 0.8, np.arcsin(p[2]), np.sign(p[2]) * np.arccos(np.hypot(p[0], p[1]))))
    return np.degrees(np.arctan2(p[1], p[0])), lat


def tangential(lon, lat, b):
    """Inverse of small."""
    u, v, w = BASES[b]
    lo, la = np.radians(lon), np.radians(lat)
    p = np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    return [np.tensordot(q, p, 1) / EPS for q in (v, w)]


def compare(got, want, tol, names=('first', 'second')):
    for n, g, w in zip(names, got, want):
        g = np.asarray(g)
        if g.shape != w.shape:
            return '%s has shape %s instead of %s' % (n, g.shape, w.shape)
        bad = ~(np.abs(g - w) <= tol) & ~(np.isnan(g) & np.isnan(w))
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            return '%s at %s is %r instead of %r (%d elements differ)' % (n, k, float(g[k]), float(w[k]), bad.sum())
    return None


FORMS = {'f8': 'float64, C order', 'f4': 'float32', 'fortran': 'Fortran order', 'strided': 'every second column of an array',
         'reversed': 'view of an array in reverse order'}


def form(a, how):
    """The same data as another kind of array."""
    x = base(a) if isinstance(a, arr.SA) else np.asarray(a)
    dt = np.dtype('f4' if how == 'f4' else 'f8')
    if how == 'fortran':
        x = np.asfortranarray(x)
    elif how == 'strided':
        x = np.repeat(x, 2, axis=1)[:, ::2]
    elif how == 'reversed':
        x = np.ascontiguousarray(x[::-1, ::-1])[::-1, ::-1]
    return arr.sa(x, dt) if isinstance(a, arr.SA) else x.astype(dt, order='K', copy=False)


def form_differs(fn, data, how, positions=True):
    """Text if the real function has another result for arrays of this form than for plain ones."""
    formed = [form(np.asarray(d, float), how) for d in data]
    plain = [np.ascontiguousarray(d, dtype=float) for d in formed]
    try:
        want = [np.asarray(v, float) for v in fn(*plain)]
    except Exception:       # noqa: another case shows that
        return None
    try:
        got = [np.asarray(v, float) for v in fn(*formed)]
    except Exception as e:      # noqa
        return 'raises %r for arrays of form: %s' % (e, FORMS[how])
    if len(got) != len(want) or any(g.shape != w.shape for g, w in zip(got, want)):
        return 'result of shapes %s instead of %s for arrays of form: %s' % ([v.shape for v in got], [v.shape for v in want], FORMS[how])
    if positions:
        def unit(lon, lat):
            lo, la = np.radians(lon), np.radians(lat)
            return [np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]
        got, want = unit(*got), unit(*want)
    e = compare(got, want, 2e-4 if how == 'f4' else 1e-9, ['x', 'y', 'z'] if positions else ['array %d' % k for k in range(len(got))])
    return e and '%s for arrays of form: %s' % (e, FORMS[how])
