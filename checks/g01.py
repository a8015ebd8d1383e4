"""G01: Cartesian conversion and back."""
import math

import numpy as np

from vp import geo, sym
from vp.arr import base
from vp.sym import angles, cos_deg, defined, sand, sin_deg, sor, var

BUILD = True
edit_scratch = geo.edit_scratch
BOUNDS = ['all real longitudes in (-180, 180], latitudes in [-90, 90], thresholds in (0, 1] and (generic) radii > 0',
          'arrays of shape 1x2 and 2x1 (every element independent); no bound on values']
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled; M_PI and numpy.pi are one and the same number pi',
               'sine and cosine are characterised by c^2+s^2=1, their signs, values at multiples of 90 degrees, monotonicity on half '
               'turns and addition of quarter turns; arcsine, arccosine and atan2 as their inverses']


def jobs(tier):
    out = []
    for name in ('generic', 'modis', 'vii'):
        for shape in ((1, 2), (2, 1)):
            out.append(('encode %s %dx%d' % ((name,) + shape), encode, (name, shape)))
            for low in ((None, True, False) if geo.IMPL[name].low_arg else (None,)):
                for thr in (False, True):
                    if low is None and thr and geo.IMPL[name].low_arg:
                        continue
                    out.append(('round trip %s %dx%d low_lat_z=%s thr=%s' % ((name,) + shape + (low, 'any' if thr else 'default')),
                                roundtrip, (name, shape, low, thr)))
    return out


def setup(name, shape):
    lon = geo.mats('lon', shape, lo=-180, hi=180)
    lat = geo.mats('lat', shape, lo=-90, hi=90)
    return lon, lat, [v > -180 for v in base(lon).reshape(-1)]


def pts(m, lon, lat):
    out = []
    for a, b in zip(base(lon).reshape(-1), base(lat).reshape(-1)):
        for lo in {m.f(a), math.degrees(math.atan2(m.f(sin_deg(a)), m.f(cos_deg(a))))}:
            for la in {m.f(b), math.degrees(math.asin(max(-1, min(1, m.f(sin_deg(b))))))}:
                out.append([lo, la])
    return out


SPECIAL = [[lo, la] for lo in (-179.9, -135.0, -90.0, -30.0, 0.0, 45.0, 100.0, 179.0, 180.0)
           for la in (-90.0, -89.99999, -89.95, -75.0, -54.0, -30.0, 0.0, 20.0, 53.0, 60.0, 89.9, 89.999, 89.999999, 90.0)]


def mkcase(kind, name, m, lon, lat, radius=None, thr=None, low=None, special=True):
    f = lambda v: m.f(v) if isinstance(v, sym.Sym) else v
    return {'kind': kind, 'impl': name, 'points': pts(m, lon, lat) + (SPECIAL if special else []),
            'shape': list(lon.shape), 'radius': f(radius), 'thr': f(thr), 'low': low}


def encode(j, name, shape):
    im = geo.IMPL[name](j)
    lon, lat, assume = setup(name, shape)
    for radius in ((None, var('radius', lo=0)) if im.radius_arg else (None,)):
        r = im.default_radius if radius is None else radius
        for p in j.explore(lambda: im.encode(lon, lat, radius), assume):
            case = lambda m, special=True: mkcase('encode', name, m, lon, lat, radius, special=special)
            if p.exc is not None:
                j.prove(False, p.conds, case, 'encoding raises %r' % p.exc)
                continue
            x, y, z = p.result
            claims = []
            for k in np.ndindex(shape):
                lo, la = base(lon)[k], base(lat)[k]
                want = (r * cos_deg(la) * cos_deg(lo), r * cos_deg(la) * sin_deg(lo), r * sin_deg(la))
                for got, w in zip((x, y, z), want):
                    g = base(got)[k]
                    claims += [sym.close(g, w, 1e-3) if radius is None else (g == w), defined(g)]
            pre = [] if radius is None else [radius > 0]
            j.prove(claims, p.conds + pre, case, 'position on the sphere')
            j.reach(p.conds + pre, lambda m: case(m, False), 'encoding')


def roundtrip(j, name, shape, low, anythr):
    im = geo.IMPL[name](j)
    lon, lat, assume = setup(name, shape)
    thr = var('thr', lo=0, hi=1) if anythr else None
    if anythr:
        assume = assume + [thr > 0]
    for radius in ((None, var('radius', lo=0)) if im.radius_arg else (None,)):
        asm = assume + ([radius > 0] if radius is not None else [])

        def run():
            x, y, z = im.encode(lon, lat, radius)
            return im.decode(x, y, z, radius, thr, low)
        for n, p in enumerate(j.explore(run, asm)):
            case = lambda m, special=True: mkcase('roundtrip', name, m, lon, lat, radius, thr, low, special)
            if p.exc is not None:
                j.prove(False, p.conds, case, 'round trip raises %r' % p.exc)
                continue
            lo2, la2 = p.result
            for k in np.ndindex(shape):
                lo, la, a, b = (base(v)[k] for v in (lon, lat, lo2, la2))
                pole = sor(la == 90, la == -90)
                reg = angles(lo, la, b)
                j.prove([sor(pole, a == lo), defined(a)], p.conds + [reg], case, 'longitude after the round trip')
                j.prove([b == la, defined(b)], p.conds + [reg], case, 'latitude after the round trip')
            if n < 2:
                j.reach(p.conds, lambda m: case(m, False), 'round trip')


def replay(c):
    pts = np.array(c['points'])
    shape = (1, len(pts)) if c['shape'][0] == 1 else (len(pts), 1)
    lon, lat = pts[:, 0].reshape(shape), pts[:, 1].reshape(shape)
    r = c['radius'] or {'vii': geo.R_VII}.get(c['impl'], geo.R_GENERIC)
    got = geo.real_encode(c['impl'], lon, lat, c['radius'])
    a, b = np.radians(lon), np.radians(lat)
    if c['kind'] == 'encode':
        want = r * np.cos(b) * np.cos(a), r * np.cos(b) * np.sin(a), r * np.sin(b)
        for n, g, w in zip('xyz', got, want):
            bad = ~(np.abs(g - w) <= 1e-9 * r)
            if bad.any():
                k = tuple(np.argwhere(bad)[0])
                return True, '%s of longitude %r latitude %r is %r instead of %r' % (n, lon[k], lat[k], g[k], w[k])
        return False, 'ok'
    lo, la = geo.real_decode(c['impl'], *got, c['radius'], c['thr'], c['low'])
    dl = (lo - lon + 180) % 360 - 180
    for n, d, g, w in (('longitude', np.where(np.abs(lat) > 89.9999995, np.where(np.isnan(lo), np.nan, 0), dl), lo, lon), ('latitude', la - lat, la, lat)):
        bad = ~(np.abs(d) <= 2e-5)
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            return True, '%s of longitude %r latitude %r comes back as %r' % (n, lon[k], lat[k], g[k])
    return False, 'ok'
