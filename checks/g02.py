"""G02: decoding of Cartesian positions."""
import math

import numpy as np

from vp import geo, sym
from vp.arr import base, sa
from vp.sym import Sym, angles, cos_deg, defined, sand, sin_deg, sor, sqrt, var

BUILD = True
edit_scratch = geo.edit_scratch
BOUNDS = ['all real positions with 0 < x^2+y^2+z^2 <= R^2, thresholds in (0, 1), both latitude regimes, default and (generic) any radius > 0',
          '|z| exactly at the threshold is left out (either formula is accepted there by neither)',
          'arrays of shape 1x2 and 2x1 (every element independent)']
ASSUMPTIONS = ['real arithmetic: floating-point rounding (e.g. arcsin of 1 + 1e-16) is not modelled',
               'sine, cosine and their inverses are characterised by axioms (see DESIGN.md)']


def jobs(tier):
    out = []
    for name in ('generic', 'modis', 'vii'):
        for shape in ((1, 2), (2, 1)):
            for low in ((None, True, False) if geo.IMPL[name].low_arg else (None,)):
                for thr in (False, True):
                    out.append(('decode %s %dx%d low_lat_z=%s thr=%s' % ((name,) + shape + (low, 'any' if thr else 'default')),
                                decode, (name, shape, low, thr)))
    return out


def decode(j, name, shape, low, anythr):
    im = geo.IMPL[name](j)
    radii = (None, var('radius', lo=0)) if im.radius_arg else (None,)
    thr = var('thr', lo=0, hi=1) if anythr else None
    t = thr if anythr else 0.8
    for radius in radii:
        # positions in metres for the default radius, in radii for any radius
        r = im.default_radius if radius is None else radius
        u, s = 1, r
        x, y, z = (geo.mats(n, shape, lo=-u, hi=u) for n in 'xyz')
        raw = list(zip(base(x).reshape(-1), base(y).reshape(-1), base(z).reshape(-1)))
        tri = [tuple(v / u for v in t) for t in raw]
        asm = [radius > 0] if radius is not None else []
        if anythr:
            asm += [thr > 0, thr < 1]
        for a, b, c in raw:
            n = a * a + b * b + c * c
            asm += [n > 0, n <= sym.Fraction(u) * sym.Fraction(u)]
        for n, p in enumerate(j.explore(lambda: im.decode(x * s, y * s, z * s, radius, thr, low), asm)):
            case = lambda m, special=True: mkcase(name, m, tri, shape, radius, thr, low, special)
            if p.exc is not None:
                j.prove(False, p.conds, case, 'decoding raises %r' % p.exc)
                continue
            lon, lat = p.result
            for k, (a, b, c), (a_, b_, _) in zip(np.ndindex(shape), tri, raw):
                lo, la = base(lon)[k], base(lat)[k]
                d_ = sqrt(a_ * a_ + b_ * b_)
                d = d_ / u
                reg = [angles(lo, la)]
                j.prove([defined(lo), lo <= 180, lo >= -180], p.conds + reg, case, 'longitude is a number in [-180, 180]')
                j.prove([d_ * cos_deg(lo) == a_, d_ * sin_deg(lo) == b_], p.conds + reg, case, 'longitude is the direction of (x, y)')
                j.prove([defined(la), la <= 90, la >= -90], p.conds + reg, case, 'latitude is a number in [-90, 90]')
                lowform = sand(c < t, c > -t) if low in (None, True) else False
                off = sand(sor(c - t > EPS, c - t < -EPS), sor(c + t > EPS, c + t < -EPS))
                if lowform is not False:
                    j.prove([sin_deg(la) == c], p.conds + reg + [lowform, off], case, 'latitude from z')
                high = sym.snot(lowform) if lowform is not False else True
                conds = p.conds + reg + [q for q in (high, off, c != 0) if q is not True]
                j.prove([cos_deg(la) == d], conds, case, 'latitude from the distance to the axis')
                j.prove([sor(sand(c > 0, la >= 0), sand(c < 0, la <= 0), c == 0)], p.conds + reg, case, 'hemisphere')
            if n < 2:
                j.reach(p.conds, lambda m: case(m, False), 'decoding')


EPS = 1e-9
_S = [[math.cos(la) * math.cos(lo) * s, math.cos(la) * math.sin(lo) * s, math.sin(la) * s] for s in (0.6, 0.9, 0.999999)
      for la in np.radians([-85, -70, -30, 5, 40, 60, 88]) for lo in np.radians([-179, -100, -45, 0, 30, 90, 135, 180])]
SPECIAL = _S + [[-0.9, 0, 0.1], [-0.3, 0.0, 0.9], [0, 0, 0.95], [0, 0, -0.95], [0, 0, 0.5], [0.5, 0, 0], [0, -0.5, 0.01], [0.1, 0, -0.97]]


def mkcase(name, m, tri, shape, radius, thr, low, special):
    f = lambda v: m.f(v) if isinstance(v, Sym) else v
    pts = []
    for t in tri:
        v = [m.f(q) for q in t]
        n = math.sqrt(sum(q * q for q in v))
        if n > 1 - 1e-12:       # rounding must not leave the sphere
            v = [q * (1 - 1e-12) / n for q in v]
        pts.append(v)
    return {'impl': name, 'points': pts + (SPECIAL if special else []), 'shape': list(shape),
            'radius': f(radius), 'thr': f(thr), 'low': low}


def replay(c):
    pts = np.array(c['points'])
    shape = (1, len(pts)) if c['shape'][0] == 1 else (len(pts), 1)
    r = c['radius'] or {'vii': geo.R_VII}.get(c['impl'], geo.R_GENERIC)
    x, y, z = (pts[:, i].reshape(shape) for i in range(3))
    lo, la = geo.real_decode(c['impl'], x * r, y * r, z * r, c['radius'], c['thr'], c['low'])
    t = 0.8 if c['thr'] is None else c['thr']
    d = np.hypot(x, y)
    low = (np.abs(z) < t) & (c['low'] is not False)
    with np.errstate(all='ignore'):
        wlat = np.where(low, np.degrees(np.arcsin(z)), np.sign(z) * np.degrees(np.arccos(d)))
        wlon = np.degrees(np.arctan2(y, x))
        dl = np.abs((lo - wlon + 180) % 360 - 180)
        okl = np.isfinite(lo) & (np.abs(lo) <= 180 + 1e-9) & ((dl < 1e-6) | (d < 1e-9))
        near = np.abs(np.abs(z) - t) < 1e-9
        okb = np.isfinite(la) & (np.abs(la) <= 90 + 1e-9) & ((np.abs(la - wlat) < 2e-4) | near | ((z == 0) & ~low))
    for n, ok, g, w in (('longitude', okl, lo, wlon), ('latitude', okb, la, wlat)):
        if not ok.all():
            k = tuple(np.argwhere(~ok)[0])
            return True, '%s of (%r, %r, %r)*R is %r instead of %r' % (n, x[k], y[k], z[k], g[k], w[k])
    return False, 'ok'
