"""M03: no undefined operation for any zenith angles."""
import numpy as np

from vp import geo, modis, sym
from vp.arr import base
from vp.sym import angles, cos_deg, defined, sand, sor
from . import m02

BUILD = True
edit_scratch = geo.edit_scratch
ASSUMPTIONS = m02.ASSUMPTIONS[:2] + [
    'finite means: no division by zero and no square root or inverse sine outside its domain in real arithmetic; overflow is not modelled',
    'decoding of the resulting positions to longitude and latitude is not part of this property (G02)']


def cases(tier):
    out = [('5000-1000', 271, 1), ('1000-500', 1354, 1)]
    if tier == 'thorough':
        out += [('5000-1000', 270, 2), ('5000-500', 271, 1), ('5000-250', 270, 1), ('1000-250', 1354, 1)]
    return out


def BOUNDS(tier):
    return ['zenith angles: any a and b in [0, %d] degrees, equal ones and zero included; every cell has the angles (a, b) or (b, a)' % m02.AMAX
            ] + ['%s, width %d, %d scans' % c for c in cases(tier)]


def jobs(tier):
    return [('%s width %d scans %d' % c, run, c) for c in sorted(cases(tier), key=m02.cost)]


def run(j, pair, width, scans):
    coarse, fine, fn, lon, lat, satz, a, b, asm = m02.setup(j, pair, width, scans)

    def case(m=None, k=None, special=True):
        vals = [(m.f(a), m.f(b))] if m is not None else []
        return {'pair': pair, 'width': width, 'scans': scans, 'angles': vals + (VALUES if special else [])}
    for p in j.explore(lambda: fn(lon, lat, satz), asm):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        for u in p.undef:
            j.prove(False, p.conds, case, u)
        pos = modis.got_positions(j, p.result, case, pair)
        if pos is None:
            continue
        factors = {}
        for c in pos:
            for v in base(c).reshape(-1):
                j.claims += 1
                if type(v) is not sym.Sym:
                    if v != v or abs(v) == float('inf'):
                        j.fail(case(), 'position is %r' % v)
                        return
                    continue
                for m in v.p:
                    for i, e in m:
                        factors[(i, e < 0)] = True
        for (i, inv) in sorted(factors):
            at = sym.ATOMS[i]
            x = sym.Sym({((i, -1 if inv else 1),): 1})
            if not j.require(not sym.is_junk(x), case, 'a position depends on memory that was never written'):
                return
            bounds = angles(a, b, m02.AMAX)
            if not j.prove(claim(x), p.conds + [bounds], case, 'defined: %s' % (repr(x)[:200],), opts={'link_all': True}):
                return
        j.reach(p.conds, lambda m: case(m, special=False), 'path')


def claim(x):
    return [defined(x)]


VALUES = m02.VALUES + [(0, 80), (80, 0), (80, 80), (1e-8, 1e-8), (1e-8, 0), (79.9, 80), (0, 0.001)]


def replay(c):
    from geotiepoints import modisinterpolator
    coarse, fine = (int(v) for v in c['pair'].split('-'))
    h = 10000 // coarse * c['scans']
    lon, lat = modis.concrete_ties(h, c['width'])
    for a, b in c['angles']:
        if abs(a - b) < 1e-4 and a != b:
            continue        # the positions are finite but may lie outside the sphere
        satz = m02.checkerboard(h, c['width'], a, b).astype(float)
        got = getattr(modisinterpolator, modis.PAIRS[c['pair']])(lon, lat, satz)
        want = modis.want_concrete(coarse, fine, satz, lon, lat)
        for n, g, w in zip(('longitude', 'latitude'), got, want):
            bad = ~np.isfinite(g) & np.isfinite(w)
            if bad.any():
                return True, 'zenith angles %r and %r: %s is %r at %d pixels' % (a, b, n, float(g[bad][0]), bad.sum())
    return False, 'ok'
