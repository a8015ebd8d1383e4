"""M01: satellite-zenith-angle based MODIS interpolation, weights and cells."""
import numpy as np

from vp import gen, geo, harness, modis, stubs
from . import g02

BUILD = True
edit_scratch = geo.edit_scratch
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-7 of the radius is required)',
               'tie points are arbitrary positions of the unit sphere (any three numbers); the decoding to longitude and latitude is '
               'recorded, not executed, and is decided by a job of its own for all positions',
               'numpy, dask and warnings are the real ones; numpy arrays of symbols follow numpy semantics (vp/arr.py)']


def cases(tier):
    out = [('5000-1000', 271, 2, 'any'), ('5000-1000', 270, 2, 'any'), ('5000-1000', 271, 1, 'nadir'), ('5000-1000', 270, 1, 'sensor'),
           ('5000-500', 271, 1, 'any'), ('5000-500', 270, 1, 'nadir'), ('1000-500', 1354, 1, 'any')]
    if tier == 'thorough':
        out += [('5000-500', 270, 2, 'any'), ('5000-500', 271, 2, 'sensor'), ('1000-500', 1354, 2, 'any'), ('1000-500', 1354, 1, 'nadir'),
                ('1000-500', 1354, 1, 'sensor'), ('1000-250', 1354, 1, 'any'), ('1000-250', 1354, 1, 'nadir'),
                ('5000-250', 271, 1, 'any'), ('5000-250', 270, 1, 'any'), ('5000-250', 271, 1, 'nadir'), ('5000-1000', 271, 3, 'any')]
    else:
        out += [('5000-250', 271, 1, 'any'), ('1000-250', 1354, 1, 'any')]
    return out


def forms(tier):
    return [('5000-1000', 270, 1, 'sensor', 'f4'), ('5000-1000', 271, 1, 'any', 'fortran'), ('5000-500', 271, 1, 'sensor', 'f4'),
            ('1000-500', 1354, 1, 'sensor', 'f4')] + [('1000-500', 1354, 1, 'any', 'strided'), ('5000-250', 271, 1, 'any', 'f4'),
                                                      ('5000-500', 270, 1, 'any', 'reversed')] * (tier == 'thorough')


def BOUNDS(tier):
    return ['other forms of arrays: %s' % forms(tier),
            'tie points: any positions; zenith angles: the listed fields (nadir, a sensor-like field, a field whose neighbouring angles are '
            'unrelated, seeded by VERIF_SEED)'] + ['%s, width %d, %d scans, angles: %s' % c for c in cases(tier)]


def jobs(tier):
    out = [('%s width %d scans %d satz %s' % c, run, c) for c in sorted(cases(tier), key=cost)]
    out += [('%s width %d scans %d satz %s %s' % c, run, c) for c in forms(tier)]
    out.append(('decoding', g02.decode, ('modis', (1, 2), None, False)))
    return out


def cost(c):
    c_, f = c[0].split('-')
    return -c[2] * modis.FINE[int(f)] ** 2


def run(j, pair, width, scans, kind, form='f8'):
    coarse, fine = (int(v) for v in pair.split('-'))
    rows = 10000 // coarse
    m = j.loader(hooks=[stubs.decode_cython]).load('geotiepoints.modisinterpolator')
    fn = getattr(m, modis.PAIRS[pair])
    lon, lat, xyz = modis.ties(rows * scans, width)
    satz = modis.satz_pattern(kind, rows * scans, width, harness.SEED)
    if form == 'f4':
        satz = satz.astype('f4').astype('f8')
    args = [gen.form(v, form) for v in (lon, lat, satz)]

    def case(mod=None, k=None):
        return {'pair': pair, 'width': width, 'scans': scans, 'kind': kind, 'seed': harness.SEED, 'form': form}
    for p in j.explore(lambda: fn(*args)):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        pos = modis.got_positions(j, p.result, case, pair)
        if pos is None:
            continue
        want = modis.want_arrays(coarse, fine, width, satz, xyz)
        for n, g, w in zip('xyz', pos, want):
            j.equal_arrays(g, w, 1e-7, p.conds, case, '%s of every pixel' % n)
        j.reach(p.conds, case, 'interpolation')


def replay(c):
    if 'impl' in c:
        return g02.replay(c)
    from geotiepoints import modisinterpolator
    coarse, fine = (int(v) for v in c['pair'].split('-'))
    h = 10000 // coarse * c['scans']
    lon, lat = modis.concrete_ties(h, c['width'])
    satz = modis.satz_pattern(c['kind'], h, c['width'], c['seed'])
    if c.get('form', 'f8') != 'f8':
        e = gen.form_differs(getattr(modisinterpolator, modis.PAIRS[c['pair']]), (lon, lat, satz), c['form'])
        return (True, e) if e else (False, 'ok')
    try:
        got = getattr(modisinterpolator, modis.PAIRS[c['pair']])(lon, lat, satz)
    except Exception as e:      # noqa: any exception is a violation
        return True, 'raises %r' % e
    d = modis.differ(got, modis.want_concrete(coarse, fine, satz, lon, lat), 1e-7)
    return (True, d) if d else (False, 'ok')
