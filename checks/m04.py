"""M04: simple MODIS interpolation."""
import numpy as np

from vp import gen, geo, harness, modis, stubs
from vp.arr import assemble, sa
from . import g02

BUILD = True
edit_scratch = geo.edit_scratch
NAMES = {500: 'modis_1km_to_500m', 250: 'modis_1km_to_250m'}
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-9 of the radius is required)',
               'scipy.ndimage.map_coordinates is linear in its data: the real function is applied to every coefficient',
               'tie points are arbitrary positions (any three numbers); the decoding is recorded, not executed, and is decided by a job of '
               'its own for all positions']


LARGE = 60


def cases(tier):
    out = [(f, w, n) for f in (500, 250) for w, n in ((2, 1), (3, 2), (7, 1), (12, 2), (2, 7), (1354, 1), (5, 21))]
    if tier == 'thorough':
        out += [(f, w, n) for f in (500, 250) for w, n in ((4, 3), (5, 1), (33, 2), (60, 1), (1354, 2), (3, 60))]
    return out


def forms(tier):
    return [(500, 4, 1, 'f4'), (250, 5, 2, 'f4'), (500, 5, 2, 'fortran'), (250, 3, 1, 'strided'), (500, 3, 1, 'reversed')]


def BOUNDS(tier):
    return ['other forms of arrays: %s' % forms(tier),
            'tie points: any positions (for more than %d tie columns times scans: any combination of two irregular swaths, seeded by VERIF_SEED)' % LARGE, 'fine resolution, coarse columns, scans: %s' % cases(tier)]


def jobs(tier):
    out = [('1000-%d width %d scans %d' % c, run, c) for c in sorted(cases(tier), key=lambda c: -c[1] * c[2] * (600 - c[0]))]
    out += [('1000-%d width %d scans %d %s' % c, run, c) for c in forms(tier)]
    out.append(('decoding', g02.decode, ('modis', (1, 2), None, False)))
    out.append(('decoding low_lat_z', g02.decode, ('modis', (1, 2), True, False)))
    return out


def axis(n, f, half):
    """Cell and relative position on a coarse axis of n points, continued linearly."""
    out = []
    for r in range(n * f):
        v = (r - (f - 1) / 2) / f if half else r / f
        i = min(max(int(np.floor(v)), 0), n - 2)
        out.append((i, v - i))
    return out


def spec(xyz, f, scans, width):
    """Bilinear interpolation within the scan.

    The rows before the first and after the last tie row continue the
    interpolated rows linearly, so do the columns right of the last one.
    """
    row, col = axis(10, f, True), axis(width, f, False)
    out = []
    for c in xyz:
        o = np.empty((10 * f * scans, f * width), object)
        for n in range(scans):
            for r, (i, t) in enumerate(row):
                for q, (k, s) in enumerate(col):
                    v = 0
                    for di, dk, w in ((0, 0, (1 - t) * (1 - s)), (0, 1, (1 - t) * s), (1, 0, t * (1 - s)), (1, 1, t * s)):
                        if w:
                            v = v + c[n * 10 + i + di, k + dk] * w
                    o[n * 10 * f + r, q] = v
        out.append(o)
    return out


def numeric(c, f):
    """The same for an array of numbers."""
    (i, t), (k, s) = (map(np.array, zip(*axis(n, f, half))) for n, half in ((10, True), (c.shape[1], False)))
    out = []
    for n in range(len(c) // 10):
        d = c[n * 10:n * 10 + 10]
        rows = d[i] * (1 - t)[:, None] + d[i + 1] * t[:, None]
        out.append(rows[:, k] * (1 - s) + rows[:, k + 1] * s)
    return np.concatenate(out)


def run(j, fine, width, scans, form='f8'):
    m = j.loader(hooks=[stubs.decode_cython]).load('geotiepoints.simple_modis_interpolator')
    fn = getattr(m, NAMES[fine])
    f = 1000 // fine
    if width * scans > LARGE:
        fields = np.random.RandomState(harness.SEED).uniform(-1, 1, (2, 10 * scans, width))
        lon, lat, _xyz, ms = gen.points(fields)
        want = [assemble(v, np.stack([numeric(q, f) for q in fields])) for v in ms]
    else:
        lon, lat, xyz = modis.ties(10 * scans, width)
        want = [sa(w) for w in spec(xyz, f, scans, width)]

    def case(mod=None, k=None):
        return {'fine': fine, 'width': width, 'scans': scans, 'form': form}
    lon, lat = (gen.form(v, form) for v in (lon, lat))
    for p in j.explore(lambda: fn(lon, lat)):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        pos = modis.got_positions(j, p.result, case, '1000-%d' % fine)
        if pos is None:
            continue
        for n, g, w in zip('xyz', pos, want):
            j.equal_arrays(g, w, 1e-9, p.conds, case, '%s of every pixel' % n)
        j.reach(p.conds, case, 'interpolation')


def replay(c):
    if 'impl' in c:
        return g02.replay(c)
    from geotiepoints import simple_modis_interpolator as s
    lon, lat = modis.concrete_ties(10 * c['scans'], c['width'])
    if c.get('form', 'f8') != 'f8':
        e = gen.form_differs(getattr(s, NAMES[c['fine']]), (lon, lat), c['form'])
        return (True, e) if e else (False, 'ok')
    try:
        got = getattr(s, NAMES[c['fine']])(lon, lat)
    except Exception as e:      # noqa
        return True, 'raises %r' % e
    want = modis.decode(*[numeric(v, 1000 // c['fine']) for v in modis.unit(lon, lat)])
    d = modis.differ(got, want, 1e-7)
    return (True, d) if d else (False, 'ok')
