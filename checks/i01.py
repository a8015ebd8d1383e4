"""I01: fixed-geometry helpers reproduce fields that are linear within each scan."""
import numpy as np

from vp import gen, harness, modis, stubs
from vp.arr import assemble, sa
from . import g02

BUILD = False
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-9 of the field is required)',
               'scipy.interpolate.RectBivariateSpline and splrep/splev are linear in their data: the real functions are applied to the '
               'coefficients of every symbol',
               'the decoding to longitude and latitude is recorded, not executed, and is decided by a job of its own for all positions']
#        module, function, fine per coarse, coarse rows per scan, offset of tie rows and columns, tie columns
HELPERS = {
    'modis5kmto1km': ('geotiepoints', 5, 2, 271),
    'generic_modis5kmto1km': ('geotiepoints.interpolator', 5, 2, 271),
    'modis1kmto500m': ('geotiepoints', 2, 10, 1354),
    'modis1kmto250m': ('geotiepoints', 4, 10, 1354),
    'metop20kmto1km': ('geotiepoints', 1, 1, 104),
}


def cases(tier):
    out = [('modis5kmto1km', 1, 0), ('modis5kmto1km', 3, 0), ('generic_modis5kmto1km', 2, 1), ('generic_modis5kmto1km', 1, 3),
           ('modis1kmto500m', 1, 0), ('modis1kmto500m', 2, 0), ('modis1kmto250m', 1, 0), ('modis1kmto250m', 2, 0),
           ('metop20kmto1km', 1, 0), ('metop20kmto1km', 4, 0), ('metop20kmto1km', 130, 0), ('modis1kmto500m', 11, 0), ('modis5kmto1km', 26, 0),
           ('generic_modis5kmto1km', 52, 1)]
    if tier == 'thorough':
        out += [('modis5kmto1km', 8, 0), ('modis1kmto500m', 4, 0), ('modis1kmto250m', 3, 0), ('generic_modis5kmto1km', 5, 2),
                ('metop20kmto1km', 12, 0), ('modis1kmto250m', 21, 0), ('modis1kmto500m', 21, 0), ('modis5kmto1km', 102, 0)]
    return out


def forms(tier):
    return [('modis5kmto1km', 1, 0, 'f4'), ('modis1kmto500m', 1, 0, 'f4'), ('modis1kmto250m', 1, 0, 'f4'), ('metop20kmto1km', 3, 0, 'f4'),
            ('generic_modis5kmto1km', 1, 1, 'f4'), ('modis5kmto1km', 2, 0, 'fortran'), ('metop20kmto1km', 3, 0, 'strided'),
            ('generic_modis5kmto1km', 1, 2, 'reversed')] + [('modis1kmto500m', 1, 0, 'strided'), ('modis1kmto250m', 1, 0, 'fortran')] * (tier == 'thorough')


def BOUNDS(tier):
    return ['other forms of arrays: %s' % forms(tier),
            'positions (data) of each scan: a + b row + c column + d row column with any a, b, c, d; scans (metop: lines), data arrays '
            '(0: longitude and latitude): %s; for more than 10 scans: any multiple of each of two such fields, seeded by VERIF_SEED' % cases(tier)]


def jobs(tier):
    out = [('%s scans %d arrays %d' % c, run, c) for c in sorted(cases(tier), key=lambda c: -c[1] * HELPERS[c[0]][1])]
    out += [('%s scans %d arrays %d %s' % c, run, c) for c in forms(tier)]
    for low in (None, True):
        out.append(('decoding low_lat_z=%s' % low, g02.decode, ('generic', (1, 2), low, False)))
    return out


def axes(name, scans):
    """Row and column positions of ties and fine pixels and the scans of the rows."""
    _m, f, rows, width = HELPERS[name]
    h = rows * scans
    if name == 'metop20kmto1km':
        tc = np.array([0] + list(range(4, 2048, 20)) + [2047.])
        fc = np.arange(2048.)
        tr, fr = np.arange(h * 1.), np.arange(h * 1.)
    elif f == 5:
        tc, fc = 2 + 5. * np.arange(width), np.arange(1354.)
        tr, fr = 2 + 5. * np.arange(h), np.arange(5. * h)
    else:
        tc, fc = np.arange(width * 1.), np.arange(f * width) / f
        tr, fr = np.arange(h * 1.), (np.arange(f * h) - (f - 1) / 2) / f
    return tr, tc, fr, fc, np.arange(h) // rows, np.arange(len(fr)) // (rows * f if f != 1 else 1)


def fields(r, c, scan, scans):
    """The basis fields: 1, row, column and row * column on every scan (scaled to at most 1)."""
    out = []
    c = c / 1354.
    for k in range(scans):
        on = (scan == k)[:, None]
        rr = ((r - r[scan == k].mean()) / 10.)[:, None]
        for v in (np.ones((len(r), len(c))), rr + 0 * c, 0 * rr + c, rr * c):
            out.append(np.where(on, v, 0.0))
    return out


def basis(name, scans):
    tr, tc, fr, fc, ts, fs = axes(name, scans)
    t = fields(tr, tc, ts, scans)
    # the same polynomials at the fine pixels
    c = fc / 1354.
    f = []
    for k in range(scans):
        on = (fs == k)[:, None]
        rr = ((fr - tr[ts == k].mean()) / 10.)[:, None]
        for v in (np.ones((len(fr), len(fc))), rr + 0 * c, 0 * rr + c, rr * c):
            f.append(np.where(on, v, 0.0))
    return t, f


def combined(name, scans, n=2):
    """Fields that have other random coefficients on every scan."""
    tr, tc, fr, fc, ts, fs = axes(name, scans)
    w = np.random.RandomState(harness.SEED).uniform(-1, 1, (n, 4, scans)) / 4
    mean = np.array([tr[ts == k].mean() for k in range(scans)])

    def fields(r, c, scan):
        rr, c = ((r - mean[scan]) / 10.)[:, None], c[None] / 1354.
        return [a[scan][:, None] + b[scan][:, None] * rr + d[scan][:, None] * c + e[scan][:, None] * (rr * c) for a, b, d, e in w]
    return fields(tr, tc, ts), fields(fr, fc, fs)


def run(j, name, scans, arrays, form='f8'):
    t, f = basis(name, scans) if scans <= 10 else combined(name, scans)
    f = np.stack(f)
    mod = HELPERS[name][0]
    case = lambda *a: {'name': name, 'scans': scans, 'arrays': arrays, 'form': form}
    ld = j.loader(hooks=[stubs.decode_python])
    fn = getattr(ld.load_package() if mod == 'geotiepoints' else ld.load(mod), name)
    if arrays:
        data, ms = zip(*(gen.combine(t, 'd%d_' % k) for k in range(arrays)))
    else:
        lon, lat, _xyz, ms = gen.points(t)
        data = (lon, lat)
    data = [gen.form(d, form) for d in data]
    for p in j.explore(lambda: fn(*data)):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        if arrays:
            got = list(p.result)
            if not j.require(len(got) == arrays, case, '%d results for %d arrays' % (len(got), arrays)):
                continue
            names = ['array %d' % k for k in range(arrays)]
        else:
            got = gen.decoded(j, p.result, case, name)
            names = 'xyz'
            if got is None:
                continue
        for n, g, m in zip(names, got, ms):
            j.equal_arrays(g, assemble(m, f), 1e-9, p.conds, case, '%s: %s of every pixel' % (name, n))
        j.reach(p.conds, case, name)


def replay(c):
    if 'impl' in c:
        return g02.replay(c)
    import importlib
    name, scans = c['name'], c['scans']
    fn = getattr(importlib.import_module(HELPERS[name][0]), name)
    t, f = basis(name, scans) if scans <= 10 else combined(name, scans)
    r = np.random.RandomState(0)
    if c.get('form', 'f8') != 'f8':
        rows, cols = t[0].shape
        data = modis.concrete_ties(rows, cols) if not c['arrays'] else [r.uniform(-1, 1, (rows, cols)) for _ in range(c['arrays'])]
        e = gen.form_differs(fn, data, c['form'], not c['arrays'])
        return (True, e) if e else (False, 'ok')
    w = r.uniform(-1, 1, (3, len(t))) / 2
    tie = [np.tensordot(v, np.stack(t), 1) for v in w]
    fine = [np.tensordot(v, np.stack(f), 1) for v in w]
    try:
        if c['arrays']:
            n = c['arrays']
            d = gen.compare(fn(*tie[:n]), fine[:n], 1e-8, ['array %d' % k for k in range(n)])
            return (True, d) if d else (False, 'ok')
        for b in range(len(gen.BASES)):
            got = fn(*gen.small(tie[0], tie[1], b))
            d = gen.compare(gen.tangential(*got, b), fine[:2], 1e-3 if b == 5 else 1e-5)
            if d:
                return True, '%s coordinate near %s' % (d, gen.BASES[b][0])
        # all over the Earth: every scan or every tie row in one place
        rows = t[0].shape[0]
        per = rows // scans
        tm = np.stack([v.reshape(-1) for v in t], 1)
        for group in (np.arange(rows) // per, np.arange(rows)):
            p = gen.directions(r, group[-1] + 1)[:, group]
            target = np.repeat(p[:, :, None], t[0].shape[1], 2)
            w = np.linalg.lstsq(tm, target.reshape(3, -1).T, rcond=None)[0].T
            if np.abs(w @ tm.T - target.reshape(3, -1)).max() > 1e-8:
                continue
            lo, la = gen.geographic(target)
            want = np.tensordot(w, np.stack(f), 1)
            inside = (want ** 2).sum(0) < 1 - 1e-9      # others (extrapolated) may have no latitude
            got = [np.asarray(v) for v in fn(lo, la)]
            if all(v.shape == inside.shape for v in got):
                got = [np.where(inside, v, 0) for v in got]
            d = gen.same_place(got, [np.where(inside, v, 0) for v in gen.geographic(want)], 1e-4)
            if d:
                return True, '%s, tie points all over the Earth' % d
    except Exception as e:      # noqa: any exception is a violation
        return True, 'raises %r' % e
    return False, 'ok'
