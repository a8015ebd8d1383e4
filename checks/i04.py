"""I04: tie points pass through, arrays do not mix, first order is linear."""
import numpy as np

from vp import arr, gen, stubs
from vp.arr import base, sa
from . import g02

BUILD = False
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-8 of the values is required)',
               'scipy splines and regular grid interpolators are linear in their data: the real classes are applied to the coefficients of '
               'every symbol; floating-point tie data',
               'decoding to longitude and latitude is recorded, not executed; a job of its own decides it for all positions']
GRIDS = {
    'even': ([0, 1, 2, 3, 4.], [0, 1, 2, 3, 4, 5.]),
    'odd': ([-3.0, 0.5, 1.25, 4.0], [2, 7, 12, 22.5, 23.0]),
    'scan': ([0.4, 1.4, 2.4, 3.4], [2, 7, 12, 17, 22.]),
    'shape': ([0, 2, 3, 5.], [0, 1, 4, 6, 7.]),
    'one': ([3.], [0, 1.5, 2, 4, 7.]),
    'two': ([0, 2.], [0, 1, 4, 5, 11.]),
    'long': ([0.5, 1, 3, 4, 6, 8, 8.5, 9, 10, 12, 13], [0, 2, 3, 5.]),
}


def fine(v, ends=False):
    """Ties and positions between them."""
    out = []
    for a, b in zip(v, v[1:]):
        out += [a, a + (b - a) * 0.25, a + (b - a) * 0.7]
    return np.array(out + [v[-1]])


def cases(tier):
    big = tier == 'thorough'
    out = []
    for g in ('even', 'odd') if not big else ('even', 'odd', 'scan'):
        for kx, ky in ((1, 1), (1, 3), (3, 1), (2, 2)) if not big else [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]:
            out.append(('Interpolator', g, 2, {'kx_': kx, 'ky_': ky}))
    out += [('Interpolator', 'odd', 1, {}), ('Interpolator', 'odd', 3, {'kx_': 1, 'ky_': 2}),
            ('Interpolator rows', 'odd', 2, {'kx_': 1, 'ky_': 1}), ('Interpolator rows', 'odd', 2, {'kx_': 1, 'ky_': 3}),
            ('Interpolator rows', 'even', 1, {'kx_': 3, 'ky_': 2}), ('Interpolator others', 'odd', 2, {'kx_': 1, 'ky_': 2}),
            ('Interpolator others', 'even', 1, {}), ('GeoInterpolator others', 'odd', 0, {}),
            ('Interpolator filled', 'scan', 2, {'kx_': 1, 'ky_': 3, 'chunk_size': 10}), ('Interpolator filled', 'scan', 3, {}),
            ('GeoInterpolator', 'odd', 0, {'kx_': 1, 'ky_': 1}), ('GeoInterpolator', 'even', 0, {'kx_': 2, 'ky_': 3}),
            ('Interpolator rows', 'one', 2, {'kx_': 1, 'ky_': 1}), ('Interpolator rows', 'one', 5, {'kx_': 1, 'ky_': 3}), ('GeoInterpolator rows', 'one', 0, {}),
            ('Interpolator rows', 'two', 5, {}), ('Interpolator', 'two', 5, {'kx_': 1, 'ky_': 3}), ('Interpolator', 'long', 4, {'kx_': 3, 'ky_': 1}),
            ('Interpolator rows', 'long', 3, {'kx_': 3, 'ky_': 3}), ('Interpolator both', 'odd', 2, {'ky_': 3}), ('Interpolator columns', 'odd', 2, {'kx_': 3}),
            ('GeoInterpolator both', 'even', 0, {'kx_': 2}), ('GeoInterpolator object', 'odd', 0, {}), ('GeoGridInterpolator object', 'odd', 0, {}),
            ('GeoSplineInterpolator object', 'odd', 0, {'kx': 1, 'ky': 3}), ('MultipleGridInterpolator', 'long', 5, {}), ('MultipleSplineInterpolator', 'long', 5, {}),
            ('GeoInterpolator rows', 'odd', 0, {'kx_': 1, 'ky_': 3}), ('GeoInterpolator filled', 'scan', 0, {'chunk_size': 10})]
    grid = [{}, {'method': 'cubic'}, {'bounds_error': False, 'fill_value': None}] + ([{'method': 'slinear'}, {'method': 'nearest'}] if big else [])
    spline = [{}, {'kx': 1, 'ky': 1}, {'kx': 1, 'ky': 2}] + ([{'kx': 2, 'ky': 1}, {'kx': 3, 'ky': 1}] if big else [])
    for kind, kws in (('Grid', grid), ('Spline', spline)):
        for n, kw in enumerate(kws):
            out += [('Single%sInterpolator' % kind, 'odd', 1, kw), ('Multiple%sInterpolator' % kind, 'odd', 3, kw),
                    ('Geo%sInterpolator' % kind, 'odd', 0, kw)]
        out += [('Multiple%sInterpolator shape' % kind, 'shape', 2, kws[0]), ('Geo%sInterpolator shape' % kind, 'shape', 0, kws[0]),
                ('Single%sInterpolator slices' % kind, 'shape', 1, kws[1])]
    return out


def BOUNDS(tier):
    return ['every tie value (float); grids, fine positions: %s' % {k: [list(map(float, fine(v))) for v in g] for k, g in GRIDS.items()},
            'class and way of use, grid, data arrays (0: longitude and latitude), options: %s' % cases(tier)]


def jobs(tier):
    out = [('%s %s %d %s' % c, run, c) for c in cases(tier)]
    return out + [('decoding', g02.decode, ('generic', (1, 2), None, False))]


class Swath:
    """What the interpolators use of a pyresample definition."""

    def __init__(self, lons, lats, xyz):
        self.lons, self.lats, self._xyz = lons, lats, xyz

    def get_cartesian_coords(self):
        return self._xyz


def use(mods, what, g, data, opts, swath=None):
    """The interpolated arrays of the real classes, with the fine positions."""
    rows, cols = GRIDS[g]
    name, _, way = what.partition(' ')
    fr, fc = fine(rows), fine(cols)
    if name in ('Interpolator', 'GeoInterpolator'):
        if way in ('rows', 'both'):
            fr = np.array(rows)
        if way in ('columns', 'both'):
            fc = np.array(cols)
        if way == 'object':
            data = [swath]
        elif way == 'others':       # as many fine rows as tie rows, but not all the same
            fr = np.array(rows)
            fr[1] += 0.25 * (rows[2] - rows[1])
            fr[-1] -= 0.4 * (rows[-1] - rows[-2])
        elif way == 'filled':
            fr, fc = np.arange(len(rows) * 5) / 5., np.arange(25.)
        cls = getattr(mods['geotiepoints.interpolator' if name == 'Interpolator' else 'geotiepoints.geointerpolator'], name)
        arg = data[0] if len(data) == 1 else list(data)
        it = cls(arg, (np.array(rows), np.array(cols)), (fr, fc), **opts)
        if way == 'filled':
            it.fill_borders('y', 'x')
        return it.interpolate(), fr, fc
    cls = getattr(mods['geotiepoints.geointerpolator' if name.startswith('Geo') else 'geotiepoints.interpolator'], name)
    it = cls((np.array(rows), np.array(cols)), *((swath,) if way == 'object' else data), **opts)
    if way not in ('', 'object'):
        fr, fc = np.arange(int(rows[-1]) + 1.), np.arange(int(cols[-1]) + 1.)
    if way == 'shape':
        return it.interpolate_to_shape((len(fr), len(fc))), fr, fc
    if way == 'slices':
        return [it.interpolate_slices((slice(0, len(fr)), slice(0, len(fc))))], fr, fc
    r = it.interpolate((fr, fc))
    return ([r] if name.startswith('Single') else r), fr, fc


def linear_dims(what, opts):
    if 'Grid' in what:
        return (0, 1) if opts.get('method', 'linear') in ('linear', 'slinear') else ()
    if 'Spline' in what:
        return tuple(d for d, k in ((0, 'kx'), (1, 'ky')) if opts.get(k, 3) == 1)
    return tuple(d for d, k in ((0, 'kx_'), (1, 'ky_')) if opts.get(k, 1) == 1)


def claims(what, g, got, data, fr, fc, opts, problem):
    """(result, expected, description) triples."""
    rows, cols = GRIDS[g]
    out = []
    if len(got) != len(data):
        problem('%d results for %d arrays' % (len(got), len(data)))
        return out
    for n, (a, d) in enumerate(zip(got, data)):
        if a.shape != (len(fr), len(fc)):
            problem('array %d has shape %s instead of %s' % (n, a.shape, (len(fr), len(fc))))
            continue
        ri = [list(fr).index(v) if v in fr else None for v in rows]
        ci = [list(fc).index(v) if v in fc else None for v in cols]
        ra, ca = [i for i, v in enumerate(ri) if v is not None], [i for i, v in enumerate(ci) if v is not None]
        if ra and ca:
            out.append((a[np.ix_([ri[i] for i in ra], [ci[i] for i in ca])], d[np.ix_(ra, ca)], 'array %d at the tie points' % n))
        for dim in linear_dims(what, opts):
            f, t, ti = ((fr, rows, ri), (fc, cols, ci))[dim]
            if any(i is None for i in ti):
                if dim == 0 and None not in ci:         # at the tie columns
                    for k, v in enumerate(f):
                        i = min(max(int(np.searchsorted(t, v, 'right')) - 1, 0), len(t) - 2)
                        w = (v - t[i]) / (t[i + 1] - t[i])
                        if not opts.get('chunk_size'):
                            out.append((a[k:k + 1, ci], d[i:i + 1] * (1 - w) + d[i + 1:i + 2] * w, 'array %d: row %d at the tie columns' % (n, k)))
                continue
            if len(t) < 2:
                continue
            b = a if dim == 0 else a.T
            for k, v in enumerate(f):
                i = min(max(int(np.searchsorted(t, v, 'right')) - 1, 0), len(t) - 2)
                if dim == 0 and opts.get('chunk_size') and i == 1:
                    continue        # between two chunks
                w = (v - t[i]) / (t[i + 1] - t[i])
                out.append((b[k:k + 1], b[ti[i]:ti[i] + 1] * (1 - w) + b[ti[i + 1]:ti[i + 1] + 1] * w,
                            'array %d, dimension %d: blend between the tie points at %s' % (n, dim, v)))
    return out


def run(j, what, g, n, opts):
    rows, cols = GRIDS[g]
    geo, swath = n == 0, None
    case = lambda *a: {'what': what, 'grid': g, 'n': n, 'opts': opts}
    ld = j.loader(hooks=[stubs.decode_python])
    mods = {m: ld.load(m) for m in ('geotiepoints.interpolator', 'geotiepoints.geointerpolator')}
    f = list(np.eye(len(rows) * len(cols)).reshape(-1, len(rows), len(cols)))
    if geo:
        lon, lat, xyz, _ = gen.points(f)
        args, data = (lon, lat), xyz
        swath = Swath(lon, lat, sa(np.stack([base(v) * gen.RADIUS for v in xyz], -1)))
    else:
        data = args = [gen.combine(f, 'd%d_' % k)[0] for k in range(n)]

    def fn():
        got, fr, fc = use(mods, what, g, args, opts, swath)
        return (got if geo else list(got)), fr, fc
    for p in j.explore(fn):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        got, fr, fc = p.result
        if geo:
            got = gen.decoded(j, got, case, what)
            if got is None:
                continue
        for a, b, t in claims(what, g, got, data, fr, fc, opts, lambda t: j.fail(case(), '%s: %s' % (what, t))):
            if not j.equal_arrays(a, b, 1e-8, p.conds, case, '%s: %s' % (what, t)):
                return
        j.reach(p.conds, case, what)


def replay(c):
    if 'impl' in c:
        return g02.replay(c)
    import importlib
    mods = {m: importlib.import_module(m) for m in ('geotiepoints.interpolator', 'geotiepoints.geointerpolator')}
    rows, cols = GRIDS[c['grid']]
    r = np.random.RandomState(5)
    data = [r.uniform(-1, 1, (len(rows), len(cols))) for _ in range(max(c['n'], 2))]
    bad = []
    try:
        for b in range(len(gen.BASES)):
            if b == 5 and c['opts'].get('method') == 'cubic':
                continue        # scipy solves for cubic coefficients to 1e-6 only
            if c['n'] == 0:
                ll = gen.small(*data, b)
                lo, la = np.radians(ll)
                swath = Swath(*ll, gen.RADIUS * np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], -1))
                got, fr, fc = use(mods, c['what'], c['grid'], ll, c['opts'], swath)
                got = gen.tangential(*got, b)
                ref = data[:2]
            else:
                ref = data[:c['n']]
                got, fr, fc = use(mods, c['what'], c['grid'], ref, c['opts'])
                got = list(got)
            for x, y, t in claims(c['what'], c['grid'], got, ref, fr, fc, c['opts'], bad.append):
                d = gen.compare([x], [y], 2e-3 if b == 5 else 1e-5, [t])   # 5: depth and iterative splines seen obliquely
                if d:
                    return True, d
        if c['n'] == 0:
            p = gen.directions(r, data[0].size).reshape((3,) + data[0].shape)
            lo, la = gen.geographic(p)
            (glo, gla), fr, fc = use(mods, c['what'], c['grid'], (lo, la), c['opts'], Swath(lo, la, gen.RADIUS * np.moveaxis(p, 0, -1)))
            q = [(x, y) for x, y, t in claims(c['what'], c['grid'], (glo, gla), (lo, la), fr, fc, c['opts'], bad.append) if t.endswith('at the tie points')]
            d = gen.same_place(*zip(*q), 1e-4) if len(q) == 2 else None
            if d:
                return True, d + ' at tie points all over the Earth'
    except Exception as e:      # noqa: any exception is a violation
        return True, 'raises %r' % e
    return (True, bad[0]) if bad else (False, 'ok')
