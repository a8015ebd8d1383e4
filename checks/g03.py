"""G03: geographic interpolators interpolate positions."""
import numpy as np

from vp import gen, stubs
from vp.arr import base, sa
from . import g02, i04, i07

BUILD = False
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-9 of the radius is required)',
               'scipy splines and regular grid interpolators are linear in their data: the real classes are applied to the coefficients of every symbol',
               'tie points have arbitrary positions (any three numbers per tie point) with unrelated longitudes and latitudes',
               'decoding to longitude and latitude is recorded, not executed; a job of its own decides it for all positions']
PLAIN = {'GeoInterpolator': 'Interpolator', 'GeoGridInterpolator': 'MultipleGridInterpolator', 'GeoSplineInterpolator': 'MultipleSplineInterpolator'}


def cases(tier):
    # class and way of use, (axis, ties) of rows, of columns, fine rows, fine columns, options, tie points given as
    out, seen = [], {}
    for c in i07.cases(tier):
        name, _, way = c[0].partition(' ')
        for geo, plain in PLAIN.items():
            if plain.replace('Multiple', '') in (name, name.replace('Multiple', '').replace('Single', '')) and c[1][1] * c[2][1] <= (60 if tier != 'thorough' else 200):
                k = seen[geo] = seen.get(geo, 0) + 1
                if way == 'slices' or tier != 'thorough' and k % 2 and len(out) > 12 and way != 'filled' and 'outside' not in c:
                    continue
                out.append((geo + ' ' * bool(way) + way,) + c[1:6] + (('arrays', 'swath', 'turns', 'f4')[k % 4],))
    k = 0
    for r, c in ((2, 3), (3, 2), (3, 3), (4, 3), (3, 4), (2, 2), (2, 4), (1, 3)) + (((5, 3), (3, 5)) if tier == 'thorough' else ()):
        for geo in PLAIN:
            for given in ('swath', 'arrays') + (('stacked',) if geo == 'GeoInterpolator' else ()):
                if r == 1 and geo != 'GeoInterpolator':
                    continue
                o = {} if geo != 'GeoSplineInterpolator' else {'kx': 1, 'ky': 1 + (k % 2 if c > 2 else 0)}
                out.append((geo, ('irregular', r), ('shifted', c), ('odd', 'dense', 'same')[k % 3] if r > 1 else 'same', ('dense', 'odd')[k % 2], o, given))
                k += 1
    return out


def BOUNDS(tier):
    return ['every position of every tie point (turns: with whole turns added to some of the longitudes); class and way of use, row and column ties, '
            'fine rows and columns, options, tie points given as (stacked: one array of longitudes and latitudes): %s' % cases(tier)]


def jobs(tier):
    out = [(' '.join(map(str, c)), run, c) for c in cases(tier)]
    return out + [('decoding', g02.decode, ('generic', (1, 2), None, False)), ('decoding column', g02.decode, ('generic', (2, 1), None, False))]


def plain(what):
    name, _, way = what.partition(' ')
    return PLAIN[name] + ' ' * bool(way) + way


def turned(lon):
    k = np.indices(lon.shape)
    return lon + 360.0 * ((k[0] + 2 * k[1]) % 3 - 1)


def use(mods, what, g, given, lon, lat, xyz, opts):
    """Results for geographic and Cartesian tie points."""
    if given == 'swath':
        data = [i04.Swath(lon, lat, xyz)]
        if what.startswith('GeoInterpolator'):
            data = data[0]
            rows, cols, fr, fc = g
            it = mods['geotiepoints.geointerpolator'].GeoInterpolator(data, (rows.copy(), cols.copy()), (fr.copy(), fc.copy()), **opts)
            if what.endswith('filled'):
                it.fill_borders('y', 'x')
            return list(it.interpolate())
    else:
        data = [gen.form(v, 'f4') if given == 'f4' else v for v in (lon, lat)]
        if given == 'stacked':
            data = [np.stack(data) if type(lon) is np.ndarray else sa(np.stack([base(v) for v in data]))]
    return i07.use(mods, what, g, data, opts)


def run(j, what, r, c, kr, kc, opts, given):
    case = lambda *a: {'c': [what, r, c, kr, kc, opts, given]}
    ld = j.loader(hooks=[stubs.decode_python])
    mods = {m: ld.load(m) for m in ('geotiepoints.interpolator', 'geotiepoints.geointerpolator')}
    g = i07.grid(what, r, c, kr, kc)
    n = len(g[0]) * len(g[1])
    lon, lat, xyz, _ = gen.points(list(np.eye(n).reshape(n, len(g[0]), len(g[1]))))
    swath = sa(np.stack([base(v) * gen.RADIUS for v in xyz], -1))
    if given == 'turns':
        lon = sa(turned(base(lon)))

    def fn():
        return use(mods, what, g, given, lon, lat, swath, opts), i07.use(mods, plain(what), g, [sa(base(v).copy()) for v in xyz], opts)
    for p in j.explore(fn):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        got, want = p.result
        got = gen.decoded(j, got, case, what)
        if got is None:
            continue
        for a, b, w in zip(got, want, 'xyz'):
            j.equal_arrays(a, sa(base(b)), 1e-9 if given != 'f4' else 1e-6, p.conds, case, '%s: %s of the interpolated position' % (what, w))
        j.reach(p.conds, case, what)


def replay(c):
    if 'impl' in c:
        return g02.replay(c)
    import importlib
    mods = {m: importlib.import_module(m) for m in ('geotiepoints.interpolator', 'geotiepoints.geointerpolator')}
    what, r, cc, kr, kc, opts, given = c['c']
    g = i07.grid(what, r, cc, kr, kc)
    shape = len(g[0]), len(g[1])
    rs = np.random.RandomState(2)
    patches = [gen.directions(rs, shape[0] * shape[1]).reshape((3,) + shape) for _ in range(2)]
    for b in range(len(gen.BASES)):
        for s in (0.01, 0.2, 1.0):
            u, v, w = gen.BASES[b]
            f = s * np.stack([(np.arange(shape[0])[:, None] - shape[0] / 2) / shape[0] + rs.uniform(-.1, .1, shape),
                              (np.arange(shape[1])[None] - shape[1] / 2) / shape[1] + rs.uniform(-.1, .1, shape)])
            q = u[:, None, None] + v[:, None, None] * f[0] + w[:, None, None] * f[1]
            patches.append(q / np.sqrt((q ** 2).sum(0)))
    for q in patches:
        lo, la = np.degrees(np.arctan2(q[1], q[0])), np.degrees(np.arctan2(q[2], np.hypot(q[0], q[1])))
        if given == 'turns':
            lo = turned(lo)
        if given == 'f4':
            lo, la = (v.astype('f4') for v in (lo, la))
            a, b = np.radians(lo.astype(float)), np.radians(la.astype(float))
            q = np.stack([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)])
        try:
            want = [np.asarray(v) / gen.RADIUS for v in i07.use(mods, plain(what), g, [v * gen.RADIUS for v in q], opts)]
        except Exception:       # noqa: I07 shows that
            return False, 'the plain interpolator raises'
        try:
            got = use(mods, what, g, given, lo, la, np.moveaxis(q, 0, -1) * gen.RADIUS, opts)
            if len(got) != 2:
                return True, '%d results' % len(got)
        except Exception as e:      # noqa
            return True, 'raises %r' % e
        want = np.array(want)
        z = np.abs(np.abs(want[2]) - 0.8) < 1e-5       # between two formulas
        h = np.hypot(want[0], want[1]) < 1e-3
        wl, wb = gen.geographic(want)
        gl, gb = (np.asarray(v, float) for v in got)
        if gl.shape == wl.shape:
            wl, wb = np.where(z | h, gl, wl), np.where(z | (np.hypot(want[0], want[1]) > 1 - 1e-6) & (np.abs(want[2]) > 0.8) | (np.abs(want[2]) > 1 - 1e-6), gb, wb)
            gl = wl + ((gl - wl + 180) % 360 - 180) * np.minimum(1, np.hypot(want[0], want[1]))
        e = gen.same_place((gl, gb), (wl, wb), 2e-2 if given == 'f4' or opts.get('method') in ('cubic', 'quintic') else 1e-4)
        if e:
            return True, '%s; tie points in degrees %s' % (e, np.stack([lo, la], -1)[:2, :2].round(3).tolist())
    return False, 'ok'
