"""I07: interpolation is exact for polynomials up to its order."""
import numpy as np

from vp import gen
from vp.arr import base, sa

BUILD = False
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-7 of the largest coefficient, for scipy\'s iteratively solved '
               'cubic and quintic grids to 0.003, is required)',
               'scipy splines and regular grid interpolators are linear in their data: the real classes are applied to the coefficients of '
               'every symbol; floating-point tie data']


def axis(kind, n):
    """n tie positions."""
    if kind == 'regular':
        return np.arange(n) * 1.0
    if kind == 'shifted':
        return np.arange(n) * 5.0 - 12
    if kind == 'whole':
        return np.cumsum([0] + [1 + (3 * k + n) % 4 for k in range(n - 1)]).astype(float)
    r = np.random.RandomState(n)
    return np.cumsum(r.randint(1, 12, n)) / 4.0 + (7 if kind == 'late' else -3)


def fine(v, kind):
    if kind == 'same':
        return np.array(v)
    if kind == 'sparse':
        return np.linspace(v[0], v[-1], 3)
    if kind == 'ends':
        return np.array([v[0], v[-1]])
    if kind == 'shifted':       # as many as ties
        return np.array(v) + np.append(np.diff(v) / 3, 0)
    if kind == 'shape':
        return np.arange(int(v[-1]) + 1.0)
    if kind == 'outside':
        return np.concatenate([[v[0] - 2.5], np.linspace(v[0], v[-1], 7), [v[-1] + 0.5, v[-1] + 3]])
    if kind in OTHER:
        return OTHER[kind](v)
    n = {'dense': 8, 'many': 40, 'odd': 3}[kind]
    out = np.concatenate([a + (b - a) * np.arange(n) / n for a, b in zip(v, v[1:])] + [v[-1:]])
    return out[::2] if kind == 'odd' and len(out) > 5 else out


OTHER = {'wide': lambda v: np.linspace(v[0] - 1.5, v[-1] + 2, len(v)),        # as many as ties, reaching outside
         'below': lambda v: v[0] - np.array([3.0, 0.25]),
         'above': lambda v: v[-1] + np.array([0.0, 1.0, 2.5]),
         'beside': lambda v: np.array([v[0] - 1.0]),
         'falling': lambda v: np.linspace(v[-1] + 1, v[0], 9),
         'mixed': lambda v: np.array([v[1], v[-1], v[0], (v[0] + v[1]) / 2, v[-1] + 2, v[1]]),
         'one': lambda v: (v[:1] + v[1:2]) / 2}


def cases(tier):
    # class and way of use, (axis, ties) of rows, of columns, fine rows, fine columns, options, arrays
    out = []
    axes = [(('regular', 6), ('regular', 9)), (('shifted', 5), ('irregular', 8)), (('irregular', 7), ('shifted', 6)), (('late', 12), ('irregular', 5)),
            (('irregular', 4), ('late', 30)), (('regular', 40), ('regular', 4))]
    fines = [('dense', 'odd'), ('odd', 'dense'), ('many', 'sparse'), ('sparse', 'many'), ('shifted', 'dense'), ('same', 'odd'), ('dense', 'same'), ('same', 'same'),
             ('shifted', 'shifted'), ('ends', 'ends')]
    orders = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)] + [(3, 4), (4, 1), (2, 5), (5, 4)]
    g = np.random.RandomState(23)
    k = 0
    for name in ('Interpolator', 'SingleSplineInterpolator', 'MultipleSplineInterpolator'):
        for kx, ky in orders if tier == 'thorough' or name == 'Interpolator' else orders[k % 2::2]:
            for _ in range(1 if tier != 'thorough' else 5):
                while True:
                    (r, c), (fr, fc) = axes[g.randint(len(axes))], fines[k % len(fines)]
                    if r[1] > kx and c[1] > ky:
                        break
                out.append((name, r, c, fr, fc, {'kx_': kx, 'ky_': ky} if name == 'Interpolator' else {'kx': kx, 'ky': ky},
                            1 + k % 3 if not name.startswith('Single') else 1))
                k += 1
    out += [(n, *axes[k], *fines[k], {}, 1 + (n[0] != 'S')) for k, n in enumerate(('Interpolator', 'SingleSplineInterpolator', 'MultipleSplineInterpolator',
                                                                                     'SingleGridInterpolator', 'MultipleGridInterpolator'))]
    out += [('Interpolator', ('regular', 1), ('irregular', 6), 'same', 'many', {'ky_': k}, 2) for k in (1, 3)]
    out += [('Interpolator', ('regular', 2), ('irregular', 6), 'dense', 'odd', {'ky_': 2}, 2), ('Interpolator', ('shifted', 3), ('late', 2), 'odd', 'dense', {'kx_': 2}, 1)]
    out += [('Interpolator', ('shifted', 4 + k), ('irregular', 7), 'same', ('odd', 'dense', 'many')[k % 3], {'kx_': 1 + k % 3, 'ky_': k}, 1 + k % 2) for k in range(1, 6)]
    for m in ('linear', 'slinear', 'cubic', 'quintic', None):
        for n, name in enumerate(('SingleGridInterpolator', 'MultipleGridInterpolator')):
            o = {} if m is None else {'method': m}
            r, c = (('irregular', 7), ('late', 8)) if n else (('shifted', 8), ('irregular', 7))
            out.append((name, r, c, *fines[k % 4], o, 1 + 2 * n))
            if m not in ('cubic', 'quintic'):     # (solved for iteratively by scipy: too inaccurate outside)
                out.append((name, r, c, 'outside', 'outside' if n else 'odd', dict(o, bounds_error=False, fill_value=None), 1 + n))
            k += 1
    for k, (fr, fc) in enumerate((('wide', 'wide'), ('wide', 'dense'), ('odd', 'wide'), ('below', 'above'), ('above', 'falling'), ('mixed', 'wide'), ('beside', 'mixed'),
                                  ('falling', 'below'), ('one', 'wide'), ('wide', 'one'))):
        r, c = (('regular', 4), ('irregular', 5)) if k % 2 else (('irregular', 5), ('shifted', 4))
        out.append((('Single', 'Multiple')[k % 2] + 'GridInterpolator', r, c, fr, fc, dict({'method': 'linear'} if k % 3 else {}, bounds_error=False, fill_value=None), 1 + k % 2))
    out += [('SingleSplineInterpolator', ('irregular', 5), ('shifted', 6), 'one', 'odd', {'kx': 2}, 1), ('MultipleSplineInterpolator', ('regular', 6), ('late', 5), 'dense', 'one', {'ky': 1}, 2),
            ('Interpolator', ('irregular', 5), ('shifted', 6), 'one', 'one', {'kx_': 2, 'ky_': 3}, 1)]
    out += [(n + ' shape', ('whole', 6), ('whole', 7), 'shape', 'shape', o, 2) for n, o in (
        ('MultipleGridInterpolator', {}), ('MultipleGridInterpolator', {'method': 'cubic'}), ('MultipleSplineInterpolator', {}),
        ('MultipleSplineInterpolator', {'kx': 1, 'ky': 2}))]
    out += [(n + ' slices', ('whole', 5), ('whole', 8), 'shape', 'shape', o, 1) for n, o in (
        ('SingleGridInterpolator', {'method': 'cubic'}), ('SingleSplineInterpolator', {'kx': 1, 'ky': 4}), ('SingleSplineInterpolator', {}))]
    out += [('Interpolator filled', ('scan', n), ('scan', m), 'filled', 'filled', dict(o, chunk_size=s), k) for n, m, s, o, k in (
        (4, 5, 10, {}, 2), (6, 5, 15, {'ky_': 3}, 1), (6, 7, 0, {'kx_': 1, 'ky_': 1}, 2), (5, 6, 0, {'kx_': 3, 'ky_': 2}, 1), (8, 4, 20, {'ky_': 3}, 3),
        (20, 4, 10, {'ky_': 3}, 1))]
    return out


def forms(tier):
    k = 0
    out = []
    for name in ('Interpolator', 'SingleSplineInterpolator', 'MultipleSplineInterpolator', 'SingleGridInterpolator', 'MultipleGridInterpolator'):
        for form in ('f4', 'fortran', 'strided', 'reversed'):
            o = {} if 'Grid' in name else {'kx_': 1 + k % 3, 'ky_': 3} if name == 'Interpolator' else {'kx': 2, 'ky': 1 + k % 2}
            out.append((name, ('irregular', 5), ('shifted', 6), ('same', 'dense', 'odd')[k % 3], 'odd', o, 2 if name[0] != 'S' else 1, form))
            k += 1
    return out


def BOUNDS(tier):
    return ['other forms of arrays: %s' % forms(tier), 'every polynomial (of a degree up to the order in each dimension) as tie data; class and way of use, row and column ties, fine rows and columns, '
            'options, arrays: %s' % cases(tier)]


def jobs(tier):
    return [(' '.join(map(str, c)), run, c) for c in cases(tier) + forms(tier)]


def degrees(name, opts):
    if 'filled' in name:
        return 1, 1
    if 'Grid' in name:
        d = {'linear': 1, 'slinear': 1, 'cubic': 3, 'quintic': 5}[opts.get('method', 'linear')]
        return d, d
    if 'Spline' in name:
        return opts.get('kx', 3), opts.get('ky', 3)
    return opts.get('kx_', 1), opts.get('ky_', 1)


def grid(name, r, c, fr, fc):
    if 'filled' in name:
        rows, cols = np.arange(r[1]) + 0.4, np.arange(c[1]) + 0.25
        return rows, cols, np.arange(r[1] * 5) / 5.0, np.arange(c[1] * 4) / 4.0
    rows, cols = axis(*r), axis(*c)
    return rows, cols, fine(rows, fr), fine(cols, fc)


def powers(v, ref, n):
    """Powers of the position, 0 at the first and 1 at the last of ref."""
    t = (v - ref[0]) / ((ref[-1] - ref[0]) or 1)
    return [t ** k for k in range(n + 1)]


def fields(g, d, which):
    rows, cols, fr, fc = g
    y, x = (rows, cols) if which == 'ties' else (fr, fc)
    d0 = d[0] if len(rows) > 1 else 0
    return [np.outer(a, b) for a in powers(y, rows, d0) for b in powers(x, cols, d[1])]


def use(mods, what, g, data, opts, ctor=None):
    """The interpolated arrays."""
    name, _, way = what.partition(' ')
    rows, cols, fr, fc = g
    cls = getattr(mods['geotiepoints.geointerpolator' if name.startswith('Geo') else 'geotiepoints.interpolator'], name)
    if name in ('Interpolator', 'GeoInterpolator'):
        it = cls(data[0] if len(data) == 1 else list(data), (rows.copy(), cols.copy()), (fr.copy(), fc.copy()), **opts)
        if way == 'filled':
            it.fill_borders('y', 'x')
        return list(it.interpolate())
    it = cls((rows.copy(), cols.copy()), *data, **opts)
    if way == 'shape':
        r = it.interpolate_to_shape((len(fr), len(fc)))
    elif way == 'slices':
        r = it.interpolate_slices((slice(0, len(fr)), slice(0, len(fc))))
    else:
        r = it.interpolate((fr.copy(), fc.copy()))
    return [r] if name.startswith('Single') else list(r)


def tolerance(opts, form='f8'):
    return 1e-5 if form == 'f4' else 3e-3 if opts.get('method') in ('cubic', 'quintic') else 1e-7


def run(j, what, r, c, kr, kc, opts, n, form='f8'):
    case = lambda *a: {'c': [what, r, c, kr, kc, opts, n, form]}
    ld = j.loader()
    mods = {m: ld.load(m) for m in ('geotiepoints.interpolator', 'geotiepoints.geointerpolator')}
    g = grid(what, r, c, kr, kc)
    d = degrees(what, opts)
    ties, wanted = fields(g, d, 'ties'), fields(g, d, 'fine')
    data = [gen.form(gen.combine(ties, 'd%d_' % k)[0], form) for k in range(n)]
    want = [gen.combine(wanted, 'd%d_' % k)[0] for k in range(n)]
    for p in j.explore(lambda: use(mods, what, g, data, opts)):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        if not j.require(len(p.result) == n, case, '%d results for %d arrays' % (len(p.result), n)):
            continue
        for k, (a, w) in enumerate(zip(p.result, want)):
            if j.require(getattr(a, 'shape', None) == w.shape, case, 'array %d has shape %s instead of %s' % (k, getattr(a, 'shape', None), w.shape)):
                j.equal_arrays(sa(base(a)), sa(base(w)), tolerance(opts, form), p.conds, case, 'array %d is not the polynomial' % k)
        j.reach(p.conds, case, what)


def replay(c):
    import importlib
    mods = {m: importlib.import_module(m) for m in ('geotiepoints.interpolator', 'geotiepoints.geointerpolator')}
    what, r, cc, kr, kc, opts, n, form = c['c']
    g = grid(what, r, cc, kr, kc)
    d = degrees(what, opts)
    ties, wanted = fields(g, d, 'ties'), fields(g, d, 'fine')
    rs = np.random.RandomState(3)
    sets = [rs.uniform(-1, 1, (n, len(ties))) for _ in range(4)] + [np.tile(v, (n, 1)) for v in np.eye(len(ties))]
    for co in sets:
        try:
            got = use(mods, what, g, [gen.form(np.tensordot(v, ties, 1), form) for v in co], opts)
        except Exception as e:      # noqa
            return True, 'raises %r' % e
        if len(got) != n:
            return True, '%d results for %d arrays' % (len(got), n)
        e = gen.compare([np.asarray(a) for a in got], [np.tensordot(v, wanted, 1) for v in co], tolerance(opts, form) * len(ties), ['array %d' % k for k in range(n)])
        if e:
            return True, '%s; %s at rows %s and columns %s' % (e, what, g[0], g[1])
    return False, 'ok'
