"""I03: border filling, with symbolic values and positions."""
import numpy as np

from vp import arr, gen, stubs, sym
from vp.arr import base, sa
from vp.sym import sand, var

BUILD = False
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled',
               'positions are in increasing order; row positions are in units of the tie row spacing as everywhere in the package (the chunk of '
               'the fine rows a..b-1 has the tie rows in [a/f, b/f), f fine rows per tie row) and differ from the first and last fine row of '
               'their chunk']


def cases(tier):
    # ties per chunk, fine rows per chunk (0: not chunked), tie columns, arrays, dimensions, first / last tie column at the border
    out = [((2,), 0, 2, 1, 'yx', (0, 0)), ((2, 2), 10, 3, 2, 'yx', (0, 0)), ((3, 3), 6, 2, 1, 'xy', (1, 0)), ((4,), 0, 4, 3, 'yx', (0, 1)),
           ((3,), 9, 3, 2, 'y', (0, 0)), ((2, 2), 4, 4, 1, 'x', (1, 1)), ((2, 2, 2), 4, 2, 1, 'yx', (0, 0)), ((2,), 0, 3, 2, 'x', (0, 0)),
           ((2,), 0, 3, 1, 'x', (1, 0)), ((2,), 0, 3, 1, 'x', (0, 1)), ((2,), 0, 2, 1, '', (0, 0)), ((2, 2), 8, 2, 0, 'yx', (0, 0)),
           ((2, 2), 6, 2, 5, 'yx', (0, 0)), ((2, 3), 10, 2, 1, 'yx', (0, 0)), ((3, 2, 2, 3, 2), 12, 2, 1, 'y', (0, 0)),
           ((2,) * 8, 4, 2, 2, 'xy', (0, 0)), ((10, 10), 20, 2, 1, 'yx', (0, 1)), ((10,) * 8, 20, 2, 1, 'y', (0, 0)), ((10,) * 3, 40, 2, 2, 'yx', (0, 0)), ((2,) * 24, 10, 2, 1, 'yx', (0, 0)), ((2, 2), 5, 12, 4, 'x,y', (0, 0)), ((2, 2), 4, 3, 1, 'y,x', (0, 0)),
           ((3, 2), 7, 3, 6, 'x', (0, 0))]
    if tier == 'thorough':
        out += [((5, 5, 5), 10, 3, 2, 'yx', (0, 0)), ((3, 3, 3, 3), 6, 2, 2, 'xy', (0, 1)), ((6,), 0, 6, 2, 'yx', (1, 1)),
                ((2, 2), 10, 5, 0, 'xy', (1, 0))]
    return out


def BOUNDS(tier):
    return ['every tie value, tie position and fine position', 'tie rows of the chunks, fine rows per chunk (0: one chunk), tie columns, '
            'data arrays (0: GeoInterpolator), dimensions filled (comma: by two calls), tie column at the first/last fine column already: %s' % cases(tier),
            'dimension names other than x and y: z, empty, X, 0']


def jobs(tier):
    return [('ties %s chunk %d cols %d arrays %d fill %s border %s' % c, run, c) for c in cases(tier)] + [('unknown dimension', unknown, ())]


def layout(ties, chunk, per=2):
    rows = sum(ties)
    lines = chunk * len(ties) if chunk else rows * per
    return rows, lines


def fill(it, dims):
    for d in dims.split(','):
        it.fill_borders(*d)


def run(j, ties, chunk, cols, arrays, dims, border):
    rows, lines = layout(ties, chunk)
    f = lines / rows
    ld = j.loader(hooks=[stubs.decode_python])
    name = 'geointerpolator' if arrays == 0 else 'interpolator'
    cls = getattr(ld.load('geotiepoints.' + name), 'GeoInterpolator' if arrays == 0 else 'Interpolator')
    step = chunk or lines
    r = [var('r%d' % i) for i in range(rows)]
    h = [var('h%d' % i) for i in range(lines)]
    c = [var('c%d' % i) for i in range(cols)]
    hc = [var('g%d' % i) for i in range(4)]
    if border[0]:
        c[0] = hc[0]
    if border[1]:
        c[-1] = hc[-1]
    asm = []
    for v in (r, h, c, hc):
        asm += [a < b for a, b in zip(v, v[1:])]
    k = 0
    for n, t in enumerate(ties):
        a, b = n * step, (n + 1) * step
        asm += [r[k] >= a / f, r[k + t - 1] < b / f, r[k] > h[a], r[k + t - 1] < h[b - 1]]
        k += t
    if not border[0]:
        asm.append(hc[0] < c[0])
    if not border[1]:
        asm.append(hc[-1] > c[-1])
    pos = lambda v: sa(np.array(v, dtype=object))
    fields = list(np.eye(rows * cols).reshape(-1, rows, cols))
    if arrays:
        data = [gen.combine(fields, 'd%d_' % k)[0] for k in range(arrays)]
        arg = data if arrays > 1 else data[0]
        scale = 1
    else:
        lon, lat, data, _ = gen.points(fields)
        arg, scale = (lon, lat), gen.RADIUS

    def fn():
        it = cls(arg, (pos(r), pos(c)), (pos(h), pos(hc)), chunk_size=chunk)
        fill(it, dims)
        return it.tie_data, it.row_indices, it.col_indices

    def case(m):
        g = lambda v: [m.f(x) for x in v]
        return {'r': g(r), 'h': g(h), 'c': g(c), 'hc': g(hc), 'chunk': chunk, 'ties': list(ties), 'dims': dims, 'arrays': arrays,
                'border': list(border)}
    seen = False
    for p in j.explore(fn, asm):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        seen = True
        got, gr, gc = p.result
        wr, wc = expected_rows(r, h, ties, step, dims), expected_cols(c, hc, border, dims)
        if not equal(j, p, gr, wr, case, 'row positions') or not equal(j, p, gc, wc, case, 'column positions'):
            return
        if len(got) != len(data):
            j.prove(False, p.conds, case, '%d arrays instead of %d' % (len(got), len(data)))
            return
        for n, (a, d) in enumerate(zip(got, data)):
            w = expected(base(d), r, h, c, hc, ties, step, dims, border)
            if not equal(j, p, a, w * scale, case, 'values of array %d' % n, cross=(r, c)):
                return
        j.reach(p.conds, case, 'border filling')
    j.require(seen or j.violations, None, 'no path returns')


def expected_rows(r, h, ties, step, dims):
    if 'y' not in dims:
        return np.array(r, dtype=object)
    out, k = [], 0
    for n, t in enumerate(ties):
        out += [h[n * step]] + list(r[k:k + t]) + [h[(n + 1) * step - 1]]
        k += t
    return np.array(out, dtype=object)


def expected_cols(c, hc, border, dims):
    if 'x' not in dims:
        return np.array(c, dtype=object)
    return np.array(([] if border[0] else [hc[0]]) + list(c) + ([] if border[1] else [hc[-1]]), dtype=object)


def extra(x, p, q, a, b):
    """Linear continuation at x through a at p and b at q."""
    t = (x - p) / (q - p)
    return a + (b - a) * t


def expected(d, r, h, c, hc, ties, step, dims, border):
    if 'x' in dims:
        parts = ([] if border[0] else [extra(hc[0], c[0], c[1], d[:, 0], d[:, 1])[:, None]]) + [d]
        parts += [] if border[1] else [extra(hc[-1], c[-2], c[-1], d[:, -2], d[:, -1])[:, None]]
        d = np.concatenate(parts, axis=1)
    if 'y' in dims:
        parts, k = [], 0
        for n, t in enumerate(ties):
            e = d[k:k + t]
            parts += [extra(h[n * step], r[k], r[k + 1], e[0], e[1])[None], e,
                      extra(h[(n + 1) * step - 1], r[k + t - 2], r[k + t - 1], e[-2], e[-1])[None]]
            k += t
        d = np.concatenate(parts)
    return d


def equal(j, p, got, want, case, what, cross=None):
    got = arr.asarray(got)
    if got.shape != want.shape:
        j.prove(False, p.conds, case, '%s: shape %s instead of %s' % (what, got.shape, want.shape))
        return False
    b = base(got)
    return j.same([(b[k], want[k], 'element %s' % (k,)) for k in np.ndindex(want.shape)], p.conds, case, what)


def unknown(j):
    cls = j.loader().load('geotiepoints.interpolator').Interpolator
    d = gen.combine(list(np.eye(4).reshape(-1, 2, 2)), 'd')[0]
    for dims in (('z',), ('y', 'z'), ('z', 'x'), ('',), ('X',), (0,), ('yx',)):
        case = lambda *a: {'unknown': list(dims)}
        for p in j.explore(lambda: cls(d, (np.arange(2), np.arange(2)), (np.arange(4) / 2, np.arange(4) / 2)).fill_borders(*dims)):
            j.require(p.exc is not None, case, 'dimension names %s are accepted' % (dims,))


def replay(c):
    from geotiepoints.interpolator import Interpolator
    from geotiepoints.geointerpolator import GeoInterpolator
    if 'unknown' in c:
        try:
            Interpolator(np.eye(2), (np.arange(2), np.arange(2)), (np.arange(4) / 2, np.arange(4) / 2)).fill_borders(*c['unknown'])
        except Exception:       # noqa
            return False, 'ok'
        return True, 'unknown dimension %s accepted' % c['unknown']
    r, h, cc, hc = (np.array(c[k]) for k in ('r', 'h', 'c', 'hc'))
    rows, cols = len(r), len(cc)
    rnd = np.random.RandomState(0)
    step = c['chunk'] or len(h)
    data = [rnd.uniform(-1, 1, (rows, cols)) for _ in range(c['arrays'] or 2)]
    if c['border'][0]:
        cc[0] = hc[0]
    if c['border'][1]:
        cc[-1] = hc[-1]
    try:
        if c['arrays'] == 0:
            it = GeoInterpolator((data[0] * 100, data[1] * 50), (r, cc), (h, hc), chunk_size=c['chunk'])
            data = [np.array(v) for v in it.tie_data]
        else:
            it = Interpolator(list(data) if len(data) > 1 else data[0], (r, cc), (h, hc), chunk_size=c['chunk'])
        fill(it, c['dims'])
    except Exception as e:      # noqa: any exception is a violation
        return True, 'raises %r' % e
    wr = expected_rows(r, h, c['ties'], step, c['dims']).astype(float)
    wc = expected_cols(cc, hc, c['border'], c['dims']).astype(float)
    for n, a, b in (('row positions', it.row_indices, wr), ('column positions', it.col_indices, wc)):
        d = gen.compare([a], [b], 1e-9 * max(1, np.abs(b).max()), [n])
        if d:
            return True, d
    if len(it.tie_data) != len(data):
        return True, '%d arrays' % len(it.tie_data)
    for n, (a, d) in enumerate(zip(it.tie_data, data)):
        w = expected(d, r, h, cc, hc, c['ties'], step, c['dims'], c['border'])
        t = gen.compare([a], [w], 1e-6 * max(1, np.abs(w).max()), ['values of array %d' % n])
        if t:
            return True, t
    return False, 'ok'
