"""V01: VII interpolation, scan by scan."""
import numpy as np

from vp import gen, xar
from vp.arr import SA, sa
from vp.loader import Namespace

BUILD = False
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-9 of the values is required)',
               'xarray is the real one with arrays of symbols inside; DataArray.interp is linear in the data: the real function is applied to '
               'the coefficients of every symbol']


def cases(tier):
    # scans, tie rows per scan, tie columns, factor, arrays, dims
    out = [(n, t, m, f, 1 + (n + t + m + f) % 3, ('y', 'x') if (n + f) % 2 else ('num_tie_points_alt', 'num_tie_points_act'))
           for n in (1, 2, 3) for t in (2, 3) for m, f in ((2, 3), (4, 2), (3, 8), (2, 1))]
    out += [(7, 2, 2, 3, 4, ('y', 'x')), (4, 3, 2, 20, 1, ('y', 'x')), (2, 7, 3, 2, 2, ('x', 'y')), (1, 2, 40, 3, 1, ('y', 'x')), (12, 4, 2, 1, 5, ('y', 'x')),
            (2, 3, 2, 33, 2, ('a', 'b')), (5, 5, 6, 2, 1, ('y', 'x')), (45, 2, 2, 2, 2, ('y', 'x')), (130, 3, 2, 1, 1, ('y', 'x')), (2, 2, 270, 2, 1, ('y', 'x')),
            (1, 2, 3, 64, 1, ('y', 'x')), (2, 40, 2, 2, 1, ('y', 'x'))]
    g = np.random.RandomState(11)
    while len(out) < (60 if tier != 'thorough' else 120):
        n, t, m, f, k = (int(g.choice(c)) for c in ([1, 2, 3, 4, 6, 9], [2, 2, 3, 4, 6, 10], [2, 2, 3, 5, 11, 45], [1, 2, 3, 4, 7, 8, 10, 16], [1, 2, 3, 4, 5, 6]))
        if n * (t - 1) * f * (m - 1) * f * k <= 12000:
            out.append((n, t, m, f, k, ('y', 'x') if g.rand() < 0.5 else ('num_tie_points_alt', 'num_tie_points_act')))
    if tier == 'thorough':
        out += [(n, t, m, f, 2, ('a', 'b')) for n in (1, 2, 4, 5) for t in (2, 4, 6) for m in (2, 5, 9) for f in (1, 2, 5, 8)]
    return out


def forms(tier):
    return [(2, 2, 3, 3, 2, ('y', 'x'), 'f4'), (1, 3, 2, 4, 1, ('a', 'b'), 'fortran'), (2, 3, 4, 2, 3, ('y', 'x'), 'strided'), (3, 2, 2, 2, 2, ('y', 'x'), 'reversed')]


def BOUNDS(tier):
    return ['other forms of arrays: %s' % forms(tier),
            'every tie value; scans, tie rows per scan, tie columns, factor, arrays, dimension names: %s' % cases(tier),
            'tie row counts that are not multiples; arrays of other shapes or dimensions']


def jobs(tier):
    return [('%s' % (c,), run, c) for c in cases(tier) + forms(tier)] + [('wrong shapes', wrong, ())]


def blend(d, n, t, m, f):
    """The specification."""
    out = np.zeros((n * (t - 1) * f, (m - 1) * f), dtype=d.dtype)
    for s in range(n):
        for k in range(t - 1):
            for i in range(f):
                for l in range(m - 1):
                    for j in range(f):
                        a, b = i / f, j / f
                        r = s * t + k
                        out[(s * (t - 1) + k) * f + i, l * f + j] = (
                            d[r, l] * ((1 - a) * (1 - b)) + d[r + 1, l] * (a * (1 - b)) + d[r, l + 1] * ((1 - a) * b) + d[r + 1, l + 1] * (a * b))
    return out




def load(j):
    xr = xar.install()
    return j.loader(overrides={'xarray': xr}).load('geotiepoints.viiinterpolator'), xr


def run(j, n, t, m, f, arrays, dims, form='f8'):
    mod, xr = load(j)
    fields = list(np.eye(n * t * m).reshape(-1, n * t, m))
    data = [gen.combine(fields, 'd%d_' % k)[0] for k in range(arrays)]
    data = [gen.form(d, form) for d in data]
    case = lambda *a: {'c': [n, t, m, f, arrays, list(dims), form]}
    for p in j.explore(lambda: mod.tie_points_interpolation([xr.DataArray(d, dims=dims) for d in data], t, f)):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        got = list(p.result)
        if not j.require(len(got) == arrays, case, '%d results for %d arrays' % (len(got), arrays)):
            continue
        for k, (g, d) in enumerate(zip(got, data)):
            if not j.require(isinstance(g, xr.DataArray) and tuple(g.dims) == tuple(dims), case, 'dimensions of result %d' % k):
                continue
            j.equal_arrays(g.data, sa(blend(np.asarray(d.view(np.ndarray)), n, t, m, f)), 1e-9, p.conds, case, 'array %d' % k)
        j.reach(p.conds, case, 'interpolation')


WRONG = {
    'rows': ([((5, 3), ('y', 'x'))], 2), 'rows 2': ([((4, 3), ('y', 'x'))], 3), 'rows 3': ([((7, 2), ('y', 'x'))] * 2, 3),
    'shape': ([((4, 3), ('y', 'x')), ((4, 4), ('y', 'x'))], 2), 'shape 2': ([((4, 3), ('y', 'x')), ((2, 3), ('y', 'x'))], 2),
    'shape 3': ([((4, 3), ('y', 'x'))] * 2 + [((6, 3), ('y', 'x'))], 2), 'transposed': ([((4, 3), ('y', 'x')), ((3, 4), ('x', 'y'))], 2),
    'dims': ([((4, 3), ('y', 'x')), ((4, 3), ('y', 'z'))], 2), 'dims 2': ([((4, 4), ('y', 'x')), ((4, 4), ('x', 'y'))], 2),
    'dims 3': ([((4, 4), ('y', 'x'))] * 2 + [((4, 4), ('w', 'x'))], 2),
}


def wrong(j):
    mod, xr = load(j)
    for name, (arrays, t) in WRONG.items():
        data = [xr.DataArray(gen.combine(list(np.eye(s[0] * s[1]).reshape((-1,) + s)), 'd%d_' % k)[0], dims=d) for k, (s, d) in enumerate(arrays)]
        for p in j.explore(lambda: mod.tie_points_interpolation(data, t, 2)):
            j.require(isinstance(p.exc, ValueError), lambda: {'wrong': name}, 'no ValueError for %s' % name)


def replay(c):
    import xarray as xr
    from geotiepoints.viiinterpolator import tie_points_interpolation
    r = np.random.RandomState(0)
    if 'wrong' in c:
        arrays, t = WRONG[c['wrong']]
        try:
            tie_points_interpolation([xr.DataArray(r.rand(*s), dims=d) for s, d in arrays], t, 2)
        except ValueError:
            return False, 'ok'
        except Exception as e:      # noqa
            return True, 'raises %r instead of ValueError' % e
        return True, 'no ValueError for %s' % c['wrong']
    n, t, m, f, arrays, dims, form = c['c']
    data = [r.uniform(-1, 1, (n * t, m)) for _ in range(arrays)]
    if form != 'f8':
        e = gen.form_differs(lambda *d: [g.values for g in tie_points_interpolation([xr.DataArray(v, dims=dims) for v in d], t, f)], data, form, False)
        return (True, e) if e else (False, 'ok')
    try:
        got = list(tie_points_interpolation([xr.DataArray(d, dims=dims) for d in data], t, f))
        if len(got) != arrays or any(tuple(g.dims) != tuple(dims) for g in got):
            return True, '%d results with dimensions %s' % (len(got), [g.dims for g in got])
        d = gen.compare([g.values for g in got], [blend(d, n, t, m, f) for d in data], 1e-9, ['array %d' % k for k in range(arrays)])
    except Exception as e:      # noqa
        return True, 'raises %r' % e
    return (True, d) if d else (False, 'ok')
