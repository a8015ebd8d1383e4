"""B01: the basic (pandas) interpolator."""
import numpy as np

from vp import frames, gen, sym
from vp.arr import base, sa

BUILD = False
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled (agreement to 1e-7, for float32 1e-3, is required)',
               'pandas is the real one, with a frame of coefficients for every symbol: what interpolate() puts in the gaps is linear in the data']

# row indices, column indices
AXES = [([0, 5, 10], [0, 4, 8, 12]), ([0, 1, 5, 6], [0, 3, 4, 11]), ([0, 3], [0, 1]), ([0, 1, 2], [0, 7]), ([0, 9, 10, 12, 13], [0, 2, 5]),
        ([0, 1, 2, 3], [0, 1, 2]), ([0, 2, 7, 8, 16], [0, 1, 4, 9, 16, 25]), ([0, 6], [0, 5, 6, 8]), ([0, 4, 5], [0, 4, 5]), ([0, 10], [0, 1, 3, 6, 10]),
        ([0, 130], [0, 40, 41]), ([0, 2, 30], [0, 20, 1100]), ([0, 1200], [0, 1, 9]),
        ([1, 4], [0, 2, 3]), ([0, 3, 4], [2, 3, 7]), ([2, 3, 5, 9, 11, 12], [1, 4, 5, 8, 9]), ([5, 7], [3, 9])]
FORMS = {'array': np.array, 'list': list, 'int32': lambda v: np.array(v, 'i4'), 'tuple': tuple}


def cases(tier):
    out = [(r, c, list(FORMS)[k % 4], 'f4' if k % 3 == 2 else 'f8') for k, (r, c) in enumerate(AXES)]
    if tier == 'thorough':
        g = np.random.RandomState(5)
        for k in range(30):
            r, c = ([0] + np.cumsum(g.randint(1, 9, g.randint(1, 6))).tolist() for _ in range(2))
            out.append((r, c, list(FORMS)[k % 3], 'f4' if k % 4 == 2 else 'f8'))
    return out


def BOUNDS(tier):
    return ['every tie value (latitudes in [-90, 90], longitudes in [-400, 400]); row indices, column indices, given as, data type: %s' % cases(tier), 'what is before the first index; missing tie values']


def jobs(tier):
    return [('%s' % (c,), run, c) for c in cases(tier)]


def blend(d, rows, cols):
    """The specification."""
    out = np.zeros((rows[-1] + 1, cols[-1] + 1), dtype=d.dtype)
    for y in range(rows[0], out.shape[0]):
        k = max(i for i in range(len(rows) - 1) if rows[i] <= y)
        a = (y - rows[k]) / (rows[k + 1] - rows[k])
        for x in range(cols[0], out.shape[1]):
            n = max(i for i in range(len(cols) - 1) if cols[i] <= x)
            b = (x - cols[n]) / (cols[n + 1] - cols[n])
            out[y, x] = d[k, n] * ((1 - a) * (1 - b)) + d[k + 1, n] * (a * (1 - b)) + d[k, n + 1] * ((1 - a) * b) + d[k + 1, n + 1] * (a * b)
    return out


def data(name, rows, cols, dtype, hi):
    n = len(rows) * len(cols)
    return sa(gen.combine(list(np.eye(n).reshape(n, len(rows), len(cols))), name, -hi, hi)[0], dtype)


def size(v):
    """A bound of |v| if it is linear in values of at most 400."""
    if not isinstance(v, sym.Sym):
        return abs(v)
    return sum(abs(c) * 400 ** sum(e for _, e in m) for m, c in v.p.items())


def run(j, rows, cols, form, dtype):
    mod = j.loader(overrides=frames.overrides()).load('geotiepoints.basic_interpolator')
    lat, lon = data('lat', rows, cols, dtype, 90), data('lon', rows, cols, dtype, 400)

    def case(m=None, *a):
        c = {'c': [rows, cols, form, dtype]}
        if m is not None:
            c['ties'] = [[[m.f(v) for v in q] for q in base(d)] for d in (lat, lon)]
        return c

    def call():
        it = mod.BasicSatelliteInterpolator(FORMS[form](cols), FORMS[form](rows), lat, lon)
        r = list(it.interpolate())
        return r + list(it.interpolate())
    for p in j.explore(call):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        if not j.require(len(p.result) == 4, case, '%d results' % (len(p.result) // 2)):
            continue
        for g, d, w in zip(p.result, (lat, lon) * 2, ('latitude', 'longitude', 'latitude (second time)', 'longitude (second time)')):
            want = blend(np.asarray(d.view(np.ndarray)), rows, cols)
            if not j.require(getattr(g, 'shape', None) == want.shape, case, '%s: shape %s instead of %s' % (w, getattr(g, 'shape', None), want.shape)):
                continue
            g, want = (sa(np.asarray(base(v), object)[rows[0]:, cols[0]:].copy()) for v in (g, want))     # (nothing is said of what is before)
            want = base(want)
            diff = (np.asarray(base(g), object) - want).reshape(-1)
            if not j.require(not any(sym.is_junk(v) or v != v for v in diff if not isinstance(v, sym.Sym)), case, '%s: not a number' % w):
                continue
            tol = sym.num(1e-7 if dtype == 'f8' else 1e-3)
            what = '%s is not the blend of the tie values' % w
            # differences that only round constants are decided together, the others by themselves, the largest first
            big = [k for k, v in enumerate(diff) if size(v) > tol]
            g2, w2 = (np.asarray(v, object).reshape(-1).copy() for v in (base(g), want))
            g2[big], w2[big] = 0, 0
            if not j.equal_arrays(sa(g2), sa(w2), float(tol), p.conds, case, what, -400, 400):
                continue
            big.sort(key=lambda k: -size(diff[k]))
            for k in range(0, len(big), 50):
                if not j.prove([c for v in diff[big[k:k + 50]] for c in (v <= tol, -v <= tol)], p.conds, case, what):
                    break
        j.reach(p.conds, case, 'interpolation')


def replay(c):
    r = attempt(c)
    # (of functions that are not known, the counterexample does not say what they give)
    return r if r[0] or 'ties' not in c else attempt({'c': c['c']})


def attempt(c):
    from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
    rows, cols, form, dtype = c['c']
    r = np.random.RandomState(0)
    lat, lon = (r.uniform(-s, s, (len(rows), len(cols))).astype(dtype) for s in (90, 400))
    if 'ties' in c:
        lat, lon = (np.array(v, dtype) for v in c['ties'])
    try:
        it = BasicSatelliteInterpolator(FORMS[form](cols), FORMS[form](rows), lat, lon)
        got = list(it.interpolate()) + list(it.interpolate())
        if len(got) != 4:
            return True, '%d results' % (len(got) // 2)
        want = [blend(d.astype('f8'), rows, cols) for d in (lat, lon)] * 2
        if any(np.shape(g) != w.shape for g, w in zip(got, want)):
            return True, 'shapes %s instead of %s' % ([np.shape(g) for g in got], want[0].shape)
        d = gen.compare([np.asarray(g)[rows[0]:, cols[0]:] for g in got], [w[rows[0]:, cols[0]:] for w in want], 1e-7 if dtype == 'f8' else 1e-3, ['latitude', 'longitude'] * 2)
    except Exception as e:      # noqa
        return True, 'raises %r' % e
    return (True, d) if d else (False, 'ok')
