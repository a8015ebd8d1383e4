"""S02: inputs are not modified, and results depend on nothing else."""
import os
import pickle

import numpy as np

from vp import arr, lazy, stubs, sym, xar
from vp.arr import base, sa
from vp.sym import var
from . import i01, i04

BUILD = True
ASSUMPTIONS = ['the conversion to longitude and latitude of the generic and MODIS interpolators is recorded, not executed (G02 decides it; it is '
               'given newly made arrays only)', 'zenith angles and index vectors are concrete (zero, negative, equal and unequal ones)',
               'scipy and ndimage do not write to what they are given; longitudes may lie outside of [-180, 180]']


class Symbols:
    """Arrays of symbols; every array consists of few different ones (in no regular order)."""
    symbolic = True

    def __init__(self, job, tag, positions=False):
        self.tag, self.job, self.given, self.used, self.asm = tag, job, [], {}, []
        self.ld = job.loader(hooks=[stubs.decode_python, stubs.decode_cython],
                             overrides=dict(lazy.overrides() if positions else {}, xarray=xar.install()))

    def mod(self, name):
        m = self.ld.modules.get(name)
        if m is not None and not getattr(m, '_light', False):
            return m
        return self.ld.load_package() if name == 'geotiepoints' else self.ld.load('geotiepoints.' + name)

    def share(self, other):
        self.ld = other.ld
        return self

    def array(self, name, shape, lo, hi, dtype='f8', count=3):
        vs = [var('%s%s%d' % (name, self.tag, k), lo=lo, hi=hi) for k in range(count)]
        self.used.update((self.tag + name + str(k), v) for k, v in enumerate(vs))
        return self.keep(sa(self.place(vs, shape), dtype))

    def ascending(self, name, values):
        """Positions: any ascending numbers."""
        vs = [var('%s%s%d' % (name, self.tag, k), lo=-100, hi=100) for k in range(len(values))]
        self.used.update((self.tag + name + str(k), v) for k, v in enumerate(vs))
        self.asm += [b - a >= sym.num(0.25) for a, b in zip(vs, vs[1:])] + [vs[0] >= -100, vs[-1] <= 100]
        return self.keep(sa(np.array(vs, object), 'f8'))

    @staticmethod
    def place(vs, shape):
        a = np.empty(shape, object)
        for n, k in enumerate(np.ndindex(*shape)):
            a[k] = vs[(n * n // 3 + n + k[-1] // 2) % len(vs)]
        return a

    def keep(self, x):
        self.given.append(x)
        return x

    def frame(self, x, **kw):
        import xarray as xr
        d = xr.DataArray(x, **kw)
        self.given.append(d)
        return d


class Concrete(Symbols):
    symbolic = False

    def __init__(self, tag, values=None):
        self.tag, self.given, self.values = tag, [], values

    def mod(self, name):
        import importlib
        return importlib.import_module(name if name == 'geotiepoints' else 'geotiepoints.' + name)

    def array(self, name, shape, lo, hi, dtype='f8', count=3):
        if self.values:
            return self.keep(self.place([self.values[self.tag + name + str(k)] for k in range(count)], shape).astype(dtype))
        r = np.random.RandomState(sum(map(ord, name + self.tag)))
        mid, half = (lo + hi) / 2, (hi - lo) / 2
        smooth = np.linspace(-0.1, 0.1, int(np.prod(shape))).reshape(shape)
        a = mid + half * (0.3 * r.uniform(-1, 1) + smooth + 0.02 * r.uniform(-1, 1, shape))
        if name == 'lon':
            a = a + 360 * (np.arange(shape[-1]) % 3 - 1)        # any convention
        return self.keep(a.astype(dtype))

    def ascending(self, name, values):
        if self.values:
            values = [self.values[self.tag + name + str(k)] for k in range(len(values))]
        return self.keep(np.array(values, float))


def lonlat(e, shape, dtype='f8'):
    return e.array('lon', shape, -380, 380, dtype), e.array('lat', shape, -90, 90, dtype, 2)


def bend(v):
    """Other positions between the same ends."""
    v = np.array(v, float)
    return v[0] + (v[-1] - v[0]) * ((v - v[0]) / (v[-1] - v[0])) ** 1.0625 if len(v) > 2 else v


# every case: function of the environment that returns the call (None: nothing else to do). Environment A has the data,
# B others of the same shape, C others at other positions between the same ends, D others of another shape
def helper(e, name, dtype):
    mod, _f, rows, _w = i01.HELPERS[name]
    if e.tag == 'C' or e.tag == 'D' and name.startswith('modis1km'):
        return None
    tr, tc = i01.axes(name, 2 if e.tag == 'D' else 1)[:2]
    fn = getattr(e.mod(mod.rpartition('.')[2]), name)
    if name.startswith('generic'):
        data = [e.array('d%d' % k, (len(tr), len(tc)), -1e6, 1e6, dtype) for k in range(2)]
        return lambda: fn(*data)
    lon, lat = e.array('lon', (len(tr), len(tc)), -380, 380, dtype, 2), e.array('lat', (len(tr), len(tc)), -90, 90, dtype, 1)
    return lambda: fn(lon, lat)


def klass(e, what, dtype, opts, container=list):
    name, _, way = what.partition(' ')
    g = 'scan' if way in ('filled', 'chunks') else 'shape' if way == 'shape' else 'odd'
    shift = 0.1 if e.tag == 'B' and way in ('', 'filled', 'chunks') else 0
    rows, cols = (e.keep((bend(v) if e.tag == 'C' else np.array(v, float)) + shift) for v in i04.GRIDS[g])
    if e.tag == 'D' and way in ('filled', 'chunks'):
        return None
    if e.tag == 'D':
        rows, cols = cols, rows
    shape = (len(rows), len(cols))
    data = lonlat(e, shape, dtype) if name.startswith('Geo') else [e.array('d%d' % k, shape, -1e6, 1e6, dtype) for k in range(2)]
    fr, fc = (e.keep(bend(v) if e.tag == 'C' else v) for v in (i04.fine(rows), i04.fine(cols)))
    if way == 'rows':
        fr = e.keep(np.array(rows))
    elif way in ('filled', 'chunks'):
        fr, fc = e.keep(np.arange(len(rows) * 5) / 5.), e.keep(np.arange(25.))
    cls = getattr(e.mod('geointerpolator' if name.startswith('Geo') else 'interpolator'), name)
    if name in ('Interpolator', 'GeoInterpolator'):
        args = e.keep(container(data))
        grid, final = e.keep((rows, cols)), e.keep((fr, fc))

        def call():
            it = cls(args, grid, final, **opts)
            if way in ('filled', 'chunks'):
                it.fill_borders('y', 'x')
            first = [v for v in it.interpolate()]
            again = [v for v in it.interpolate()]
            return first + again
        return call
    grid, final = e.keep((rows, cols)), e.keep([fr, fc])
    opts = e.keep(dict(opts))

    def call():
        it = cls(grid, *(data[:1] if name.startswith('Single') else data), **opts)
        if way == 'shape':
            n, m = {'B': (5, 6), 'C': (3, 6), 'D': (5, 4)}.get(e.tag, (4, 5))
            return list(it.interpolate_to_shape((n, m)))
        if way == 'slices':
            return [it.interpolate_slices((slice(0, 4), slice(2, 8, 2 if e.tag == 'C' else 1)))]
        r = it.interpolate(final)
        first = [r] if name.startswith('Single') else list(r)
        r = it.interpolate(final)
        return first + ([r] if name.startswith('Single') else list(r))
    return call


def positions(e, name, dtype, opts, how):
    """The positions are symbols, too; the interpolated values are unknown functions of them."""
    if e.tag == 'C':
        return None
    rows, cols = e.ascending('r', [0, 1, 2.5, 4]), e.ascending('c', [-1, 2, 3, 7, 9])
    fr, fc = e.ascending('y', [-0.5, 0.5, 4.25]), e.ascending('x', [-2, 2, 10])
    if e.tag == 'D':
        rows, cols, fr, fc = cols, rows, fr[:2], fc[1:]
    shape = (len(rows), len(cols))
    data = lonlat(e, shape, dtype) if name.startswith('Geo') else [e.array('d%d' % k, shape, -1e6, 1e6, dtype) for k in range(2)]
    cls = getattr(e.mod('geointerpolator' if name.startswith('Geo') else 'interpolator'), name)
    grid, final, opts = e.keep((rows, cols)), e.keep([fr, fc] if how == 'list' else (fr, fc)), e.keep(dict(opts))

    def call():
        it = cls(grid, *(data[:1] if name.startswith('Single') else data), **opts)
        r = it.interpolate(final)
        return [r] if name.startswith('Single') else list(r)
    return call


def modis(e, name, shape, dtype, frame):
    simple = name.startswith('simple')
    if e.tag == 'C' or e.tag == 'D' and shape[1] == 1354:
        return None
    if e.tag == 'D':
        shape = (shape[0], 541 - shape[1]) if not simple else (shape[0] * 2, 2) if shape[0] == 10 else (10, shape[1] * 2)
    fn = getattr(e.mod('simple_modis_interpolator' if simple else 'modisinterpolator'), name.split()[-1])
    args = list(lonlat(e, shape, dtype))
    if not simple:
        a = np.linspace(-64, 65, shape[1])[None, :] * np.ones((shape[0], 1))
        a = a * 0.9 if e.tag == 'B' else a
        a[0, 3:6] = 0
        a[0, 20:23], a[-1, -3:] = 80, 79.5
        a[-1, 10:13] = 20
        args.append(e.keep(a.astype(dtype)))
    if frame:
        args = [e.frame(a, dims=('y', 'x')) for a in args]
    return lambda: [r.data if hasattr(r, 'dims') else r for r in fn(*args)]


def vii(e, way, dtype):
    m = e.mod('viiinterpolator')
    shape, rows, f = {'C': ((4, 3), 4, 2), 'D': ((2, 6), 2, 2), 'B': ((4, 3), 2, 3)}.get(e.tag, ((4, 3), 2, 2))
    mk = lambda n, lo, hi: e.frame(e.array(n, shape, lo, hi, dtype, 4 if way == 'cartesian' else 3), dims=('y', 'x'))
    if way == 'one':
        d = mk('d', -1e6, 1e6)
        return lambda: [m.tie_points_interpolation([d], rows, f)[0].data]
    if way == 'list':
        ds = e.keep([mk('d', -1e6, 1e6), mk('q', -1e6, 1e6)])
        return lambda: [v.data for v in m.tie_points_interpolation(ds, rows, f)]
    lon, lat = (mk('lon', -180, 180), mk('lat', -50, 50)) if way == 'degrees' else (mk('lon', -180, 180), mk('lat', 61, 90))
    return lambda: [v.data for v in m.tie_points_geo_interpolation(lon, lat, rows, f)]


def multilinear(e, orders, dtype, how):
    m = e.mod('multilinear')
    if e.tag == 'C' or e.tag == 'D' and len(set(orders)) == 1:
        return None
    orders = orders[::-1] if e.tag == 'D' else orders
    d = len(orders)
    lo, hi = e.keep(np.array([0., -1, 2, 3][:d], dtype) - (e.tag == 'B')), e.keep(np.array([1., 1, 2.5, 7][:d], dtype))
    o = e.keep(np.array(orders, dtype='long'))
    if how == 'lists':
        lo, hi, o = (e.keep(v.tolist()) for v in (lo, hi, o))
    vals = e.array('v', (2, int(np.prod(orders))), -1e6, 1e6, dtype)
    pts = np.array([[-0.5, 0.2, 1.0], [0.3, 0.9, 4], [2, 2.4, 2.1], [3, 9, 4.5]][:d], dtype)
    if how == 'points':         # far outside the grid
        pts = e.array('p', (d, 3), 100, 2e9, dtype)
    else:
        pts = e.keep(pts)
    if how == 'strided':
        pts = e.keep(np.repeat(pts, 2, axis=1))[:, ::2]

    def call():
        it = m.MultilinearInterpolator(lo, hi, o, vals, dtype=np.dtype(dtype).type)
        first = it.interpolate(pts)
        grid = it.grid
        return [first, it(pts), grid, it.interpolate(pts)]
    return call


def cases(tier):
    out = [(helper, n, d) for n, d in (('metop20kmto1km', 'f8'), ('modis5kmto1km', 'f8'), ('modis1kmto500m', 'f4'), ('modis1kmto250m', 'f8'),
                                       ('generic_modis5kmto1km', 'f8'))]
    for w, o in (('Interpolator', {}), ('Interpolator', {'kx_': 2, 'ky_': 3}), ('Interpolator rows', {'ky_': 2}), ('Interpolator filled', {}),
                 ('Interpolator chunks', {'chunk_size': 10}), ('GeoInterpolator', {}), ('GeoInterpolator chunks', {'chunk_size': 10}),
                 ('SingleGridInterpolator', {}), ('SingleGridInterpolator', {'method': 'nearest'}), ('SingleSplineInterpolator', {}),
                 ('SingleGridInterpolator slices', {'bounds_error': False, 'fill_value': None}), ('MultipleGridInterpolator', {}),
                 ('MultipleSplineInterpolator', {'kx': 1, 'ky': 1}), ('MultipleGridInterpolator shape', {}), ('GeoGridInterpolator', {}),
                 ('GeoSplineInterpolator', {}), ('GeoSplineInterpolator shape', {})):
        for d in ('f8', 'f4'):
            out.append((klass, w, d, o))
    out += [(klass, 'Interpolator filled', 'f8', {}, tuple), (klass, 'GeoInterpolator', 'f8', {}, tuple), (klass, 'GeoInterpolator filled', 'f4', {}, list)]
    out += [(positions, '%s%sInterpolator' % (a, b), 'f8', {'bounds_error': False, 'fill_value': None} if b == 'Grid' else {'kx': 1, 'ky': 2},
             'list' if a == 'Single' else 'tuple') for a in ('Single', 'Multiple', 'Geo') for b in ('Grid', 'Spline')]
    for n, s, d, f in (('modis_5km_to_1km', (2, 271), 'f8', False), ('modis_5km_to_1km', (2, 270), 'f4', True), ('modis_5km_to_500m', (2, 271), 'f4', False),
                       ('modis_1km_to_500m', (10, 1354), 'f8', False),
                       ('simple modis_1km_to_500m', (20, 5), 'f8', False), ('simple modis_1km_to_250m', (10, 4), 'f4', False),
                       ('simple modis_1km_to_500m', (10, 3), 'f8', True)):
        out.append((modis, n, s, d, f))
    if tier == 'thorough':
        out += [(modis, 'modis_5km_to_250m', (2, 271), 'f8', False), (modis, 'modis_1km_to_250m', (10, 1354), 'f4', False),
                (modis, 'modis_5km_to_1km', (6, 271), 'f8', False), (modis, 'modis_1km_to_500m', (10, 1354), 'f4', True)]
    out += [(vii, w, d) for w in ('one', 'list', 'degrees', 'cartesian') for d in ('f8', 'f4')]
    for o, d, h in (((3,), 'f8', 'arrays'), ((2, 3), 'f8', 'lists'), ((2, 2, 3), 'f4', 'strided'), ((2, 2, 2, 2), 'f8', 'arrays'), ((3, 2), 'f4', 'arrays'),
                    ((2,), 'f8', 'points'), ((2, 2), 'f8', 'points'), ((2, 2, 2), 'f8', 'points')):
        out.append((multilinear, o, d, h))
    return out


def label(c):
    return '%s %s' % (c[0].__name__, ' '.join(getattr(v, '__name__', None) or str(v) for v in c[1:]))


def BOUNDS(tier):
    return ['every value of the symbols an input array consists of (3, for latitudes 2); longitudes in [-380, 380]',
            'each function: data, other data at other positions, of another shape and of the same shape, the first data again; kind of case, function or class, options: %s' %
            [label(c) for c in cases(tier)]]


def jobs(tier):
    cs = cases(tier)
    slow = [c for c in cs if c[0] in (helper, modis)]
    rest = [c for c in cs if c not in slow]
    out = [(label(c), run, ([label(c)], tier)) for c in sorted(slow, key=lambda c: -np.prod(c[2]) if c[0] is modis else -10000)]
    return out + [('small %d' % k, run, ([label(c) for c in rest[k::12]], tier)) for k in range(12)]


def contents(x):
    """Everything a caller can see of an input."""
    if isinstance(x, sym.Sym):
        return sym.vkey(x)
    if hasattr(x, 'dims'):
        return ('DataArray', x.dims, sorted(x.attrs.items()), contents(x.data))
    if isinstance(x, arr.SA):
        return ('array', x.shape, str(x.dtype), [v for v in base(x).reshape(-1)])
    if isinstance(x, np.ndarray):
        return ('array', x.shape, str(x.dtype), x.reshape(-1).tolist())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [contents(v) for v in x])
    if isinstance(x, dict):
        return ('dict', sorted((k, contents(v)) for k, v in x.items()))
    return repr(x)


def pairs(a, b, out):
    """Numbers to compare; False if anything else differs."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(pairs(x, y, out) for x, y in zip(a, b))
    if isinstance(a, stubs.Decode) and isinstance(b, stubs.Decode):
        return a.what == b.what and a.params == b.params and all(pairs(getattr(a, n), getattr(b, n), out) for n in 'xyz')
    if isinstance(a, sym.Sym) or isinstance(b, sym.Sym):
        if isinstance(a, sym.Sym) and isinstance(b, sym.Sym):
            p, q = stubs.decoded(a), stubs.decoded(b)
            if p is not None and q is not None:
                return pairs(p, q, out)
            if a is b or a.key() == b.key():
                out[a.key()] = (a, b)
                return True
        elif not (sym.is_num(a) or sym.is_num(b)):
            return False
        out[len(out) + 1] = (a, b)
        return True
    return a == b or a != a and b != b


def compare(j, got, want, conds, case, what):
    out = {}
    j.claims += 1
    if not pairs(got, want, out):
        return j.prove(False, conds, case, what)
    diff = list(out.values())
    if not diff:
        return True
    bad = [(a, b) for a, b in diff if sym.vkey(a) != sym.vkey(b)]
    if not bad:     # the same expressions: one query for the record
        r, _ = j.query(list(conds) + [lambda zc: sym.z3.Or(*[zc.val(a) != zc.val(b) for a, b in diff[:50]])])
        if r != sym.z3.unsat:
            raise sym.Unsupported('solver gives no answer: %s' % what)
        return True
    return j.prove([sym.cmp('==', a, b) for a, b in bad[:200]], conds, case, what)


def run(j, labels, tier):
    table = {label(c): c for c in cases(tier)}
    for text in labels:
        fn, args = table[text][0], table[text][1:]
        envs, calls, fresh = [], [], []
        for t in 'ACDB':
            e = Symbols(j, t, fn is positions)
            e = e.share(envs[0]) if envs else e
            c = fn(e, *args)
            if c:
                envs.append(e)
                calls.append(c)
                fresh.append(t != 'A' and fn(Symbols(j, t, fn is positions), *args))
        asm = sum([e.asm for e in envs], [])

        def case(m=None, *a):
            c = {'case': text, 'tier': tier}
            if m is not None:
                c['values'] = {k: m.f(v) for e in envs for k, v in e.used.items()}
            return c
        before = [[contents(x) for x in e.given] for e in envs]
        state = {}

        def sequence():
            # every path starts with the inputs as they were
            for e, b in zip(envs, state.get('saved', ())):
                for x, v in zip(e.given, b):
                    restore(x, v)
            state.setdefault('saved', [[save(x) for x in e.given] for e in envs])
            r = [contents(c()) for c in calls]
            # (large cases: the second result is enough)
            r.append(r[0] if fn is helper or fn is modis and args[1][1] > 20 else contents(calls[0]()))
            return r, [[contents(x) for x in e.given] for e in envs]
        lone = None
        n = 0
        for p in j.explore(sequence, asm):
            if p.exc is not None:
                j.prove(False, p.conds, case, '%s: raises %r' % (text, p.exc))
                continue
            rs, after = p.result
            n += 1
            for b, a in zip(before, after):
                for k, (u, v) in enumerate(zip(b, a)):
                    if not compare(j, v, u, p.conds, case, '%s: input %d is modified' % (text, k)):
                        break
            compare(j, rs[-1], rs[0], p.conds, case, '%s: the same data give another result after other data' % text)
            if lone is None and len(p.conds) == len(asm):
                lone = [f and contents(f()) for f in fresh]
            for e, r, want in zip(envs[1:], rs[1:], lone[1:] if lone is not None else ()):
                compare(j, r, want, p.conds, case, '%s: the result (%s) depends on data interpolated before' % (text, e.tag))
            j.reached += 1
        j.witnesses.append(case())
    return


def save(x):
    return base(x).copy() if isinstance(x, np.ndarray) else list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else \
        save(x.data) if hasattr(x, 'dims') else None


def restore(x, v):
    if isinstance(x, np.ndarray):
        base(x)[...] = v
    elif hasattr(x, 'dims') and isinstance(v, np.ndarray):
        base(x.data)[...] = v
    elif isinstance(x, list):
        x[:] = v
    elif isinstance(x, dict):
        x.clear()
        x.update(v)


# --------------------------------------------------------------------------

def alone(fn):
    """Result of a function in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(fn()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def replay(c):
    for values in [c.get('values'), None]:
        r = attempt(c, values)
        if r[0]:
            break
    return r


def attempt(c, values):
    import warnings
    warnings.simplefilter('ignore')
    fn, *args = {label(q): q for q in cases(c['tier'])}[c['case']]
    arrays = lambda rs: [np.array(np.asarray(r)) for r in rs]
    try:
        envs = [Concrete(t, values) for t in 'ACDB']
        calls = [fn(e, *args) for e in envs]
        envs, calls = zip(*[(e, c) for e, c in zip(envs, calls) if c])
        lone = [alone(lambda: arrays(c())) for c in calls[1:]]
        before = [[contents(x) for x in e.given] for e in envs]
        rs = [arrays(c()) for c in calls + calls[:1]]
    except Exception as e:      # noqa
        return values is None, '%s: raises %r' % (c['case'], e)
    after = [[contents(x) for x in e.given] for e in envs]
    for b, a in zip(before, after):
        for k, (u, v) in enumerate(zip(b, a)):
            if repr(u) != repr(v):
                return True, '%s: input %d is modified' % (c['case'], k)
    for x, y, t in [(rs[0], rs[-1], 'the same data give another result after other data')] + [
            (u, v, 'the result depends on data interpolated before') for u, v in zip(rs[1:-1], lone)]:
        if len(x) != len(y) or not all(np.array_equal(u, v, equal_nan=True) for u, v in zip(x, y)):
            return True, '%s: %s' % (c['case'], t)
    return False, 'ok'
