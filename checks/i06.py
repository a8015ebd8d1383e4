"""I06: names of lazy interpolations."""
import itertools

import numpy as np

from vp import arr, gen, lazy, sym
from vp.arr import base, sa
from vp.sym import Sym, sand, snot, var

BUILD = False
ASSUMPTIONS = ['dask tokenize is an injective function of what it is given: two tokens are equal if and only if kind, shape, type and all numbers '
               'are (the real one is a hash)',
               'scipy interpolators are not executed (names are made before the interpolation); real arithmetic']

# what one interpolation is made of, besides numbers: class, construction options, call options, shape of ties and fine points, chunks, type
BASE = dict(kind='SingleGridInterpolator', opts={'bounds_error': False, 'fill_value': 'symbol'}, call={}, ties=(2, 3), fine=(3, 2), chunks=((2, 1), (2,)),
            dtype='f8', n=1)
GRID2 = dict(BASE, opts={'method': 'nearest'})
SPLINE = dict(BASE, kind='SingleSplineInterpolator', opts={'kx': 1, 'ky': 1, 'bbox': 'symbols'})


def variants(b):
    """Interpolations that differ from b in one of the things that are not numbers."""
    out = [dict(b, chunks=c) for c in (((1, 2), (2,)), ((3,), (2,)), ((2, 1), (1, 1)))]
    out += [dict(b, ties=(3, 3)), dict(b, ties=(3, 2)), dict(b, fine=(3, 3), chunks=((2, 1), (3,))), dict(b, dtype='f4')]
    if 'Grid' in b['kind']:
        out += [dict(b, opts=o) for o in ({}, {'method': 'nearest', 'bounds_error': False, 'fill_value': 'symbol'}, {'bounds_error': False, 'fill_value': None})]
        out += [dict(b, call=o) for o in ({'method': 'nearest'}, {'method': 'slinear'})]
    else:
        out += [dict(b, opts=o) for o in ({'kx': 1, 'ky': 1}, {'kx': 1, 'ky': 2, 'bbox': 'symbols'}, {'kx': 2, 'ky': 1, 'bbox': 'symbols'}, {'kx': 1, 'ky': 1, 's': 1, 'bbox': 'symbols'})]
        out += [dict(b, call=o) for o in ({'dx': 1}, {'dy': 1}, {'dx': 1, 'dy': 1}, {'dx': 0, 'dy': 0})]
    return [v for v in out if v != b]


def pairs(tier):
    bases = [BASE, SPLINE, dict(BASE, kind='MultipleGridInterpolator', n=2), dict(SPLINE, kind='MultipleSplineInterpolator', n=2)]
    out = []
    for b in bases:
        out.append((b, b))
        vs = variants(b)
        if tier == 'thorough':
            out += [(u, v) for u, v in itertools.combinations_with_replacement([b] + vs, 2) if (u, v) != (b, b)]
        else:
            out += [(u, v) for u, v in itertools.combinations(vs, 2) if u['call'] and v['call'] or u['opts'] != b['opts'] and v['opts'] != b['opts']]
            out += [(b, v) for v in vs] + [(v, v) for v in vs if v['call'] or v['opts'] != b['opts']]
    for n, k in ((1, 'Single%sInterpolator'), (2, 'Multiple%sInterpolator')):
        for opts, call in (({}, {}), ({'s': 0}, {})):
            grid = dict(BASE, kind=k % 'Grid', opts={}, call=call, ties=(4, 4), n=n)
            out.append((grid, dict(grid, kind=k % 'Spline', opts=opts)))
    for g in ('GeoGridInterpolator', 'GeoSplineInterpolator'):
        b = dict(BASE, kind=g, opts={}, n=0)
        out += [(b, b), (b, dict(b, chunks=((3,), (2,)))), (b, dict(b, call={'method': 'nearest'} if 'Grid' in g else {'dx': 1}))]
    big = dict(BASE, ties=(2, 2), fine=(40, 30), chunks=((40,), (15, 15)))
    out += [(big, big)]
    return out


def show(b):
    return '%(kind)s%(opts)s ties %(ties)s %(dtype)s to %(fine)s %(call)s chunks %(chunks)s' % b


def BOUNDS(tier):
    return ['every tie position, tie value, fine position, fill value and spline boundary of both interpolations',
            'pairs of (class, construction options, tie grid, data type, fine grid, call options, chunks): %s' %
            ['%s / %s' % (show(a), show(b)) for a, b in pairs(tier)],
            'two uses of one interpolator: other fine positions, chunks, call options']


def jobs(tier):
    out = []
    ps = pairs(tier)
    for i in range(0, len(ps), 4):
        out.append(('pairs %d to %d' % (i, min(i + 4, len(ps)) - 1), run_pairs, (ps[i:i + 4],)))
    for b in (BASE, SPLINE, dict(BASE, kind='MultipleGridInterpolator', n=2)):
        out.append(('one %s used twice' % b['kind'], twice, (b,)))
    return out


class Numbers:
    """Symbols of one interpolation, in a fixed order."""

    def __init__(self, tag, b):
        self.tag, self.all, self.asm = tag, [], []
        h, w = b['ties']
        self.points = [self.ascending('%s%s' % (c, tag), n) for c, n in zip('yx', (h, w))]
        n = b['n'] or 2
        if b['n']:
            self.values = [[[self.new('d%s%d_%d_%d' % (tag, k, i, q)) for q in range(w)] for i in range(h)] for k in range(n)]
        self.fine = [[self.new('f%s%s%d' % (c, tag, i)) for i in range(n)] for c, n in zip('yx', b['fine'])]
        self.fill = self.new('fill%s' % tag)
        self.bbox = [self.new('b%s%d' % (tag, i)) for i in range(4)]
        for q, lo in zip(self.bbox, (1, 0, 1, 0)):
            self.asm.append(q <= -100 if lo else q >= 100)

    def new(self, name):
        v = var(name, lo=-1000, hi=1000)
        self.all.append(v)
        self.asm += [v >= -1000, v <= 1000]
        return v

    def ascending(self, name, n):
        out = []
        for i in range(n):
            v = self.new('%s_%d' % (name, i))
            self.asm += [v - out[-1] >= sym.num(0.25), v <= 90] if out else [v >= -90]
            out.append(v)
        return out


def options(b, num):
    out = dict(b['opts'])
    if out.get('fill_value') == 'symbol':
        out['fill_value'] = num.fill
    if out.get('bbox') == 'symbols':
        out['bbox'] = list(num.bbox)
    return out


def A(x, dtype='f8'):
    return sa(np.array(x, object), dtype)


def make(mods, b, num, values):
    cls = getattr(mods['geo' if b['kind'].startswith('Geo') else 'int'], b['kind'])
    return cls((A(num.points[0]), A(num.points[1])), *values, **options(b, num))


def names(it, b, num, chunks=None, call=None):
    r = it.interpolate((A(num.fine[0]), A(num.fine[1])), chunks=chunks or b['chunks'], **(b['call'] if call is None else call))
    return [r.name] if b['kind'].startswith('Single') else [q.name for q in r]


def numbers_equal(p, q):
    if len(p) != len(q):
        return False
    return sand(*[sym.cmp('==', x, y) for x, y in zip(p, q)])


def flat(x):
    return [v for y in x for v in flat(y)] if isinstance(x, (list, tuple)) else [x]


def run_pairs(j, ps):
    lazy.install()
    ld = j.loader(overrides=lazy.overrides())
    mods = {'int': ld.load('geotiepoints.interpolator'), 'geo': ld.load('geotiepoints.geointerpolator')}
    for k, (b, c) in enumerate(ps):
        both = []
        for tag, v in (('A%d' % k, b), ('B%d' % k, c)):
            num = Numbers(tag, v)
            if v['n']:
                vals = [A(x, v['dtype']) for x in num.values]
                data = [flat(x) for x in num.values]
            else:
                f = list(np.eye(v['ties'][0] * v['ties'][1]).reshape((-1,) + tuple(v['ties'])))
                lon, lat, xyz, _ = points(f, tag)
                vals, data = (lon, lat), [[q for m in xyz for q in base(m).reshape(-1)]] * 2
                num.asm += [s for q in data[0] for s in (q >= -1, q <= 1)]
            both.append((v, num, vals, data))

        def fn():
            return [names(make(mods, v, num, vals), v, num) for v, num, vals, _ in both]
        case = lambda m=None: None if m is None else {'pair': [concrete(m, v, num, data) for v, num, _, data in both]}
        what = '%s / %s' % (show(b), show(c))
        for p in j.explore(fn, both[0][1].asm + both[1][1].asm):
            if p.exc is not None:
                j.prove(False, p.conds, case, '%s: raises %r' % (what, p.exc))
                continue
            na, nb = p.result
            if not b['n']:
                j.require(na[0] != na[1], lambda: case(j.query(p.conds)[1]), '%s: longitude and latitude have the same name' % what)
            for x in range(len(na)):
                for y in range(len(nb)):
                    if not b['n'] and x != y:
                        continue
                    same = sand(numbers_equal(flat(both[0][1].points), flat(both[1][1].points)), numbers_equal(both[0][3][x], both[1][3][y]),
                                numbers_equal(flat(both[0][1].fine), flat(both[1][1].fine)),
                                numbers_equal(opt_numbers(b, both[0][1]), opt_numbers(c, both[1][1])), b == c)
                    n = lazy.names_equal(na[x], nb[y])
                    least = same
                    if not b['n'] and x == 0:       # the longitude does not depend on z
                        least = sand(*[numbers_equal(flat(q), flat(r)) for q, r in ((both[0][1].points, both[1][1].points),
                                       (both[0][1].fine, both[1][1].fine), (opt_numbers(b, both[0][1]), opt_numbers(c, both[1][1])))],
                                     numbers_equal(*[d[3][0][:len(d[3][0]) * 2 // 3] for d in both]), b == c)
                    text = '%s, arrays %d and %d' % (what, x, y)
                    if not j.prove(sym.implies(n, least), p.conds, case, '%s: different interpolations of equal name' % text):
                        break
                    if not j.prove(sym.implies(same, n), p.conds, case, '%s: equal interpolations of different name' % text):
                        break
            j.reach(p.conds, case, what)


def opt_numbers(b, num):
    return ([num.fill] if b['opts'].get('fill_value') == 'symbol' else []) + (num.bbox if b['opts'].get('bbox') == 'symbols' else [])


def points(f, tag):
    """Tie points at any position, with symbols of their own."""
    shape = f[0].shape
    lon, lat = np.empty(shape, object), np.empty(shape, object)
    xyz = [np.empty(shape, object) for _ in range(3)]
    for k in np.ndindex(shape):
        v = [var('%s%s_%d_%d' % ((c, tag) + k), lo=-1, hi=1) for c in 'XYZ']
        lon[k], lat[k] = sym.sphere_point('%s_%d_%d' % ((tag,) + k), *v)
        for a, q in zip(xyz, v):
            a[k] = q
    return sa(lon), sa(lat), xyz, None


def concrete(m, b, num, data):
    """JSON of one interpolation."""
    f = lambda x: [f(v) for v in x] if isinstance(x, list) else m.f(x)
    out = {'b': dict(b), 'points': f(num.points), 'fine': f(num.fine), 'fill': m.f(num.fill), 'bbox': f(num.bbox)}
    if b['n']:
        out['values'] = f(num.values)
    else:
        out['xyz'] = f(data[0])
    return out


def twice(j, b):
    """One interpolator used for other fine positions, chunks and options."""
    lazy.install()
    ld = j.loader(overrides=lazy.overrides())
    mods = {'int': ld.load('geotiepoints.interpolator')}
    first, second = Numbers('A', b), Numbers('B', b)
    vals = [A(x, b['dtype']) for x in first.values]
    for chunks, call in ((b['chunks'], {}), (((1, 2), (2,)), {}), (b['chunks'], {'method': 'nearest'} if 'Grid' in b['kind'] else {'dx': 1})):
        def fn():
            it = make(mods, b, first, vals)
            return names(it, b, first), names(it, b, second, chunks, call), names(it, b, first)

        def case(m=None):
            if m is None:
                return None
            one = concrete(m, b, first, None)
            two = dict(one, fine=concrete(m, b, second, None)['fine'], b=dict(b, chunks=chunks, call=call))
            return {'pair': [one, two], 'one': True}
        for p in j.explore(fn, first.asm + second.asm):
            what = '%s used again with %s chunks %s' % (show(b), call, chunks)
            if p.exc is not None:
                j.prove(False, p.conds, case, '%s: raises %r' % (what, p.exc))
                continue
            na, nb, nc = p.result
            j.require(len(set(na)) == len(na) or len(na) == 1, None, '%s: arrays share a name' % what)
            for x, y, z in zip(na, nb, nc):
                same = sand(numbers_equal(flat(first.fine), flat(second.fine)), chunks == b['chunks'], call == b['call'])
                n = lazy.names_equal(x, y)
                j.prove([sym.implies(n, same), sym.implies(same, n)], p.conds, case, '%s: names do not tell the two apart, or equal ones differ' % what)
                j.prove(lazy.names_equal(x, z), p.conds, case, '%s: the third name is not the first' % what)
            j.reach(p.conds, case, what)


# --------------------------------------------------------------------------

def build(c):
    from geotiepoints import geointerpolator, interpolator
    b = c['b']
    opts = dict(b['opts'])
    if opts.get('fill_value') == 'symbol':
        opts['fill_value'] = c['fill']
    if opts.get('bbox') == 'symbols':
        opts['bbox'] = list(c['bbox'])
    if b['kind'].endswith('SplineInterpolator') and 'kx' not in opts and min(b['ties']) < 4:
        opts = dict(opts, kx=1, ky=1)       # the grids are small
    if 'xyz' in c:
        x, y, z = np.array(c['xyz']).reshape((3,) + tuple(b['ties']))
        vals = [np.degrees(np.arctan2(y, x)), np.degrees(np.arctan2(z, np.hypot(x, y)))]
    else:
        vals = [np.array(v, dtype=b['dtype']) for v in c['values']]
    cls = getattr(geointerpolator if b['kind'].startswith('Geo') else interpolator, b['kind'])
    return cls(tuple(np.array(p) for p in c['points']), *vals, **opts), vals, opts


def replay(case):
    import warnings
    warnings.simplefilter('ignore')
    info = []
    it = None
    for c in case['pair']:
        b = c['b']
        try:
            if it is None or not case.get('one'):
                it, vals, opts = build(c)
            chunks = tuple(tuple(x) for x in b['chunks'])
            r = it.interpolate(tuple(np.array(f) for f in c['fine']), chunks=chunks, **b['call'])
            r = [r] if b['kind'].startswith('Single') else list(r)
        except Exception as e:      # noqa: no names
            return False, 'raises %r' % e
        common = [b['kind'], repr(sorted(opts.items())), repr(sorted(b['call'].items())), repr(chunks), repr(c['points']), repr(c['fine'])]
        info.append([(q.name, common + ([repr(v.tolist()) + str(v.dtype)] if 'values' in c else [k, repr([v.tolist() for v in vals])]))
                     for k, (q, v) in enumerate(zip(r, vals))])
    for na, a in info[0]:
        for nb, b in info[1]:
            if 'xyz' in case['pair'][0] and a[:-1] == b[:-1] and a != b and na != nb:
                continue
            if (na == nb) != (a == b):
                return True, 'names %s and %s of %s and %s' % (na, nb, [x for x, y in zip(a, b) if x != y] or a, [y for x, y in zip(a, b) if x != y] or b)
    return False, 'ok'
