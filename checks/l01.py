"""L01: the multilinear interpolant."""
import itertools

import numpy as np

from vp import gen, sym
from vp.arr import base, sa
from vp.sym import Sym, sand, var

BUILD = True
ASSUMPTIONS = ['real arithmetic: floating-point rounding is not modelled',
               'the conversion of a floating-point number to a C int truncates (points less than 2^31 cells away from the grid)']


def cases(tier):
    # orders, points, dtype
    out = [((2,), 2, 'f8'), ((3,), 2, 'f8'), ((4,), 2, 'f4'), ((2, 2), 2, 'f8'), ((3, 2), 2, 'f4'), ((2, 4), 2, 'f8'), ((3, 3), 1, 'f8'),
           ((2, 3, 2), 1, 'f8'), ((3, 2, 2), 1, 'f4'), ((2, 2, 3), 1, 'f8'), ((2, 3, 4), 1, 'f8'), ((2, 2, 2, 2), 1, 'f8'),
           ((2, 3, 2, 3), 1, 'f8'), ((3, 2, 2, 2), 1, 'f4'), ((2, 2, 3, 2), 1, 'f8'), ((2, 2, 2, 3), 1, 'f8')]
    if tier == 'thorough':
        out += [((7,), 2, 'f8'), ((4, 5), 1, 'f8'), ((3, 4, 2), 1, 'f8'), ((4, 2, 3), 1, 'f8'), ((2, 3, 4, 5), 1, 'f8'), ((3, 4, 3, 2), 1, 'f8'),
                ((3, 3, 3, 3), 1, 'f8'), ((4, 3, 2, 5), 1, 'f4')]
    return out


def large(tier):
    # orders, cell of the point(s) (negative: from the end), points, rows of values
    out = [((12,), (-1,), 40, 1), ((12,), (5,), 2, 7), ((2, 9), (0, -1), 2, 1), ((9, 3), (4, 0), 12, 3), ((11, 7), (-1, 3), 1, 1), ((3, 3, 8), (1, 1, -1), 3, 2), ((2, 2, 2, 2), (0, 0, 0, 0), 3, 2),
           ((8, 3, 5), (-1, 0, 2), 1, 1), ((2, 10, 2), (0, 6, 0), 1, 4), ((2, 2, 2, 8), (0, 0, 0, -1), 1, 1), ((7, 2, 2, 2), (3, 0, 0, 0), 1, 1),
           ((2, 7, 2, 3), (0, -1, 0, 1), 1, 2), ((2, 2, 9, 2), (0, 0, 0, 0), 1, 1), ((4, 5, 6, 3), (2, 1, -1, 0), 1, 1),
           ((5, 5), (1, 2), 2, 2), ((5, 5), (3, 0), 5, 1), ((2, 2, 2), (0, 0, 0), 3, 1), ((3, 3, 3), (1, 1, 0), 3, 3), ((4, 4, 4), (1, 2, 0), 1, 1),
           ((3, 3, 3, 3), (1, 0, 1, 1), 4, 1), ((5, 5, 5, 5), (1, 3, 2, 0), 1, 2)]
    if tier == 'thorough':
        g = np.random.RandomState(4)
        for _ in range(40):
            o = tuple(int(v) for v in g.randint(2, 9, g.randint(1, 5)))
            out.append((o, tuple(int(g.randint(0, v - 1)) for v in o), int(g.randint(1, 4)), int(g.randint(1, 4))))
    return out


def many(tier):
    # orders, number of (given) points, dtype
    out = [((3,), 513, 'f8'), ((2, 3), 1030, 'f8'), ((3, 2, 2), 300, 'f4'), ((2, 2, 2, 2), 130, 'f8'), ((5,), 2050, 'f4'), ((3, 4), 0, 'f8'), ((2,), 1, 'f8'), ((40, 30), 70, 'f8')]
    if tier == 'thorough':
        out += [((4,), 5000, 'f8'), ((4, 3), 4100, 'f8'), ((2, 3, 4), 1100, 'f8'), ((2, 3, 2, 3), 1025, 'f4'), ((200, 3), 257, 'f8'), ((12, 11, 10), 65, 'f8')]
    return out


def BOUNDS(tier):
    return ['every value at many given points inside and outside the grid, orders, points, dtype: %s' % many(tier),
            'every grid position and extent (smax > smin), every value, every evaluation point inside and outside the grid; two rows of values; '
            'orders, points, dtype: %s' % cases(tier),
            'the same for points of one cell (or, for at most 2 points, outside of the grid next to it), orders, cell, points, rows of values: %s' % large(tier)]


def jobs(tier):
    return [('orders %s points %d %s' % c, run, c) for c in cases(tier)[::-1]] + [
        ('orders %s cell %s points %d rows %d' % c, run, (c[0], c[2], 'f8', c[1], c[3])) for c in large(tier)] + [
            ('orders %s given points %d %s' % c, given, c) for c in many(tier)]


def resolve(j, conds, exprs):
    """Replaces integer parts of the expressions whose values the conditions determine."""
    from vp.sym import ATOMS
    known = {}
    out = []
    for e in exprs:
        if type(e) is Sym:
            for m in list(e.p):
                for i, _k in m:
                    if i in known or not (ATOMS[i].integer or ATOMS[i].kind in ('trunc', 'floor', 'min', 'max')):
                        continue
                    a = Sym({((i, 1),): 1})
                    r, mod = j.query(conds)
                    if mod is None:
                        continue
                    v = mod.value(a)
                    r, _ = j.query(sym.sliced(conds, a == v) + [sym.snot(a == v)])
                    known[i] = v if r == sym.z3.unsat else None
            t = 0
            for m, c in e.p.items():
                keep = []
                for i, k in m:
                    if known.get(i) is not None:
                        c = c * sym.num(known[i]) ** k
                    else:
                        keep.append((i, k))
                t = t + (Sym({tuple(keep): c}) if c != 0 and keep else c)
            e = t
        out.append(e)
    return out


def blend(vals, orders, cell, t):
    """The specification: blend of the corners of a cell at fractions t - cell of an array of values."""
    v = 0
    for corner in itertools.product((0, 1), repeat=len(orders)):
        w = 1
        for c, k, q in zip(corner, cell, t):
            w = w * ((q - k) if c else (1 - (q - k)))
        v = v + w * vals[tuple(k + c for k, c in zip(cell, corner))]
    return v


def setup(j, orders, npts, dtype, nv=2):
    d = len(orders)
    lo = [var('smin%d' % i) for i in range(d)]
    h = [var('extent%d' % i) for i in range(d)]
    u = [[var('u%d_%d' % (i, k)) for k in range(npts)] for i in range(d)]
    dt = np.dtype(dtype)
    vals = gen.combine(list(np.eye(nv * int(np.prod(orders))).reshape((-1, nv, int(np.prod(orders))))), 'v')[0].astype(dt)
    smin, smax = sa(np.array(lo, object), dt), sa(np.array([a + b for a, b in zip(lo, h)], object), dt)
    s = sa(np.array([[lo[i] + u[i][k] * h[i] for k in range(npts)] for i in range(d)], object), dt)
    return lo, h, u, vals, smin, smax, s, [b > 0 for b in h]


def run(j, orders, npts, dtype, only=None, nv=2):
    mod = j.loader().load('geotiepoints.multilinear')
    d = len(orders)
    lo, h, u, vals, smin, smax, s, asm = setup(j, orders, npts, dtype, nv)
    grids = [np.asarray(base(vals))[n].reshape(orders) for n in range(nv)]
    if only:
        only = [q % (o - 1) for q, o in zip(only, orders)]
        for i, (q, o) in enumerate(zip(only, orders)):
            for v in u[i]:
                t = v * (o - 1)
                asm = asm + [t >= q] * (q > 0 or npts > 2) + [t < q + 1] * (q < o - 2 or npts > 2)

    def case(m=None, k=None):
        c = {'orders': list(orders), 'dtype': dtype, 'npts': npts, 'nv': nv}
        if m is not None:
            c.update(u=[[m.f(v) for v in r] for r in u], vals=m.arr(vals), lo=[m.f(v) for v in lo], h=[m.f(v) for v in h])
        return c

    def go():
        ip = mod.MultilinearInterpolator(smin, smax, list(orders), vals, dtype=np.dtype(dtype).type)
        return ip(s)
    first = True
    for p in j.explore(go, asm, max_paths=20000):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        got = base(p.result)
        if not j.require(got.shape == (nv, npts), lambda: case(j.query(p.conds)[1]), 'result of shape %s' % (got.shape,)):
            continue
        for k in range(npts):
            t = [u[i][k] * (orders[i] - 1) for i in range(d)]
            cells = []
            for i in range(d):
                ok = []
                for q in range(orders[i] - 1) if not only else [only[i]]:
                    c = [t[i] >= q] * (q > 0) + [t[i] < q + 1] * (q < orders[i] - 2)
                    if not c or j.query(sym.sliced(p.conds, sand(*c)) + c)[0] != sym.z3.unsat:
                        ok.append((q, c))
                cells.append(ok)
            for cell in itertools.product(*cells):
                c = [q for _, cs in cell for q in cs]
                conds = p.conds + c
                if sum(len(x) > 1 for x in cells) and j.query(conds)[0] == sym.z3.unsat:
                    continue
                g = resolve(j, conds, [got[n, k] for n in range(nv)])
                eq = [x == blend(grids[n], orders, [q for q, _ in cell], t) for n, x in enumerate(g)]
                j.prove(eq, conds, case, 'point %d in cell %s' % (k, [q for q, _ in cell]))
        if first:
            j.reach(p.conds, case, 'interpolation')
        first = False


def spread(orders, npts):
    """Points as fractions of the grid: multiples of 1/512, some of them grid points or outside."""
    r = np.random.RandomState(3)
    u = r.randint(-200, 712, (len(orders), npts)) / 512.0
    u[:, ::7] = np.clip(np.round(u[:, ::7]), 0, 1)
    return u


def given(j, orders, npts, dtype):
    mod = j.loader().load('geotiepoints.multilinear')
    d, nv = len(orders), 2
    n = int(np.prod(orders))
    dt = np.dtype(dtype)
    vals = gen.combine(list(np.eye(nv * n).reshape((-1, nv, n))), 'v')[0].astype(dt)
    grids = [np.asarray(base(vals))[k].reshape(orders) for k in range(nv)]
    smin, ext = np.arange(d) - 1.0, 2.0 ** np.arange(d)
    u = spread(orders, npts)
    s = (smin[:, None] + u * ext[:, None]).astype(dt)
    case = lambda *a: {'orders': list(orders), 'dtype': dtype, 'npts': npts, 'nv': nv, 'given': True}
    want = np.zeros((nv, npts), object)
    for k in range(npts):
        t = [float(u[i, k] * (o - 1)) for i, o in enumerate(orders)]
        cell = [int(max(min(np.floor(q), o - 2), 0)) for q, o in zip(t, orders)]
        for m in range(nv):
            want[m, k] = blend(grids[m], orders, cell, t)
    for p in j.explore(lambda: mod.MultilinearInterpolator(smin.astype(dt), (smin + ext).astype(dt), list(orders), vals, dtype=dt.type)(s)):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        if j.require(p.result.shape == want.shape, case, 'result of shape %s for %d points' % (p.result.shape, npts)) and npts:
            j.equal_arrays(sa(base(p.result)), sa(want), 1e-7 if dtype == 'f8' else 1e-3, p.conds, case, 'result')
        j.reach(p.conds, case, 'given points')


def concrete(c, smin, smax, vals, u):
    """Interpolation by the real code and by the specification."""
    from geotiepoints.multilinear import MultilinearInterpolator
    orders = c['orders']
    dt = np.dtype(c['dtype']).type
    s = smin[:, None] + u * (smax - smin)[:, None]
    got = MultilinearInterpolator(smin, smax, orders, vals, dtype=dt)(s)
    want = np.empty((len(vals), s.shape[1]))
    for n in range(len(vals)):
        g = vals[n].reshape(orders)
        for k in range(s.shape[1]):
            t = [u[i, k] * (o - 1) for i, o in enumerate(orders)]
            cell = [int(max(min(np.floor(q), o - 2), 0)) for q, o in zip(t, orders)]
            want[n, k] = blend(g, orders, cell, t)
    return got, want, s


def replay(c):
    orders = c['orders']
    d, nv = len(orders), c.get('nv', 2)
    r = np.random.RandomState(0)
    n = int(np.prod(orders))
    sets = []
    if 'given' in c:
        sets.append((spread(orders, c['npts']), r.uniform(-1, 1, (nv, n))))
    if 'u' in c:
        sets.append((np.array(c['u'], float), np.array(c['vals'], float).reshape(nv, n)))
    if 'u' in c:
        sets.append((np.array(c['u'], float), r.uniform(-1, 1, (nv, n))))
        sets += [(r.uniform(-0.7, 1.7, (d, c['npts'])), r.uniform(-1, 1, (nv, n))) for _ in range(5)]
    sets.append((r.uniform(-0.7, 1.7, (d, 100)), r.uniform(-1, 1, (nv, n))))
    for u, vals in sets:
        u = np.clip(u, -1e4, 1e4)
        grids = [(np.zeros(d), np.ones(d)), (np.arange(d) - 1.5, np.arange(d) * 3 + 2.0), (1.5 - np.arange(d) * 20, 2.5 - np.arange(d) * 18)]
        if 'lo' in c and c['dtype'] == 'f8' and np.all((np.abs(c['lo']) < 1e3) & (np.array(c['h']) > 1e-3) & (np.array(c['h']) < 1e3)):
            grids.append((np.array(c['lo'], float), np.array(c['lo'], float) + c['h']))
        for smin, smax in grids:
            try:
                got, want, s = concrete(c, smin, smax, vals, u)
            except Exception as e:      # noqa
                return True, 'raises %r' % e
            scale = np.abs(vals).max() * (2 * (1 + np.abs(u).max(initial=0)) * max(orders)) ** d + 1e-30
            tol = (1e-11 if c['dtype'] == 'f8' else 2e-5) * scale * (1 + np.max(np.abs(smin) / (smax - smin)))
            e = gen.compare([got], [want], tol, ['result'])
            if e:
                return True, '%s; grid from %s to %s of orders %s, points %s' % (e, smin, smax, orders, s[:, :3].tolist())
    return False, 'ok'
