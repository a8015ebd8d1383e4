"""L03: the grid of a multilinear interpolator."""
import itertools

import numpy as np

from vp import gen, sym
from vp.arr import base, sa
from vp.sym import var
from . import l01

BUILD = True
ASSUMPTIONS = l01.ASSUMPTIONS


def cases(tier):
    out = [((2,), 'f8'), ((5,), 'f8'), ((3, 2), 'f8'), ((2, 3), 'f4'), ((3, 4), 'f8'), ((2, 3, 4), 'f8'), ((4, 2, 3), 'f8'), ((3, 2, 2), 'f4'),
           ((2, 3, 2, 3), 'f8'), ((3, 2, 4, 2), 'f8')]
    if tier == 'thorough':
        out += [((9,), 'f8'), ((6, 7), 'f8'), ((4, 5, 3), 'f8'), ((3, 4, 3, 4), 'f8'), ((4, 3, 2, 5), 'f4')]
    return out


def BOUNDS(tier):
    return ['every grid position and extent (smax > smin) and all values (two rows); orders, dtype: %s' % cases(tier),
            'the grid alone: all orders from 2 to 39 (1 dimension), 8 (2), 5 (3), 3 (4 dimensions; one more in the thorough tier), both precisions']


def jobs(tier):
    return [('orders %s %s' % c, run, c) for c in cases(tier)[::-1]] + [('grids %d %s' % (d, dt), run_grid, (d, dt, tier)) for d in (1, 2, 3, 4) for dt in ('f8', 'f4')]


def tuples(d, tier):
    return list(itertools.product(*[range(2, {1: 40, 2: 9, 3: 6, 4: 4}[d] + (tier == 'thorough'))] * d))


def run(j, orders, dtype):
    m = j.loader().load('geotiepoints.multilinear')
    lo, h, _u, vals, smin, smax, _s, asm = l01.setup(j, orders, 1, dtype)
    n = int(np.prod(orders))
    case = lambda *a: {'orders': list(orders), 'dtype': dtype}

    def go():
        # (one with another grid before)
        m.MultilinearInterpolator([7.0] * len(orders), [9.0 + i for i in range(len(orders))], list(orders), dtype=np.dtype(dtype).type).grid
        ip = m.MultilinearInterpolator(smin, smax, list(orders), dtype=np.dtype(dtype).type)
        g = ip.grid
        ip.set_values(vals)
        return g, ip(g), ip.grid, m.MultilinearInterpolator(smin, smax, list(orders), vals, dtype=np.dtype(dtype).type).grid
    for p in j.explore(go, asm):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        g, r, g2, g3 = p.result
        for k, a in enumerate((g, g2, g3)):
            a = base(a)
            if not j.require(a.shape == (len(orders), n), case, 'grid of shape %s' % (a.shape,)):
                break
            pairs = []
            for c, node in enumerate(itertools.product(*[range(o) for o in orders])):
                for i, q in enumerate(node):
                    pairs.append((a[i, c], lo[i] + h[i] * sym.Fraction(q, orders[i] - 1), 'coordinate %d of node %s' % (i, node)))
            j.same(pairs, p.conds, case, 'grid')
        else:
            r = base(r)
            if j.require(r.shape == (2, n), case, 'result of shape %s' % (r.shape,)):
                out = l01.resolve(j, p.conds, list(r.reshape(-1)))
                j.same([(a, b, 'value %d' % k) for k, (a, b) in enumerate(zip(out, base(vals).reshape(-1)))], p.conds, case, 'values on the grid')
        j.reach(p.conds, case, 'grid')


def run_grid(j, d, dtype, tier):
    """The listing of the nodes alone, for many orders."""
    m = j.loader().load('geotiepoints.multilinear')
    for orders in tuples(d, tier):
        lo = [var('smin%d' % i) for i in range(d)]
        h = [var('extent%d' % i) for i in range(d)]
        smin, smax = [sa(np.array(v, object), np.dtype(dtype)) for v in (lo, [a + b for a, b in zip(lo, h)])]
        n = int(np.prod(orders))
        case = lambda *a: {'orders': list(orders), 'dtype': dtype}      # noqa
        for p in j.explore(lambda: m.MultilinearInterpolator(smin, smax, list(orders), dtype=np.dtype(dtype).type).grid, [b > 0 for b in h]):
            if p.exc is not None:
                j.prove(False, p.conds, case, 'raises %r' % p.exc)
                continue
            a = base(p.result)
            if j.require(a.shape == (d, n), case, 'grid of shape %s' % (a.shape,)):
                j.same([(a[i, c], lo[i] + h[i] * sym.Fraction(q, orders[i] - 1), 'coordinate %d of node %s' % (i, node))
                        for c, node in enumerate(itertools.product(*[range(o) for o in orders])) for i, q in enumerate(node)], p.conds, case, 'grid')
            j.reach(p.conds, case, 'grid')


def replay(c):
    from geotiepoints.multilinear import MultilinearInterpolator
    orders, dt = c['orders'], np.dtype(c['dtype']).type
    d = len(orders)
    vals = np.random.RandomState(0).uniform(-1, 1, (2, int(np.prod(orders))))
    for smin, smax in ((np.zeros(d), np.ones(d)), (np.arange(d) - 1.5, np.arange(d) * 3 + 2.0), (np.zeros(d), np.array(orders) - 1.0)):
        try:
            MultilinearInterpolator(smin - 7, smax + 3, orders, dtype=dt).grid
            ip = MultilinearInterpolator(smin, smax, orders, dtype=dt)
            g = ip.grid
            ip.set_values(vals)
            r = ip(g)
        except Exception as e:      # noqa
            return True, 'raises %r' % e
        want = np.array(list(itertools.product(*[[smin[i] + q * (smax[i] - smin[i]) / (o - 1) for q in range(o)] for i, o in enumerate(orders)]))).T
        tol = 1e-12 if c['dtype'] == 'f8' else 1e-5
        e = gen.compare([g, r], [want, vals], tol * 10, ['grid', 'values on the grid'])
        if e:
            return True, '%s; orders %s' % (e, orders)
    return False, 'ok'
