"""L02: the multilinear interpolators only read values of the grid."""
import itertools
import os
import re
import sys

import numpy as np

from vp import abst, arr, sym
from vp.arr import base, sa
from vp.sym import MemoryFault, Sym, sand, sor, var
from vp.loader import Namespace

BUILD = True
ASSUMPTIONS = ['the conversion of any floating-point coordinate (also NaN, infinities and values beyond the range of a C int) to an int may '
               'give any C int',
               'sizes are such that the number of grid nodes fits in a C int']
TOP = {1: 100000, 2: 1000, 3: 100, 4: 25}


def BOUNDS(tier):
    return ['any evaluation points; any grid position and extent; orders: any integers in %s (1 to 4 dimensions); any number of values per row' % (
                {d: '-1..%d' % top(d, tier) for d in TOP},),
            'numbers of points and of value rows: 0, 1, 2; all combinations of 0 to 5 coordinates of points, smin, smax and orders']


def top(d, tier):
    return TOP[d] + ({1: 900000, 2: 9000, 3: 900, 4: 100}[d] if tier == 'thorough' else 0)


def jobs(tier):
    out = [('%d dimensions, %d rows of values, %d points' % (d, nv, ns), run, (d, nv, ns, top(d, tier)))
           for d in (4, 3, 2, 1) for nv, ns in (((1, 1), (2, 1), (0, 1), (1, 0)) + (((1, 2),) if d < 3 else ()))]
    return out + [('numbers of coordinates, %d of the points' % d, wrong, (d,)) for d in range(6)]


def hook(loader, module):
    """A conversion to int gives anything."""
    if '_trunc' in module.__dict__:
        n = [0]

        def anyint(x):
            if isinstance(x, int):
                return x
            n[0] += 1
            return var('int!%d' % n[0], lo=-2 ** 31, hi=2 ** 31 - 1, integer=True)
        module.__dict__['_trunc'] = anyint
        module.__dict__['vp_restart'] = lambda: n.__setitem__(0, 0)


def load(j):
    ld = j.loader(hooks=[hook])
    m = ld.load('geotiepoints.multilinear')
    c = ld.modules.get('geotiepoints.multilinear_cython')
    if c is None or '_trunc' not in c.__dict__:
        raise sym.Unsupported('multilinear_cython is not used')
    return m, c


def vector(name, n, **kw):
    return sa(np.array([var('%s%d' % (name, i), **kw) for i in range(n)] + [None], object)[:-1], np.int64 if kw.get('integer') else np.float64)


def points(n, ns):
    a = np.empty((n, ns), object)
    for k in np.ndindex(n, ns):
        a[k] = var('s%d_%d' % k)
    return sa(a)


def run(j, d, nv, ns, hi):
    m, c = load(j)
    smin, smax, s = vector('smin', d), vector('smax', d), points(d, ns)
    orders = [var('order%d' % i, lo=-1, hi=hi, integer=True) for i in range(d)]
    n = var('values', lo=0, hi=2 * hi ** d, integer=True)
    asm = [q for o in orders for q in (o >= -1, o <= hi)] + [n >= 0, n <= 2 * hi ** d] + [
        base(b)[i] > base(a)[i] for a, b in ((smin, smax),) for i in range(d)]
    valid = [o >= 2 for o in orders] + [n == abst._prod(orders)]

    def case(mod):
        return {'orders': [int(mod.value(o)) for o in orders], 'n': int(mod.value(n)), 'nv': nv, 'ns': ns}

    def go():
        c.__dict__['vp_restart']()
        ip = m.MultilinearInterpolator(smin, smax, sa(np.array(orders + [None], object)[:-1], np.int64), abst.Abs((nv, n), name='the values'))
        return ip(s)
    small = dict(strengthen=[[o <= k for o in orders] + [n <= 2 * k ** d] for k in (8, 4)])
    ok = 0
    for p in j.explore(go, asm, max_paths=20000):
        if isinstance(p.exc, MemoryFault):
            j.prove(False, p.conds, case, str(p.exc), **small)
            continue
        if p.exc is not None:
            j.prove(sym.snot(sand(*valid)), p.conds, case, 'valid input is rejected: %r' % p.exc, **small)
            continue
        j.prove(valid, p.conds, case, 'accepted', **small)
        r = base(p.result)
        j.require(r.shape == (nv, ns) and not any(sym.is_junk(v) for v in r.reshape(-1)), lambda: case(j.query(p.conds)[1]),
                  'elements of the result are not written')
        ok += 1
        if ok == 1:
            j.reach(p.conds, case, 'interpolation')
    j.require(ok, None, 'input is accepted')


def wrong(j, ds):
    m, c = load(j)
    for dmin, dmax, do in itertools.product(range(6), repeat=3):
        if ds == dmin == dmax == do and 1 <= ds <= 4:
            continue
        for o in (2, 3):
            c.__dict__['vp_restart']()
            for n in sorted({o ** do, o ** ds, o ** min(ds, dmin, dmax)}):
                case = lambda *a: {'dims': [ds, dmin, dmax, do], 'o': o, 'n': n}
                go = lambda: m.MultilinearInterpolator(vector('smin', dmin), vector('smax', dmax), [o] * do, abst.Abs((1, n), name='the values'))(
                    points(ds, 1))
                for p in j.explore(go, [base(vector('smax', dmax))[i] > base(vector('smin', dmin))[i] for i in range(min(dmin, dmax))]):
                    bad = p.exc is None or isinstance(p.exc, MemoryFault)
                    if not j.require(not bad, case, 'points with %d coordinates, smin %d, smax %d and orders of %d are accepted' % (
                            ds, dmin, dmax, do)):
                        break


def edit_scratch(pkg):
    """The kernels of the scratch copy check their indices."""
    p = os.path.join(pkg, 'multilinear_cython.pyx')
    s = open(p).read()
    s = re.sub(r'boundscheck\s*=\s*False', 'boundscheck=True', s)
    s = re.sub(r'boundscheck\(\s*False\s*\)', 'boundscheck(True)', s)
    open(p, 'w').write(s)


class Caught(Exception):
    pass


def call(f):
    """f(), with errors that the kernels cannot raise turned into exceptions."""
    seen = []
    old = sys.unraisablehook
    sys.unraisablehook = lambda u: seen.append(u.exc_value)
    try:
        r = f()
    finally:
        sys.unraisablehook = old
    if seen:
        raise Caught('%r' % seen[0])
    return r


FAR = [0.5, 0.0, 1.0, -0.25, 1.25, 7.0, -9.0, 1e5, -1e5, 1e9, -1e9, 1e12, -1e12, 1e300, -1e300, np.nan, np.inf, -np.inf]


def replay(c):
    from geotiepoints.multilinear import MultilinearInterpolator
    r = np.random.RandomState(0)
    if 'dims' in c:
        ds, dmin, dmax, do = c['dims']
        try:
            call(lambda: MultilinearInterpolator(np.zeros(dmin), np.ones(dmax), [c['o']] * do, np.zeros((1, c['n'])))(np.full((ds, 1), 0.9)))
        except Caught as e:
            return True, 'access outside of the arrays: %s' % e
        except Exception:   # noqa: rejected
            return False, 'ok'
        return True, 'points with %d coordinates, smin %d, smax %d and orders of %d dimensions are accepted' % (ds, dmin, dmax, do)
    orders, n, nv, ns = c['orders'], c['n'], c['nv'], c['ns']
    d = len(orders)
    valid = all(o >= 2 for o in orders) and n == np.prod(orders)
    pts = np.stack([r.choice(FAR, 4000 if ns else 0) for _ in range(d)])
    pts[:, :len(FAR)] = FAR if ns else pts[:, :0]
    try:
        vals = r.rand(nv, n)
    except (ValueError, MemoryError):
        return False, 'ok'
    try:
        got = call(lambda: MultilinearInterpolator(np.zeros(d), np.ones(d), orders, vals)(pts))
    except Caught as e:
        return True, 'access outside of the arrays: %s; orders %s with %d values' % (e, orders, n)
    except Exception as e:      # noqa
        return (True, 'valid input is rejected: %r' % e) if valid else (False, 'ok')
    if not valid:
        return True, 'orders %s with %d values are accepted' % (orders, n)
    if got.shape != (nv, pts.shape[1]):
        return True, 'result of shape %s' % (got.shape,)
    far = np.array([[3.0] * d]).T
    with np.errstate(all='ignore'):
        if not np.isfinite(MultilinearInterpolator(np.zeros(d), np.ones(d), orders, vals)(np.tile(far, (1, ns)))).all():
            return True, 'result is not written'
    return False, 'ok'
