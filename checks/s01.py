"""S01: splitting a swath over several cores."""
import itertools

import numpy as np

from vp import arr, gen, harness, stubs, sym
from vp.arr import base, sa
from vp.loader import Namespace
from vp.sym import ENG, is_integer, sand, var
from . import i01

BUILD = False
ASSUMPTIONS = ['multiprocessing.Pool is a stand-in that runs the tasks one after another in the listed completion orders; tasks do not share '
               'memory, so only the order in which they end can matter', 'real arithmetic: floating-point rounding is not modelled',
               'scipy splines are linear in their data: the real functions are applied to the coefficients of every symbol',
               'decoding to longitude and latitude is recorded, not executed (its elements are independent: G02)']
LMAX = 1000


def cases(tier):
    out = [('modis1kmto500m', 2, 2, 0), ('modis1kmto500m', 3, 2, 1), ('modis1kmto500m', 3, 3, 1), ('modis1kmto500m', 2, 5, 0),
           ('modis1kmto250m', 2, 2, 1), ('modis1kmto500m', 13, 14, 1)]
    if tier == 'thorough':
        out += [('modis1kmto500m', 4, 3, k) for k in range(3)] + [('modis1kmto500m', 5, 2, 0), ('modis1kmto250m', 3, 2, 0)]
        out += [('modis1kmto500m', 3, 3, k) for k in range(6)] + [('modis1kmto500m', 1, 2, 0), ('modis1kmto500m', 6, 4, 2)]
    return out


def size(tier):
    return (16, 9) if tier != 'thorough' else (20, 12)


def BOUNDS(tier):
    return ['splits: 1 to %d scans, 1 to %d cores, 1 to %d lines per scan' % (size(tier) + (LMAX,)),
            'helpers, scans, cores, completion order (0: in order, 1: reversed, others: permutations): %s; per scan and coordinate any '
            'combination of two patterns (ten or more scans: two patterns of all of them) seeded by VERIF_SEED' % cases(tier)]


def jobs(tier):
    out = [('%s scans %d cores %d order %d' % c, helper, c) for c in sorted(cases(tier), key=lambda c: (c[0], -c[1]))]
    n, c = size(tier)
    return out + [('splits cores %d' % k, splits, (n, k)) for k in range(1, c + 1)]


def splits(j, nmax, cores):
    fn = j.loader(hooks=[stubs.decode_python]).load_package().get_scene_splits
    L = var('L', lo=1, hi=LMAX, integer=True)
    for n in range(1, nmax + 1):
        case = lambda m=None: {'splits': True, 'n': n, 'L': int(m.f(L)) if m is not None else 10, 'cores': cores}
        seen = 0
        for p in j.explore(lambda: list(fn(n * L, L, cores)), [L >= 1, L <= LMAX]):
            if p.exc is not None:
                j.prove(False, p.conds, case, 'raises %r' % p.exc)
                continue
            s = p.result
            edges = [0] + s + [n * L]
            # whole scans: a multiple of the scan length
            whole = [sym.sor(*[v == k * L for k in range(1, n)]) if n > 1 else False for v in s]
            j.prove([a < b for a, b in zip(edges, edges[1:])], p.conds, case, 'the parts are in order and not empty')
            j.prove(whole, p.conds, case, 'the swath is split between scans')
            j.reach(p.conds, case if seen < 1 and n == nmax else None, 'split')
            seen += 1


class Result:
    def __init__(self, pool, f, a, k, cb=None):
        self.pool, self.f, self.a, self.k, self.done, self.cb = pool, f, a, k, False, cb

    def run(self):
        if not self.done:
            self.value = self.f(*self.a, **self.k)
            self.done = True
            if self.cb:
                self.cb(self.value)

    def get(self, timeout=None):
        self.pool.run()
        self.run()
        return self.value

    def wait(self, timeout=None):
        self.pool.run()

    def ready(self):
        return True

    successful = ready


def make_pool(order):
    class Pool:
        def __init__(self, processes=None, *a, **k):
            if processes is not None and processes < 1:
                raise ValueError('Number of processes must be at least 1')
            self.tasks, self.closed, self.order = [], False, order

        def apply_async(self, f, args=(), kwds=None, callback=None, error_callback=None):
            if self.closed:
                raise ValueError('Pool not running')
            self.tasks.append(Result(self, f, tuple(args), dict(kwds or {}), callback))
            return self.tasks[-1]

        def run(self):
            todo = [t for t in self.tasks if not t.done]
            for i in permuted(len(todo), order):
                todo[i].run()

        def starmap(self, f, items, chunksize=None):
            rs = [self.apply_async(f, i) for i in items]
            return [r.get() for r in rs]

        def map(self, f, items, chunksize=None):
            return self.starmap(f, [(i,) for i in items])

        def apply(self, f, args=(), kwds=None):
            return f(*args, **(kwds or {}))

        def map_async(self, f, items, chunksize=None, callback=None, error_callback=None):
            return self.apply_async(lambda: self._all(f, [(i,) for i in items]))

        def starmap_async(self, f, items, chunksize=None, callback=None, error_callback=None):
            items = list(items)
            return self.apply_async(lambda: self._all(f, items))

        def _all(self, f, items):
            out = [None] * len(items)
            for i in permuted(len(items), order):
                out[i] = f(*items[i])
            return out

        def imap(self, f, items, chunksize=1):
            return iter(self.map(f, items))

        def imap_unordered(self, f, items, chunksize=1):
            items = list(items)
            return iter([f(items[i]) for i in permuted(len(items), order)])

        def close(self):
            self.closed = True

        def join(self):
            if not self.closed:
                raise ValueError('Pool is still running')
            self.run()

        def terminate(self):
            self.closed = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.terminate()
    return Pool


class Future:
    def __init__(self, result):
        self._r = result

    def result(self, timeout=None):
        return self._r.get()

    def done(self):
        return True


def as_completed(futures, timeout=None):
    futures = list(futures)
    todo = futures[0]._r.pool.order if futures else 0
    return iter([futures[i] for i in permuted(len(futures), todo)])


def make_executor(pool):
    class Executor:
        def __init__(self, max_workers=None, *a, **k):
            self.pool = pool(max_workers)

        def submit(self, f, *a, **k):
            return Future(self.pool.apply_async(f, a, k))

        def map(self, f, *its, timeout=None, chunksize=1):
            return iter([r.result() for r in [self.submit(f, *a) for a in zip(*its)]])

        def shutdown(self, wait=True, **k):
            self.pool.close()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()
    return Executor


def permuted(n, order):
    if order == 0:
        return list(range(n))
    if order == 1:
        return list(range(n))[::-1]
    ps = list(itertools.islice(itertools.permutations(range(n)), 2, 24))
    return list(ps[(order - 2) % len(ps)]) if ps else list(range(n))


def helper(j, name, scans, cores, order):
    pool = make_pool(order)
    mp = Namespace('multiprocessing', None, Pool=pool, cpu_count=lambda: 8)
    mp.__dict__['pool'] = Namespace('multiprocessing.pool', None, Pool=pool, ThreadPool=pool)
    mp.__dict__['get_context'] = lambda *a: mp
    futures = Namespace('concurrent.futures', None, ProcessPoolExecutor=make_executor(pool), ThreadPoolExecutor=make_executor(pool),
                        as_completed=as_completed)
    ld = j.loader(hooks=[stubs.decode_python], overrides={'concurrent.futures': futures, 'concurrent': Namespace('concurrent', None, futures=futures), 'multiprocessing': mp, 'multiprocessing.pool': mp.__dict__['pool']})
    fn = getattr(ld.load_package(), name)
    t, _f = i01.basis(name, scans)
    r = np.random.RandomState(harness.SEED)
    rows = t[0].shape[0] // scans
    fields = []
    for k in range(scans if scans < 10 else 0):
        for _ in range(2):
            a = np.zeros(t[0].shape)
            a[k * rows:(k + 1) * rows] = r.uniform(-1, 1, (rows, a.shape[1]))
            fields.append(a)
    fields = fields or [r.uniform(-1, 1, t[0].shape) for _ in range(2)]
    lon, lat, _x, _m = gen.points(fields)
    case = lambda *a: {'name': name, 'scans': scans, 'cores': cores}
    for p in j.explore(lambda: (fn(lon, lat, cores=cores), fn(lon, lat))):
        if p.exc is not None:
            j.prove(False, p.conds, case, 'raises %r' % p.exc)
            continue
        a, b = (gen.decoded(j, v, case, name) for v in p.result)
        if a is None or b is None:
            continue
        for n, x, y in zip('xyz', a, b):
            j.equal_arrays(x, y, 1e-9, p.conds, case, '%s: %s of every pixel, several cores against one' % (name, n))
        j.reach(p.conds, case, name)


def replay(c):
    import geotiepoints as g
    if c.get('splits'):
        try:
            s = [int(v) for v in g.get_scene_splits(c['n'] * c['L'], c['L'], c['cores'])]
        except Exception as e:      # noqa
            return True, 'raises %r' % e
        edges = [0] + s + [c['n'] * c['L']]
        if any(a >= b for a, b in zip(edges, edges[1:])) or any(v % c['L'] for v in s):
            return True, '%d scans of %d lines on %d cores are split at %s' % (c['n'], c['L'], c['cores'], s)
        return False, 'ok'
    t, _f = i01.basis(c['name'], c['scans'])
    r = np.random.RandomState(0)
    w = r.uniform(-1, 1, (2, len(t))) / 2
    d = [np.tensordot(v, np.stack(t), 1) + r.uniform(-.1, .1, t[0].shape) for v in w]
    lon, lat = gen.small(*d, 0)
    try:
        one = getattr(g, c['name'])(lon, lat)
        many = getattr(g, c['name'])(lon, lat, cores=c['cores'])
    except Exception as e:      # noqa
        return True, 'raises %r' % e
    t = gen.compare(many, one, 1e-9, ('longitude', 'latitude'))
    return (True, '%s: %s' % (c['name'], t)) if t else (False, 'ok')
