"""I05: lazy interpolation is eager interpolation, for every chunking."""
import itertools

import numpy as np

from vp import arr, lazy, sym
from vp.arr import base, sa
from vp.sym import var

BUILD = False
ASSUMPTIONS = ['the values that scipy interpolates are an unknown function of position, data and options (so the claim holds for any of them); '
               'it is applied to every position by itself',
               'dask itself is real: the graphs are built and executed by it, on symbolic blocks',
               'real arithmetic; the rounding to the type of the data is not modelled but the types are']
KINDS = ['SingleGridInterpolator', 'SingleSplineInterpolator', 'MultipleGridInterpolator', 'MultipleSplineInterpolator',
         'GeoGridInterpolator', 'GeoSplineInterpolator']


def compositions(n):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in compositions(n - k)]


def sizes(tier):
    return 5 if tier == 'thorough' else 4


def other(tier):
    """shape, chunks as the caller may write them."""
    out = [((5, 5), c) for c in (1, 2, 3, 7, -1, (2, 3), (-1, 2), (2, -1), ((1, 4), 2), (3, (2, 2, 1)), (None, 2), 'auto', {0: 2, 1: (4, 1)}, {1: 3})]
    out += [((1, 5), 2), ((5, 1), (2, 1)), ((7, 3), (3, 2)), ((3, 9), ((1, 2), (4, 4, 1))), ((12, 1), (5, 1)), ((2, 11), ((2,), (3, 1, 7)))]
    return out


OPTIONS = {'Grid': [({}, {}), ({'method': 'nearest'}, {}), ({}, {'method': 'nearest'}), ({'bounds_error': False, 'fill_value': None}, {'method': 'slinear'})],
           'Spline': [({}, {}), ({'kx': 1, 'ky': 2}, {}), ({}, {'dx': 1}), ({'kx': 2}, {'dx': 1, 'dy': 2})]}


def BOUNDS(tier):
    n = sizes(tier)
    return ['interpolators %s' % KINDS, 'fine positions (every value): grids up to %d x %d in all chunkings (geographic: %d x %d)' % (n, n, n - 1, n - 1),
            'other grids and ways to write the chunks: %s' % other(tier),
            'construction and call options: %s' % OPTIONS, 'positions as arrays and as lists, data of type float32, float64 and int32; two arrays']


def jobs(tier):
    out = []
    for k in KINDS:
        n = sizes(tier) - k.startswith('Geo')
        opts = OPTIONS['Grid' if 'Grid' in k else 'Spline']
        for rows in range(n, 0, -1):
            out.append(('%s all chunkings of %d rows' % (k, rows), run, (k, [((rows, c), ch) for c in range(1, n + 1)
                        for ch in itertools.product(compositions(rows), compositions(c))], opts[rows % len(opts)], 'f4', 'array')))
        for o, dt, how in zip(opts, ('f8', 'f4', 'f8', 'f4'), ('list', 'array', 'list', 'array')):
            if k.startswith('Geo') and how == 'array' and tier == 'quick':
                continue
            out.append(('%s other chunks %s %s %s' % (k, o, dt, how), run, (k, other(tier), o, dt, how)))
        if not k.startswith('Geo'):
            out.append(('%s int data' % k, run, (k, other(tier)[:5], opts[0], 'i4', 'array')))
        if not k.startswith('Single'):
            out.append(('%s to shape' % k, run, (k, other(tier), opts[2], 'f8', 'shape')))
    return out


TIES = (np.array([0, 1.5, 2, 4, 30]), np.array([0, 2, 3.5, 5, 6, 31]))
count = lambda kind: 1 if kind.startswith('Single') else 2


def build(mods, kind, data, opts):
    return getattr(mods['geo' if kind.startswith('Geo') else 'int'], kind)(TIES, *data, **opts)


def points(how, v, h):
    return (v.tolist(), h.tolist()) if how == 'list' else (v, h)


def ask(it, kind, how, shape, fine, chunks, opts):
    kw = dict(opts) if chunks is False else dict(opts, chunks=chunks)
    r = it.interpolate_to_shape(shape, **kw) if how == 'shape' else it.interpolate(fine, **kw)
    return [r] if kind.startswith('Single') else list(r)


def run(j, kind, requests, opts, dtype, how):
    import dask.array as da
    from dask.array.core import normalize_chunks
    lazy.install()
    ld = j.loader(overrides=lazy.overrides())
    mods = {'int': ld.load('geotiepoints.interpolator'), 'geo': ld.load('geotiepoints.geointerpolator')}
    data = [sa(np.array([[var('d%d_%d_%d' % (k, a, b)) for b in range(6)] for a in range(5)], object), dtype) for k in range(count(kind))]
    pos = [[var('%s%d' % (c, k), lo=0, hi=4) for k in range(12)] for c in 'yx']
    it = build(mods, kind, data, opts[0])
    for shape, chunks in requests:
        case = lambda *a: {'kind': kind, 'shape': list(shape), 'chunks': repr(chunks), 'opts': list(opts), 'dtype': dtype, 'how': how}
        what = '%s %s chunks %s' % (kind, shape, chunks)
        fine = points(how, *[sa(np.array(p[:n], object), np.float64) for p, n in zip(pos, shape)])

        def fn():
            got = ask(it, kind, how, shape, fine, chunks, opts[1])
            eager = ask(it, kind, how, shape, fine, False, opts[1])
            return got, [lazy.blocks(g) if isinstance(g, da.Array) else None for g in got], eager
        for p in j.explore(fn):
            if p.exc is not None:
                j.prove(False, p.conds, case, '%s: raises %r' % (what, p.exc))
                continue
            got, blocks, eager = p.result
            if not j.require(len(got) == len(eager), case, '%s: %d results instead of %d' % (what, len(got), len(eager))):
                continue
            for n, (g, b, e) in enumerate(zip(got, blocks, eager)):
                text = '%s result %d' % (what, n)
                e = arr.asarray(e)
                want = normalize_chunks(chunks, shape, dtype=e.dtype)
                if not j.require(b is not None and g.shape == tuple(shape) == e.shape and g.chunks == want and g.dtype == e.dtype, case,
                                 '%s: %r instead of shape %s chunks %s type %s' % (text, g, e.shape, want, e.dtype)):
                    break
                pairs = []
                for k in np.ndindex(g.numblocks):
                    sl = [slice(sum(c[:i]), sum(c[:i]) + c[i]) for c, i in zip(want, k)]
                    part = base(e)[tuple(sl)]
                    if not j.require(b[k].shape == part.shape and b[k].dtype == e.dtype, case,
                                     '%s: block %s has shape %s and type %s' % (text, k, b[k].shape, b[k].dtype)):
                        break
                    for i in np.ndindex(part.shape):
                        pairs.append((base(b[k])[i], part[i]))
                if not compare(j, pairs, p.conds, case, text):
                    break
            j.reached += 1
    j.witnesses.extend([case()])


def compare(j, pairs, conds, case, what):
    """Elements are the same expressions, or provably equal."""
    j.claims += len(pairs)
    bad = [(a, b) for a, b in pairs if sym.vkey(a) != sym.vkey(b)]
    todo = bad[:3] or pairs
    r, m = j.query(list(conds) + [lambda zc: sym.z3.Or(*[zc.val(a) != zc.val(b) for a, b in todo])], retry=not bad)
    if r == sym.z3.unsat:
        return all(compare(j, [q], conds, case, what) for q in bad[3:])
    if r == sym.z3.unknown and not bad:
        raise sym.Unsupported('solver gives no answer: %s' % what)
    j.fail(case(), '%s: %d of %d elements differ from eager interpolation' % (what, len(bad), len(pairs)))
    return False


# --------------------------------------------------------------------------

def replay(c):
    r = attempt(c)
    if not r[0] and c['dtype'] == 'f4':     # again without the rounding of the data
        r = attempt(dict(c, dtype='f8'))
    return r


def attempt(c):
    import dask
    import dask.array as da
    from dask.array.core import normalize_chunks
    from geotiepoints import geointerpolator, interpolator
    r = np.random.RandomState(3)
    kind, shape, opts, how = c['kind'], tuple(c['shape']), c['opts'], c['how']
    chunks = eval(c['chunks'], {})     # noqa: written by run
    if isinstance(chunks, dict):
        chunks = {int(k): v for k, v in chunks.items()}
    n = count(kind)
    if kind.startswith('Geo'):
        data = [np.cumsum(r.uniform(1, 2, (5, 6)), axis=1) + 10, np.cumsum(r.uniform(1, 2, (5, 6)), axis=0) + 30]
    else:
        data = [r.uniform(0, 1000, (5, 6)) for _ in range(n)]
    data = [d.astype(c['dtype']) for d in data]
    text = '%s %s chunks %s options %s positions as %s' % (kind, shape, chunks, opts, how)
    try:
        it = build({'int': interpolator, 'geo': geointerpolator}, kind, data, opts[0])
        fine = points(how, np.sort(r.uniform(0, 4, shape[0])), np.sort(r.uniform(0, 5, shape[1])))
        eager = [np.asarray(e) for e in ask(it, kind, how, shape, fine, False, opts[1])]
    except Exception as e:      # noqa: eager interpolation is no concern of this check
        return False, 'eager: %r' % e
    try:
        with dask.config.set(scheduler='synchronous'):
            got = ask(it, kind, how, shape, fine, chunks, opts[1])
            for n, (g, e) in enumerate(zip(got, eager)):
                if not isinstance(g, da.Array):
                    return True, '%s: result is %s' % (text, type(g))
                if g.shape != e.shape or g.dtype != e.dtype or g.chunks != normalize_chunks(chunks, shape, dtype=e.dtype):
                    return True, '%s: declared %r instead of %s %s' % (text, g, e.shape, e.dtype)
                for k in np.ndindex(g.numblocks):
                    b = g.blocks[k].compute()
                    if b.shape != tuple(q[i] for q, i in zip(g.chunks, k)) or b.dtype != e.dtype:
                        return True, '%s: block %s is %s %s' % (text, k, b.shape, b.dtype)
                v = g.compute()
                if v.shape != e.shape or not np.allclose(v, e, rtol=0, atol=(1e-10 if c['dtype'] == 'f8' else 1e-6) * np.abs(e).max(), equal_nan=True):
                    k = tuple(np.argwhere(v != e)[0]) if v.shape == e.shape else ()
                    return True, '%s: result %d element %s is %r, eager %r' % (text, n, k, v[k].item() if k else v.shape, e[k].item() if k else e.shape)
            if len(got) != len(eager):
                return True, '%s: %d results' % (text, len(got))
    except Exception as e:      # noqa
        return True, '%s: raises %r' % (text, e)
    return False, 'ok'
