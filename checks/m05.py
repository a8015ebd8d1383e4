"""M05: chunking of lazy MODIS interpolation."""
import itertools

import numpy as np

from vp import arr, modis, sym
from vp.loader import Namespace
from vp.sym import ENG, Sym, Unsupported, var

BUILD = True
SCANS = 4
COLUMNS = 1354
ROWS = {5000: 2, 1000: 10}
NAMES = dict((v, tuple(map(int, k.split('-')))) for k, v in modis.PAIRS.items())
SIMPLE = {'modis_1km_to_500m': (1000, 500), 'modis_1km_to_250m': (1000, 250)}
ASSUMPTIONS = ['dask is modelled by the documented meaning of rechunk, map_blocks (blocks of equal position are handed to the function together; '
               'explicit output chunks are believed) and indexing of its result; the model is compared with real dask on the witnesses of every run',
               'chunks are not empty; all inputs have the same shape in the cases with row counts of whole scans',
               'the interpolation of whole scans by itself is what M01 to M04 and M06 decide: here it is a probe that records what it is given']


def functions(tier):
    out = [('modis_5km_to_1km', False), ('modis_1km_to_250m', False), ('modis_1km_to_500m', True)]
    if tier == 'thorough':
        out = [(n, False) for n in NAMES] + [(n, True) for n in SIMPLE]
    return out


def layouts(tier):
    """Numbers of row and column chunks of every input; None: the chunks of the first input."""
    out = [[(r, c), None, None] for r in (1, 2, 3) for c in (1, 2)]
    out += [[(1, 1), (2, 1), (2, 1)], [(2, 1), (2, 1), None], [(2, 1), (1, 2), (3, 1)], [(3, 1), (2, 2), None], [(2, 2), None, (2, 2)]]
    # row chunks of given sizes, in half scans
    a, b, c = (2, 2, 2, 4, 2, 6, 2, 2, 2, 8), (1, 3, 2, 1, 1, 4, 2, 1, 1, 16), (2,) * 16
    out += [[(a, 1), None, None], [(a, 2), None, None], [(b, 2), None, None], [(c, 3), (a, 1), (c, 1)], [(c, 1), (c, 1), (b, 1)], [((26, 6), 1), None, (a, 1)],
            [(tuple(a[::-1]), 1), None, None], [((32,), 3), (c, 1), (a, 2)]]
    if tier == 'thorough':
        out += [[(4, 1), None, None], [(4, 2), None, (2, 1)], [(3, 1), (3, 1), None], [(2, 1), (2, 1), (2, 1)], [(1, 3), (2, 2), None]]
    return out


KINDS = ['dask', 'xarray', 'first xarray', 'numpy xarray', 'numpy']


def BOUNDS(tier):
    return ['functions: %s' % [n if not s else 'simple ' + n for n, s in functions(tier)],
            'up to %d scans and one more row; sizes of the row chunks and of the column chunks are symbolic' % SCANS,
            'numbers (or sizes in half scans) of row chunks, numbers of column chunks of every input (None: chunked like the first): %s' % layouts(tier),
            'columns: 271 and 1354; for the simple functions every number from 3 to %d' % COLUMNS,
            'inputs: dask, DataArray of dask (all, or only the first), DataArray of numpy, numpy']


def jobs(tier):
    out = []
    for f in functions(tier):
        for k in KINDS:
            for lay in layouts(tier) if k == 'dask' else layouts(tier)[:1] + layouts(tier)[8:9] + layouts(tier)[-6:-5] if 'numpy' not in k else layouts(tier)[:1]:
                out.append(('%s%s %s %s' % ('simple ' if f[1] else '', f[0], k, lay), run, f + (k, lay)))
    return out


# --------------------------------------------------------------------------
# dask and xarray

class Piece:
    """Rows r0 to r1 and columns c0 to c1 of input number k."""
    _abstract = True

    def __init__(self, k, r, c, dtype):
        self.k, self.r, self.c, self.dtype = k, r, c, np.dtype(dtype)

    shape = property(lambda self: (self.r[1] - self.r[0], self.c[1] - self.c[0]))
    ndim = 2

    def __array__(self, *a, **k):
        raise Unsupported('contents of a piece')


class Result:
    """Component idx of what the interpolation returned for its call number n."""
    _abstract = True

    def __init__(self, call, idx, shape, dtype):
        self.call, self.idx, self.shape, self.dtype = call, idx, tuple(shape), np.dtype(dtype)

    ndim = property(lambda self: len(self.shape))

    def __getitem__(self, ix):
        ix = ix if isinstance(ix, tuple) else (ix,)
        if ix[0] is None and all(i is Ellipsis or i == slice(None) for i in ix[1:]):
            return Block([[self]], self.shape, self.dtype)
        raise Unsupported('index %r of a result' % (ix,))

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if s[:1] == (1,):
            return self[None]
        raise Unsupported('reshape of a result')


class Block:
    """Results stacked along a new first axis."""

    def __init__(self, parts, shape, dtype):
        self.parts = [p for q in parts for p in q]
        self.shape, self.dtype = (len(self.parts),) + tuple(shape), dtype


class Numpy(arr.NumpyProxy):
    """numpy for results."""

    def concatenate(self, seq, axis=0, **k):
        seq = list(seq)
        if not any(isinstance(s, Block) for s in seq):
            return arr._Over.concatenate(seq, axis=axis, **k)
        if axis != 0:
            raise ValueError('results are joined along axis %s' % axis)
        return Block([s.parts for s in seq], seq[0].shape[1:], seq[0].dtype)

    def stack(self, seq, axis=0, **k):
        seq = list(seq)
        if not any(isinstance(s, Result) for s in seq):
            return arr._Over.stack(seq, axis=axis, **k)
        if axis != 0:
            raise ValueError('results are stacked along axis %s' % axis)
        return Block([[s] for s in seq], seq[0].shape, seq[0].dtype)

    def array(self, x, *a, **k):
        if isinstance(x, (list, tuple)) and any(isinstance(s, Result) for s in x):
            return self.stack(x)
        if isinstance(x, (Piece, Result, Block)):
            return x
        return arr._Over.array(x, *a, **k) if hasattr(arr._Over, 'array') else np.array(x, *a, **k)

    def asarray(self, x, *a, **k):
        if isinstance(x, (Piece, Result, Block)) or isinstance(x, (list, tuple)) and any(isinstance(s, Result) for s in x):
            return self.array(x)
        return arr._Over.asarray(x, *a, **k)
    asanyarray = asarray

    def __getattribute__(self, name):
        if name in ('concatenate', 'stack', 'array', 'asarray', 'asanyarray'):
            return object.__getattribute__(self, name)
        return super().__getattribute__(name)


class Dask:
    """dask array: the whole of input number k, in chunks; or what map_blocks returns."""

    def __init__(self, chunks, dtype, k=None, blocks=None):
        self.chunks, self.dtype, self.k, self.blocks = tuple(tuple(c) for c in chunks), np.dtype(dtype), k, blocks

    shape = property(lambda self: tuple(total(c) for c in self.chunks))
    ndim = property(lambda self: len(self.chunks))
    numblocks = property(lambda self: tuple(len(c) for c in self.chunks))
    npartitions = property(lambda self: int(np.prod(self.numblocks)))
    chunksize = property(lambda self: tuple(arr.base(max(c)) for c in self.chunks))

    def compute(self, *a, **k):
        raise Unsupported('the data are computed while the graph is built')
    persist = compute

    def rechunk(self, chunks='auto', threshold=None, block_size_limit=None, balance=False, method=None):
        if self.k is None or balance or block_size_limit:
            raise Unsupported('rechunk of this kind')
        if isinstance(chunks, dict):
            chunks = tuple(chunks.get(d, chunks.get(d - self.ndim, self.chunks[d])) for d in range(self.ndim))
        if isinstance(chunks, (int, Sym)):
            chunks = (chunks,) * self.ndim
        if not isinstance(chunks, (tuple, list)) or len(chunks) != self.ndim:
            raise ValueError('chunks %r do not fit %d dimensions' % (chunks, self.ndim))
        return Dask([self._split(c, o) for c, o in zip(chunks, self.chunks)], self.dtype, self.k)

    @staticmethod
    def _split(c, old):
        n = total(old)
        if c is None:
            return old
        if isinstance(c, str):
            raise Unsupported('automatic chunks')
        if isinstance(c, (tuple, list)):
            if bool(total(c) != n):
                raise ValueError('Chunks do not add up to same value')
            return tuple(c)
        if bool(c == -1):
            return (n,)
        if bool(c <= 0):
            raise ValueError('chunk size %r' % (c,))
        out = []
        while bool(n > c):
            out.append(c)
            n = n - c
        return tuple(out) + (n,)

    def piece(self, i, j):
        r, c = self.chunks
        if i >= len(r) or j >= len(c):
            raise Unsupported('block outside of the array')
        a, b = total(r[:i]), total(c[:j])
        return Piece(self.k, (a, a + r[i]), (b, b + c[j]), self.dtype)

    def __getitem__(self, ix):
        if self.blocks is not None and self.ndim == 3 and type(ix) is tuple and all(i == slice(None) or i is Ellipsis for i in ix[1:]):
            ix = ix[0]
        if self.blocks is not None and self.ndim == 3 and isinstance(ix, (int, np.integer)):
            n = self.shape[0]
            if not -n <= ix < n:
                raise IndexError('Index %d is out of bounds' % ix)
            return Dask(self.chunks[1:], self.dtype, blocks={k: b.parts[ix] if -len(b.parts) <= ix < len(b.parts) else None
                                                             for k, b in self.blocks.items()})
        if self.k is not None and ix in (Ellipsis, slice(None), (slice(None), slice(None))):
            return self
        raise Unsupported('index %r of a dask array' % (ix,))

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __len__(self):
        return self.shape[0]

    def astype(self, dtype, **k):
        if np.dtype(dtype) == self.dtype:
            return self
        raise Unsupported('astype of a dask array')


def map_blocks(func, *args, name=None, token=None, dtype=None, chunks=None, drop_axis=None, new_axis=None, enforce_ndim=False, meta=None, **kw):
    das = [a for a in args if isinstance(a, Dask)]
    if drop_axis or enforce_ndim or not das or any(a.k is None for a in das) or any(isinstance(v, Dask) for v in kw.values()):
        raise Unsupported('map_blocks of this kind')
    if any(isinstance(a, Piece) for a in args):
        raise Unsupported('map_blocks of dask and numpy arrays')
    new_axis = [new_axis] if isinstance(new_axis, int) else new_axis
    if new_axis is None and chunks is not None and len(chunks) > 2:
        new_axis = range(len(chunks) - 2)
    if list(new_axis or []) != [0]:
        raise Unsupported('map_blocks with new axes %r' % (new_axis,))
    grid = []
    for d in (0, 1):
        counts = {a.numblocks[d] for a in das}
        n = max(counts)
        if counts - {1, n}:
            raise ValueError('Arguments have different numbers of blocks')
        grid.append(next(a.chunks[d] for a in das if a.numblocks[d] == n))
    out = [(1,)] + grid
    if chunks is not None:
        if len(chunks) != 3:
            raise ValueError('Provided chunks have %d dims; expected 3 dims' % len(chunks))
        for d, c in enumerate(chunks):
            if isinstance(c, (tuple, list)):
                if d and len(c) != len(out[d]):
                    raise ValueError('Dimension %d has %d blocks, adjust_chunks specified with %d blocks' % (d, len(out[d]), len(c)))
                out[d] = tuple(c)
            elif c is not None:
                out[d] = (c,) * len(out[d])
    blocks = {}
    for i, j in itertools.product(range(len(grid[0])), range(len(grid[1]))):
        pieces = [a.piece(i if a.numblocks[0] > 1 else 0, j if a.numblocks[1] > 1 else 0) if isinstance(a, Dask) else a for a in args]
        blocks[i, j] = func(*pieces, **kw)
    dt = np.dtype(dtype) if dtype is not None else getattr(meta, 'dtype', None)
    if dt is None:
        raise Unsupported('map_blocks without dtype and meta')
    return Dask(out, dt, blocks=blocks)


class DataArray:
    def __init__(self, data, coords=None, dims=None, name=None, attrs=None):
        if isinstance(data, DataArray):
            data = data.data
        if dims is None or len(tuple(dims)) != data.ndim:
            raise Unsupported('DataArray with dimensions %r' % (dims,))
        self.data, self.dims, self.name, self.attrs, self.coords = data, tuple(dims), name, dict(attrs or {}), coords or {}

    shape = property(lambda self: self.data.shape)
    ndim = property(lambda self: self.data.ndim)
    dtype = property(lambda self: self.data.dtype)
    chunks = property(lambda self: getattr(self.data, 'chunks', None))
    sizes = property(lambda self: dict(zip(self.dims, self.shape)))

    @property
    def values(self):
        if isinstance(self.data, Dask):
            self.data.compute()
        return self.data

    def compute(self, *a, **k):
        if isinstance(self.data, Dask):
            self.data.compute()
        return self

    def copy(self, deep=True, data=None):
        return DataArray(self.data if data is None else data, dims=self.dims)


def total(c):
    r = 0
    for v in c:
        r = r + v
    return r


# --------------------------------------------------------------------------

class Calls(list):
    def probe(self, real):
        def interpolation(*args, **kw):
            n = len(self)
            first = next((a for a in args if isinstance(a, Piece)), None)
            if first is None:
                raise Unsupported('interpolation without arrays')
            self.append((args, kw))
            f = kw['coarse_resolution'] // kw['fine_resolution']
            shape = (first.shape[0] * f, 1354 * modis.FINE[kw['fine_resolution']] if kw['coarse_resolution'] == 5000 else first.shape[1] * f)
            return Result(n, 0, shape, first.dtype), Result(n, 1, shape, first.dtype)
        interpolation.__name__ = interpolation.__qualname__ = getattr(real, '__name__', 'interpolation')
        return interpolation


def load(j, simple, calls):
    def hook(ld, module):
        if module.__name__.rpartition('.')[2] == '_modis_utils':
            real = module.scanline_mapblocks
            module.scanline_mapblocks = lambda func: real(calls.probe(func))
    da = Namespace('dask.array', None, Array=Dask, map_blocks=map_blocks)
    ov = {'dask': Namespace('dask', None, array=da), 'dask.array': da, 'xarray': Namespace('xarray', None, DataArray=DataArray), 'numpy': Numpy()}
    ld = j.loader(hooks=[hook], overrides=ov)
    return ld.load('geotiepoints.' + ('simple_modis_interpolator' if simple else 'modisinterpolator'))


def run(j, name, simple, kind, layout):
    calls = Calls()
    fn = getattr(load(j, simple, calls), name)
    coarse, fine = (SIMPLE if simple else NAMES)[name]
    rows, factor = ROWS[coarse], coarse // fine
    width, asm = 271 if coarse == 5000 else 1354, []
    if simple:
        # any number of columns, at least one for every chunk
        width = var('width', lo=2, hi=COLUMNS, integer=True)
        asm = [width >= 3, width <= COLUMNS]
    fine_width = 1354 * modis.FINE[fine] if coarse == 5000 else width * factor
    n = 2 if simple else 3
    what = '%s%s %s %s' % ('simple ' if simple else '', name, kind, layout[:n])
    chunks = []
    if isinstance(layout[0][0], tuple):
        height = sum(layout[0][0]) * rows // 2
    else:
        height = var('rows', lo=1, hi=rows * SCANS + 1, integer=True)
        asm += [height >= 1, height <= rows * SCANS + 1]
    for k, lay in enumerate(layout[:n]):
        if lay is None:
            chunks.append(chunks[0])
            continue
        both = []
        for axis, (count, size) in enumerate(zip(lay, (height, width))):
            if isinstance(count, tuple):
                both.append(tuple(v * rows // 2 for v in count))
                continue
            vs = [var('%s%d_%d' % ('rc'[axis], k, i), lo=1, integer=True) for i in range(count - 1)]
            vs.append(size - total(vs))
            asm += [v >= 1 for v in vs if isinstance(v, Sym)]
            both.append(tuple(vs))
        chunks.append(tuple(both))
    whole = height % rows == 0
    dims = ('along track', 'across track')
    types = [np.dtype('f4')] * n

    def inputs():
        out = []
        for k in range(n):
            a = Piece(k, (0, height), (0, width), types[k]) if 'numpy' in kind else Dask(chunks[k], types[k], k)
            out.append(DataArray(a, dims=dims) if 'xarray' in kind and (k == 0 or not kind.startswith('first')) else a)
        return out

    def call():
        del calls[:]
        r = fn(*inputs())
        r = list(r)
        return r, list(calls)

    def case(m):
        return {'name': name, 'simple': simple, 'kind': kind,
                'chunks': [[[int(m.value(v)) for v in ax] for ax in c] for c in chunks]}
    del calls[:]
    eager = fn(*[Piece(k, (0, rows), (0, width), types[k]) for k in range(n)])
    j.require(len(calls) == 1 and len(eager) == 2, None, 'eager interpolation does not call the interpolation once')
    eager_kw, order = calls[0][1], [r.idx for r in eager]
    accepted = 0
    for p in j.explore(call, asm):
        if p.exc is not None:
            if isinstance(p.exc, ValueError):
                j.prove(sym.snot(whole), p.conds, case, '%s: refused (%s)' % (what, p.exc))
            else:
                j.prove(False, p.conds, case, '%s: %s: %s' % (what, type(p.exc).__name__, p.exc))
            continue
        if 'numpy' not in kind:
            j.prove(whole, p.conds, case, '%s: data that do not consist of whole scans are accepted' % what)
        accepted += 1
        result, made = p.result
        if not shape_ok(j, p, case, what, result, kind, dims, order):
            continue
        arrays = [r.data if isinstance(r, DataArray) else r for r in result]
        if 'numpy' in kind:
            j.require(len(made) == 1 and made[0][1] == eager_kw, lambda: case(j.query(p.conds)[1]), '%s: interpolated in %d calls' % (what, len(made)))
            claims = []
            for k, a in enumerate(made[0][0]):
                claims += [a.k == k, a.r[0] == 0, a.r[1] == height, a.c[0] == 0, a.c[1] == width]
            claims += [r.call == 0 and r.idx == order[i] for i, r in enumerate(arrays)]
            j.prove(claims, p.conds, case, '%s: the interpolation is given other data' % what)
            j.reach(p.conds + [whole], case, what)
            continue
        for i, d in enumerate(arrays):
            if not blocks_ok(j, p, case, '%s, result %d' % (what, i), d, made, order[i], n, height, width, rows, factor, fine_width, eager_kw):
                break
        else:
            j.reach(p.conds, case, what)
    j.require(accepted, None, '%s: nothing is interpolated' % what)


def shape_ok(j, p, case, what, result, kind, dims, order):
    first = kind.endswith('xarray')
    ok = len(result) == len(order)
    if first:
        ok = ok and all(isinstance(r, DataArray) and r.dims == dims for r in result)
        inner = [getattr(r, 'data', r) for r in result]
    else:
        inner = result
    ok = ok and all(isinstance(r, Result if 'numpy' in kind else Dask) and r.dtype == np.dtype('f4') for r in inner)
    return j.require(ok, lambda: case(j.query(p.conds)[1]), '%s: results are %s' % (what, [type(r).__name__ for r in result]))


def blocks_ok(j, p, case, what, d, made, idx, n, height, width, rows, factor, fine_width, kw):
    bad = lambda: case(j.query(p.conds)[1])
    if not j.require(d.blocks is not None and d.ndim == 2 and len(d.chunks[1]) == 1, bad, '%s: chunks %r' % (what, d.chunks)):
        return False
    claims, at = [d.shape[0] == height * factor, d.shape[1] == fine_width], 0
    text = '%s: declared shape %r' % (what, d.shape)
    if not j.prove(claims, p.conds, case, text):
        return False
    for i in range(len(d.chunks[0])):
        b = d.blocks.get((i, 0))
        if not j.require(isinstance(b, Result) and b.idx == idx, bad, '%s: block %d is result %s of the interpolation' % (what, i, getattr(b, 'idx', None))):
            return False
        args, kwargs = made[b.call]
        pieces = [a for a in args if isinstance(a, Piece)]
        if not j.require([a.k for a in pieces] == list(range(n)) and len(args) == n and kwargs == kw, bad,
                         '%s: block %d is interpolated from inputs %s with %s' % (what, i, [a.k for a in pieces], kwargs)):
            return False
        r0, r1 = pieces[0].r
        claims = [r0 == at, (r1 - r0) % rows == 0, b.shape[0] == d.chunks[0][i], b.shape[1] == d.chunks[1][0]]
        for a in pieces:
            claims += [a.r[0] == r0, a.r[1] == r1, a.c[0] == 0, a.c[1] == width]
        if not j.prove(claims, p.conds, case, '%s: block %d is interpolated from rows %s to %s, columns %s' %
                       (what, i, [a.r[0] for a in pieces], [a.r[1] for a in pieces], [a.c for a in pieces])):
            return False
        at = r1
    return j.prove(at == height, p.conds, case, '%s: the blocks end at row %s of %s' % (what, at, height))


# --------------------------------------------------------------------------

def replay(c):
    import warnings
    import dask
    import dask.array as da
    import xarray as xr
    from geotiepoints import modisinterpolator, simple_modis_interpolator
    warnings.simplefilter('ignore')
    fn = getattr(simple_modis_interpolator if c['simple'] else modisinterpolator, c['name'])
    coarse, fine = (SIMPLE if c['simple'] else NAMES)[c['name']]
    h, w = (sum(v) for v in c['chunks'][0])
    lon, lat = modis.concrete_ties(h, w)
    data = [a.astype('f4') for a in (lon, lat, modis.satz_pattern('sensor', h, w))][:2 if c['simple'] else 3]
    kind, dims, args = c['kind'], ('y dim', 'x dim'), []
    for k, (a, ch) in enumerate(zip(data, c['chunks'])):
        v = a if 'numpy' in kind else da.from_array(a, chunks=tuple(tuple(x) for x in ch))
        args.append(xr.DataArray(v, dims=dims) if 'xarray' in kind and (k == 0 or not kind.startswith('first')) else v)
    text = '%s of %s with chunks %s' % (c['name'], kind, c['chunks'])
    with dask.config.set(scheduler='synchronous'):
        try:
            got = list(fn(*args))
        except ValueError as e:
            if h % ROWS[coarse]:
                return False, 'ok'
            return True, '%s: refused: %s' % (text, e)
        except Exception as e:      # noqa
            return True, '%s: %s: %s' % (text, type(e).__name__, e)
        if h % ROWS[coarse]:
            return True, '%s: %d rows are accepted' % (text, h)
        want = fn(*data)
        if len(got) != len(want):
            return True, '%s: %d results' % (text, len(got))
        for g, q in zip(got, want):
            if kind.endswith('xarray'):
                if not isinstance(g, xr.DataArray) or g.dims != dims:
                    return True, '%s: result is %s with dimensions %s' % (text, type(g).__name__, getattr(g, 'dims', None))
                g = g.data
            if 'numpy' not in kind:
                if not isinstance(g, da.Array):
                    return True, '%s: result is %s' % (text, type(g).__name__)
                if g.shape != q.shape or g.dtype != q.dtype:
                    return True, '%s: declared %s %s instead of %s %s' % (text, g.shape, g.dtype, q.shape, q.dtype)
                try:
                    for i in range(g.numblocks[0]):
                        for k in range(g.numblocks[1]):
                            s = g.blocks[i, k].compute().shape
                            if s != (g.chunks[0][i], g.chunks[1][k]):
                                return True, '%s: block %s has shape %s, declared %s' % (text, (i, k), s, (g.chunks[0][i], g.chunks[1][k]))
                    g = g.compute()
                except Exception as e:      # noqa
                    return True, '%s: computing fails: %s: %s' % (text, type(e).__name__, e)
            g, q = np.asarray(g), np.asarray(q)
            if g.shape != q.shape or g.dtype != q.dtype:
                return True, '%s: computed %s %s instead of %s %s' % (text, g.shape, g.dtype, q.shape, q.dtype)
            if not np.array_equal(g, q, equal_nan=True):
                k = tuple(np.argwhere(g != q)[0])
                return True, '%s: element %s is %r instead of %r' % (text, k, float(g[k]), float(q[k]))
    return False, 'ok'
