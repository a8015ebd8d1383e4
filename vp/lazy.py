"""dask and scipy for lazy interpolation: real dask graphs of symbolic blocks, uninterpreted interpolators."""
import functools
import sys
import types

import numpy as np

from . import arr, sym
from .arr import SA, base, sa
from .loader import Namespace
from .sym import Sym, Unsupported


# --------------------------------------------------------------------------
# scipy: the interpolated value is an unknown function of the position

def text(v):
    """Options as they appear in the name of a function."""
    return repr(v) if not isinstance(v, (list, tuple, SA, np.ndarray)) else repr([text(x) for x in v])


class _Uninterpreted:
    made = {}

    def _init(self, kind, points, values, kw):
        # the same function for the same data
        key = freeze(tree((kind, points, values, kw)))
        self.id = '%s%d' % (kind, _Uninterpreted.made.setdefault(key, len(_Uninterpreted.made) + 1))
        self.given = (kind, points, values, kw)
        self.__dict__.update(kw)

    def _at(self, y, x, kw):
        name = self.id + ''.join(' %s=%s' % (k, text(v)) for k, v in sorted(kw.items()))
        # positions that have been rounded are other positions
        name += ''.join(' rounded' for v in (y, x) if getattr(v, 'dtype', None) in (np.float32, np.float16))
        y, x = np.broadcast_arrays(base(arr.asarray(y)), base(arr.asarray(x)))
        out = np.empty(y.shape, object)
        for k in np.ndindex(y.shape):
            out[k] = sym.uf(name, _pos(y[k]), _pos(x[k]))
        return sa(out, np.float64)


def _pos(v):
    return v if type(v) is Sym else sym.num(v)


class Grid(_Uninterpreted):
    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=np.nan, **kw):
        self._init('grid', tuple(points), values, dict(kw, method=method, bounds_error=bounds_error, fill_value=fill_value))

    def __call__(self, xi, method=None, **kw):
        if isinstance(xi, (list, tuple)) and len(xi) == 2:
            y, x = xi
        else:
            xi = arr.asarray(xi)
            y, x = xi[..., 0], xi[..., 1]
        m = method or self.method
        return self._at(y, x, dict(kw, method=m))


class Spline(_Uninterpreted):
    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0, maxit=20):
        self._init('spline', (x, y), z, dict(bbox=[None] * 4 if bbox is None else bbox, kx=kx, ky=ky, s=s, maxit=maxit))

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        x, y = arr.asarray(x), arr.asarray(y)
        if grid:
            if x.ndim != 1 or y.ndim != 1:
                raise ValueError('positions of a grid are vectors')
            x, y = x[:, np.newaxis], y[np.newaxis, :]
        return self._at(x, y, dict(dx=dx, dy=dy))

    def ev(self, x, y, dx=0, dy=0):
        return self(x, y, dx, dy, grid=False)


def overrides():
    interp = Namespace('scipy.interpolate', None, RegularGridInterpolator=Grid, RectBivariateSpline=Spline, splrep=None, splev=None)
    return {'scipy.interpolate': interp, 'scipy': Namespace('scipy', None, interpolate=interp)}


# --------------------------------------------------------------------------
# dask

TOKENS = {}     # token -> tree
_LEN = 32


def install():
    """Real dask with a symbolic tokenize (in this process only)."""
    import dask.array                   # noqa: loads what refers to tokenize
    import dask.base
    import dask.tokenize as tk
    import dask.delayed                 # noqa
    import dask.array.core, dask.array.blockwise, dask.array.reductions, dask.array.overlap    # noqa
    real = tk.tokenize
    if getattr(real, '_vp', False):
        return real

    def tokenize(*args, **kw):
        kw.pop('ensure_deterministic', None)
        t = tree((args, kw) if kw else args)
        key = freeze(t)
        n = _ids.setdefault(key, len(_ids) + 1)
        short = 'f%07x' % n
        TOKENS[short] = t
        return short * (_LEN // len(short))
    tokenize._vp = True
    for m in list(sys.modules.values()):
        if isinstance(m, types.ModuleType) and m.__name__.split('.')[0] in ('dask', 'xarray') and m.__dict__.get('tokenize') is real:
            m.tokenize = tokenize
    return tokenize


_ids = {}


def tree(x):
    """What a token depends on: nested tuples whose leaves may be symbols."""
    if type(x) is Sym:
        return ('num', x)
    if isinstance(x, SA):
        return ('array', x.shape, str(x.dtype), tuple(base(x).reshape(-1)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('array', x.shape, 'object') + tuple(tree(v) for v in x.reshape(-1))
        return ('array', x.shape, str(x.dtype), tuple(sym.num(v) if v == v else 'nan' for v in x.reshape(-1)))
    if isinstance(x, (bool, np.bool_, str, bytes, type(None), type(Ellipsis))):
        return (type(x).__name__, x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        if x != x or x in (float('inf'), float('-inf')):
            return ('num', repr(float(x)))
        return ('num', sym.num(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(tree(v) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted(((tree(k), tree(v)) for k, v in x.items()), key=lambda t: repr(t[0])))
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted((tree(v) for v in x), key=repr))
    if isinstance(x, slice):
        return ('slice',) + tuple(tree(v) for v in (x.start, x.stop, x.step))
    if isinstance(x, np.dtype):
        return ('dtype', str(x))
    if isinstance(x, functools.partial):
        return ('partial', tree(x.func), tree(x.args), tree(x.keywords))
    if isinstance(x, types.MethodType):
        return ('method', x.__func__.__qualname__, tree(x.__self__))
    if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, np.ufunc)):
        r = ('function', getattr(x, '__module__', ''), getattr(x, '__qualname__', x.__name__))
        if getattr(x, '__closure__', None):
            r += tuple(tree(c.cell_contents) for c in x.__closure__)
        return r
    if isinstance(x, _Uninterpreted):
        return ('scipy',) + tuple(tree(v) for v in x.given)
    if type(x).__module__ == 'vp.arr':
        return ('function', 'numpy', x.__name__)
    if hasattr(x, '__dask_tokenize__') and not isinstance(x, type):
        return ('dask', tree(x.__dask_tokenize__()))
    if callable(x) and hasattr(x, '__name__'):
        return ('function', getattr(x, '__module__', ''), x.__name__)
    if hasattr(x, '__dict__') and not isinstance(x, types.ModuleType):
        return ('object', type(x).__qualname__, tree(vars(x)))
    raise Unsupported('token of %s' % type(x))


def freeze(t):
    return tuple(freeze(v) for v in t) if isinstance(t, tuple) else sym.vkey(t) if type(t) is Sym else t


def equal(a, b):
    """Condition under which two trees are equal."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            c = equal(x, y)
            if c is False:
                return False
            if c is not True:
                out.append(c)
        return sym.sand(*out) if out else True
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if type(a) is Sym or type(b) is Sym:
        if isinstance(a, str) or isinstance(b, str):
            return False
        if type(a) is Sym and type(b) is Sym and a.key() == b.key():
            return True
        return sym.cmp('==', a, b)
    if isinstance(a, str) and isinstance(b, str):
        return names_equal(a, b)
    return type(a) is type(b) and a == b or (sym.is_num(a) and sym.is_num(b) and not isinstance(a, bool) and not isinstance(b, bool) and a == b)


def names_equal(a, b):
    """Condition under which two names are equal: their tokens are (injective) functions of what was tokenized."""
    if a == b:
        return True
    pa, pb = split(a), split(b)
    if [k for k, _ in pa] != [k for k, _ in pb]:
        return False
    out = []
    for (k, x), (_, y) in zip(pa, pb):
        if k == 'text':
            if x != y:
                return False
        else:
            c = equal(TOKENS[x], TOKENS[y])
            if c is False:
                return False
            out.append(c)
    return sym.sand(*out) if out else True


def split(name):
    """Texts and tokens of a name (parts of a token count as the token)."""
    import re
    out, last = [], 0
    for m in re.finditer(r'(f[0-9a-f]{7})(?:\1)*', name):
        if m.group(1) not in TOKENS:
            continue
        if m.start() > last:
            out.append(('text', name[last:m.start()]))
        out.append(('token', m.group(1)))
        last = m.end()
    if last < len(name):
        out.append(('text', name[last:]))
    return out


def blocks(a):
    """Computed blocks of a dask array, by block position."""
    import dask
    keys = {k: (a.name,) + k for k in np.ndindex(a.numblocks)}
    got = dask.get(dict(a.__dask_graph__()) if not hasattr(a.__dask_graph__(), 'to_dict') else a.__dask_graph__().to_dict(), list(keys.values()))
    return dict(zip(keys, got))
