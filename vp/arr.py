"""Symbolic numpy arrays and the numpy stand-in seen by the code under test."""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import Sym, SymBool, Unsupported, ENG

F8 = np.dtype('float64')


class SA(np.ndarray):
    """Object array of symbolic values with a simulated dtype."""

    def __new__(cls, a, dtype=None):
        if isinstance(a, SA) and dtype is None:
            dtype = a.dtype
        o = np.array(a, dtype=object) if not (isinstance(a, np.ndarray) and np.ndarray.dtype.__get__(a) == object) else a
        r = np.ndarray.view(o, SA)
        if dtype is None and isinstance(a, np.ndarray) and not isinstance(a, SA) and a.dtype != object:
            dtype = a.dtype
        r._sdt = np.dtype(dtype) if dtype is not None else F8
        return r

    def __array_finalize__(self, obj):
        self._sdt = getattr(obj, '_sdt', F8)

    @property
    def dtype(self):
        return self._sdt

    @dtype.setter
    def dtype(self, v):
        raise Unsupported('assignment to dtype')

    @property
    def nbytes(self):
        return self.size * self._sdt.itemsize

    @property
    def itemsize(self):
        return self._sdt.itemsize

    def astype(self, dtype, *a, **kw):
        dt = np.dtype(dtype)
        if dt == object:
            return base(self).copy()
        copy = kw.get('copy', a[3] if len(a) > 3 else True)
        if not copy and dt == self._sdt:
            return self
        r = sa(base(self).copy(), dt)
        if dt.kind in 'iu':
            return r._map(sym.trunc)
        if dt.kind == 'b':
            return r._map(lambda v: v != 0 if not isinstance(v, SymBool) else v)
        return r

    def _map(self, f):
        out = np.empty(self.shape, dtype=object)
        of, sf = out.reshape(-1), base(self).reshape(-1)
        for i in range(sf.size):
            of[i] = f(sf[i])
        return sa(out, self._sdt)

    def copy(self, order='C'):
        return sa(base(self).copy(), self._sdt)

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        return base(self).item(*a)

    def tolist(self):
        return base(self).tolist()

    def __iter__(self):
        if self.ndim == 1:
            return iter([base(self)[i] for i in range(len(self))])
        return (self[i] for i in range(len(self)))

    def __getitem__(self, idx):
        idx = _index(idx, self)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, v):
        idx = _index(idx, self)
        if isinstance(idx, MaskSel):
            raise Unsupported('unreachable')
        if isinstance(idx, SA) and idx._sdt.kind == 'b':
            idx = (idx,)
        if isinstance(idx, tuple) and len(idx) == 1 and isinstance(idx[0], SA) and idx[0]._sdt.kind == 'b':
            m = idx[0]
            # masked assignment with a symbolic mask
            mask = base(m)
            b = base(self)
            if mask.shape != b.shape:
                raise Unsupported('symbolic mask of another shape')
            vv = np.broadcast_to(np.asarray(base(v) if isinstance(v, np.ndarray) else v, dtype=object), b.shape) \
                if not isinstance(v, np.ndarray) or v.ndim == 0 or v.shape == b.shape else None
            if isinstance(v, MaskSel):
                vv = base(v.arr)
            if vv is None:
                raise Unsupported('masked assignment of a compressed array')
            for k in np.ndindex(b.shape):
                b[k] = sym.ite(mask[k], vv[k], b[k])
            return
        if isinstance(v, np.ndarray):
            v = base(v)
            if v.dtype != object:
                v = v.astype(object)
        np.ndarray.__setitem__(base(self), idx, v)

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return _red_bool(self, axis, sym.sor, False, out, keepdims, kw)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return _red_bool(self, axis, sym.sand, True, out, keepdims, kw)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce(self, axis, lambda v: sym.extremum(v, True), self._sdt, out, keepdims, kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce(self, axis, lambda v: sym.extremum(v, False), self._sdt, out, keepdims, kw)

    def ptp(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce(self, axis, lambda v: sym.extremum(v, True) - sym.extremum(v, False), self._sdt, out, keepdims, kw)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce(self, axis, lambda v: builtins.sum(_count(v)), _sumtype(self, dtype), out, keepdims, kw)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce(self, axis, _prod, _sumtype(self, dtype), out, keepdims, kw)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _reduce(self, axis, lambda v: builtins.sum(_count(v)) / len(v), dtype or (self._sdt if self._sdt.kind == 'f' else F8), out, keepdims, kw)

    def clip(self, lo=None, hi=None, **kw):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def round(self, decimals=0, out=None):
        return _np_round(self, decimals, out)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return _function(func, args, kwargs)

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __repr__(self):
        return 'SA(%s, %r)' % (self._sdt, base(self).tolist() if self.size <= 12 else self.shape)

    __str__ = __repr__


class MV(np.ndarray):
    """Memoryview of the translated Cython code (plain element access)."""

    def __array_finalize__(self, obj):
        self._sdt = getattr(obj, '_sdt', None)


class MaskSel:
    """a[mask] with a symbolic mask: only usable elementwise and to assign back with the same mask."""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


def base(a):
    """Plain ndarray of the elements."""
    return np.ndarray.view(a, np.ndarray) if isinstance(a, SA) else a


def sa(a, dtype=F8):
    r = np.ndarray.view(a, SA)
    r._sdt = np.dtype(dtype)
    return r


def _index(idx, arr):
    if isinstance(idx, tuple):
        return tuple(_index1(i) for i in idx)
    return _index1(idx)


def _index1(i):
    if isinstance(i, Sym):
        return ENG.concretize(i)
    if isinstance(i, slice):
        if any(isinstance(v, Sym) for v in (i.start, i.stop, i.step)):
            return slice(*(ENG.concretize(v) if isinstance(v, Sym) else v for v in (i.start, i.stop, i.step)))
        return i
    if isinstance(i, SA):
        b = base(i)
        if i._sdt.kind == 'b':
            if any(isinstance(v, SymBool) for v in b.reshape(-1)):
                # decide every element (forks)
                out = np.empty(b.shape, dtype=bool)
                for k in np.ndindex(b.shape):
                    out[k] = bool(b[k])
                return out
            return b.astype(bool)
        out = np.empty(b.shape, dtype=np.intp)
        for k in np.ndindex(b.shape):
            out[k] = ENG.concretize(b[k])
        return out
    if isinstance(i, SymBool):
        return bool(i)
    return i


def _count(v):
    return [sym.ite(x, 1, 0) if isinstance(x, SymBool) else x for x in v]


def _sumtype(a, dtype):
    if dtype is not None:
        return np.dtype(dtype)
    return np.dtype('i8') if a._sdt.kind == 'b' else a._sdt


def _red_bool(a, axis, op, empty, *args):
    return _reduce(a, axis, lambda v: op(*[x if isinstance(x, (SymBool, bool, np.bool_)) else x != 0 for x in v]) if len(v) else empty,
                   np.dtype(bool), *args)


def _reduce(a, axis, f, dt, out=None, keepdims=False, others=None):
    for k, v in (others or {}).items():
        if v is not None and not (k == 'where' and v is True) and not type(v) is type(np._NoValue):
            raise Unsupported('reduction with %s' % k)
    b = base(a) if isinstance(a, SA) else np.asarray(a, dtype=object)
    if type(keepdims) is type(np._NoValue):
        keepdims = False
    if axis is None:
        axes = tuple(range(b.ndim))
    else:
        axes = tuple(x % b.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(b.ndim) if i not in axes]
    t = b.transpose(rest + list(axes)).reshape([b.shape[i] for i in rest] + [-1])
    r = np.empty(t.shape[:-1], dtype=object)
    for k in np.ndindex(r.shape):
        r[k] = f(list(t[k]))
    if keepdims:
        r = r.reshape([1 if i in axes else n for i, n in enumerate(b.shape)])
    if out is not None:
        out[...] = sa(r, dt)
        return out
    return sa(r, dt) if r.ndim else r[()]


# --------------------------------------------------------------------------
# ufuncs

def _n(x):
    return x if isinstance(x, (Sym, SymBool)) else sym.num(x)


def _bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def _div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(b, (Sym, SymBool)) and sym.num(b) == 0:
            return math.nan
        return a / b
    a, b = sym.num(a), sym.num(b)
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
    if isinstance(a, float) or isinstance(b, float):
        return sym.num(a / b)
    return sym.num(float(Fraction(a) / b)) if False else Fraction(a) / b


def _floordiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return sym.floor(a / b)
    return a // b


def _mod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a - sym.floor(a / b) * b
    return a % b


def _pow(a, b):
    if isinstance(a, Sym):
        return a ** b
    if isinstance(b, Sym):
        raise Unsupported('symbolic exponent')
    return sym.num(a) ** sym.num(b)


def _isnan(x):
    if isinstance(x, Sym):
        return sym.snot(sym.defined(x))
    return x != x


def _isfinite(x):
    if isinstance(x, Sym):
        return sym.defined(x)
    return math.isfinite(x)


def _hypot(a, b):
    return sym.sqrt(a * a + b * b)


BOOL = np.dtype(bool)
_EL = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': _div, 'true_divide': _div, 'floor_divide': _floordiv, 'remainder': _mod, 'mod': _mod, 'power': _pow,
    'float_power': _pow,
    'negative': lambda a: -a, 'positive': lambda a: a, 'absolute': abs, 'fabs': abs,
    'square': lambda a: a * a, 'sqrt': sym.sqrt, 'reciprocal': lambda a: 1 / a if isinstance(a, Sym) else _div(1, a),
    'sin': sym.sin, 'cos': sym.cos, 'tan': sym.tan, 'arcsin': sym.asin, 'arccos': sym.acos, 'arctan': sym.atan,
    'arctan2': sym.atan2, 'hypot': _hypot, 'deg2rad': sym.deg2rad, 'radians': sym.deg2rad, 'rad2deg': sym.rad2deg,
    'degrees': sym.rad2deg, 'sign': sym.sign, 'floor': sym.floor, 'ceil': sym.ceil, 'trunc': sym.trunc,
    'maximum': sym.smax, 'minimum': sym.smin, 'fmax': sym.smax, 'fmin': sym.smin,
    'conjugate': lambda a: a, 'rint': lambda a: rint(a), 'copysign': lambda a, b: sym.ite(sym.cmp('<', b, 0), -abs(a), abs(a)),
}
_ELB = {
    'less': lambda a, b: sym.cmp('<', a, b), 'less_equal': lambda a, b: sym.cmp('<=', a, b),
    'greater': lambda a, b: sym.cmp('<', b, a), 'greater_equal': lambda a, b: sym.cmp('<=', b, a),
    'equal': lambda a, b: sym.cmp('==', a, b) if not isinstance(a, SymBool) else a == b,
    'not_equal': lambda a, b: sym.snot(sym.cmp('==', a, b)),
    'logical_and': lambda a, b: sym.sand(_bool(a), _bool(b)), 'logical_or': lambda a, b: sym.sor(_bool(a), _bool(b)),
    'bitwise_and': lambda a, b: sym.sand(_bool(a), _bool(b)), 'bitwise_or': lambda a, b: sym.sor(_bool(a), _bool(b)),
    'logical_not': lambda a: sym.snot(_bool(a)), 'invert': lambda a: sym.snot(_bool(a)),
    'logical_xor': lambda a, b: SymBool.__xor__(_bool(a), _bool(b)) if isinstance(_bool(a), SymBool) else (
        SymBool.__xor__(_bool(b), _bool(a)) if isinstance(_bool(b), SymBool) else a != b),
    'isnan': _isnan, 'isfinite': _isfinite, 'isinf': lambda x: False if isinstance(x, Sym) else math.isinf(x),
    'signbit': lambda x: x < 0,
}


def _dt(x):
    if isinstance(x, SA):
        return x._sdt
    if isinstance(x, (np.ndarray, np.generic)):
        return x.dtype
    return None


def result_dtype(inputs, ufunc_name=''):
    dts, weak = [], []
    for x in inputs:
        d = _dt(x)
        if d is not None and d != object:
            dts.append(d)
        elif isinstance(x, (bool, np.bool_)):
            weak.append(False)
        elif isinstance(x, (int,)):
            weak.append(0)
        elif isinstance(x, (float, Fraction)):
            weak.append(0.0)
    if not dts:
        return F8
    r = np.result_type(*(dts + weak))
    if r.kind in 'iub' and ufunc_name in ('divide', 'true_divide', 'sqrt', 'sin', 'cos', 'arctan2', 'arccos', 'arcsin', 'deg2rad',
                                          'rad2deg', 'tan', 'hypot'):
        r = F8
    return r


def _ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    dtype = kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    kwargs.pop('order', None)
    kwargs.pop('subok', None)
    for x in inputs:
        if not isinstance(x, (SA, Sym, SymBool, np.ndarray, np.generic, int, float, Fraction, list, tuple)):
            return NotImplemented
    if method == 'reduce':
        a = inputs[0]
        axis = kwargs.get('axis', 0)
        f = {'add': lambda v: builtins.sum(v), 'maximum': lambda v: sym.extremum(v), 'minimum': lambda v: sym.extremum(v, False),
             'fmax': lambda v: sym.extremum(v), 'fmin': lambda v: sym.extremum(v, False),
             'multiply': lambda v: _prod(v)}.get(name)
        if f is not None:
            r = _reduce(a, axis, f, a._sdt, None, kwargs.get('keepdims', False))
        elif name in ('logical_or', 'bitwise_or'):
            r = _red_bool(a, axis, sym.sor, False, None, kwargs.get('keepdims', False))
        elif name in ('logical_and', 'bitwise_and'):
            r = _red_bool(a, axis, sym.sand, True, None, kwargs.get('keepdims', False))
        else:
            raise Unsupported('%s.reduce' % name)
        return r
    if method == 'outer':
        a, b = (np.asarray(base(x), dtype=object) for x in inputs)
        return _ufunc(ufunc, '__call__', (sa(a.reshape(a.shape + (1,) * b.ndim), result_dtype(inputs)), b), {})
    if method == 'accumulate' and name == 'add':
        b = base(inputs[0])
        return sa(np.cumsum(b, axis=kwargs.get('axis', 0)), inputs[0]._sdt)
    if method != '__call__':
        raise Unsupported('%s.%s' % (name, method))
    if name == 'matmul' and out is None:
        a, b = (np.asarray(base(x) if isinstance(x, np.ndarray) else x, dtype=object) for x in inputs)
        return sa(np.asarray(np.matmul(a, b)), result_dtype(inputs))
    f = _EL.get(name)
    bo = False
    if f is None:
        f = _ELB.get(name)
        bo = True
        if f is None:
            if name == 'divmod':
                return _ufunc(np.floor_divide, '__call__', inputs, {}), _ufunc(np.remainder, '__call__', inputs, {})
            raise Unsupported('ufunc %s' % name)
    ins = [np.asarray(base(x) if isinstance(x, np.ndarray) else x, dtype=object) for x in inputs]
    bs = np.broadcast_arrays(*ins) if len(ins) > 1 else ins
    res = np.empty(bs[0].shape, dtype=object)
    rf = res.reshape(-1)
    its = [b.reshape(-1) for b in bs]
    if len(its) == 1:
        a, = its
        for i in range(a.size):
            rf[i] = f(a[i])
    else:
        a, b = its
        for i in range(a.size):
            rf[i] = f(a[i], b[i])
    dt = BOOL if bo else (np.dtype(dtype) if dtype is not None else result_dtype(inputs, name))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SA):
            raise Unsupported('symbolic result stored in a concrete array')
        if where is True:
            base(o)[...] = res
        else:
            w = np.broadcast_to(np.asarray(base(where), dtype=object), o.shape)
            for k in np.ndindex(o.shape):
                base(o)[k] = sym.ite(w[k], res[k], base(o)[k])
        return o
    if where is not True:
        raise Unsupported('where without out')
    if res.ndim == 0 and not any(isinstance(x, SA) and x.ndim == 0 for x in inputs):
        return res[()]
    return sa(res, dt) if res.ndim else sa(res, dt)


def _prod(v):
    r = 1
    for x in v:
        r = r * x
    return r


# --------------------------------------------------------------------------
# numpy functions

def _unwrap(x):
    if isinstance(x, SA):
        return base(x)
    if isinstance(x, (list, tuple)) and not isinstance(x, str):
        t = [_unwrap(v) for v in x]
        return tuple(t) if isinstance(x, tuple) else t
    return x


def _has_sa(x):
    if isinstance(x, (SA, Sym, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sa(v) for v in x)
    return False


def _collect(x, out):
    if isinstance(x, (SA, np.ndarray, np.generic)):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            _collect(v, out)
    return out


def _rewrap(r, dt):
    if isinstance(r, SA):
        return r
    if isinstance(r, np.ndarray) and r.dtype == object:
        return sa(r, dt)
    if isinstance(r, list):
        return [_rewrap(v, dt) for v in r]
    if isinstance(r, tuple):
        return tuple(_rewrap(v, dt) for v in r)
    return r


_STRUCT = {'concatenate', 'vstack', 'hstack', 'dstack', 'stack', 'column_stack', 'row_stack', 'expand_dims', 'squeeze', 'reshape',
           'transpose', 'swapaxes', 'moveaxis', 'ravel', 'split', 'array_split', 'vsplit', 'hsplit', 'dsplit', 'repeat', 'tile',
           'roll', 'flip', 'fliplr', 'flipud', 'rot90', 'broadcast_to', 'broadcast_arrays', 'atleast_1d', 'atleast_2d',
           'atleast_3d', 'copy', 'take', 'diag', 'append', 'insert', 'delete', 'resize', 'pad', 'meshgrid', 'block', 'ix_', 'rollaxis',
           'take_along_axis', 'diff', 'cumsum', 'dot', 'outer', 'einsum', 'matmul', 'inner', 'tensordot', 'trapezoid', 'kron',
           'unstack', 'permute_dims', 'matrix_transpose', 'trim_zeros'}
_ATTR = {'shape', 'ndim', 'size'}


def _function(func, args, kwargs):
    name = func.__name__
    h = _NPF.get(name)
    if h is not None:
        return h(*args, **kwargs)
    if name in _ATTR or name in ('iscomplexobj', 'isrealobj', 'shares_memory', 'may_share_memory'):
        return func(*_unwrap(args), **{k: _unwrap(v) for k, v in kwargs.items()})
    if name in _STRUCT:
        dt = result_dtype(_collect(args, []))
        if name in ('take', 'repeat', 'insert', 'roll') and _dt(args[0]) is not None:
            dt = _dt(args[0])
        dtype = kwargs.get('dtype')
        kwargs = {k: v for k, v in kwargs.items() if k not in ('dtype', 'casting')}
        kwargs = {k: _unwrap(v) for k, v in kwargs.items()}
        if name in ('broadcast_to', 'broadcast_arrays'):
            kwargs.pop('subok', None)
        r = func(*_unwrap(args), **kwargs)
        return _rewrap(r, dtype or dt)
    raise Unsupported('numpy function %s on symbolic arrays' % name)


def _np_where(cond, *xy):
    if not xy:
        c = np.empty(cond.shape, dtype=bool)
        for k in np.ndindex(cond.shape):
            c[k] = bool(base(cond)[k])
        return np.where(c)
    x, y = xy
    c, a, b = np.broadcast_arrays(*[np.asarray(base(v) if isinstance(v, np.ndarray) else v, dtype=object) for v in (cond, x, y)])
    out = np.empty(c.shape, dtype=object)
    for k in np.ndindex(out.shape):
        out[k] = sym.ite(_bool(c[k]), a[k], b[k])
    return sa(out, result_dtype([x, y]))


def _np_like(fill):
    def f(a, *args, **kw):
        dt = kw.get('dtype') or _dt(a) or F8
        shape = kw.get('shape')
        shape = a.shape if shape is None else shape
        out = np.empty(shape, dtype=object)
        out[...] = fill() if not args or fill is not None and fill is not _FULL else args[0]
        return sa(out, dt)
    return f


def _FULL():
    return 0


def _np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _red_bool(_np_isclose(a, b, rtol, atol), None, sym.sand, True)


def _np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.less_equal(np.absolute(np.subtract(a, b)), atol + rtol * np.absolute(_sarr(b)))


def _np_array_equal(a, b, equal_nan=False):
    a, b = _sarr(a), _sarr(b)
    if a.shape != b.shape:
        return False
    return _red_bool(np.equal(a, b), None, sym.sand, True)


def _sarr(x):
    return x if isinstance(x, SA) else sa(np.asarray(x, dtype=object), _dt(x) or F8)


def _np_full_like(a, v, dtype=None, **kw):
    out = np.empty(a.shape, dtype=object)
    out[...] = v
    return sa(out, dtype or _dt(a) or F8)


def _np_select(conds, choices, default=0):
    out = default
    for c, v in reversed(list(zip(conds, choices))):
        out = _np_where(c, v, out)
    return out


def _np_piecewise(x, condlist, funclist, *args, **kw):
    """Every function applied to all elements (they have to work element by element)."""
    conds = list(condlist) if isinstance(condlist, (list, tuple)) or getattr(condlist, 'ndim', 0) > np.ndim(x) else [condlist]
    if len(funclist) not in (len(conds), len(conds) + 1):
        raise ValueError('with %d condition(s), either %d or %d functions are expected' % (len(conds), len(conds), len(conds) + 1))
    vals = [f(x, *args, **kw) if callable(f) else f for f in funclist]
    out = vals.pop() if len(vals) > len(conds) else 0
    for c, v in zip(conds, vals):
        out = _np_where(_sarr(c), v, out)
    return _sarr(out).astype(_dt(x) or F8)


def _np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not copy:
        raise Unsupported('nan_to_num in place')
    return _np_where(_sarr(np.isnan(x)), nan, x)


def _np_average(a, axis=None, weights=None, **kw):
    if kw:
        raise Unsupported('average with %s' % sorted(kw))
    if weights is None:
        return a.mean(axis)
    if np.shape(weights) != np.shape(a):
        raise Unsupported('average with weights of another shape')
    return (a * weights).sum(axis) / np.sum(weights, axis)


def _np_linalg_norm(a, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or ord == 2 and (np.ndim(a) != 1 and not isinstance(axis, int)):
        raise Unsupported('norm of order %s' % ord)
    return np.sqrt((a * a).sum(axis, keepdims=keepdims))


def _np_clip(a, a_min=None, a_max=None, out=None, **kw):
    lo, hi = kw.pop('min', a_min), kw.pop('max', a_max)
    if kw:
        raise Unsupported('clip with %s' % sorted(kw))
    r = _sarr(a).clip(lo, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def _np_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = np.moveaxis(_sarr(a), axisa, -1), np.moveaxis(_sarr(b), axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('cross product in two dimensions')
    c = [a[..., (i + 1) % 3] * b[..., (i + 2) % 3] - a[..., (i + 2) % 3] * b[..., (i + 1) % 3] for i in range(3)]
    return np.moveaxis(np.stack(c, -1), -1, axisc)


def _np_round(a, decimals=0, out=None):
    if out is not None:
        raise Unsupported('rounding into an array')
    a, f = _sarr(a), Fraction(10) ** int(decimals)
    if a._sdt.kind in 'iub' and decimals >= 0:
        return a
    r = np.empty(a.shape, object)
    for k in np.ndindex(a.shape):
        v = base(a)[k]
        r[k] = rint(v * f) / f if isinstance(v, Sym) else np.round(v, decimals)
    return sa(r, a._sdt)


def rint(x):
    if not isinstance(x, Sym):
        return np.rint(float(x))
    n = sym.floor(x + Fraction(1, 2))
    odd = sym.sand(sym.cmp('==', n - x, Fraction(1, 2)), sym.cmp('==', n - 2 * sym.floor(n / 2), 1))
    return sym.ite(odd, n - 1, n)


def _np_compress(condition, a, axis=None, out=None):
    c = np.flatnonzero(_index1(condition) if isinstance(condition, SA) else condition)
    return np.take(a, c, axis=axis)


def _np_apply_along_axis(func1d, axis, arr, *args, **kw):
    a = np.moveaxis(_sarr(arr), axis, -1)
    rows = [func1d(a[k], *args, **kw) for k in np.ndindex(a.shape[:-1])]
    r = np.stack([_sarr(v) for v in rows])
    return np.moveaxis(r.reshape(a.shape[:-1] + r.shape[1:]), -1, axis) if r.ndim > 1 else r.reshape(a.shape[:-1])


def _np_polyval(p, x):
    y = 0
    for v in p:
        y = y * x + v
    return y


class _Join:
    """np.r_ and np.c_ of arrays and slices."""

    def __init__(self, real, columns):
        self.real, self.columns = real, columns

    def __getitem__(self, ix):
        items = ix if isinstance(ix, tuple) else (ix,)
        if not any(_has_sa(v) or isinstance(v, Sym) for v in items):
            return self.real[ix]
        if any(isinstance(v, str) for v in items):
            raise Unsupported('np.r_ with a directive')
        parts = [np.r_[v] if isinstance(v, slice) else asarray(v) if isinstance(v, (list, tuple, np.ndarray)) else asarray([v]) for v in items]
        if self.columns:
            parts = [v[:, None] if v.ndim == 1 else v for v in parts]
        n = max(v.ndim for v in parts)
        parts = [v.reshape((1,) * (n - v.ndim) + v.shape) for v in parts]
        return _sarr(np.concatenate([_sarr(v) for v in parts], axis=-1 if self.columns else 0))


def _np_copyto(dst, src, casting='same_kind', where=True):
    dst[...] = src if where is True else _np_where(_sarr(where), src, dst)


def _np_argmax(least):
    def f(a, axis=None, out=None, **kw):
        if out is not None or kw.get('keepdims') not in (None, False, np._NoValue):
            raise Unsupported('argmax with options')
        a = _sarr(a)
        b = _index1(a) if a._sdt.kind == 'b' else base(a)
        return b.argmin(axis) if least else b.argmax(axis)
    return f


def _np_searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        raise Unsupported('searchsorted with a sorter')
    a = list(base(_sarr(a)))
    vs = np.asarray(base(v) if isinstance(v, np.ndarray) else v, dtype=object)
    out = np.empty(vs.shape, dtype=int)
    for k in np.ndindex(vs.shape):
        lo, hi = 0, len(a)
        while lo < hi:
            m = (lo + hi) // 2
            if bool(a[m] < vs[k] if side == 'left' else a[m] <= vs[k]):
                lo = m + 1
            else:
                hi = m
        out[k] = lo
    return out if out.ndim else int(out)


def _np_digitize(x, bins, right=False):
    b = concrete(np.asanyarray(bins)) if is_concrete(bins) else None
    if b is None or np.any(np.diff(b) < 0):
        raise Unsupported('digitize with unknown or decreasing bins')
    return _np_searchsorted(b, x, 'left' if right else 'right')


def _np_interp(x, xp, fp, left=None, right=None, period=None):
    if any(isinstance(v, (Sym, SymBool)) for v in (left, right, period)) or not is_concrete(x) or not is_concrete(xp):
        raise Unsupported('np.interp at unknown positions')
    x, xp = concrete(np.asanyarray(x)), concrete(np.asanyarray(xp))
    if (left, right) != (None, None) and any(left not in (None, 0) or right not in (None, 0) for _ in '1'):
        raise Unsupported('np.interp with values outside')
    return linear(lambda f: np.interp(x, xp, f, left, right, period), asarray(fp))


_NPF = {
    'where': _np_where, 'allclose': _np_allclose, 'isclose': _np_isclose, 'array_equal': _np_array_equal,
    'any': lambda a, *x, **k: _sarr(a).any(*x, **k), 'all': lambda a, *x, **k: _sarr(a).all(*x, **k),
    'sum': lambda a, *x, **k: _sarr(a).sum(*x, **k), 'mean': lambda a, *x, **k: _sarr(a).mean(*x, **k),
    'nansum': lambda a, *x, **k: _sarr(a).sum(*x, **k), 'nanmean': lambda a, *x, **k: _sarr(a).mean(*x, **k),
    'prod': lambda a, *x, **k: _sarr(a).prod(*x, **k), 'ptp': lambda a, *x, **k: _sarr(a).ptp(*x, **k),
    'max': lambda a, *x, **k: _sarr(a).max(*x, **k), 'min': lambda a, *x, **k: _sarr(a).min(*x, **k),
    'amax': lambda a, *x, **k: _sarr(a).max(*x, **k), 'amin': lambda a, *x, **k: _sarr(a).min(*x, **k),
    'nanmax': lambda a, *x, **k: _sarr(a).max(*x, **k), 'nanmin': lambda a, *x, **k: _sarr(a).min(*x, **k),
    'average': _np_average, 'norm': _np_linalg_norm, 'piecewise': _np_piecewise, 'cross': _np_cross,
    'argmax': _np_argmax(False), 'argmin': _np_argmax(True), 'searchsorted': _np_searchsorted, 'digitize': _np_digitize, 'clip': _np_clip,
    'zeros_like': lambda a, dtype=None, **k: _np_full_like(a, 0, dtype),
    'ones_like': lambda a, dtype=None, **k: _np_full_like(a, 1, dtype),
    'empty_like': lambda a, dtype=None, **k: _np_full_like(a, sym.junk(), dtype),
    'full_like': _np_full_like, 'select': _np_select, 'nan_to_num': _np_nan_to_num, 'result_type': lambda *a: result_dtype(a),
    'compress': _np_compress, 'apply_along_axis': _np_apply_along_axis, 'polyval': _np_polyval,
    'copyto': _np_copyto, 'round': _np_round, 'around': _np_round, 'real': lambda a: a,
    'asanyarray': lambda a, *x, **k: a, 'ascontiguousarray': lambda a, *x, **k: a,
    'can_cast': lambda f, t, casting='safe': np.can_cast(_dt(f) if isinstance(f, SA) else f, t, casting),
    'isreal': lambda a: np.ones(a.shape, bool), 'iscomplex': lambda a: np.zeros(a.shape, bool),
    'count_nonzero': lambda a, **k: builtins.sum(sym.ite(_bool(v), 1, 0) for v in base(a).reshape(-1)),
    'argwhere': lambda a: np.argwhere(_index1(a) if a._sdt.kind == 'b' else a),
    'nonzero': lambda a: np.nonzero(_index1(a)), 'flatnonzero': lambda a: np.flatnonzero(_index1(a)),
    'interp': _np_interp, 'ndim': lambda a: a.ndim, 'shape': lambda a: a.shape, 'size': lambda a, *x: a.size,
}


def fullfill(shape, v, dtype):
    if isinstance(shape, (Sym,)):
        shape = ENG.concretize(shape)
    if isinstance(shape, (tuple, list)):
        shape = tuple(ENG.concretize(s) if isinstance(s, Sym) else int(s) for s in shape)
    out = np.empty(shape, dtype=object)
    out[...] = v
    return sa(out, dtype)


# --------------------------------------------------------------------------
# the numpy module seen by the code under test

class NumpyProxy(types.ModuleType):
    """numpy with constructors and converters that know symbolic arrays."""

    def __init__(self, zeros_symbolic=True):
        super().__init__('numpy')
        self.__dict__['_zs'] = zeros_symbolic

    def __getattr__(self, name):
        f = getattr(_Over, name, None)
        if f is not None:
            return f
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            return _scalar_ufunc(v)
        return v


_SU = {}


def _scalar_ufunc(u):
    """ufunc that also works on symbolic scalars."""
    r = _SU.get(u)
    if r is None:
        class U:
            __name__ = u.__name__

            def __call__(self, *a, **k):
                if any(isinstance(x, (Sym, SymBool)) for x in a) and not any(isinstance(x, SA) for x in a):
                    return _ufunc(u, '__call__', tuple(a), dict(k))
                if any(_has_sa(x) and isinstance(x, (list, tuple)) for x in a):
                    a = [asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
                return u(*a, **k)

            def __getattr__(self, n):
                return getattr(u, n)
        r = _SU[u] = U()
    return r


def _chkdt(dtype):
    return np.dtype(dtype) if dtype is not None else None


def asarray(x, dtype=None, *args, **kw):
    if getattr(x, '_abstract', False):
        return x if dtype is None or np.dtype(dtype) == x.dtype else x.astype(dtype)
    if isinstance(x, MV):
        if np.ndarray.dtype.__get__(x) == object:
            x = sa(np.ndarray.view(x, np.ndarray), x._sdt)
        else:
            x = np.ndarray.view(x, np.ndarray)
    if isinstance(x, SA):
        if dtype is not None and np.dtype(dtype) != x._sdt:
            return x.astype(dtype)
        return x.copy() if kw.get('copy') else x
    if hasattr(x, '_payload_array'):
        return asarray(x._payload_array(), dtype)
    if _has_sa(x):
        dts = _collect(x, [])
        r = np.array(_unwrap(x), dtype=object)
        return sa(r, dtype or (result_dtype(dts) if dts else F8))
    if isinstance(x, np.ndarray) or not hasattr(x, '__array_function__'):
        kw.pop('order', None)
    return np.asarray(x, dtype, **{k: v for k, v in kw.items() if k in ('copy',)})


def _fp(dtype):
    return dtype is None or np.dtype(dtype).kind == 'f'


def symrange(*a):
    """Elements of range(*a) with symbolic arguments (forks on their number)."""
    start, stop, step = {1: lambda: (0, a[0], 1), 2: lambda: (a[0], a[1], 1), 3: lambda: a}[len(a)]()
    up = bool(step > 0)
    out = []
    while True:
        v = start + len(out) * step
        if not bool(v < stop if up else v > stop):
            return out
        out.append(v)
        if len(out) > 4096:
            raise Unsupported('symbolic range too long')


class _Over:
    pi = math.pi
    r_, c_ = _Join(np.r_, False), _Join(np.c_, True)
    import_array = staticmethod(lambda: None)
    asarray = staticmethod(asarray)
    asanyarray = staticmethod(asarray)
    asfarray = staticmethod(asarray)

    @staticmethod
    def array(x, dtype=None, copy=True, **kw):
        if _has_sa(x) or hasattr(x, '_payload_array'):
            r = asarray(x, dtype)
            return r.copy()
        kw.pop('order', None)
        return np.array(x, dtype=dtype, copy=copy, **kw)

    @staticmethod
    def ascontiguousarray(x, dtype=None):
        if _has_sa(x) or hasattr(x, '_payload_array') or getattr(x, '_abstract', False):
            r = asarray(x, dtype)
            if getattr(r, '_abstract', False):
                return r
            if r.ndim == 0:
                r = r.reshape(1)
            if not base(r).flags.c_contiguous:
                r = r.copy()
            return r
        return np.ascontiguousarray(x, dtype)

    asfortranarray = staticmethod(lambda x, dtype=None: asarray(x, dtype))
    require = staticmethod(lambda x, dtype=None, requirements=None, **k: _Over.ascontiguousarray(x, dtype)
                           if any(str(r)[0].upper() == 'C' for r in requirements or ()) else asarray(x, dtype))

    @staticmethod
    def empty(shape, dtype=None, *a, **k):
        if not _fp(dtype):
            return np.empty(shape, dtype)
        return fullfill(shape, sym.junk(), dtype or F8)

    @staticmethod
    def zeros(shape, dtype=None, *a, **k):
        if not _fp(dtype):
            return np.zeros(shape, dtype)
        return fullfill(shape, 0, dtype or F8)

    @staticmethod
    def ones(shape, dtype=None, *a, **k):
        if not _fp(dtype):
            return np.ones(shape, dtype)
        return fullfill(shape, 1, dtype or F8)

    @staticmethod
    def full(shape, v, dtype=None, *a, **k):
        if not _fp(dtype) or (dtype is None and not isinstance(v, (float, Sym, np.floating))):
            return np.full(shape, v, dtype)
        return fullfill(shape, v, dtype or F8)

    @staticmethod
    def empty_like(x, dtype=None, **k):
        if isinstance(x, SA) or (isinstance(x, np.ndarray) and _fp(dtype or x.dtype)):
            return fullfill(k.get('shape') or x.shape, sym.junk(), dtype or x.dtype)
        return np.empty_like(x, dtype=dtype, **k)

    @staticmethod
    def zeros_like(x, dtype=None, **k):
        if isinstance(x, SA) or (isinstance(x, np.ndarray) and _fp(dtype or x.dtype)):
            return fullfill(k.get('shape') or x.shape, 0, dtype or x.dtype)
        return np.zeros_like(x, dtype=dtype, **k)

    @staticmethod
    def ones_like(x, dtype=None, **k):
        if isinstance(x, SA) or (isinstance(x, np.ndarray) and _fp(dtype or x.dtype)):
            return fullfill(k.get('shape') or x.shape, 1, dtype or x.dtype)
        return np.ones_like(x, dtype=dtype, **k)

    @staticmethod
    def linspace(a, b, num=50, *args, **k):
        if _has_sa(a) or _has_sa(b):
            num = int(num)
            out = np.empty(num, dtype=object)
            for i in range(num):
                out[i] = a + (b - a) * Fraction(i, num - 1) if num > 1 else a
            return sa(out, k.get('dtype') or F8)
        return np.linspace(a, b, num, *args, **k)

    @staticmethod
    def arange(*a, **k):
        if any(isinstance(v, Sym) for v in a):
            r = np.empty(0, dtype=object)
            items = symrange(*a)
            r = np.empty(len(items), dtype=object)
            r[:] = items
            return sa(r, k.get('dtype') or np.int64)
        return np.arange(*a, **k)

    @staticmethod
    def vectorize(f, *a, **k):
        def g(*args):
            if not any(_has_sa(x) for x in args):
                return np.vectorize(f, *a, **k)(*args)
            bs = np.broadcast_arrays(*[np.asarray(_unwrap(x), dtype=object) for x in args])
            out = np.empty(bs[0].shape, dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = f(*[b[i] for b in bs])
            return sa(out, F8)
        return g

    @staticmethod
    def float64(x=0.0):
        return x if isinstance(x, (Sym, SymBool)) else (x.astype(np.float64) if isinstance(x, SA) else np.float64(x))

    @staticmethod
    def meshgrid(*xs, **k):
        if any(_has_sa(x) for x in xs):
            dt = [(_dt(x) or F8) for x in xs]
            k.setdefault('copy', True)
            return [sa(np.array(m, dtype=object), d) for m, d in
                    zip(np.meshgrid(*[np.asarray(_unwrap(x), dtype=object) for x in xs], **k), dt)]
        return np.meshgrid(*xs, **k)

    @staticmethod
    def isscalar(x):
        return isinstance(x, (Sym, SymBool)) or np.isscalar(x)

    @staticmethod
    def shape(x):
        return x.shape if hasattr(x, 'shape') else np.shape(x)

    @staticmethod
    def ndim(x):
        return x.ndim if hasattr(x, 'ndim') else np.ndim(x)


# dtype constructors must stay usable as dtypes
del _Over.float64


def _listed(name):
    f = getattr(np, name)

    def g(*a, **k):
        if any(isinstance(x, (list, tuple)) and _has_sa(x) for x in a[:1]) and name not in ('concatenate',):
            pass
        if a and isinstance(a[0], (Sym, SymBool)):
            a = (sa(np.asarray(a[0], dtype=object)),) + a[1:]
            r = f(*a, **k)
            return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r
        if a and isinstance(a[0], (list, tuple)) and any(isinstance(v, (Sym, SymBool)) for v in a[0]):
            a = (asarray(a[0]),) + a[1:]
        return f(*a, **k)
    g.__name__ = name
    return g


for _n_ in ('sum', 'max', 'min', 'amax', 'amin', 'any', 'all', 'mean', 'prod', 'clip', 'atleast_1d', 'atleast_2d', 'squeeze',
            'isclose', 'allclose', 'nan_to_num', 'array_equal', 'stack', 'vstack', 'hstack', 'concatenate'):
    setattr(_Over, _n_, staticmethod(_listed(_n_)))


def _where(cond, *xy):
    if any(_has_sa(v) for v in (cond,) + xy):
        r = _np_where(cond if isinstance(cond, np.ndarray) else np.asarray(cond, dtype=object), *xy)
        return r
    return np.where(cond, *xy)


_Over.where = staticmethod(_where)


def _lift(a):
    """ndarray -> symbolic array."""
    return a if isinstance(a, SA) else sa(np.asarray(a, dtype=object), _dt(a) if _dt(a) != object else F8)


sym._lift = _lift


# --------------------------------------------------------------------------
# linear external functions

def monomials(*arrays):
    """All monomials of symbolic arrays (the empty one for the constant part)."""
    ms = {}
    for a in arrays:
        for v in base(a).reshape(-1):
            if isinstance(v, Sym):
                for m in v.p:
                    ms.setdefault(m)
            elif isinstance(v, SymBool):
                raise Unsupported('boolean in numeric data')
            elif v:
                ms.setdefault(())
    return list(ms)


def slab(a, m, dtype=np.float64):
    """Concrete coefficients of a monomial."""
    out = np.zeros(a.shape, dtype=dtype)
    f, of = base(a).reshape(-1), out.reshape(-1)
    for i in range(f.size):
        v = f[i]
        if isinstance(v, Sym):
            c = v.p.get(m)
            if c is not None:
                of[i] = c
        elif not m:
            of[i] = v
    return out


def slabs(a, ms):
    """All coefficient slabs at once: array (len(ms),) + a.shape."""
    pos = {m: i for i, m in enumerate(ms)}
    out = np.zeros((len(ms),) + a.shape)
    of = out.reshape(len(ms), -1)
    f = base(a).reshape(-1)
    for i in range(f.size):
        v = f[i]
        if isinstance(v, Sym):
            for m, c in v.p.items():
                of[pos[m], i] = c
        elif v:
            of[pos[()], i] = v
    return out


DROP = 1e-12


def assemble(ms, outs, dtype=F8):
    """Inverse of slabs."""
    outs = np.asarray(outs, dtype=float)
    shape = outs.shape[1:]
    flat = outs.reshape(len(ms), -1)
    res = np.empty(flat.shape[1], dtype=object)
    bad = ~np.isfinite(flat)
    badcol = bad.any(axis=0) if len(ms) else np.zeros(flat.shape[1], bool)
    scale = np.abs(flat).max() if flat.size and not badcol.any() else 1.0
    keep = np.abs(flat) > DROP * max(min(scale, 1.0), 1e-300)
    cols = [[] for _ in range(flat.shape[1])]
    mi, ci = np.nonzero(keep & ~bad)
    vals = flat[mi, ci].tolist()
    for m, c, v in zip(mi.tolist(), ci.tolist(), vals):
        i = int(v)
        if i == v:
            v = i
        cols[c].append((ms[m], v))
    for c, t in enumerate(cols):
        res[c] = math.nan if badcol[c] else sym.mk(dict(t))
    return sa(res.reshape(shape), dtype)


def linear(f, a, dtype=F8):
    """Apply a real function that is linear in the data to a symbolic array.

    f maps a concrete float array to a concrete float array; it is called once
    for every symbol of the data (and for the constant part).
    """
    if not isinstance(a, SA):
        return f(a)
    ms = monomials(a)
    if not ms:
        ms = [()]
    sl = slabs(a, ms)
    outs = [np.asarray(f(s)) for s in sl]
    return assemble(ms, np.stack(outs), dtype)


def is_concrete(a):
    return not isinstance(a, SA) or not any(isinstance(v, (Sym, SymBool)) for v in base(a).reshape(-1))


def concrete(a):
    """Concrete float array of a symbolic array without symbols."""
    if not isinstance(a, SA):
        return a
    if not is_concrete(a):
        raise Unsupported('concrete data needed')
    return base(a).astype(a._sdt if a._sdt.kind in 'iub' else float)
