"""Run-time support for translated Cython code."""
import builtins
import math

import numpy as np

from . import sym, arr
from .sym import Sym, SymBool, Unsupported, ENG, MemoryFault
from .arr import SA, MV

__all__ = ['_mv', '_buf', '_mvset', '_mvslice', '_mvbase', '_g1', '_g2', '_g3', '_gn', '_s1', '_s2', '_s3', '_sn', '_range', '_min', '_max',
           '_py_int', '_py_float', '_py_bool', '_py_range', '_py_round', '_div', '_cdiv', '_cmod', '_pydiv', '_pymod', '_ffloordiv',
           '_fmod', '_pyfmod', '_pow', '_u32', '_u64', '_i32', '_narrow', '_tou32', '_toint', '_tofloat', '_trunc', '_bind_fused', '_fused_is',
           '_fused_type', '_cimport_module', '_cimport_from', '_extern', '_carray', '_CClass', '_JF', '_JI', '_slice', '_Pointer', '_Element', '_Attribute',
           '_pget', '_pset', '_padd', '_Struct', '_copy_struct']

_JF = sym.junk('uninitialised_double')
_JI = sym.var('uninitialised_int', integer=True)
INT = int


def fault(what):
    if not ENG.active:
        raise MemoryFault(what)
    ENG.memfault(what)


def _idx_fault(a, ix):
    fault('index %s outside of an array of shape %s' % (ix, tuple(a.shape)))


def _sindex(i, n, a, ix):
    """Concrete in-bounds index."""
    t = type(i)
    if t is INT:
        if 0 <= i < n:
            return i
        _idx_fault(a, ix)
    if t is Sym:
        if sym.is_junk(i):
            _idx_fault(a, 'uninitialised')
        if bool(sym.sor(i < 0, i >= n)):
            _idx_fault(a, ix)
        return ENG.concretize(i)
    if isinstance(i, (np.integer, bool, np.bool_)):
        return _sindex(int(i), n, a, ix)
    if hasattr(i, '__index__'):
        return _sindex(i.__index__(), n, a, ix)
    raise Unsupported('index of type %s' % t)


def _abstract(a):
    return getattr(a, '_abstract', False)


def _g1(a, i):
    if type(i) is INT and i >= 0:
        try:
            return a.item(i)
        except IndexError:
            pass
        except AttributeError:
            pass
    if _abstract(a):
        return a.get((i,))
    if type(a) is list:
        return a[_carr_index(a, i)]
    return a.item(_sindex(i, a.shape[0], a, (i,)))


def _g2(a, i, j):
    if type(i) is INT and type(j) is INT and i >= 0 and j >= 0:
        try:
            return a.item(i, j)
        except IndexError:
            pass
        except AttributeError:
            pass
    if _abstract(a):
        return a.get((i, j))
    return a.item(_sindex(i, a.shape[0], a, (i, j)), _sindex(j, a.shape[1], a, (i, j)))


def _g3(a, i, j, k):
    if type(i) is INT and type(j) is INT and type(k) is INT and i >= 0 and j >= 0 and k >= 0:
        try:
            return a.item(i, j, k)
        except IndexError:
            pass
        except AttributeError:
            pass
    if _abstract(a):
        return a.get((i, j, k))
    s = a.shape
    return a.item(_sindex(i, s[0], a, (i, j, k)), _sindex(j, s[1], a, (i, j, k)), _sindex(k, s[2], a, (i, j, k)))


def _norm(a, ix, flags):
    bc, wrap = flags
    out = []
    for i, n in zip(ix, a.shape):
        if wrap and not isinstance(i, Sym) and i < 0:
            i = i + n
        elif wrap and isinstance(i, Sym) and bool(i < 0):
            i = i + n
        if bc:
            if isinstance(i, Sym):
                if bool(sym.sor(i < 0, i >= n)):
                    raise IndexError('Out of bounds on buffer access')
            elif not 0 <= i < n:
                raise IndexError('Out of bounds on buffer access')
        out.append(i)
    return out


def _gn(a, ix, flags):
    ix = _norm(a, ix, flags)
    if _abstract(a):
        return a.get(tuple(ix))
    return a.item(*[_sindex(i, n, a, ix) for i, n in zip(ix, a.shape)])


def _store(a, k, v):
    if type(a) is SA:
        a = arr.base(a)
    if a.dtype != object and isinstance(v, (Sym, SymBool)):
        raise Unsupported('symbolic value stored in a concrete %s array' % a.dtype)
    a[k] = v


def _s1(a, i, v):
    if type(a) is list:
        a[_carr_index(a, i)] = v
        return
    if type(i) is INT and 0 <= i < a.shape[0] and type(a) is MV and a.dtype == object:
        a[i] = v
        return
    if _abstract(a):
        a.set((i,), v)
        return
    _store(a, _sindex(i, a.shape[0], a, (i,)), v)


def _s2(a, i, j, v):
    if type(i) is INT and type(j) is INT and type(a) is MV:
        s = a.shape
        if 0 <= i < s[0] and 0 <= j < s[1] and (type(v) is not Sym or a.dtype == object):
            a[i, j] = v
            return
    if _abstract(a):
        a.set((i, j), v)
        return
    _store(a, (_sindex(i, a.shape[0], a, (i, j)), _sindex(j, a.shape[1], a, (i, j))), v)


def _s3(a, i, j, k, v):
    if type(i) is INT and type(j) is INT and type(k) is INT and type(a) is MV:
        s = a.shape
        if 0 <= i < s[0] and 0 <= j < s[1] and 0 <= k < s[2] and (type(v) is not Sym or a.dtype == object):
            a[i, j, k] = v
            return
    if _abstract(a):
        a.set((i, j, k), v)
        return
    s = a.shape
    _store(a, (_sindex(i, s[0], a, (i, j, k)), _sindex(j, s[1], a, (i, j, k)), _sindex(k, s[2], a, (i, j, k))), v)


def _sn(a, ix, v, flags):
    ix = _norm(a, ix, flags)
    if _abstract(a):
        a.set(tuple(ix), v)
        return
    _store(a, tuple(_sindex(i, n, a, ix) for i, n in zip(ix, a.shape)), v)


def _slice(a, b, c):
    if type(a) is Sym or type(b) is Sym or type(c) is Sym:
        return slice(a, b, c)
    return slice(a, b, c)


def _fix_slices(a, ix):
    out = []
    d = 0
    for i in ix:
        if i is None:
            out.append(None)
            continue
        if i is Ellipsis:
            d = a.ndim - (len([x for x in ix if x is not None and x is not Ellipsis]) - len([x for x in out if x is not None and x is not Ellipsis]))
            out.append(i)
            continue
        if isinstance(i, slice):
            out.append(slice(*[ENG.concretize(v) if isinstance(v, Sym) else v for v in (i.start, i.stop, i.step)]))
        else:
            out.append(_sindex(i, a.shape[d], a, ix))
        d += 1
    return tuple(out)


def _mvslice(a, ix, flags=(False, False)):
    if a is None:
        fault('use of an unset memoryview')
    if _abstract(a):
        return a.slice(ix)
    ix2 = []
    d = 0
    for i in ix:
        if not isinstance(i, slice) and i is not None and i is not Ellipsis:
            if flags[1] and i < 0:
                i = i + a.shape[d]
            if flags[0] and not 0 <= i < a.shape[d]:
                raise IndexError('Index out of bounds (axis %d)' % d)
        ix2.append(i)
        d += i is not None
    return np.ndarray.__getitem__(a, _fix_slices(a, ix2))


def _mvset(a, ix, v):
    if _abstract(a):
        raise Unsupported('slice assignment to an abstract array')
    k = _fix_slices(a, ix)
    if isinstance(v, np.ndarray):
        v = arr.base(v)
    tgt = np.ndarray.__getitem__(a, k)
    if isinstance(v, np.ndarray) and v.ndim == tgt.ndim and v.shape != tgt.shape:
        raise ValueError('memoryview assignment: shapes %s and %s' % (v.shape, tgt.shape))
    np.ndarray.__setitem__(a, k, v)


def _mvbase(a):
    return arr.asarray(a)


# --------------------------------------------------------------------------
# buffers

class FusedToken:
    def __init__(self, dt):
        self.dt = np.dtype(dt)

    def __repr__(self):
        return 'fused(%s)' % self.dt


def _dtype_of(x):
    if isinstance(x, MV):
        return x._sdt if np.ndarray.dtype.__get__(x) == object else np.ndarray.dtype.__get__(x)
    return np.dtype(x.dtype)


def _elem_dtype(elem):
    if elem[0] == 'fused':
        return elem[1].dt if isinstance(elem[1], FusedToken) else None
    return np.dtype(elem[1])


def _is_array(x):
    return isinstance(x, np.ndarray) or _abstract(x)


def _check(x, ndim, elem, what):
    if not _is_array(x):
        if hasattr(x, '__array__') or isinstance(x, (list, tuple, int, float)):
            raise TypeError('Cannot convert %s to a buffer' % type(x).__name__)
        raise TypeError("'%s' object does not support the buffer interface" % type(x).__name__)
    if x.ndim != ndim:
        raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (ndim, x.ndim))
    dt = _elem_dtype(elem)
    if dt is not None and _dtype_of(x) != dt:
        raise ValueError('Buffer dtype mismatch, expected %r but got %r' % (dt.name, _dtype_of(x).name))


def _mv(x, ndim, contig, elem):
    if x is None or isinstance(x, MV):
        return x
    _check(x, ndim, elem, 'memoryview')
    if _abstract(x):
        return x
    b = arr.base(x)
    if contig and not b.flags.c_contiguous:
        raise ValueError('ndarray is not C-contiguous')
    if not isinstance(x, SA) and not b.flags.writeable:
        raise ValueError('buffer source array is read-only')
    r = np.ndarray.view(b, MV)
    r._sdt = x.dtype
    return r


def _buf(x, ndim, elem):
    if x is None:
        return x
    if isinstance(x, MV):
        x = arr.asarray(x)
    _check(x, ndim, elem, 'buffer')
    return x


def _bind_fused(args, ndims, is_def):
    for x in args:
        if x is None:
            continue
        if not _is_array(x):
            if is_def:
                raise TypeError('No matching signature found')
            continue
        dt = _dtype_of(x)
        if dt in (np.dtype('float32'), np.dtype('float64')):
            return FusedToken(dt)
        raise TypeError('No matching signature found')
    return None


def _fused_is(tok, name):
    if not isinstance(tok, FusedToken):
        raise Unsupported('fused type of scalars')
    return tok.dt.name == name


class _FusedType:
    def __init__(self, name):
        self.name = name


def _fused_type(name):
    return _FusedType(name)


class _CClass:
    """Base of translated extension types: attributes start at zero."""
    _c_attrs = {}

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        for c in reversed(cls.__mro__):
            for nm, t in getattr(c, '_c_attrs', {}).items():
                object.__setattr__(o, nm, None if t in ('obj', 'mv', 'buf') else 0)
        return o


def _carray(n, t):
    return [_JF] * n


def _carr_index(a, i):
    if isinstance(i, Sym):
        if bool(sym.sor(i < 0, i >= len(a))):
            fault('index outside of a C array')
        i = ENG.concretize(i)
    if not 0 <= i < len(a):
        fault('index %s outside of a C array of %d elements' % (i, len(a)))
    return i


# --------------------------------------------------------------------------
# scalars

def _range(*a):
    if builtins.all(type(x) is INT for x in a):
        return range(*a)
    out = []
    for x in a:
        if isinstance(x, Sym):
            if sym.is_junk(x):
                fault('uninitialised loop bound')
            x = ENG.concretize(x)
        out.append(int(x))
    return range(*out)


def _min(*a):
    if not builtins.any(isinstance(x, Sym) for x in a):
        return builtins.min(*a)
    r = a[0]
    for x in a[1:]:
        r = sym.smin(r, x)
    return r


def _max(*a):
    if not builtins.any(isinstance(x, Sym) for x in a):
        return builtins.max(*a)
    r = a[0]
    for x in a[1:]:
        r = sym.smax(r, x)
    return r


def _py_int(x=0, *a):
    return sym.trunc(x) if isinstance(x, Sym) else int(x, *a)


def _py_float(x=0.0):
    return x if isinstance(x, Sym) else float(x)


def _py_bool(x=False):
    return x if isinstance(x, SymBool) else bool(x)


_py_range = _range


def _py_round(x, *a):
    if isinstance(x, Sym):
        raise Unsupported('round')
    return round(x, *a)


def _div(a, b):
    if isinstance(b, Sym) or isinstance(a, Sym):
        return a / b
    if b == 0:
        ENG.undefined('division by the constant 0')
        a = float(a)
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
    return a / b


def _zero(b):
    if isinstance(b, Sym):
        if bool(b == 0):
            fault('integer division by zero')
    elif b == 0:
        fault('integer division by zero')


def _cdiv(a, b):
    _zero(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return sym.trunc(sym.simplify_div(a, b))
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def _cmod(a, b):
    _zero(b)
    return a - _cdiv(a, b) * b


def _pydiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if bool(b == 0):
            raise ZeroDivisionError()
        return sym.floor(sym.simplify_div(a, b))
    return a // b


def _pymod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a - _pydiv(a, b) * b
    return a % b


def _ffloordiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return sym.floor(a / b)
    return math.floor(a / b)


def _fmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a - sym.trunc(a / b) * b
    return math.fmod(a, b)


def _pyfmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a - sym.floor(a / b) * b
    return a % b


def _pow(a, b):
    if isinstance(a, Sym):
        return a ** b
    if isinstance(b, Sym):
        raise Unsupported('symbolic exponent')
    return a ** b


def _u32(x):
    if isinstance(x, Sym):
        if bool(x < 0):
            return x + 2 ** 32
        return x
    return int(x) & 0xFFFFFFFF


def _u64(x):
    if isinstance(x, Sym):
        if bool(x < 0):
            return x + 2 ** 64
        return x
    return int(x) & 0xFFFFFFFFFFFFFFFF


def _i32(x):
    if isinstance(x, Sym):
        return x
    x = int(x) & 0xFFFFFFFF
    return x - 2 ** 32 if x >= 2 ** 31 else x


def _narrow(x, bits, signed):
    """Integer of 8 or 16 bits."""
    lo = -2 ** (bits - 1) if signed else 0
    if isinstance(x, Sym):
        if bool(sym.sand(x >= lo, x < lo + 2 ** bits)):
            return x
        return x - 2 ** bits * sym.floor((x - lo) / 2 ** bits)
    return (int(x) - lo) % 2 ** bits + lo


def _toint(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (float, np.floating, str)) or x is None:
        raise TypeError('an integer is required')
    return int(x)


def _tou32(x):
    if isinstance(x, Sym):
        if bool(x < 0):
            raise OverflowError("can't convert negative value to unsigned int")
        return x
    x = _toint(x)
    if x < 0:
        raise OverflowError("can't convert negative value to unsigned int")
    if x >= 2 ** 32:
        raise OverflowError('value too large to convert to unsigned int')
    return x


def _tofloat(x):
    if isinstance(x, (Sym,)):
        return x
    if isinstance(x, SymBool):
        return x._n()
    if isinstance(x, (int, float)):
        return x
    return sym.num(x)


def _trunc(x):
    if isinstance(x, Sym):
        return sym.trunc(x)
    if x != x or x in (math.inf, -math.inf):
        return -2 ** 31
    return int(x)


# --------------------------------------------------------------------------
# cimports

def _isnan(x):
    return not sym.defined(x) if not isinstance(x, Sym) else sym.snot(sym.defined(x))


def _atan(x):
    return sym.atan(x)


LIBM = {'sin': sym.sin, 'cos': sym.cos, 'tan': sym.tan, 'asin': sym.asin, 'acos': sym.acos, 'atan': sym.atan, 'atan2': sym.atan2,
        'sqrt': sym.sqrt, 'fabs': abs, 'floor': sym.floor, 'ceil': sym.ceil, 'trunc': sym.trunc, 'pow': _pow, 'fmod': _fmod,
        'hypot': lambda a, b: sym.sqrt(a * a + b * b), 'fmin': _min, 'fmax': _max, 'isnan': _isnan,
        'isfinite': lambda x: sym.snot(_isnan(x)), 'isinf': lambda x: False, 'M_PI': sym.PI, 'M_PI_2': sym.PI / 2, 'NAN': math.nan,
        'copysign': lambda a, b: sym.ite(b < 0, -abs(a), abs(a)), 'abs': abs, 'M_PI_4': sym.PI / 4, 'M_1_PI': 1 / sym.PI,
        'fma': lambda a, b, c: a * b + c, 'fdim': lambda a, b: _max(a - b, 0),
        'round': lambda x: sym.ite(x < 0, -sym.floor(-x + 0.5), sym.floor(x + 0.5))}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'fabs', 'floor', 'ceil', 'pow', 'fmod', 'hypot'):
    LIBM[_n + 'f'] = LIBM[_n]


class _CythonModule:
    parallel = None

    def __getattr__(self, n):
        if n in ('boundscheck', 'wraparound', 'cdivision', 'initializedcheck', 'nonecheck'):
            return lambda *a, **k: (lambda f: f)
        return n


def _cimport_module(name):
    from . import loader
    if name == 'numpy':
        return loader.current().numpy
    if name == 'cython':
        return _CythonModule()
    raise Unsupported('cimport %s' % name)


def _cimport_from(glob, level, module, name):
    from . import loader
    if module == 'libc.math':
        if name not in LIBM:
            raise Unsupported('libc.math.%s' % name)
        return LIBM[name]
    if module.split('.')[0] in ('cython', 'numpy', 'libc', 'cpython'):
        return name
    full = module
    if level:
        pkg = glob['__package__']
        full = pkg + ('.' + module if module else '')
    m = loader.current().load(full)
    return getattr(m, name, None)


def _extern(name):
    if name in LIBM:
        return LIBM[name]
    raise Unsupported('extern %s' % name)


# --------------------------------------------------------------------------
# pointers and structures

class _Pointer:
    """Address of a local variable."""

    def __init__(self, get, set):
        self._get, self._set = get, set

    def get(self, i):
        self._check(i)
        return self._get()

    def set(self, i, v):
        self._check(i)
        self._set(v)

    def _check(self, i):
        if isinstance(i, Sym) and bool(i != 0) or not isinstance(i, Sym) and i != 0:
            fault('access next to a variable')

    def __add__(self, n):
        raise Unsupported('arithmetic on the address of a variable')


class _Attribute(_Pointer):
    """Address of an attribute."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def _get(self):
        return getattr(self.obj, self.name)

    def _set(self, v):
        setattr(self.obj, self.name, v)


class _Element(_Pointer):
    """Address of an array element."""

    def __init__(self, arr, index, flags, off=0):
        self.arr, self.index, self.flags, self.off = arr, tuple(index), flags, off

    def _at(self, i):
        k = self.off + i
        if isinstance(k, int) and k == 0:
            return self.index
        if isinstance(self.arr, list):
            return (self.index[0] + k,)
        a = self.arr
        if _abstract(a):
            raise Unsupported('pointer into an array of symbolic shape')
        shape = tuple(a.shape)
        if not np.asarray(arr.base(a) if type(a) is SA else a).flags['C_CONTIGUOUS'] and a.ndim > 1:
            raise Unsupported('pointer into an array with gaps')
        flat = k
        size = 1
        for n, ix in zip(shape[::-1], self.index[::-1]):
            flat = flat + ix * size
            size *= n
        if isinstance(flat, Sym):
            if bool(sym.sor(flat < 0, flat >= size)):
                fault('pointer outside of an array of shape %s' % (shape,))
            flat = ENG.concretize(flat)
        if not 0 <= flat < size:
            fault('pointer outside of an array of shape %s' % (shape,))
        return tuple(int(v) for v in np.unravel_index(int(flat), shape))

    def get(self, i):
        return self.arr[_carr_index(self.arr, self._at(i)[0])] if isinstance(self.arr, list) else _gn(self.arr, self._at(i), self.flags)

    def set(self, i, v):
        if isinstance(self.arr, list):
            self.arr[_carr_index(self.arr, self._at(i)[0])] = v
        else:
            _sn(self.arr, self._at(i), v, self.flags)

    def __add__(self, n):
        return _Element(self.arr, self.index, self.flags, self.off + n)


def _pointer(p):
    if isinstance(p, list):
        return _Element(p, (0,), (False, False))
    if p is None:
        fault('access through a null pointer')
    if not isinstance(p, _Pointer):
        raise Unsupported('pointer to %s' % type(p))
    return p


def _pget(p, i):
    return _pointer(p).get(i)


def _pset(p, i, v):
    _pointer(p).set(i, v)


def _padd(p, n):
    return _pointer(p) + n


class _Struct:
    _fields = ()

    def __init__(self, *a, **k):
        for n, v in list(zip(self._fields, a)) + list(k.items()):
            setattr(self, n, v)


def _copy_struct(v, cls):
    if isinstance(v, dict):
        return cls(**v)
    c = cls()
    for n in cls._fields:
        setattr(c, n, getattr(v, n))
    return c
