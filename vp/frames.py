"""pandas with symbolic values: real frames of the coefficients of every symbol, kept in step."""
import numpy as np

from . import arr, sym
from .arr import SA, base, sa
from .loader import Namespace
from .sym import Sym, Unsupported

# operations that are linear in the values (or do not look at them)
SAME = {'reindex', 'to_numpy', 'T', 'transpose', 'values', 'iloc', 'loc', 'copy', 'reset_index', 'rename', 'rename_axis', 'ffill', 'bfill', 'head',
        'tail', 'sort_index', 'drop', 'reindex_like', 'infer_objects', 'convert_dtypes', 'set_axis', 'diff', 'sum', 'mean', 'cumsum', 'stack',
        'unstack', 'squeeze', 'dropna', 'to_frame', 'shift', 'take', 'truncate'}
PLAIN = {'index', 'columns', 'shape', 'ndim', 'size', 'dtype', 'dtypes', 'isna', 'notna', 'isnull', 'notnull', 'empty', 'keys', 'axes', 'name'}
LINEAR = {'linear', 'time', 'index', 'values', 'pad', 'nearest', 'zero', 'slinear', 'quadratic', 'cubic', 'spline', 'polynomial', 'barycentric', 'krogh'}


def pd():
    import pandas
    return pandas


def wrap(ms, parts):
    p = parts[0]
    if isinstance(p, pd().DataFrame):
        return Frame._of(ms, parts)
    if isinstance(p, pd().Series):
        return Series._of(ms, parts)
    if isinstance(p, np.ndarray):
        return arr.assemble(ms, np.stack([np.asarray(q, dtype=float) for q in parts]), p.dtype)
    if isinstance(p, (float, np.floating)):
        v = arr.assemble(ms, np.array(parts, float).reshape(-1, 1), np.float64)
        return base(v)[0]
    raise Unsupported('pandas result %s' % type(p))


class Steps:
    """A real object for every monomial."""

    def __init__(self, ms, parts):
        self.ms, self.parts = ms, parts

    def __call__(self, *a, **kw):
        return wrap(self.ms, [p(*a, **kw) for p in self.parts])

    def __getitem__(self, k):
        return wrap(self.ms, [p[k] for p in self.parts])


class Common:
    @classmethod
    def _of(cls, ms, parts):
        self = object.__new__(cls)
        self.ms, self.parts = list(ms), list(parts)
        return self

    def __getattr__(self, n):
        if n.startswith('__') or n in ('ms', 'parts'):
            raise AttributeError(n)
        if n in PLAIN:
            return getattr(self.parts[0], n)
        if n in SAME:
            vs = [getattr(p, n) for p in self.parts]
            if callable(vs[0]) or n in ('iloc', 'loc'):
                return Steps(self.ms, vs)
            return wrap(self.ms, vs)
        if n in ('clip', 'round', 'abs'):
            return lambda *a, **kw: self._elements(lambda x: getattr(np, n)(x, *a, **kw))
        raise Unsupported('pandas %s' % n)

    def __array__(self, *a, **kw):
        raise Unsupported('frame of symbols to a numpy array')

    def __array_ufunc__(self, u, method, *inputs, **kw):
        if method != '__call__' or sum(isinstance(x, Common) for x in inputs) != 1:
            raise Unsupported('ufunc of frames')
        return self._elements(lambda x: u(*[x if isinstance(v, Common) else v for v in inputs], **kw))

    def _values(self):
        return arr.assemble(self.ms, np.stack([p.to_numpy(float) for p in self.parts]), np.float64)

    def _elements(self, f):
        return self._like(f(self._values()))

    def _like(self, values):
        ms = arr.monomials(values) or [()]
        p = self.parts[0]
        kw = {'columns': p.columns} if p.ndim == 2 else {'name': p.name}
        return type(self)._of(ms, [type(p)(v, index=p.index, **kw) for v in arr.slabs(values, ms)])

    def astype(self, dtype, *a, **kw):
        if np.dtype(dtype).kind != 'f':
            raise Unsupported('frame as %s' % dtype)
        return type(self)._of(self.ms, [p.astype(dtype) for p in self.parts])

    def interpolate(self, method='linear', *a, **kw):
        real = [p.interpolate(method, *a, **kw) for p in self.parts]
        if method not in LINEAR:        # whatever it gives
            v = type(self)._of(self.ms, real)._values()
            gap = np.asarray(self.parts[0].isna())
            o = base(v)
            for k in np.ndindex(o.shape):
                if gap[k]:
                    o[k] = sym.fresh('pandas_%s' % method)
            return self._like(v)
        return type(self)._of(self.ms, real)

    def __getitem__(self, k):
        return wrap(self.ms, [p[k] for p in self.parts])

    def __len__(self):
        return len(self.parts[0])

    def _op(name):                      # noqa
        def f(self, o):
            if isinstance(o, (Common, SA, np.ndarray)) or sym.is_num(o) is False:
                raise Unsupported('arithmetic with frames')
            return self._elements(lambda x: getattr(x, name)(o))
        return f
    for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__neg__'):
        locals()[_n] = _op(_n)
    del _n


class Series(Common):
    def __new__(cls, data=None, index=None, **kw):
        if not isinstance(data, SA):
            return pd().Series(data, index, **kw)
        ms = arr.monomials(data) or [()]
        return cls._of(ms, [pd().Series(v.astype(data.dtype), index, **kw) for v in arr.slabs(data, ms)])

    def apply(self, *a, **kw):
        raise Unsupported('Series.apply')


class Frame(Common):
    def __new__(cls, data=None, index=None, columns=None, **kw):
        if isinstance(data, Frame):
            return cls._of(data.ms, [pd().DataFrame(p, index, columns, **kw) for p in data.parts])
        if isinstance(data, (list, tuple)) and any(isinstance(v, (Sym, SA, list, tuple)) for v in data):
            data = arr.asarray(data)
        if not isinstance(data, SA):
            return pd().DataFrame(data, index, columns, **kw)
        ms = arr.monomials(data) or [()]
        return cls._of(ms, [pd().DataFrame(v.astype(data.dtype), index, columns, **kw) for v in arr.slabs(data, ms)])

    def apply(self, func, axis=0, args=(), **kw):
        """Calls the function with every column (or row)."""
        across = axis in (1, 'columns')
        frame = self.T if across else self
        if isinstance(func, str):
            name = func
            func = lambda s, *a, **k: getattr(s, name)(*a, **k)     # noqa
        cols = [func(Series._of(frame.ms, [p.iloc[:, i] for p in frame.parts]), *args, **kw) for i in range(frame.shape[1])]
        if not all(isinstance(c, Series) for c in cols):
            raise Unsupported('apply does not give columns')
        ms = list({m: 1 for c in cols for m in c.ms})
        parts = []
        for m in ms:
            some = [c.parts[c.ms.index(m)] if m in c.ms else c.parts[0] * 0 for c in cols]
            parts.append(pd().DataFrame({k: s for k, s in zip(frame.columns, some)}, columns=frame.columns))
        out = Frame._of(ms, parts)
        return out.T if across else out


def overrides():
    return {'pandas': Namespace('pandas', pd(), DataFrame=Frame, Series=Series)}
