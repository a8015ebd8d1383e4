"""Input arrays of unknown size: every access is checked against the symbolic shape."""
import numpy as np

from . import cyrt, sym
from .sym import ENG, Sym


class Abs:
    """Array with a symbolic shape; elements are opaque to the index computations."""
    _abstract = True
    __array_priority__ = 2000
    size = property(lambda self: _prod(self.shape))
    T = property(lambda self: (_ for _ in ()).throw(sym.Unsupported('transposed abstract array')))

    def __init__(self, shape, dtype='f8', value=None, name='array'):
        self.shape, self.dtype, self.name = tuple(shape), np.dtype(dtype), name
        self.value = value or pattern
        self.safe = [-1] * len(self.shape)
        self.writes = 0

    ndim = property(lambda self: len(self.shape))

    def __len__(self):
        return ENG.concretize(self.shape[0])

    def _check(self, ix):
        for d, (i, n) in enumerate(zip(ix, self.shape)):
            if type(i) is int and 0 <= i <= self.safe[d]:
                continue
            if type(i) is not Sym:
                i = int(i)
            if sym.is_junk(i) if type(i) is Sym else False:
                cyrt._idx_fault(self, 'uninitialised')
            if bool(sym.sor(_c('<', i, 0), _c('>=', i, n))):
                cyrt.fault('index %s outside of %s of shape %s' % (ix, self.name, self.shape))
            if type(i) is int:
                self.safe[d] = i
                if type(n) is Sym:
                    if not bool(_c('>', n, i + 1)):     # otherwise every further element needs a query
                        self.shape = self.shape[:d] + (i + 1,) + self.shape[d + 1:]
                elif type(n) is int:
                    self.safe[d] = n - 1

    def get(self, ix):
        self._check(ix)
        return self.value(ix)

    def set(self, ix, v):
        self._check(ix)
        self.writes += 1

    def slice(self, ix):
        off, shape, keep = [], [], []
        ix = tuple(ix)
        if Ellipsis in ix:
            k = ix.index(Ellipsis)
            ix = ix[:k] + (slice(None),) * (self.ndim - len(ix) + 1) + ix[k + 1:]
        ix += (slice(None),) * (self.ndim - len(ix))
        for d, (i, n) in enumerate(zip(ix, self.shape)):
            if isinstance(i, slice):
                if i.step not in (None, 1):
                    raise sym.Unsupported('slice step of an abstract array')
                a = _clamp(0 if i.start is None else i.start, n)
                b = _clamp(n if i.stop is None else i.stop, n)
                m = b - a
                if bool(_c('<', m, 0)):
                    m = 0
                off.append(a)
                shape.append(m)
                keep.append(d)
            else:
                if bool(sym.sor(_c('<', i, 0), _c('>=', i, n))):
                    cyrt.fault('index %s outside of %s of shape %s' % (i, self.name, self.shape))
                off.append(i)
        return View(self, off, shape, keep)

    def __getitem__(self, ix):
        ix = ix if isinstance(ix, tuple) else (ix,)
        if all(not isinstance(i, slice) and i is not Ellipsis for i in ix) and len(ix) == self.ndim:
            return self.get(tuple(i + n if type(i) is int and i < 0 else i for i, n in zip(ix, self.shape)))
        return self.slice(tuple(i + n if type(i) is int and i < 0 else i for i, n in zip(ix, self.shape + (0,) * 9)))

    def astype(self, dtype, *a, **k):
        r = Abs(self.shape, dtype, self.value, self.name)
        return r

    def copy(self, *a, **k):
        return Abs(self.shape, self.dtype, self.value, self.name)

    def __array__(self, *a, **k):
        raise sym.Unsupported('contents of an abstract array')


def _c(op, a, b):
    return a < b if op == '<' else a > b if op == '>' else a >= b


class View(Abs):
    def __init__(self, base, off, shape, keep):
        super().__init__(shape, base.dtype, base.value, base.name)
        self.of, self.off, self.keep = base, off, keep

    def _outer(self, ix):
        out = list(self.off)
        for d, i in zip(self.keep, ix):
            out[d] = out[d] + i
        return tuple(out)

    def get(self, ix):
        self._check(ix)
        return self.of.get(self._outer(ix))

    def set(self, ix, v):
        self._check(ix)
        self.of.set(self._outer(ix), v)


def _clamp(a, n):
    if bool(_c('<', a, 0)):
        a = a + n
        if bool(_c('<', a, 0)):
            return 0
    return n if bool(_c('>', a, n)) else a


def _prod(s):
    r = 1
    for v in s:
        r = r * v
    return r


def pattern(ix):
    """Elements: a fixed pattern (equal and different neighbours)."""
    if any(type(i) is Sym for i in ix):
        return 0.5
    return 10.0 + 0.5 * ((ix[-1] * 3 // 2 + 2 * ix[0]) % 7)
