"""Symbolic scalars, path exploration and the solver interface.

A ``Sym`` is a sparse (Laurent) polynomial over interned *atoms*.  Atoms are
input variables, uninitialised memory, and applications of functions (sine,
square root, if-then-else, ...) to other symbolic values.  Real (and integer)
arithmetic of the executed code is performed on those polynomials; branch
conditions become ``SymBool`` and fork the execution, which is re-run along
every feasible path.  Assertions are decided by z3 over all values.
"""
import math
import sys
import time
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
import z3

PI = Fraction(math.pi)
DEG = PI / 180          # radians per degree
RAD = 180 / PI          # degrees per radian


class Unsupported(Exception):
    """The code did something the encoding does not cover."""


class MemoryFault(BaseException):
    """Compiled code leaves its arrays (or divides an integer by zero)."""


# --------------------------------------------------------------------------
# atoms

class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'integer', 'lo', 'hi', 'payload')

    def __init__(self, kind, name, args=(), integer=False, lo=None, hi=None, payload=None):
        self.kind, self.name, self.args = kind, name, args
        self.integer, self.lo, self.hi, self.payload = integer, lo, hi, payload
        self.id = len(ATOMS)
        ATOMS.append(self)

    def __repr__(self):
        if self.kind == 'fun':
            return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))
        return self.name


ATOMS = []
_INTERN = {}
_MONO = {}
_TAG = []


def _reset():
    del ATOMS[:]
    _INTERN.clear()
    _MONO.clear()
    PAIRS.clear()
    SINES.clear()
    _JUNK.clear()
    _LEAVES.clear()
    del _TAG[:]


def num(x):
    """Normalise a concrete number."""
    t = type(x)
    if t is int or t is Fraction:
        return x
    if t is bool or t is np.bool_:
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return x
        i = int(x)
        return i if i == x else x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    raise Unsupported('not a number: %r (%s)' % (x, t))


NUMBERS = (int, float, Fraction, np.number, np.bool_)


def is_num(x):
    return isinstance(x, NUMBERS)


def canon_coef(c):
    """Coefficient rounded for use in keys (absorbs float rounding)."""
    if type(c) is int:
        return c
    if type(c) is Fraction:
        if c.denominator <= 10 ** 9:
            return c
    f = float(c)
    if f == 0:
        return 0
    r = Fraction(f).limit_denominator(10 ** 6)
    if r and abs(float(r) - f) <= 4e-15 * abs(f):
        return r if r.denominator != 1 else int(r)
    return float('%.12e' % f)


def _mono_mul(a, b):
    """Product of two monomials: (monomial, None) or (None, polynomial)."""
    if not a:
        return b, None
    if not b:
        return a, None
    key = (a, b)
    r = _MONO.get(key)
    if r is not None:
        return r
    d = dict(a)
    for i, e in b:
        e2 = d.get(i, 0) + e
        if e2:
            d[i] = e2
        else:
            d.pop(i, None)
    if PAIRS:
        for i in d:
            q = PAIRS.get(i)
            if q and d[i] >= 1:
                for j, v in q.items():
                    if d.get(j, 0) >= 1:
                        for k in (i, j):
                            d[k] -= 1
                            if not d[k]:
                                del d[k]
                        rest = Sym({tuple(sorted(d.items())): 1}) * v
                        r = (None, rest if isinstance(rest, Sym) else Sym({(): rest}))
                        _MONO[key] = r
                        return r
    red = None
    for i, e in d.items():
        at = ATOMS[i]
        if at.kind == 'fun' and e >= 2 and at.name in ('sqrt', 'sin'):
            red = i
            break
        if at.kind == 'fun' and e <= -2 and at.name == 'sqrt':
            red = i
            break
    if red is None:
        r = (tuple(sorted(d.items())), None)
    else:
        at, e = ATOMS[red], d.pop(red)
        rest = Sym({tuple(sorted(d.items())): 1})
        if at.name == 'sqrt':
            k = abs(e) // 2
            f = at.args[0]
            p = 1
            for _ in range(k):
                p = p * f
            if e < 0:
                p = 1 / p
            rest = rest * p
            if abs(e) % 2:
                rest = rest * Sym({((red, 1 if e > 0 else -1),): 1})
        else:
            c = cos_deg(at.args[0])
            sq = 1 - c * c
            for _ in range(e // 2):
                rest = rest * sq
            if e % 2:
                rest = rest * Sym({((red, 1),): 1})
        r = (None, rest if isinstance(rest, Sym) else Sym({(): rest}))
    _MONO[key] = r
    return r


PAIRS = {}              # cos(latitude) atom -> {cos/sin(longitude) atom: value of the product}
SINES = {}              # latitude atom -> value of its sine


def sphere_point(name, x, y, z):
    """(longitude, latitude) in degrees of a position on the unit sphere given by x, y and z.

    The coordinates may be any expressions: nothing else is assumed about the
    angles, so what is derived holds for every position.
    """
    lon, lat = var('lon!' + name), var('lat!' + name)
    cl, = cos_deg(lat).p
    cx, = cos_deg(lon).p
    cy, = sin_deg(lon).p
    SINES[single_atom(lat)[1].id] = z
    PAIRS[cl[0][0]] = {cx[0][0]: x, cy[0][0]: y}
    return lon, lat


def opaque(name, payload):
    """A new unknown value carrying a description for the harness."""
    return Sym({((Atom('opaque', name, payload=payload).id, 1),): 1})


def mk(p):
    """Polynomial dict -> number or Sym."""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return Sym(p)


def _aslist(x):
    return isinstance(x, np.ndarray)


class Sym:
    __slots__ = ('p', '_k')
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p
        self._k = None

    # -- identification -----------------------------------------------------
    def key(self):
        if self._k is None:
            self._k = tuple(sorted((m, canon_coef(c)) for m, c in self.p.items()))
        return self._k

    def __repr__(self):
        out = []
        for m, c in list(self.p.items())[:8]:
            t = '*'.join('%r%s' % (ATOMS[i], '' if e == 1 else '^%d' % e) for i, e in m)
            if type(c) is Fraction:
                c = float(c)
            out.append(('%s*%s' % (c, t)) if m else str(c))
        if len(self.p) > 8:
            out.append('...(%d terms)' % len(self.p))
        return '(' + ' + '.join(out) + ')'

    __hash__ = object.__hash__

    # -- arithmetic ---------------------------------------------------------
    def __add__(self, o):
        if type(o) is Sym:
            q = o.p
            if len(self.p) < len(q):
                r = dict(q)
                q = self.p
            else:
                r = dict(self.p)
            for m, c in q.items():
                c0 = r.get(m)
                if c0 is None:
                    r[m] = c
                else:
                    c0 = c0 + c
                    if c0:
                        r[m] = c0
                    else:
                        del r[m]
            return mk(r)
        if _aslist(o):
            return _arrop(np.add, o, self)
        if not is_num(o):
            return NotImplemented
        o = num(o)
        if not o:
            return self
        if o != o or o in (math.inf, -math.inf):
            return o
        r = dict(self.p)
        c0 = r.get((), 0) + o
        if c0:
            r[()] = c0
        else:
            del r[()]
        return mk(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is Sym:
            return self + (-o)
        if _aslist(o):
            return _arrop(np.subtract, self, o)
        if not is_num(o):
            return NotImplemented
        return self + (-num(o))

    def __rsub__(self, o):
        if _aslist(o):
            return _arrop(np.subtract, o, self)
        if not is_num(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if type(o) is Sym:
            a, b = self.p, o.p
            if len(a) < len(b):
                a, b = b, a
            r = {}
            extra = None
            for m2, c2 in b.items():
                for m1, c1 in a.items():
                    m, poly = _mono_mul(m1, m2)
                    if poly is not None:
                        t = poly * (c1 * c2)
                        extra = t if extra is None else extra + t
                        continue
                    c = c1 * c2
                    c0 = r.get(m)
                    if c0 is None:
                        r[m] = c
                    else:
                        c0 = c0 + c
                        if c0:
                            r[m] = c0
                        else:
                            del r[m]
            res = mk(r)
            return res if extra is None else res + extra
        if _aslist(o):
            return _arrop(np.multiply, o, self)
        if not is_num(o):
            return NotImplemented
        o = num(o)
        if o == 1:
            return self
        if not o:
            return 0
        if o != o or o in (math.inf, -math.inf):
            return math.nan
        return Sym({m: c * o for m, c in self.p.items()})

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is Sym:
            return self * inverse(o)
        if _aslist(o):
            return _arrop(np.divide, self, o)
        if not is_num(o):
            return NotImplemented
        o = num(o)
        if o == 0:
            ENG.undefined('division by the constant 0')
            return math.nan
        if o != o:
            return o
        if o in (math.inf, -math.inf):
            return 0
        if type(o) is float:
            return Sym({m: c / o for m, c in self.p.items()})
        o = Fraction(1, 1) / o
        return Sym({m: c * o for m, c in self.p.items()})

    def __rtruediv__(self, o):
        if _aslist(o):
            return _arrop(np.divide, o, self)
        if not is_num(o):
            return NotImplemented
        return inverse(self) * o

    def __pow__(self, o):
        if type(o) is Sym:
            raise Unsupported('symbolic exponent')
        o = num(o)
        if type(o) is int:
            if o < 0:
                return inverse(self) ** (-o)
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if o == 0.5 or o == Fraction(1, 2):
            return sqrt(self)
        raise Unsupported('exponent %r' % (o,))

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        return self - floor(self / o) * o

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rmod__(self, o):
        return o - floor(o / self) * self

    def __abs__(self):
        return ite(self < 0, -self, self)

    # -- comparisons --------------------------------------------------------
    def __lt__(self, o):
        return cmp('<', self, o)

    def __le__(self, o):
        return cmp('<=', self, o)

    def __gt__(self, o):
        return cmp('<', o, self)

    def __ge__(self, o):
        return cmp('<=', o, self)

    def __eq__(self, o):
        if not isinstance(o, (Sym,) + NUMBERS):
            if _aslist(o):
                return _arrop(np.equal, o, self)
            return NotImplemented
        return cmp('==', self, o)

    def __ne__(self, o):
        if not isinstance(o, (Sym,) + NUMBERS):
            if _aslist(o):
                return _arrop(np.not_equal, o, self)
            return NotImplemented
        return snot(cmp('==', self, o))

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return ENG.concretize(self)

    def __int__(self):
        return ENG.concretize(trunc(self))

    def __float__(self):
        raise Unsupported('concrete float of a symbolic value needed')

    def __round__(self, n=None):
        raise Unsupported('round')

    # numpy object-array methods
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def astype(self, _dt):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, _m):
        return self

    # ufuncs of plain object arrays call methods of the elements
    def sqrt(self):
        return sqrt(self)

    def fabs(self):
        return abs(self)

    def square(self):
        return self * self

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def tan(self):
        return tan(self)

    def arcsin(self):
        return asin(self)

    def arccos(self):
        return acos(self)

    def arctan(self):
        return atan(self)

    def arctan2(self, o):
        return atan2(self, o)

    def deg2rad(self):
        return deg2rad(self)

    def rad2deg(self):
        return rad2deg(self)

    radians, degrees = deg2rad, rad2deg

    def floor(self):
        return floor(self)

    def ceil(self):
        return ceil(self)

    def trunc(self):
        return trunc(self)

    def hypot(self, o):
        return sqrt(self * self + o * o)


def _arrop(u, a, b):
    if _aslist(a) and a.ndim == 0:
        a = a[()]
    elif _aslist(b) and b.ndim == 0:
        b = b[()]
    else:
        a, b = (_lift(a), b) if _aslist(a) else (a, _lift(b))
        return u(a, b)
    return {np.add: lambda: a + b, np.multiply: lambda: a * b, np.divide: lambda: a / b, np.subtract: lambda: a - b,
            np.equal: lambda: a == b, np.not_equal: lambda: a != b, np.less: lambda: a < b,
            np.less_equal: lambda: a <= b, np.logical_and: lambda: a & b, np.logical_or: lambda: a | b}[u]()


_lift = None  # set by arr.py: ndarray -> symbolic array


def as_poly(x):
    if type(x) is Sym:
        return x
    return Sym({(): num(x)}) if num(x) else Sym({})


def atom(kind, name, key=None, **kw):
    """Interned atom as a Sym."""
    k = (kind, name, key)
    a = _INTERN.get(k)
    if a is None:
        a = Atom(kind, name, **kw)
        _INTERN[k] = a
    return Sym({((a.id, 1),): 1})


def var(name, lo=None, hi=None, integer=False, payload=None):
    return atom('var', name, lo=lo, hi=hi, integer=integer, payload=payload)


_fresh = [0]


def fresh(prefix, **kw):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), **kw)


def junk(name='uninitialised'):
    """A value nothing is known about (uninitialised memory)."""
    _fresh[0] += 1
    a = Atom('junk', '%s!%d' % (name, _fresh[0]))
    return Sym({((a.id, 1),): 1})


def define(x, name='def'):
    """Give a name to a large expression."""
    if type(x) is not Sym:
        return x
    return atom('def', name, key=x.key(), args=(x,))


def vkey(x):
    if type(x) is Sym:
        return x.key()
    if isinstance(x, (SymBool,)):
        return x.key()
    if is_num(x):
        return canon_coef(num(x))
    return x


def fun(name, *args, **kw):
    return atom('fun', name, key=tuple(vkey(a) for a in args), args=args, **kw)


def uf(name, *args):
    """Uninterpreted function."""
    return atom('uf', name, key=tuple(vkey(a) for a in args), args=args)


def is_junk(x):
    """Does the value depend on uninitialised memory?"""
    if type(x) is not Sym:
        return False
    for m in x.p:
        for i, _ in m:
            if _junk_atom(ATOMS[i]):
                return True
    return False


_JUNK = {}


def _junk_atom(at):
    if at.kind == 'junk' or at.name.startswith('uninitialised'):
        return True
    if not at.args:
        return False
    r = _JUNK.get(at.id)
    if r is None:
        r = _JUNK[at.id] = any(_junk_any(a) for a in at.args)
    return r


def _junk_any(a):
    if type(a) is Sym:
        return is_junk(a)
    if isinstance(a, SymBool):
        return any(_junk_any(x) for x in a.args)
    return False


def simplify_div(a, b):
    return a / b


def single_atom(x):
    """(coef, Atom) if x is coef*atom."""
    if type(x) is Sym and len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and m[0][1] == 1:
            return c, ATOMS[m[0][0]]
    return None


# --------------------------------------------------------------------------
# functions

def inverse(d):
    if type(d) is not Sym:
        d = num(d)
        if d == 0:
            ENG.undefined('division by the constant 0')
            return math.nan
        return 1.0 / d if type(d) is float else Fraction(1) / d
    if len(d.p) == 1:
        (m, c), = d.p.items()
        return Sym({tuple((i, -e) for i, e in m): (1.0 / c if type(c) is float else Fraction(1) / c)})
    # normalise by the leading coefficient
    lead = d.p[min(d.p)]
    dn = d / lead
    return fun('inv', dn) * (1.0 / lead if type(lead) is float else Fraction(1) / lead)


def cleared(d, limit=20000):
    """Numerator of a polynomial with inverses: zero where d is, the inverses being defined."""
    while type(d) is Sym:
        u = next((i for m in d.p for i, _ in m if ATOMS[i].kind == 'fun' and ATOMS[i].name == 'inv'), None)
        if u is None:
            break
        e = ATOMS[u].args[0]
        parts = {}
        for m, c in d.p.items():
            k = dict(m).get(u, 0)
            parts.setdefault(k, {})[tuple(t for t in m if t[0] != u)] = c
        top = max(parts)
        r = 0
        for k, q in parts.items():
            f = Sym(q)
            for _ in range(top - k):
                f = f * e
            r = r + f
        d = r
        if type(d) is Sym:
            if len(d.p) == 1 and () in d.p:
                d = d.p[()]
            elif not d.p:
                d = 0
            elif len(d.p) > limit:
                raise Unsupported('common denominator too large')
    return d


def cleared_pair(a, b):
    """a and b multiplied by the same (non-zero) denominators."""
    if not _TAG:
        _TAG.append(Atom('var', 'tag!').id)
    t = _TAG[0]
    d = cleared(a + b * Sym({((t, 1),): 1}))
    if type(d) is not Sym:
        return d, 0
    x, y = {}, {}
    for m, c in d.p.items():
        if (t, 1) in m:
            y[tuple(v for v in m if v[0] != t)] = c
        else:
            x[m] = c
    return mk(x), mk(y)


def same(a, b):
    """a == b, with the denominators cleared."""
    d = cleared(a - b)
    return d == 0


def _isqrt(c):
    """Exact square root of a non-negative rational, or None."""
    c = Fraction(c)
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt(x):
    if type(x) is not Sym:
        x = num(x)
        if x != x:
            return x
        if x < 0:
            ENG.undefined('square root of a negative number')
            return math.nan
        if type(x) is not float:
            r = _isqrt(x)
            if r is not None:
                return num(r) if r.denominator != 1 else int(r)
        return num(math.sqrt(x))
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if all(e % 2 == 0 for _, e in m) and c > 0:
            r = _isqrt(c) if type(c) is not float else None
            if r is None:
                r = num(math.sqrt(c))
            base = Sym({tuple((i, e // 2) for i, e in m): 1})
            if all(ATOMS[i].lo is not None and ATOMS[i].lo >= 0 for i, _ in m):
                return base * r
            return abs(base) * r
    # pull out even powers of non-negative symbols
    com = None
    for m in x.p:
        d = {i: e // 2 * 2 for i, e in m if e > 1 and ATOMS[i].lo is not None and ATOMS[i].lo >= 0}
        com = d if com is None else {i: min(e, d[i]) for i, e in com.items() if i in d}
        if not com:
            break
    if com:
        f = Sym({tuple(sorted((i, e // 2) for i, e in com.items())): 1})
        inv = Sym({tuple(sorted((i, -e) for i, e in com.items())): 1})
        return f * sqrt(x * inv)
    # pull out a rational square factor
    lead = x.p[min(x.p)]
    r = None
    if type(lead) is not float and lead > 0 and lead != 1:
        r = _isqrt(lead)
    if r is not None:
        return fun('sqrt', x / (r * r)) * r
    return fun('sqrt', x)


def _norm_angle(a):
    """angle a in degrees (Sym): snap coefficients, canonical sign and quadrant.

    Returns (sign, quarter turns, canonical angle without constant multiple of 90).
    """
    p = {m: canon_coef(c) for m, c in a.p.items()}
    k = p.get((), 0)
    q = 0
    if k and (Fraction(k) / 90).denominator == 1:
        q = int(Fraction(k) / 90) % 4
        del p[()]
    lead = p[min(m for m in p if m)]
    s = 1
    if lead < 0:
        p = {m: -c for m, c in p.items()}
        s = -1
    return s, q, Sym(p)


def _trig_base(name, a):
    """cos/sin of a canonical angle."""
    sa = single_atom(a)
    if name == 'sin' and SINES and sa is not None and sa[0] == 1 and sa[1].id in SINES:
        return SINES[sa[1].id]
    if sa is not None and sa[0] == 1 and sa[1].kind == 'fun':
        at = sa[1]
        if at.name == 'acosd':
            return at.args[0] if name == 'cos' else sqrt(1 - at.args[0] * at.args[0])
        if at.name == 'asind':
            return at.args[0] if name == 'sin' else sqrt(1 - at.args[0] * at.args[0])
    return fun(name, a)


def _trig(name, a):
    s, q, b = _norm_angle(a)
    # cos(s*b + q*90), sin(s*b + q*90)
    if name == 'sin':
        q = (q - 1) % 4      # sin(t) = cos(t - 90)
    # cos(s*b + q*90)
    if q == 0:
        return _trig_base('cos', b)
    if q == 2:
        return -1 * _trig_base('cos', b)
    if q == 1:
        return -s * _trig_base('sin', b)
    return s * _trig_base('sin', b)


def cos_deg(a):
    if type(a) is not Sym:
        return num(math.cos(math.radians(a))) if (num(a) % 90) else (1, 0, -1, 0)[int(a // 90) % 4]
    return _trig('cos', a)


def sin_deg(a):
    if type(a) is not Sym:
        return num(math.sin(math.radians(a))) if (num(a) % 90) else (0, 1, 0, -1)[int(a // 90) % 4]
    return _trig('sin', a)


def cos(x):
    if type(x) is not Sym:
        return num(math.cos(x))
    return cos_deg(x * RAD)


def sin(x):
    if type(x) is not Sym:
        return num(math.sin(x))
    return sin_deg(x * RAD)


def tan(x):
    return sin(x) / cos(x)


def acos_deg(u):
    if type(u) is not Sym:
        if not -1 <= u <= 1:
            ENG.undefined('arccos of %r' % u)
            return math.nan
        return num(math.degrees(math.acos(u)))
    return fun('acosd', u)


def asin_deg(u):
    if type(u) is not Sym:
        if not -1 <= u <= 1:
            ENG.undefined('arcsin of %r' % u)
            return math.nan
        return num(math.degrees(math.asin(u)))
    # odd function: canonical sign
    if u.p[min(u.p)] < 0:
        return -1 * fun('asind', -u)
    return fun('asind', u)


def atan2_deg(y, x):
    if type(x) is not Sym and type(y) is not Sym:
        return num(math.degrees(math.atan2(y, x)))
    # remove a common rational factor
    ref = x if type(x) is Sym else y
    lead = abs(ref.p[min(ref.p)])
    if lead != 1:
        x, y = x / lead if type(x) is Sym else num(x) / lead, y / lead if type(y) is Sym else num(y) / lead
    return fun('atan2d', y, x)


def acos(u):
    return num(math.acos(u)) if type(u) is not Sym and -1 <= u <= 1 else acos_deg(u) * DEG


def asin(u):
    return num(math.asin(u)) if type(u) is not Sym and -1 <= u <= 1 else asin_deg(u) * DEG


def atan2(y, x):
    if type(x) is not Sym and type(y) is not Sym:
        return num(math.atan2(y, x))
    return atan2_deg(y, x) * DEG


def atan(x):
    return atan2(x, 1)


def deg2rad(x):
    return x * DEG if type(x) is Sym else num(math.radians(x)) if x == x else x


def rad2deg(x):
    return x * RAD if type(x) is Sym else num(math.degrees(x)) if x == x else x


def floor(x):
    if type(x) is not Sym:
        return math.floor(x)
    if is_integer(x):
        return x
    return fun('floor', x, integer=True)


def ceil(x):
    return -floor(-x)


def trunc(x):
    if type(x) is not Sym:
        return int(x)
    if is_integer(x):
        return x
    return fun('trunc', x, integer=True)


def is_integer(x):
    if type(x) is not Sym:
        x = num(x)
        return type(x) is int or (type(x) is Fraction and x.denominator == 1)
    for m, c in x.p.items():
        if not (type(c) is int or (type(c) is Fraction and c.denominator == 1)):
            return False
        for i, e in m:
            if not ATOMS[i].integer or e < 0:
                return False
    return True


def sign(x):
    if type(x) is not Sym:
        return (x > 0) - (x < 0)
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def smin(a, b):
    return ite(b < a, b, a)


def smax(a, b):
    return ite(b > a, b, a)


def ite(c, a, b):
    """if-then-else."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or isinstance(a, bool) and isinstance(b, bool):
        return sor(sand(c, a), sand(snot(c), b))
    if type(a) is Sym or type(b) is Sym:
        ka, kb = vkey(a), vkey(b)
        if ka == kb:
            return a
    elif is_num(a) and is_num(b):
        if a == b or (a != a and b != b):
            return a
    elif a is b:
        return a
    else:
        raise Unsupported("if-then-else of %r and %r" % (a, b))
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    integer = is_integer(a) and is_integer(b)
    return atom('ite', 'ite', key=(c.key(), vkey(a), vkey(b)), args=(c, a, b), integer=integer)


def extremum(items, biggest=True):
    """Maximum or minimum of several values, as one atom."""
    items = list(items)
    if not any(type(i) is Sym for i in items):
        return max(items) if biggest else min(items)
    if len(items) == 1:
        return items[0]
    return fun('max' if biggest else 'min', *items)


# --------------------------------------------------------------------------
# booleans

class SymBool:
    __slots__ = ('op', 'args', '_k')
    __array_priority__ = 1000

    def __init__(self, op, *args):
        self.op, self.args, self._k = op, args, None

    def key(self):
        if self._k is None:
            self._k = (self.op,) + tuple(vkey(a) for a in self.args)
        return self._k

    __hash__ = object.__hash__

    def __bool__(self):
        return ENG.decide(self)

    def __and__(self, o):
        if _aslist(o):
            return _arrop(np.logical_and, o, self)
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if _aslist(o):
            return _arrop(np.logical_or, o, self)
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __xor__(self, o):
        return sor(sand(self, snot(o)), sand(snot(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        return snot(self ^ o)

    def __ne__(self, o):
        return self ^ o

    # used as a number
    def _n(self):
        return ite(self, 1, 0)

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return sand(self, o)
        return self._n() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._n() + (o._n() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - (o._n() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._n()

    def __repr__(self):
        return '%s%r' % (self.op, self.args)


def cmp(op, a, b):
    """a op b with op in '<', '<=', '=='."""
    if _aslist(a) or _aslist(b):
        return _arrop({'<': np.less, '<=': np.less_equal, '==': np.equal}[op], a, b)
    for v in (a, b):
        if type(v) is not Sym:
            if not is_num(v):
                raise Unsupported('comparison with %r' % (v,))
            v = float(v) if isinstance(v, (float, np.floating)) else v
            if v != v:
                return False
            if v == math.inf:
                return op != '==' and v is not a
            if v == -math.inf:
                return op != '==' and v is not b
    d = a - b
    if type(d) is not Sym:
        return {'<': d < 0, '<=': d <= 0, '==': d == 0}[op]
    if op == '==':
        if d.p[min(d.p)] < 0:
            d = -d
    return SymBool(op, d)


def snot(a):
    if not isinstance(a, SymBool):
        return not a
    if a.op == 'not':
        return a.args[0]
    return SymBool('not', a)


def sand(*args):
    out = []
    for a in args:
        if isinstance(a, SymBool):
            if a.op == 'and':
                out.extend(a.args)
            else:
                out.append(a)
        elif not a:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', *out)


def sor(*args):
    out = []
    for a in args:
        if isinstance(a, SymBool):
            if a.op == 'or':
                out.extend(a.args)
            else:
                out.append(a)
        elif a:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', *out)


def implies(a, b):
    return sor(snot(a), b)


def close(a, b, tol):
    """|a - b| <= tol."""
    d = a - b
    if type(d) is not Sym:
        return bool(abs(d) <= tol)     # NaN: False
    return sand(d <= tol, d >= -tol)


def angles(*xs):
    """True; makes the solver consider the sines and cosines of the angles (degrees)."""
    return SymBool('angle', *xs)


def iff(a, b):
    return sor(sand(a, b), sand(snot(a), snot(b)))


# --------------------------------------------------------------------------
# translation to z3

def zq(c):
    if type(c) is int:
        return z3.RealVal(c)
    f = Fraction(canon_coef(c))
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator))


class Z3Ctx:
    """One set of z3 constraints: translated terms and the axioms they need."""

    def __init__(self, trig_pairs=True, link_all=False):
        self.folds, self.link_all = [], link_all
        self.vars = {}
        self.axioms = []
        self.angles = {}         # key -> (angle z3, cos z3, sin z3)
        self.pairs_done = set()
        self.trig_pairs = trig_pairs
        self.ufs = {}
        self.defcache = {}

    # values ----------------------------------------------------------------
    def val(self, x):
        if type(x) is not Sym:
            x = num(x)
            if x != x or x in (math.inf, -math.inf):
                raise Unsupported('not finite: %r' % x)
            return zq(x)
        terms = []
        for m, c in x.p.items():
            fs = []
            den = []
            for i, e in m:
                v = self.atom(ATOMS[i])
                if e < 0:
                    v = self.recip(ATOMS[i], v)
                fs += [v] * abs(e)
            if c != 1 or not fs:
                fs.insert(0, zq(c))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            return zq(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def recip(self, at, v):
        k = ('recip', at.id)
        r = self.vars.get(k)
        if r is None:
            r = z3.Real('inv!%d' % at.id)
            self.vars[k] = r
            self.axioms.append(z3.Implies(v != 0, r * v == 1))
        return r

    def atom(self, at):
        v = self.vars.get(at.id)
        if v is not None:
            return v
        name = '%s!%d' % (at.name if at.kind != 'fun' else at.name, at.id)
        if at.integer and at.kind in ('var', 'junk'):
            v = z3.ToReal(z3.Int(name))
        else:
            v = z3.Real(name)
        self.vars[at.id] = v
        ax = self.axioms
        if at.lo is not None:
            ax.append(v >= zq(at.lo))
        if at.hi is not None:
            ax.append(v <= zq(at.hi))
        if at.kind == 'def':
            ax.append(v == self.val(at.args[0]))
        elif at.kind == 'ite':
            c, a, b = at.args
            ax.append(v == z3.If(self.bool(c), self.val(a) if not _nan(a) else v, self.val(b) if not _nan(b) else v))
        elif at.kind == 'uf':
            args = [self.val(a) for a in at.args]
            f = self.ufs.get((at.name, len(args)))
            if f is None:
                f = z3.Function('uf_%s_%d' % (at.name, len(args)), *([z3.RealSort()] * (len(args) + 1)))
                self.ufs[(at.name, len(args))] = f
            ax.append(v == f(*args))
        elif at.kind == 'fun':
            getattr(self, 'ax_' + at.name)(at, v)
        return v

    def ax_inv(self, at, v):
        d = self.val(at.args[0])
        self.axioms.append(z3.Implies(d != 0, v * d == 1))

    def ax_sqrt(self, at, v):
        d = self.val(at.args[0])
        self.axioms.append(z3.Implies(d >= 0, z3.And(v >= 0, v * v == d)))

    def ax_floor(self, at, v):
        i = z3.Int('int!%d' % at.id)
        d = self.val(at.args[0])
        self.axioms += [v == z3.ToReal(i), v <= d, d < v + 1]

    def ax_trunc(self, at, v):
        i = z3.Int('int!%d' % at.id)
        d = self.val(at.args[0])
        self.axioms += [v == z3.ToReal(i),
                        z3.If(d >= 0, z3.And(v <= d, d < v + 1), z3.And(v >= d, d > v - 1))]

    def ax_max(self, at, v):
        ds = [self.val(a) for a in at.args]
        self.axioms += [v >= d for d in ds] + [z3.Or([v == d for d in ds])]

    def ax_min(self, at, v):
        ds = [self.val(a) for a in at.args]
        self.axioms += [v <= d for d in ds] + [z3.Or([v == d for d in ds])]

    # trigonometry ----------------------------------------------------------
    def angle(self, x, c=None, s=None):
        """(angle, cos, sin) of the angle x (degrees)."""
        k = vkey(x)
        e = self.angles.get(k)
        if e is not None:
            return e
        a = self.val(x)
        if c is None:
            c = self.vars.setdefault(('cos', k), z3.Real('cos!%d' % len(self.angles)))
        if s is None:
            s = self.vars.setdefault(('sin', k), z3.Real('sin!%d' % len(self.angles)))
        e = (a, c, s)
        others = list(self.angles.values())
        self.angles[k] = e
        ax = self.axioms
        if type(x) is not Sym:
            cv, sv = (Fraction(f(math.radians(x))) for f in (math.cos, math.sin))
            eps = Fraction(1, 10 ** 12)
            ax += [c <= zq(cv + eps), c >= zq(cv - eps), s <= zq(sv + eps), s >= zq(sv - eps)]
        ax += [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1]
        ax += [z3.Implies(z3.And(a > 0, a < 180), s > 0), z3.Implies(z3.And(a < 0, a > -180), s < 0),
               z3.Implies(z3.And(a > -90, a < 90), c > 0),
               z3.Implies(z3.Or(z3.And(a > 90, a < 270), z3.And(a < -90, a > -270)), c < 0),
               z3.Implies(z3.And(a > 180, a < 360), s < 0), z3.Implies(z3.And(a < -180, a > -360), s > 0),
               z3.Implies(z3.And(a > 270, a < 450), c > 0), z3.Implies(z3.And(a < -270, a > -450), c > 0)]
        for q in range(-4, 5):
            cc, ss = ((1, 0), (0, 1), (-1, 0), (0, -1))[q % 4]
            ax.append(z3.Implies(a == 90 * q, z3.And(c == cc, s == ss)))
        if self.trig_pairs:
            rng = _angle_range(x)
            # cosine is strictly decreasing on [0, 180]: angles folded there
            if rng is None:
                out = z3.Or(a < -180, a > 180)
            else:
                out = None
            if rng is not None and rng[0] >= 0:
                f1 = a
            else:
                f1 = z3.If(a >= 0, a, -a)
            if rng is not None and rng[1] <= 90 and rng[0] >= -90:
                f2 = 90 - a
            elif rng is not None and rng[0] >= -90:
                f2 = z3.If(a <= 90, 90 - a, a - 90)
            else:
                f2 = z3.If(a < -90, 270 + a, z3.If(a <= 90, 90 - a, a - 90))
            new = [(f1, c, out), (f2, s, out)]
            lv = leaves(x)
            for f, w, o in new:
                for g, u, p, l in self.folds:
                    if not (l & lv or self.link_all or not lv or not l):
                        continue
                    t = z3.And((f < g) == (w > u), (f == g) == (w == u))
                    gs = [q for q in (o, p) if q is not None]
                    ax.append(z3.Or(gs + [t]) if gs else t)
            t = z3.And((f1 < f2) == (c > s), (f1 == f2) == (c == s))
            ax.append(t if out is None else z3.Or(out, t))
            self.folds += [(f, w, o, lv) for f, w, o in new]
            if rng is None:
                for b, cb, sb in others:
                    ax += [
                        z3.Implies(a == b, z3.And(c == cb, s == sb)),
                        z3.Implies(a + b == 0, z3.And(c == cb, s == -sb)),
                        z3.Implies(z3.Or(a - b == 180, b - a == 180), z3.And(c == -cb, s == -sb)),
                        z3.Implies(z3.Or(a - b == 360, b - a == 360), z3.And(c == cb, s == sb)),
                    ]
        return e

    def ax_cos(self, at, v):
        self.vars[('cos', vkey(at.args[0]))] = v
        e = self.angle(at.args[0], c=v)
        if e[1] is not v:
            self.axioms.append(e[1] == v)

    def ax_sin(self, at, v):
        self.vars[('sin', vkey(at.args[0]))] = v
        e = self.angle(at.args[0], s=v)
        if e[2] is not v:
            self.axioms.append(e[2] == v)

    def ax_acosd(self, at, v):
        u = self.val(at.args[0])
        self.axioms += [v >= 0, v <= 180]
        _, c, s = self.angle(Sym({((at.id, 1),): 1}))
        self.axioms += [z3.Implies(z3.And(u >= -1, u <= 1), z3.And(c == u, s >= 0))]

    def ax_asind(self, at, v):
        u = self.val(at.args[0])
        self.axioms += [v >= -90, v <= 90]
        _, c, s = self.angle(Sym({((at.id, 1),): 1}))
        self.axioms += [z3.Implies(z3.And(u >= -1, u <= 1), z3.And(s == u, c >= 0))]

    def ax_atan2d(self, at, v):
        y, x = self.val(at.args[0]), self.val(at.args[1])
        self.axioms += [v > -180, v <= 180]
        _, c, s = self.angle(Sym({((at.id, 1),): 1}))
        g, yy, xx = common_factor(at.args[0], at.args[1])
        r2 = xx * xx + yy * yy
        gz = self.val(g) if g is not None else z3.RealVal(1)
        if type(r2) is not Sym and abs(r2 - 1) < 1e-12:
            r = z3.RealVal(1)
        else:
            r = self.val(sqrt(r2))
        xz, yz = self.val(xx), self.val(yy)
        pos = z3.And(r * c == xz, r * s == yz)
        self.axioms.append(z3.Implies(z3.And(x == 0, y == 0), v == 0))
        self.axioms.append(r >= 0)
        if g is None:
            self.axioms.append(pos)
        else:
            self.axioms += [z3.Implies(gz > 0, pos), z3.Implies(gz < 0, z3.And(r * c == -xz, r * s == -yz)),
                            z3.Implies(gz == 0, v == 0)]
        self.axioms += [z3.Implies(y > 0, z3.And(v > 0, v < 180)), z3.Implies(y < 0, v < 0),
                        z3.Implies(z3.And(y == 0, x < 0), v == 180), z3.Implies(z3.And(y == 0, x >= 0), v == 0)]

    # booleans --------------------------------------------------------------
    def bool(self, b):
        if not isinstance(b, SymBool):
            return z3.BoolVal(bool(b))
        if b.op == 'not':
            return z3.Not(self.bool(b.args[0]))
        if b.op == 'and':
            return z3.And([self.bool(a) for a in b.args])
        if b.op == 'or':
            return z3.Or([self.bool(a) for a in b.args])
        if b.op == 'defined':
            return self.defined(b.args[0])
        if b.op == 'angle':
            for x in b.args:
                self.angle(x)
            return z3.BoolVal(True)
        # integer comparisons in integers: d op 0
        d = self.val(b.args[0])
        if b.op == '<':
            return d < 0
        if b.op == '<=':
            return d <= 0
        return d == 0

    # definedness -----------------------------------------------------------
    def defined(self, x):
        """Formula: no undefined operation (NaN) in the value."""
        if isinstance(x, SymBool):
            if x.op in ('<', '<=', '=='):
                return self.defined(x.args[0])
            return z3.And([self.defined(a) for a in x.args])
        if type(x) is not Sym:
            return z3.BoolVal(not _nan(x))
        out = []
        for m in x.p:
            for i, e in m:
                d = self.def_atom(ATOMS[i])
                if d is not None:
                    out.append(d)
                if e < 0:
                    out.append(self.atom(ATOMS[i]) != 0)
        return z3.And(out) if out else z3.BoolVal(True)

    def def_atom(self, at):
        if at.id in self.defcache:
            return self.defcache[at.id]
        r = None
        if at.kind == 'def':
            r = self.defined(at.args[0])
        elif at.kind == 'ite':
            c, a, b = at.args
            r = z3.And(self.defined(c), z3.If(self.bool(c), self.defined(a), self.defined(b)))
        elif at.kind == 'fun':
            ds = [self.defined(a) for a in at.args]
            if at.name == 'inv':
                ds.append(self.val(at.args[0]) != 0)
            elif at.name == 'sqrt':
                ds.append(self.val(at.args[0]) >= 0)
            elif at.name in ('acosd', 'asind'):
                u = self.val(at.args[0])
                ds.append(z3.And(u >= -1, u <= 1))
            r = z3.And(ds)
        elif at.kind == 'uf':
            r = z3.And([self.defined(a) for a in at.args] or [z3.BoolVal(True)])
        self.defcache[at.id] = r
        return r


def common_factor(a, b):
    """(g, a / g, b / g) with a monomial g, or (None, a, b)."""
    com = None
    for p in (a, b):
        if type(p) is not Sym:
            if p:
                return None, a, b
            continue
        for m in p.p:
            d = {i: e for i, e in m if e > 0}
            com = d if com is None else {i: min(e, d[i]) for i, e in com.items() if i in d}
    if not com:
        return None, a, b
    g = Sym({tuple(sorted(com.items())): 1})
    return g, a / g, b / g


def _angle_range(x):
    """Known range of an angle within a full turn, or None."""
    if type(x) is not Sym:
        return (x, x) if -180 <= x <= 180 else None
    lo = hi = x.p.get((), 0)
    for m, c in x.p.items():
        if not m:
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        at = ATOMS[m[0][0]]
        r = {'acosd': (0, 180), 'asind': (-90, 90), 'atan2d': (-180, 180)}.get(at.name) if at.kind == 'fun' else (at.lo, at.hi)
        if r is None or r[0] is None or r[1] is None:
            return None
        a, b = r[0] * c, r[1] * c
        lo, hi = lo + min(a, b), hi + max(a, b)
    return (lo, hi) if lo >= -180 and hi <= 180 else None


_LEAVES = {}
_NONE = frozenset()


def leaves(x):
    """Ids of the inputs a value depends on."""
    if type(x) is Sym:
        r = _NONE
        for m in x.p:
            for i, _ in m:
                r = r | _atom_leaves(i)
        return r
    if isinstance(x, SymBool):
        r = _NONE
        for a in x.args:
            r = r | leaves(a)
        return r
    return _NONE


def _atom_leaves(i):
    r = _LEAVES.get(i)
    if r is None:
        at = ATOMS[i]
        r = frozenset([i]) if not at.args else _NONE
        for a in at.args:
            r = r | leaves(a)
        _LEAVES[i] = r
    return r


def sliced(conds, goal):
    """The conditions that share inputs (directly or not) with the goal.

    The others speak about other inputs and can be met independently.
    """
    want = set(leaves(goal))
    todo = [(c, leaves(c)) for c in conds]
    out = []
    while True:
        rest = []
        for c, l in todo:
            if not l or l & want:
                out.append(c)
                want |= l
            else:
                rest.append((c, l))
        if len(rest) == len(todo):
            return out
        todo = rest


def defined(x):
    if type(x) is Sym:
        return SymBool('defined', x)
    return not _nan(x)


def _nan(x):
    return isinstance(x, (float, np.floating)) and (x != x or x in (math.inf, -math.inf))


# --------------------------------------------------------------------------
# engine

class PathEnd(BaseException):
    """The current path is infeasible or was cut."""


class Engine:
    def __init__(self):
        self.reset()

    def reset(self):
        self.prefix = []
        self.trace = []          # (SymBool, taken)
        self.pos = 0
        self.base = []           # assumptions
        self.alts = None
        self.undef = []
        self.queries = 0
        self.solver_time = 0.0
        self.feas_queries = 0
        self.decisions = 0
        self.known = {}
        self.active = False
        self.timeout = 60000
        self.solver = None
        self.zc = None
        self.nax = 0
        self.paths = 0

    def memfault(self, what):
        raise MemoryFault(what)

    def undefined(self, what):
        self.undef.append(what)

    # feasibility -----------------------------------------------------------
    def _start_solver(self):
        self.zc = Z3Ctx()
        self.solver = z3.Solver()
        self.solver.set('timeout', 5000)
        self.nax = 0
        for b in self.base:
            self._push(b)

    def _flush(self):
        ax = self.zc.axioms
        while self.nax < len(ax):
            self.solver.add(ax[self.nax])
            self.nax += 1

    def _push(self, b):
        t = self.zc.bool(b)
        self._flush()
        self.solver.add(t)

    def feasible(self, b):
        t0 = time.time()
        t = self.zc.bool(b)
        self._flush()
        r = self.solver.check(t)
        self.solver_time += time.time() - t0
        self.feas_queries += 1
        return r != z3.unsat      # unknown: treat as feasible

    def decide(self, b):
        if not self.active:
            raise Unsupported('branch on a symbolic condition outside of an exploration: %r' % (b,))
        key = b.key()
        t = self.known.get(key)
        if t is not None:
            return t
        if self.pos < len(self.prefix):
            t = self.prefix[self.pos]
            if t == 'cut':
                return self._cut(key)
            if not isinstance(t, bool):
                raise Unsupported('non-deterministic re-execution')
        else:
            if _junk_any(b):
                self.junk_forks += 1
                if self.junk_forks > 6:
                    return self._cut(key)
            if self.feasible(b):
                t = True
                if self.feasible(snot(b)):
                    self.alts.append(list(self.taken) + [False])
            else:
                t = False
        self.taken.append(t)
        self.pos += 1
        c = b if t else snot(b)
        self.trace.append(c)
        self._push(c)
        self.known[key] = t
        self.known[snot(b).key()] = not t
        self.decisions += 1
        return t

    def _cut(self, key):
        """Branches on unwritten memory: only one of the ways is followed, with no condition; such paths show violations only."""
        self.cut = True
        self.taken.append('cut')
        self.pos += 1
        self.known[key] = True
        return True

    def concretize(self, x):
        """Value of an integer, forking over all possible values."""
        if type(x) is not Sym:
            return int(x)
        while True:
            if not self.active:
                raise Unsupported('concrete value of %r needed' % (x,))
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
            else:
                v = self._candidate(x)
            self.taken.append(('value', v))
            self.pos += 1
            if bool(cmp('==', x, v)):
                return v

    def _candidate(self, x):
        t0 = time.time()
        z = self.zc.val(x)
        extra = []
        self._flush()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t0
        self.feas_queries += 1
        if r != z3.sat:
            raise PathEnd() if r == z3.unsat else Unsupported('cannot find a value for an index')
        m = self.solver.model()
        v = m.eval(z, model_completion=True)
        f = zval(v)
        if f.denominator != 1:
            raise Unsupported('index is not an integer')
        return int(f)

    def explore(self, fn, assume=(), max_paths=4096):
        """Run fn along every feasible path; yields (result, exception, path condition, undefined)."""
        todo = [[]]
        n0 = self.paths
        while todo:
            prefix = todo.pop()
            self.prefix, self.trace, self.taken, self.pos = prefix, [], [], 0
            self.alts = []
            self.known = {}
            self.undef = []
            self.cut, self.junk_forks = False, 0
            self.base = [a for a in assume if isinstance(a, SymBool)]
            self._start_solver()
            self.active = True
            self.paths += 1
            res = exc = None
            dead = False
            try:
                res = fn()
            except PathEnd:
                dead = True
            except Unsupported:
                raise
            except (Exception, MemoryFault) as e:  # noqa: the code under test may raise
                exc = e
            finally:
                self.active = False
            todo.extend(self.alts)
            if self.paths - n0 > max_paths:
                raise Unsupported('more than %d paths' % max_paths)
            if not dead:
                yield res, exc, list(self.trace), list(self.undef)


def zval(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported('no value: %s' % v)


ENG = Engine()


class _Unset:
    def __repr__(self):
        return 'UNSET'


UNSET = _Unset()
