"""Loads the modules of the package from the source tree for symbolic execution.

Python modules are executed as they are, Cython modules are translated.  All
imports go through the loader, which hands out stand-ins for numpy, scipy, ...
"""
import ast
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import arr, cy2py, sym
from .sym import Unsupported

REPO = os.environ.get('VP_REPO', '/repo')
_CURRENT = []


def current():
    return _CURRENT[-1]


class Loader:
    """One symbolic instance of the package."""

    def __init__(self, overrides=None, repo=None, package='geotiepoints'):
        self.repo = repo or REPO
        self.package = package
        self.modules = {}
        self.overrides = dict(overrides or {})
        self.numpy = self.overrides.get('numpy') or arr.NumpyProxy()
        self.overrides.setdefault('numpy', self.numpy)
        self.hooks = []        # called with (loader, module) after execution
        self.encoded = {}      # module -> functions
        _CURRENT.append(self)

    def source(self, name):
        parts = name.split('.')
        path = os.path.join(self.repo, *parts)
        for p in (path + '.pyx', path + '.py', os.path.join(path, '__init__.py')):
            if os.path.isfile(p):
                return p
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.source(name)
        if path is None:
            raise ModuleNotFoundError(name)
        with open(path) as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith('__init__.py') else name.rpartition('.')[0]
        if path.endswith('__init__.py'):
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        g = m.__dict__
        g['__builtins__'] = self.builtins()
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent) if parent in self.modules else self._light_parent(parent)
        try:
            if path.endswith('.pyx'):
                pxd = path[:-4] + '.pxd'
                pxd_src = open(pxd).read() if os.path.isfile(pxd) else None
                ext = self.extern_types(src, name)
                text, mod = cy2py.translate(name, src, pxd_src, ext)
                self.encoded[name] = mod.functions
                code = compile(text, '<translated %s>' % name, 'exec')
                m.__translated__ = text
            else:
                code = compile(_Calls().visit(ast.parse(src)), path, 'exec')
                self.encoded[name] = [n.name for n in ast.walk(ast.parse(src)) if isinstance(n, ast.FunctionDef)]
            exec(code, g)
        except BaseException:
            del self.modules[name]
            raise
        for h in self.hooks:
            h(self, m)
        if parent:
            setattr(self.modules[parent], name.rpartition('.')[2], m)
        return m

    def _light_parent(self, parent):
        """Package module without executing its __init__ (avoids importing everything)."""
        m = types.ModuleType(parent)
        m.__path__ = [os.path.join(self.repo, *parent.split('.'))]
        m.__package__ = parent
        m._light = True
        self.modules[parent] = m

    def load_package(self):
        self.modules.pop(self.package, None)
        return self.load(self.package)

    def extern_types(self, src, name):
        """Return types of C functions cimported from sibling modules."""
        import re
        out = {}
        for m in re.finditer(r'^from\s+(\.*)([\w.]*)\s+cimport\s+(.+)$', src, re.M):
            mod = m.group(2)
            base = os.path.join(self.repo, self.package, mod.split('.')[-1] + '.pxd')
            if not os.path.isfile(base):
                continue
            mm = cy2py.Module(mod, '', open(base).read())
            t = cy2py.parse(open(base).read(), mod, pxd=True)
            for st in cy2py.stats(t.body):
                cy2py.declare(mm, st)
            for part in m.group(3).replace('(', '').replace(')', '').split(','):
                p = part.split()
                if p and p[0] in mm.cfuncs:
                    out[p[-1]] = mm.cfuncs[p[0]]
        return out

    def builtins(self):
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        b['min'] = _bmin
        b['max'] = _bmax
        b['sum'] = builtins.sum
        b['range'] = _brange
        b['__vp_float__'] = _bfloat
        return b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == self.package or name.startswith(self.package + '.'):
            if name == self.package + '.version' or name == self.package and not fromlist:
                pass
            m = self._ensure(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self.source(name + '.' + f):
                        self._ensure(name + '.' + f)
                return m
            return self._ensure(name.split('.')[0])
        if name in self.overrides:
            m = self.overrides[name]
            if fromlist or '.' not in name:
                return m
            top = name.split('.')[0]
            return self.overrides.get(top) or importlib.import_module(top)
        top = name.split('.')[0]
        if top in self.overrides and '.' in name:
            m = self.overrides[top]
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m if fromlist else self.overrides[top]
        return builtins.__import__(name, globals if not level else None, locals, fromlist, 0)

    def _ensure(self, name):
        if name in self.modules:
            return self.modules[name]
        return self.load(name)


class _Calls(ast.NodeTransformer):
    """float(x) keeps symbols."""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'float':
            node.func = ast.copy_location(ast.Name('__vp_float__', ast.Load()), node.func)
        return node


def _bfloat(*a):
    if len(a) == 1:
        x = getattr(a[0], 'values', a[0])
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = arr.base(x).reshape(-1)[0]
        if isinstance(x, sym.Sym):
            return x
    return float(*a)


def _brange(*a):
    if any(isinstance(v, sym.Sym) for v in a):
        return arr.symrange(*a)
    return builtins.range(*a)


def _bmin(*a, **k):
    if len(a) > 1 and not k and any(isinstance(x, sym.Sym) for x in a):
        r = a[0]
        for x in a[1:]:
            r = sym.smin(r, x)
        return r
    if len(a) == 1 and not k:
        a = (list(a[0]),)
        if any(isinstance(x, sym.Sym) for x in a[0]):
            return sym.extremum(a[0], False)
    return builtins.min(*a, **k)


def _bmax(*a, **k):
    if len(a) > 1 and not k and any(isinstance(x, sym.Sym) for x in a):
        r = a[0]
        for x in a[1:]:
            r = sym.smax(r, x)
        return r
    if len(a) == 1 and not k:
        a = (list(a[0]),)
        if any(isinstance(x, sym.Sym) for x in a[0]):
            return sym.extremum(a[0], True)
    return builtins.max(*a, **k)


class Namespace(types.ModuleType):
    """Module stand-in: given attributes first, then the real module's."""

    def __init__(self, name, real=None, **attrs):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(attrs)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        real = self.__dict__.get('_real')
        if real is None:
            raise Unsupported('%s.%s' % (self.__name__, n))
        return getattr(real, n)
