"""Translation of Cython source to Python over symbolic values.

The .pyx files are parsed with Cython's own parser; every construct is emitted
as Python that keeps the C semantics that matter: memoryview indexing without
wrap-around (bounds are checked and reported), C integer division, unsigned
wrap-around, truncating casts, uninitialised locals and class attributes.
Top-level statements that are plain Python are taken verbatim.
"""
import ast
import io
import re
import tokenize

from .sym import Unsupported

INTS = {'char': 'i32', 'short': 'i32', 'int': 'i32', 'long': 'i64', 'Py_ssize_t': 'i64', 'ssize_t': 'i64', 'size_t': 'u64',
        'npy_intp': 'i64', 'intp_t': 'i64', 'int8_t': 'i32', 'int16_t': 'i32', 'int32_t': 'i32', 'int64_t': 'i64',
        'uint8_t': 'i32', 'uint16_t': 'i32', 'uint32_t': 'u32', 'uint64_t': 'u64', 'npy_int64': 'i64', 'npy_int32': 'i32'}
FLOATS = {'float': 'float32', 'double': 'float64', 'float32_t': 'float32', 'float64_t': 'float64', 'npy_float32': 'float32',
          'npy_float64': 'float64'}
INT_DT = {'char': 'int8', 'short': 'int16', 'int': 'int32', 'long': 'int64', 'Py_ssize_t': 'int64', 'size_t': 'uint64',
          'npy_intp': 'int64', 'intp_t': 'int64', 'int8_t': 'int8', 'int16_t': 'int16', 'int32_t': 'int32', 'int64_t': 'int64',
          'uint8_t': 'uint8', 'uint16_t': 'uint16', 'uint32_t': 'uint32', 'uint64_t': 'uint64', 'npy_int64': 'int64',
          'npy_int32': 'int32'}
MATH = ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'fabs', 'floor', 'ceil', 'hypot', 'pow', 'fmod', 'fmin', 'fmax',
        'isnan', 'isfinite', 'isinf', 'trunc', 'M_PI', 'M_PI_2', 'sinf', 'cosf', 'asinf', 'acosf', 'atan2f', 'sqrtf', 'fabsf', 'NAN',
        'copysign', 'abs', 'exp', 'log', 'round', 'lround', 'fma', 'fdim', 'M_PI_4', 'M_1_PI')


class T:
    """Static type of a C expression or variable."""
    __slots__ = ('k', 'ndim', 'elem', 'contig', 'name')

    def __init__(self, k, ndim=0, elem=None, contig=False, name=None):
        self.k, self.ndim, self.elem, self.contig, self.name = k, ndim, elem, contig, name

    def __repr__(self):
        return 'T(%s)' % self.k


OBJ = T('obj')
F = T('f')
I32 = T('i32')
U32 = T('u32')
I64 = T('i64')
U64 = T('u64')
BINT = T('bint')
# narrower integers: (bits, signed); arithmetic promotes them to int
NARROW = {'char': (8, True), 'short': (16, True), 'int8_t': (8, True), 'int16_t': (16, True), 'uint8_t': (8, False), 'uint16_t': (16, False)}
_INT = {'i32': I32, 'u32': U32, 'i64': I64, 'u64': U64}


def isint(t):
    return t.k in _INT or t.k == 'bint'


def promote(a, b):
    ks = {a.k, b.k}
    if 'u64' in ks:
        return U64
    if 'i64' in ks:
        return I64
    if 'u32' in ks:
        return U32
    return I32


# --------------------------------------------------------------------------
# top-level statements of a source file

def toplevel_chunks(src):
    """Source of the top-level statements."""
    lines = src.splitlines(True)
    starts = []
    depth = 0
    new = True
    for tok in tokenize.generate_tokens(io.StringIO(src).readline):
        if tok.type in (tokenize.COMMENT, tokenize.NL, tokenize.ENCODING):
            continue
        if tok.type == tokenize.INDENT:
            depth += 1
            continue
        if tok.type == tokenize.DEDENT:
            depth -= 1
            continue
        if tok.type == tokenize.NEWLINE:
            new = True
            continue
        if tok.type == tokenize.ENDMARKER:
            break
        if new:
            new = False
            if depth == 0:
                starts.append((tok.start[0], tok.string))
    out = []
    i = 0
    groups = []
    pend = None
    for ln, s in starts:
        if s in ('else', 'elif', 'except', 'finally') and groups:
            continue
        if pend is not None:
            groups.append(pend)
            pend = None
            continue_decor = s == '@'
            if continue_decor:
                pend = groups.pop()
            continue
        if s == '@':
            pend = ln
            continue
        groups.append(ln)
    for i, ln in enumerate(groups):
        end = groups[i + 1] - 1 if i + 1 < len(groups) else len(lines)
        out.append((ln, ''.join(lines[ln - 1:end])))
    return out


def parse(src, name, pxd=False):
    from Cython.Compiler.TreeFragment import parse_from_strings
    from Cython.Compiler import Errors
    try:
        Errors.init_thread()
    except Exception:
        pass
    import contextlib
    with contextlib.redirect_stderr(io.StringIO()):
        return parse_from_strings(name, src, **({'level': 'module_pxd'} if pxd else {}))


def directives_of(src):
    d = {'boundscheck': True, 'wraparound': True, 'cdivision': False}
    for m in re.finditer(r'^#\s*(?:cython|distutils)\s*:\s*(.*)$', src, re.M):
        for part in m.group(1).split(','):
            if '=' in part:
                k, v = (x.strip() for x in part.split('=', 1))
                if k in d:
                    d[k] = v == 'True'
    return d


class Module:
    """Facts about the module being translated."""

    def __init__(self, name, src, pxd_src=None):
        self.name = name
        self.src = src
        self.types = {'floating': 'fused'}    # ctypedef names
        self.fused = {'floating', 'numeric', 'integral'}
        self.directives = directives_of(src)
        self.cfuncs = {}       # name -> return type
        self.classes = {}      # name -> {attr: type}
        self.methods = {}      # class -> {method: type}
        self.functions = []
        self.module_ctypes = {}
        self.structs = {}
        if pxd_src:
            t = parse(pxd_src, name, pxd=True)
            for st in stats(t.body):
                self.note(st)

    def note(self, st):
        n = type(st).__name__
        if n == 'FusedTypeNode':
            self.fused.add(st.name)
        elif n == 'CTypeDefNode':
            self.types[st.declarator.name] = st.base_type
        elif n == 'CStructOrUnionDefNode' and st.kind == 'struct' and st.attributes is not None:
            self.structs[st.name] = {}
            for a in st.attributes:
                for d in a.declarators:
                    self.structs[st.name][decl_name(d)] = ctype(self, a.base_type, d)


def stats(body):
    if type(body).__name__ == 'StatListNode':
        out = []
        for s in body.stats:
            out += stats(s)
        return out
    return [body]


def translate(name, src, pxd_src=None, extern_cfuncs=None):
    """Python source of a Cython module: (text, names of functions translated)."""
    mod = Module(name, src, pxd_src)
    mod.cfuncs.update(extern_cfuncs or {})
    chunks = toplevel_chunks(src)
    defs = ''.join(c for _, c in chunks if c.startswith('DEF '))
    trees = []
    for ln, c in chunks:
        if c.startswith('DEF '):
            continue
        if 'cimport' not in c and not c.startswith(('cdef ', 'cpdef ', 'ctypedef ')):
            try:
                ast.parse(c)
                plain = True
            except SyntaxError:
                plain = False
            if plain and defs and not c.startswith(('import ', 'from ')):
                names = set(re.findall(r'^DEF\s+(\w+)', defs, re.M))
                if any(re.search(r'\b%s\b' % n, c) for n in names):
                    plain = False
            if plain and re.search(r'@\s*cython\.|\bcython\.', c):
                plain = False
            if plain:
                trees.append((ln, c, None))
                continue
        header = '\n'.join(l for l in src.splitlines()[:30] if re.match(r'#\s*cython', l)) + '\n'
        t = parse(header + defs + c, name)
        trees.append((ln, c, stats(t.body)))
    # declarations first
    for ln, c, tree in trees:
        for st in tree or ():
            mod.note(st)
    for ln, c, tree in trees:
        for st in tree or ():
            declare(mod, st)
    out = ['from vp.cyrt import *', 'from vp import cyrt as _rt']
    for ln, c, tree in trees:
        if tree is None:
            out.append(c.rstrip())
            for n in ast.walk(ast.parse(c)):
                if isinstance(n, ast.FunctionDef):
                    mod.functions.append(n.name)
        else:
            w = Writer(mod)
            for st in tree:
                w.stat(st)
            out.append('\n'.join(w.lines))
    return '\n'.join(out) + '\n', mod


def base_name(bt):
    return '.'.join(list(bt.module_path) + [bt.name])


def ctype(mod, bt, decl=None):
    """Type of a declaration."""
    n = type(bt).__name__
    if decl is not None:
        dn = type(decl).__name__
        if dn == 'CPtrDeclaratorNode':
            return T('ptr', elem=ctype(mod, bt))
        if dn == 'CArrayDeclaratorNode':
            return T('carr', elem=ctype(mod, bt, decl.base))
        if dn == 'CConstDeclaratorNode' or dn == 'CReferenceDeclaratorNode':
            return ctype(mod, bt, decl.base)
    if n in ('CConstOrVolatileTypeNode', 'CConstTypeNode'):
        return ctype(mod, bt.base_type)
    if n == 'CSimpleBaseTypeNode':
        nm = bt.name
        if nm is None:
            return OBJ
        if nm in mod.types and not isinstance(mod.types[nm], str):
            return ctype(mod, mod.types[nm])
        if nm in mod.fused:
            return T('f', name=nm)
        if nm in getattr(mod, 'structs', ()):
            return T('struct', name=nm)
        if nm == 'bint':
            return BINT
        if nm == 'void':
            return T('void')
        if nm in INTS:
            if bt.longness and nm == 'int':
                nm = 'short' if bt.longness < 0 else nm
            if nm in NARROW:
                bits, sign = NARROW[nm]
                return T('i32', name=(bits, sign and bt.signed != 0))
            if bt.signed == 0:
                return U32 if nm == 'int' and not bt.longness else U64
            if nm == 'int' and bt.longness:
                return I64
            if nm == 'long':
                return I64
            return _INT[INTS[nm]]
        if nm in FLOATS:
            return T('f', name=FLOATS[nm])
        if nm == 'ndarray':
            return OBJ
        return T('obj', name=nm)
    if n == 'MemoryViewSliceTypeNode':
        ax = bt.axes
        last = ax[-1]
        contig = type(last.step).__name__ == 'IntNode'
        return T('mv', ndim=len(ax), elem=elem_of(mod, bt.base_type_node), contig=contig)
    if n == 'TemplatedTypeNode':
        if bt.base_type_node.name == 'ndarray' or bt.base_type_node.name == 'ndarray':
            nd = 1
            if bt.keyword_args is not None:
                for it in bt.keyword_args.key_value_pairs:
                    if it.key.value == 'ndim':
                        nd = int(it.value.value)
            el = bt.positional_args[0]
            return T('buf', ndim=nd, elem=elem_of(mod, el))
        return OBJ
    if n == 'CComplexBaseTypeNode':
        return ctype(mod, bt.base_type, bt.declarator)
    if n in ('CTupleBaseTypeNode',):
        return OBJ
    raise Unsupported('declaration of type %s' % n)


def elem_of(mod, node):
    """Element type of a buffer: ('fused', name) or ('dtype', numpy name)."""
    n = type(node).__name__
    if n in ('CConstOrVolatileTypeNode', 'CConstTypeNode'):
        return elem_of(mod, node.base_type)
    if n == 'NameNode' or n == 'CSimpleBaseTypeNode':
        nm = node.name
    elif n == 'AttributeNode':
        nm = node.attribute
    else:
        raise Unsupported('element type %s' % n)
    if nm in mod.types and not isinstance(mod.types[nm], str):
        return elem_of(mod, mod.types[nm])
    if nm in mod.fused:
        return ('fused', nm)
    if nm in FLOATS:
        return ('dtype', FLOATS[nm])
    if nm == 'int' and getattr(node, 'longness', 0) and n == 'CSimpleBaseTypeNode':
        return ('dtype', 'int64' if node.signed else 'uint64')
    if nm in INT_DT:
        if n == 'CSimpleBaseTypeNode' and node.signed == 0:
            return ('dtype', 'u' + INT_DT[nm])
        return ('dtype', INT_DT[nm])
    if nm == 'object':
        return ('dtype', 'object')
    if nm == 'bint':
        return ('dtype', 'int32')
    raise Unsupported('element type %s' % nm)


def elem_type(el):
    if el[0] == 'fused' or el[1].startswith('float'):
        return T('f', name=el[1])
    if el[1] == 'object':
        return OBJ
    if el[1] in ('uint32',):
        return U32
    if el[1] == 'uint64':
        return U64
    return I64 if el[1] == 'int64' else I32


def decl_name(d):
    while not hasattr(d, 'name'):
        d = d.base
    return d.name


def func_decl(d):
    while type(d).__name__ != 'CFuncDeclaratorNode':
        d = d.base
    return d


def declare(mod, st, cls=None):
    n = type(st).__name__
    if n == 'CFuncDefNode':
        fd = func_decl(st.declarator)
        t = ctype(mod, st.base_type)
        (mod.methods.setdefault(cls, {}) if cls else mod.cfuncs)[decl_name(fd)] = t
    elif n == 'CClassDefNode':
        mod.classes[st.class_name] = {}
        for s in stats(st.body):
            declare(mod, s, st.class_name)
    elif n == 'CVarDefNode':
        for d in st.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                (mod.methods.setdefault(cls, {}) if cls else mod.cfuncs)[decl_name(d)] = ctype(mod, st.base_type)
                continue
            t = ctype(mod, st.base_type, d)
            if cls:
                mod.classes[cls][decl_name(d)] = t
            else:
                mod.module_ctypes[decl_name(d)] = t


class Writer:
    def __init__(self, mod, ind=0):
        self.mod = mod
        self.ind = ind
        self.lines = []
        self.vars = {}
        self.cls = None
        self.infunc = False
        self.dirs = dict(mod.directives)
        self.fused_names = set()
        self.ntmp = 0
        self.rtype = None
        self.addressed = {}     # local variables whose address is taken

    def emit(self, s):
        self.lines.append('    ' * self.ind + s)

    # -- statements ---------------------------------------------------------
    def block(self, body):
        self.ind += 1
        n = len(self.lines)
        for s in stats(body):
            self.stat(s)
        if len(self.lines) == n:
            self.emit('pass')
        self.ind -= 1

    def stat(self, st):
        n = type(st).__name__
        m = getattr(self, 's_' + n, None)
        if m is None:
            raise Unsupported('Cython statement %s' % n)
        m(st)

    def s_StatListNode(self, st):
        for s in st.stats:
            self.stat(s)

    def s_PassStatNode(self, st):
        self.emit('pass')

    def s_ExprStatNode(self, st):
        e, t = self.expr(st.expr)
        self.emit(e)

    def s_CImportStatNode(self, st):
        as_name = st.as_name or st.module_name.split('.')[0]
        self.emit('%s = _cimport_module(%r)' % (as_name, st.module_name))

    def s_FromCImportStatNode(self, st):
        for _, nm, as_name in st.imported_names:
            self.emit('%s = _cimport_from(globals(), %r, %r, %r)' % (as_name or nm, st.relative_level or 0, st.module_name, nm))
            if st.module_name == 'libc.math':
                self.mod.cfuncs[as_name or nm] = F

    def s_FromImportStatNode(self, st):
        m = st.module
        mod = m.module_name.value
        lvl = m.level if m.level and m.level > 0 else 0
        items = ', '.join('%s as %s' % (name, target.name) if name != '*' else '*' for name, target in st.items)
        self.emit('from %s%s import %s' % ('.' * lvl, mod, items))

    def s_FusedTypeNode(self, st):
        self.emit('%s = _fused_type(%r)' % (st.name, st.name))

    def s_CTypeDefNode(self, st):
        pass

    def s_CEnumDefNode(self, st):
        k = 0
        for it in st.items or ():
            if it.value is not None:
                self.emit('%s = %s' % (it.name, self.expr(it.value)[0]))
            else:
                self.emit('%s = %d' % (it.name, k))
            k += 1

    def s_CStructOrUnionDefNode(self, st):
        fields = self.mod.structs.get(st.name)
        if fields is None:
            raise Unsupported('struct')
        self.emit('class %s(_Struct):' % st.name)
        for nm, t in fields.items():
            self.emit('    %s = %s' % (nm, '_JI' if isint(t) else '_JF' if t.k == 'f' else 'None'))
        self.emit('    _fields = %r' % list(fields))

    def s_CDefExternNode(self, st):
        for s in stats(st.body):
            if type(s).__name__ == 'CVarDefNode':
                for d in s.declarators:
                    nm = decl_name(d)
                    self.emit('%s = _extern(%r)' % (nm, nm))
                    self.mod.cfuncs[nm] = ctype(self.mod, s.base_type)

    def s_CVarDefNode(self, st):
        for d in st.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            nm = decl_name(d)
            if self.cls is not None and not self.infunc:
                continue
            default = getattr(d, 'default', None)
            t = self.vars.get(nm) or self.mod.module_ctypes.get(nm) or ctype(self.mod, st.base_type, d)
            if type(d).__name__ == 'CArrayDeclaratorNode':
                dim = self.expr(d.dimension)[0]
                self.emit('%s = _carray(%s, %r)' % (nm, dim, t.elem.name or t.elem.k if t.elem else ''))
                continue
            if default is not None:
                e, et = self.expr(default)
                self.emit('%s = %s' % (nm, self.coerce(e, et, t)))
            elif not self.infunc:
                self.emit('%s = %s' % (nm, '0' if isint(t) or t.k == 'f' else 'None'))

    def s_SingleAssignmentNode(self, st):
        if getattr(st, 'declaration_only', False):
            return
        lt = type(st.lhs).__name__
        rn = type(st.rhs).__name__
        if rn == 'ImportNode':
            self.imp(st)
            return
        e, et = self.expr(st.rhs)
        self.assign(st.lhs, e, et)

    def imp(self, st):
        m = st.rhs.module_name.value
        nm = st.lhs.name
        if '.' in m and nm == m.split('.')[0]:
            self.emit('import %s' % m)
        elif '.' in m or nm != m:
            self.emit('import %s as %s' % (m, nm))
        else:
            self.emit('import %s' % m)

    def assign(self, lhs, e, et):
        n = type(lhs).__name__
        if n == 'NameNode':
            t = self.vars.get(lhs.name, self.mod.module_ctypes.get(lhs.name) if not self.infunc else None)
            self.emit('%s = %s' % (lhs.name, self.coerce(e, et, t) if t is not None else e))
        elif n in ('TupleNode', 'ListNode'):
            names = []
            post = []
            for a in lhs.args:
                if type(a).__name__ == 'NameNode' and a.name not in self.vars:
                    names.append(a.name)
                elif type(a).__name__ == 'StarredUnpackingNode':
                    names.append('*' + a.target.name)
                else:
                    self.ntmp += 1
                    tmp = '_t%d' % self.ntmp
                    names.append(tmp)
                    post.append((a, tmp))
            self.emit('(%s,) = %s' % (', '.join(names), e))
            for a, tmp in post:
                self.assign(a, tmp, OBJ)
        elif n == 'AttributeNode':
            o, ot = self.expr(lhs.obj)
            t = self.attr_type(lhs, o)
            if ot.k == 'ptr' and ot.elem.k == 'struct':
                o, t = '_pget(%s, 0)' % o, self.mod.structs[ot.elem.name].get(lhs.attribute)
            elif ot.k == 'struct':
                t = self.mod.structs[ot.name].get(lhs.attribute)
            self.emit('%s.%s = %s' % (o, lhs.attribute, self.coerce(e, et, t) if t is not None else e))
        elif n == 'IndexNode':
            b, bt = self.expr(lhs.base)
            ix = lhs.index.args if type(lhs.index).__name__ == 'TupleNode' else [lhs.index]
            its = [self.index(i) for i in ix]
            scalar = all(t is not None and (isint(t) or t.k == 'obj') for _, t in its) and len(ix) == bt.ndim
            if bt.k == 'mv' and scalar or bt.k == 'buf' and scalar and all(isint(t) for _, t in its):
                if bt.ndim <= 3 and not self.wrap_or_check():
                    self.emit('_s%d(%s, %s, %s)' % (bt.ndim, b, ', '.join(s for s, _ in its), self.coerce(e, et, elem_type(bt.elem))))
                else:
                    self.emit('_sn(%s, (%s,), %s, %r)' % (b, ', '.join(s for s, _ in its), e, (self.dirs['boundscheck'], self.dirs['wraparound'])))
            elif bt.k == 'carr':
                self.emit('_s1(%s, %s, %s)' % (b, its[0][0], self.coerce(e, et, bt.elem)))
            elif bt.k == 'ptr':
                self.emit('_pset(%s, %s, %s)' % (b, its[0][0], self.coerce(e, et, bt.elem)))
            elif bt.k == 'mv':
                self.emit('_mvset(%s, (%s,), %s)' % (b, ', '.join(s for s, _ in its), e))
            else:
                self.emit('%s[%s] = %s' % (b, ', '.join(s for s, _ in its) + (',' if type(lhs.index).__name__ == 'TupleNode' and len(its) == 1 else ''), e))
        elif n == 'SliceIndexNode':
            b, bt = self.expr(lhs.base)
            sl = self.slice_src(lhs)
            if bt.k == 'mv':
                self.emit('_mvset(%s, (%s,), %s)' % (b, sl, e))
            else:
                self.emit('%s[%s] = %s' % (b, sl, e))
        else:
            raise Unsupported('assignment to %s' % n)

    def wrap_or_check(self):
        return self.dirs['boundscheck'] or self.dirs['wraparound']

    def s_CascadedAssignmentNode(self, st):
        e, et = self.expr(st.rhs)
        self.ntmp += 1
        tmp = '_t%d' % self.ntmp
        self.emit('%s = %s' % (tmp, e))
        for l in st.lhs_list:
            self.assign(l, tmp, et)

    def s_ParallelAssignmentNode(self, st):
        tmps = []
        for s in st.stats:
            e, et = self.expr(s.rhs)
            self.ntmp += 1
            tmp = '_t%d' % self.ntmp
            self.emit('%s = %s' % (tmp, e))
            tmps.append((s.lhs, tmp, et))
        for l, tmp, et in tmps:
            self.assign(l, tmp, et)

    def s_InPlaceAssignmentNode(self, st):
        l, lt = self.expr(st.lhs)
        r, rt = self.expr(st.rhs)
        if lt.k == 'obj' or lt.k == 'buf':
            self.emit('%s %s= %s' % (l, st.operator, r))
            return
        e, et = self.binop(st.operator, l, lt, r, rt)
        self.assign(st.lhs, e, et)

    def s_ReturnStatNode(self, st):
        if st.value is None:
            self.emit('return')
        else:
            e, et = self.expr(st.value)
            if self.rtype is not None and self.rtype.k not in ('obj', 'void', 'mv'):
                e = self.coerce(e, et, self.rtype)
            self.emit('return ' + e)

    def s_RaiseStatNode(self, st):
        s = 'raise'
        if st.exc_type is not None:
            s += ' ' + self.expr(st.exc_type)[0]
        if getattr(st, 'exc_value', None) is not None:
            s += '(%s)' % self.expr(st.exc_value)[0]
        if getattr(st, 'cause', None) is not None:
            s += ' from ' + self.expr(st.cause)[0]
        self.emit(s)

    def s_ReraiseStatNode(self, st):
        self.emit('raise')

    def s_AssertStatNode(self, st):
        c = self.expr(st.condition)[0]
        self.emit('assert %s' % c)

    def s_DelStatNode(self, st):
        self.emit('del ' + ', '.join(self.expr(a)[0] for a in st.args))

    def s_BreakStatNode(self, st):
        self.emit('break')

    def s_ContinueStatNode(self, st):
        self.emit('continue')

    def s_GlobalNode(self, st):
        self.emit('global ' + ', '.join(st.names))

    def s_NonlocalNode(self, st):
        self.emit('nonlocal ' + ', '.join(st.names))

    def s_IfStatNode(self, st):
        for i, c in enumerate(st.if_clauses):
            self.emit('%s %s:' % ('elif' if i else 'if', self.expr(c.condition)[0]))
            self.block(c.body)
        if st.else_clause is not None:
            self.emit('else:')
            self.block(st.else_clause)

    def s_WhileStatNode(self, st):
        self.emit('while %s:' % self.expr(st.condition)[0])
        self.block(st.body)
        if st.else_clause is not None:
            self.emit('else:')
            self.block(st.else_clause)

    def s_ForInStatNode(self, st):
        seq = st.iterator.sequence
        src = None
        fn = getattr(seq, 'function', None)
        fname = getattr(fn, 'name', None) or getattr(fn, 'attribute', None)
        if fname in ('prange', 'range') and type(seq).__name__ in ('SimpleCallNode', 'GeneralCallNode'):
            args = seq.args if type(seq).__name__ == 'SimpleCallNode' else seq.positional_args.args
            kws = {}
            if type(seq).__name__ == 'GeneralCallNode' and seq.keyword_args is not None:
                kws = {i.key.value: i.value for i in seq.keyword_args.key_value_pairs}
            a = [self.expr(x)[0] for x in args]
            if not a and 'stop' in kws:
                a = [self.expr(kws[k])[0] for k in ('start', 'stop', 'step') if k in kws]
            src = '_range(%s)' % ', '.join(a)
        else:
            src = self.expr(seq)[0]
        tgt = st.target
        tn = type(tgt).__name__
        if tn == 'NameNode':
            self.emit('for %s in %s:' % (tgt.name, src))
            self.block(st.body)
        else:
            self.ntmp += 1
            tmp = '_t%d' % self.ntmp
            self.emit('for %s in %s:' % (tmp, src))
            self.ind += 1
            self.assign(tgt, tmp, OBJ)
            self.ind -= 1
            self.block(st.body)
        if st.else_clause is not None:
            self.emit('else:')
            self.block(st.else_clause)

    def s_ForFromStatNode(self, st):
        a = self.expr(st.bound1)[0]
        b = self.expr(st.bound2)[0]
        step = self.expr(st.step)[0] if st.step is not None else '1'
        if st.relation1 in ('<', '<='):
            if st.relation1 == '<':
                a = '(%s) + 1' % a
            if st.relation2 == '<=':
                b = '(%s) + 1' % b
            src = '_range(%s, %s, %s)' % (a, b, step)
        else:
            if st.relation1 == '>':
                a = '(%s) - 1' % a
            if st.relation2 == '>=':
                b = '(%s) - 1' % b
            src = '_range(%s, %s, -(%s))' % (a, b, step)
        self.emit('for %s in %s:' % (st.target.name, src))
        self.block(st.body)

    def s_GILStatNode(self, st):
        for s in stats(st.body):
            self.stat(s)

    def s_WithStatNode(self, st):
        mgr = st.manager
        fn = getattr(mgr, 'function', mgr)
        nm = getattr(fn, 'name', None) or getattr(fn, 'attribute', None)
        if nm in ('parallel', 'nogil', 'gil', 'boundscheck', 'wraparound', 'cdivision'):
            for s in stats(st.body):
                self.stat(s)
            return
        t = ''
        if st.target is not None:
            t = ' as ' + st.target.name
        self.emit('with %s%s:' % (self.expr(mgr)[0], t))
        body = st.body
        while type(body).__name__ in ('TryFinallyStatNode', 'TryExceptStatNode'):
            body = body.body
        self.block(body)

    def s_TryExceptStatNode(self, st):
        self.emit('try:')
        self.block(st.body)
        for c in st.except_clauses:
            p = ''
            if c.pattern is not None and c.pattern:
                pats = c.pattern if isinstance(c.pattern, list) else [c.pattern]
                p = ' ' + (self.expr(pats[0])[0] if len(pats) == 1 else '(%s,)' % ', '.join(self.expr(x)[0] for x in pats))
            if c.target is not None:
                p += ' as ' + c.target.name
            self.emit('except%s:' % p)
            self.block(c.body)
        if st.else_clause is not None:
            self.emit('else:')
            self.block(st.else_clause)

    def s_TryFinallyStatNode(self, st):
        self.emit('try:')
        self.block(st.body)
        self.emit('finally:')
        self.block(st.finally_clause)

    # -- functions and classes ----------------------------------------------
    def _decorators(self, st):
        out = []
        dirs = {}
        for d in getattr(st, 'decorators', None) or ():
            e = d.decorator
            fn = getattr(e, 'function', e)
            if type(fn).__name__ == 'AttributeNode' and getattr(fn.obj, 'name', None) == 'cython':
                if fn.attribute in ('boundscheck', 'wraparound', 'cdivision') and hasattr(e, 'args'):
                    dirs[fn.attribute] = bool(e.args[0].value)
                continue
            out.append(self.expr(e)[0])
        return out, dirs

    def s_DefNode(self, st):
        decs, dirs = self._decorators(st)
        name = st.name
        if name == '__cinit__':
            name = '__init__'
        self.function(st, name, st.args, decs, dirs, None)

    def s_CFuncDefNode(self, st):
        decs, dirs = self._decorators(st)
        fd = func_decl(st.declarator)
        rt = ctype(self.mod, st.base_type)
        args = list(fd.args)
        self.function(st, decl_name(fd), args, [], dirs, rt)

    def function(self, st, name, args, decs, dirs, rtype):
        for d in decs:
            self.emit('@' + d)
        w = Writer(self.mod, self.ind + 1)
        w.cls = self.cls
        w.infunc = True
        w.dirs = dict(self.dirs)
        w.dirs.update(dirs)
        w.rtype = rtype
        if self.infunc:
            w.vars = dict(self.vars)
        params = []
        pre = []
        fused_args = []
        n_pos = len(args) - getattr(st, 'num_kwonly_args', 0)
        star = getattr(st, 'star_arg', None)
        first = True
        self_name = None
        for k, a in enumerate(args):
            if k == n_pos and star is None:
                params.append('*')
            if k == n_pos and star is not None:
                params.append('*' + star.name)
            nm = decl_name(a.declarator)
            bt = a.base_type
            t = OBJ
            if nm == '' or nm is None:
                # "self" parses as a type without a name
                nm = bt.name
            else:
                t = ctype(self.mod, bt, a.declarator)
            if first and self.cls is not None:
                self_name = nm
                w.vars[nm] = T('self', name=self.cls)
            else:
                w.vars[nm] = t
            first = False
            s = nm
            if a.default is not None and type(a.default).__name__ != 'NullNode':
                s += '=' + self.expr(a.default)[0]
            elif a.default is not None:
                s += '=None'
            params.append(s)
            if t.k in ('mv', 'buf'):
                if t.elem[0] == 'fused':
                    fused_args.append((nm, t))
            elif t.k == 'f' and t.name in self.mod.fused:
                w.fused_names.add(t.name)
        if star is not None and n_pos == len(args):
            params.append('*' + star.name)
        ss = getattr(st, 'starstar_arg', None)
        if ss is not None:
            params.append('**' + ss.name)
        # locals
        self._collect(st.body, w)
        qual = (self.cls + '.' if self.cls else '') + name
        self.mod.functions.append(qual)
        fused_used = sorted({t.elem[1] for _, t in fused_args})
        is_def = type(st).__name__ == 'DefNode'
        for fz in fused_used:
            w.emit('%s = _bind_fused((%s,), %r, %r)' % (fz, ', '.join(nm for nm, t in fused_args if t.elem[1] == fz),
                                                       [t.ndim for nm, t in fused_args if t.elem[1] == fz], is_def))
        for nm, t in list(w.vars.items()):
            if nm == self_name or self.infunc and nm in self.vars:
                continue
            if nm in [decl_name(a.declarator) for a in args]:
                c = w.coerce(nm, OBJ, t)
                if c != nm and not (t.k in ('f',) or (isint(t) and not is_def)):
                    w.emit('%s = %s' % (nm, c))
                elif is_def and isint(t):
                    w.emit('%s = %s' % (nm, c))
        for nm, t in w.declared.items():
            if t.k == 'f':
                w.emit('%s = _JF' % nm)
            elif isint(t):
                w.emit('%s = _JI' % nm)
            elif t.k == 'struct':
                w.emit('%s = %s()' % (nm, t.name))
            elif t.k in ('mv', 'buf', 'obj', 'ptr'):
                w.emit('%s = None' % nm)
        w.fused_names.update(fused_used)
        nl = len(w.lines)
        for s in stats(st.body):
            w.stat(s)
        ind = '    ' * w.ind
        for nm, t in w.addressed.items():
            w.lines[nl:nl] = [ind + 'def _get_%s():' % nm, ind + '    return ' + nm,
                              ind + 'def _set_%s(_value):' % nm, ind + '    nonlocal ' + nm, ind + '    %s = _value' % nm]
        if rtype is not None and rtype.k == 'f':
            pass
        if not w.lines:
            w.emit('pass')
        self.emit('def %s(%s):' % (name, ', '.join(params)))
        self.lines += w.lines

    def _collect(self, body, w):
        """Declared local variables."""
        w.declared = {}

        def walk(n):
            tn = type(n).__name__
            if tn in ('DefNode', 'LambdaNode', 'CFuncDefNode'):
                return
            if tn == 'CVarDefNode':
                for d in n.declarators:
                    nm = decl_name(d)
                    t = ctype(self.mod, n.base_type, d)
                    w.vars[nm] = t
                    if getattr(d, 'default', None) is None and t.k != 'carr':
                        w.declared[nm] = t
            for a in n.child_attrs or ():
                c = getattr(n, a)
                for x in (c if isinstance(c, list) else [c]):
                    if x is not None and hasattr(x, 'child_attrs'):
                        walk(x)
        walk(body)

    def s_CClassDefNode(self, st):
        bases = ''
        b = getattr(st, 'bases', None)
        if b is not None and b.args:
            bases = '(%s)' % ', '.join(self.expr(x)[0] for x in b.args)
        self.klass(st.class_name, bases or '(_CClass)', st.body)

    def s_PyClassDefNode(self, st):
        raise Unsupported('Python class in Cython source')

    def klass(self, name, bases, body):
        self.emit('class %s%s:' % (name, bases))
        old, self.cls = self.cls, name
        self.ind += 1
        self.emit('_c_attrs = %r' % ({k: ('f' if t.k == 'f' else t.k) for k, t in self.mod.classes.get(name, {}).items()},))
        for s in stats(body):
            self.stat(s)
        self.ind -= 1
        self.cls = old

    # -- expressions --------------------------------------------------------
    def coerce(self, e, et, t):
        """Expression e of type et converted to type t."""
        if t is None or t.k in ('obj', 'self', 'void', 'ptr', 'carr'):
            return e
        if t.k == 'struct':
            return '_copy_struct(%s, %s)' % (e, t.name)
        if t.k == 'mv':
            if et.k == 'mv':
                return e
            el = '(%r, %s)' % t.elem if t.elem[0] == 'fused' else repr(t.elem)
            return '_mv(%s, %d, %r, %s)' % (e, t.ndim, t.contig, el)
        if t.k == 'buf':
            el = '(%r, %s)' % t.elem if t.elem[0] == 'fused' else repr(t.elem)
            return '_buf(%s, %d, %s)' % (e, t.ndim, el)
        if t.k == 'f':
            if et.k == 'f' or isint(et):
                return e
            return '_tofloat(%s)' % e
        if t.k == 'bint':
            return e if et.k == 'bint' else 'bool(%s)' % e
        if t.k == 'u32':
            if et.k == 'u32' or re.match(r'^\d+$', e):
                return e
            return ('_u32(%s)' if et.k != 'obj' else '_tou32(%s)') % e
        if isint(t):
            if t.name is not None:
                if isint(et) and et.name == t.name:
                    return e
                return '_narrow(%s, %d, %r)' % (e if isint(et) else '_toint(%s)' % e, *t.name)
            if isint(et):
                return e
            return '_toint(%s)' % e
        return e

    def expr(self, n):
        tn = type(n).__name__
        m = getattr(self, 'e_' + tn, None)
        if m is None:
            raise Unsupported('Cython expression %s' % tn)
        return m(n)

    def e_IntNode(self, n):
        v = n.value
        return str(int(v, 0) if not v.startswith('0') or len(v) == 1 or v[1] in 'xXoObB' else int(v, 8)), I32 if not n.unsigned else U32

    def e_FloatNode(self, n):
        return '%s' % repr(float(n.value)), F

    def e_BoolNode(self, n):
        return ('True' if n.value else 'False'), BINT

    def e_NoneNode(self, n):
        return 'None', OBJ

    def e_NullNode(self, n):
        return 'None', OBJ

    def e_EllipsisNode(self, n):
        return 'Ellipsis', OBJ

    def e_UnicodeNode(self, n):
        return repr(str(n.value)), OBJ

    def e_StringNode(self, n):
        return repr(str(n.value)), OBJ

    def e_BytesNode(self, n):
        return repr(bytes(n.value)), OBJ

    def e_IdentifierStringNode(self, n):
        return repr(str(n.value)), OBJ

    def e_JoinedStrNode(self, n):
        return '"".join([%s])' % ', '.join('str(%s)' % self.expr(v)[0] for v in n.values), OBJ

    def e_FormattedValueNode(self, n):
        return 'str(%s)' % self.expr(n.value)[0], OBJ

    def e_NameNode(self, n):
        t = self.vars.get(n.name)
        if t is None:
            t = self.mod.module_ctypes.get(n.name, OBJ)
            if n.name in ('M_PI', 'M_PI_2'):
                t = F
        return n.name, t

    def attr_type(self, n, o):
        obj = n.obj
        if type(obj).__name__ == 'NameNode':
            t = self.vars.get(obj.name)
            if t is not None and t.name in self.mod.classes and t.k in ('self', 'obj'):
                return self.mod.classes[t.name].get(n.attribute)
        return None

    def e_AttributeNode(self, n):
        o, ot = self.expr(n.obj)
        t = self.attr_type(n, o)
        if ot.k == 'ptr' and ot.elem.k == 'struct':
            return '_pget(%s, 0).%s' % (o, n.attribute), self.mod.structs[ot.elem.name].get(n.attribute, OBJ)
        if ot.k == 'struct':
            t = self.mod.structs[ot.name].get(n.attribute)
        if t is None:
            if ot.k in ('mv', 'buf') and n.attribute == 'shape':
                return o + '.shape', T('shape')
            if ot.k == 'mv' and n.attribute == 'T':
                return o + '.T', T('mv', ndim=ot.ndim, elem=ot.elem)
            if ot.k == 'mv' and n.attribute == 'base':
                return '_mvbase(%s)' % o, OBJ
            t = OBJ
        return '%s.%s' % (o, n.attribute), t

    def index(self, i):
        n = type(i).__name__
        if n == 'SliceNode':
            return self.slice_src(i), None
        if n == 'NoneNode':
            return 'None', None
        if n == 'EllipsisNode':
            return 'Ellipsis', None
        return self.expr(i)

    def slice_src(self, i):
        def p(x):
            if x is None or type(x).__name__ == 'NoneNode':
                return 'None'
            return self.expr(x)[0]
        return '_slice(%s, %s, %s)' % (p(i.start), p(i.stop), p(getattr(i, 'step', None)))

    def e_SliceNode(self, i):
        return self.slice_src(i), OBJ

    def e_IndexNode(self, n):
        b, bt = self.expr(n.base)
        ix = n.index.args if type(n.index).__name__ == 'TupleNode' else [n.index]
        its = [self.index(i) for i in ix]
        if bt.k == 'shape':
            return '%s[%s]' % (b, its[0][0]), I64
        if bt.k in ('mv', 'buf'):
            scalar = all(t is not None and (isint(t) or (t.k == 'obj' and bt.k == 'mv')) for _, t in its) and len(ix) == bt.ndim
            if scalar:
                if bt.ndim <= 3 and not self.wrap_or_check():
                    return '_g%d(%s, %s)' % (bt.ndim, b, ', '.join(s for s, _ in its)), elem_type(bt.elem)
                return '_gn(%s, (%s,), %r)' % (b, ', '.join(s for s, _ in its), (self.dirs['boundscheck'], self.dirs['wraparound'])), elem_type(bt.elem)
            if bt.k == 'mv':
                nd = bt.ndim - sum(1 for _, t in its if t is not None) + sum(1 for s, t in its if t is None and s == 'None')
                return '_mvslice(%s, (%s,), %r)' % (b, ', '.join(s for s, _ in its), (self.dirs['boundscheck'], self.dirs['wraparound'])), \
                    T('mv', ndim=nd, elem=bt.elem)
        if bt.k == 'carr':
            return '_g1(%s, %s)' % (b, its[0][0]), bt.elem
        if bt.k == 'ptr':
            return '_pget(%s, %s)' % (b, its[0][0]), bt.elem
        return '%s[%s]' % (b, ', '.join(s for s, _ in its) + (',' if type(n.index).__name__ == 'TupleNode' and len(its) == 1 else '')), OBJ

    def e_SliceIndexNode(self, n):
        b, bt = self.expr(n.base)
        sl = self.slice_src(n)
        if bt.k == 'mv':
            return '_mvslice(%s, (%s,), %r)' % (b, sl, (self.dirs['boundscheck'], self.dirs['wraparound'])), \
                T('mv', ndim=bt.ndim, elem=bt.elem)
        return '%s[%s]' % (b, sl), OBJ

    def _callee_type(self, fn):
        n = type(fn).__name__
        if n == 'NameNode':
            if fn.name in self.vars:
                return OBJ
            if fn.name in self.mod.cfuncs:
                return self.mod.cfuncs[fn.name]
            if fn.name in ('abs', 'fabs') or fn.name in MATH and fn.name not in ('round',):
                return None
        if n == 'AttributeNode' and type(fn.obj).__name__ == 'NameNode':
            t = self.vars.get(fn.obj.name)
            if t is not None and t.name in self.mod.methods:
                return self.mod.methods[t.name].get(fn.attribute, OBJ)
        return OBJ

    def e_SimpleCallNode(self, n):
        fn = n.function
        nm = getattr(fn, 'name', None) if type(fn).__name__ == 'NameNode' else None
        args = [self.expr(a) for a in n.args]
        if nm in ('min', 'max') and nm not in self.vars and len(args) > 1:
            ts = [t for _, t in args]
            rt = F if any(t.k == 'f' for t in ts) else OBJ
            if all(isint(t) for t in ts):
                rt = ts[0]
                for t in ts[1:]:
                    rt = promote(rt, t)
            return '_%s(%s)' % (nm, ', '.join(s for s, _ in args)), rt
        if nm == 'abs' and len(args) == 1 and nm not in self.vars:
            return 'abs(%s)' % args[0][0], args[0][1]
        if nm == 'len' and len(args) == 1:
            return 'len(%s)' % args[0][0], I64
        if nm in ('int', 'float', 'bool', 'range', 'round') and nm not in self.vars:
            return '_py_%s(%s)' % (nm, ', '.join(s for s, _ in args)), {'int': OBJ, 'float': F, 'bool': BINT}.get(nm, OBJ)
        f, ft = self.expr(fn)
        rt = self._callee_type(fn)
        if rt is None:
            rt = F
        src = '%s(%s)' % (f, ', '.join(self._arg(s, t) for s, t in args))
        return src, (rt if rt.k != 'void' else OBJ)

    def _arg(self, s, t):
        return s

    def e_GeneralCallNode(self, n):
        f, ft = self.expr(n.function)
        pos = n.positional_args
        parts = []
        if type(pos).__name__ == 'TupleNode':
            parts += [self.expr(a)[0] for a in pos.args]
        elif type(pos).__name__ == 'AsTupleNode':
            parts.append('*' + self.expr(pos.arg)[0])
        elif type(pos).__name__ == 'AddNode':
            parts.append('*(%s)' % self.expr(pos)[0])
        else:
            parts.append('*' + self.expr(pos)[0])
        kw = n.keyword_args
        if kw is not None:
            parts += self._kwargs(kw)
        rt = self._callee_type(n.function)
        return '%s(%s)' % (f, ', '.join(parts)), (rt if rt is not None and rt.k != 'void' else OBJ)

    def _kwargs(self, kw):
        tn = type(kw).__name__
        if tn == 'DictNode':
            return ['%s=%s' % (i.key.value, self.expr(i.value)[0]) for i in kw.key_value_pairs]
        if tn == 'MergedDictNode':
            out = []
            for k in kw.keyword_args:
                out += self._kwargs(k)
            return out
        return ['**' + self.expr(kw)[0]]

    def e_AsTupleNode(self, n):
        return 'tuple(%s)' % self.expr(n.arg)[0], OBJ

    def e_TupleNode(self, n):
        parts = [('*' + self.expr(a.target)[0]) if type(a).__name__ == 'StarredUnpackingNode' else self.expr(a)[0] for a in n.args]
        return '(%s%s)' % (', '.join(parts), ',' if len(parts) == 1 else ''), OBJ

    def e_MergedSequenceNode(self, n):
        parts = []
        for a in n.args:
            parts.append('*%s' % self.expr(a)[0])
        o, c = {'list': '[]', 'tuple': '()', 'set': '{}'}[n.type.name]
        return o + ', '.join(parts) + (',' if o == '(' else '') + c, OBJ

    def e_ListNode(self, n):
        mult = getattr(n, 'mult_factor', None)
        s = '[%s]' % ', '.join(self.expr(a)[0] for a in n.args)
        if mult is not None:
            s = '(%s * %s)' % (s, self.expr(mult)[0])
        return s, OBJ

    def e_SetNode(self, n):
        return '{%s}' % ', '.join(self.expr(a)[0] for a in n.args), OBJ

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.expr(i.key)[0], self.expr(i.value)[0]) for i in n.key_value_pairs), OBJ

    def e_MergedDictNode(self, n):
        return '{%s}' % ', '.join('**' + self.expr(k)[0] for k in n.keyword_args), OBJ

    def binop(self, op, a, ta, b, tb):
        if ta.k == 'bint':
            ta = I32
        if tb.k == 'bint':
            tb = I32
        num = all(t.k == 'f' or isint(t) for t in (ta, tb))
        if not num:
            if ta.k in ('ptr', 'carr') and isint(tb) and op in '+-':
                return '_padd(%s, %s%s)' % (a, '-' if op == '-' else '', b), T('ptr', elem=ta.elem)
            if tb.k in ('ptr', 'carr') and isint(ta) and op == '+':
                return '_padd(%s, %s)' % (b, a), T('ptr', elem=tb.elem)
            return '(%s %s %s)' % (a, op, b), OBJ
        ints = isint(ta) and isint(tb)
        rt = promote(ta, tb) if ints else F
        if op == '/':
            return '_div(%s, %s)' % (a, b), F
        if op == '//':
            if ints:
                return ('_cdiv(%s, %s)' if self.dirs['cdivision'] else '_pydiv(%s, %s)') % (a, b), rt
            return '_ffloordiv(%s, %s)' % (a, b), F
        if op == '%':
            if ints:
                return ('_cmod(%s, %s)' if self.dirs['cdivision'] else '_pymod(%s, %s)') % (a, b), rt
            return ('_fmod(%s, %s)' if self.dirs['cdivision'] else '_pyfmod(%s, %s)') % (a, b), F
        if op == '**':
            return '_pow(%s, %s)' % (a, b), F if not ints else rt
        s = '(%s %s %s)' % (a, op, b)
        if rt.k == 'u32' and op in '+-*<<':
            s = '_u32%s' % s
        elif rt.k == 'u64' and op in '-':
            s = '_u64%s' % s
        return s, rt

    def _bin(self, n):
        a, ta = self.expr(n.operand1)
        b, tb = self.expr(n.operand2)
        return self.binop(n.operator, a, ta, b, tb)

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = _bin
    e_IntBinopNode = e_BitwiseOrNode = _bin

    def e_MatMultNode(self, n):
        return self._bin(n)

    def e_UnaryMinusNode(self, n):
        a, t = self.expr(n.operand)
        if t.k == 'u32':
            return '_u32(-%s)' % a, t
        return '(-%s)' % a, t

    def e_UnaryPlusNode(self, n):
        return self.expr(n.operand)

    def e_TildeNode(self, n):
        a, t = self.expr(n.operand)
        return '(~%s)' % a, t

    def e_NotNode(self, n):
        a, t = self.expr(n.operand)
        return '(not %s)' % a, BINT

    def e_BoolBinopNode(self, n):
        a, ta = self.expr(n.operand1)
        b, tb = self.expr(n.operand2)
        t = ta if ta.k == tb.k else OBJ
        if isint(ta) and isint(tb):
            t = promote(ta, tb) if BINT.k not in (ta.k, tb.k) else BINT
        return '(%s %s %s)' % (a, n.operator, b), t

    def e_PrimaryCmpNode(self, n):
        a, ta = self.expr(n.operand1)
        op = {'is_not': 'is not', 'not_in': 'not in'}.get(n.operator, n.operator)
        if op in ('is', 'is not') and n.cascade is None:
            for x, y in ((n.operand1, n.operand2), (n.operand2, n.operand1)):
                nm = getattr(x, 'name', None)
                if nm in self.mod.fused or nm in self.fused_names:
                    yn = getattr(y, 'name', None) or getattr(y, 'attribute', None)
                    yn = FLOATS.get(yn, yn)
                    return '(%s_fused_is(%s, %r))' % ('not ' if op == 'is not' else '', nm, yn), BINT
        s = '%s %s %s' % (a, op, self.expr(n.operand2)[0])
        c = n.cascade
        while c is not None:
            op = {'is_not': 'is not', 'not_in': 'not in'}.get(c.operator, c.operator)
            s += ' %s %s' % (op, self.expr(c.operand2)[0])
            c = c.cascade
        return '(%s)' % s, BINT

    def e_CondExprNode(self, n):
        c = self.expr(n.condition)[0]
        a, ta = self.expr(n.true_val)
        b, tb = self.expr(n.false_val)
        t = OBJ
        if isint(ta) and isint(tb):
            t = promote(ta, tb)
        elif all(x.k == 'f' or isint(x) for x in (ta, tb)):
            t = F
        elif ta.k == tb.k == 'mv':
            t = ta
        return '(%s if %s else %s)' % (a, c, b), t

    def e_TypecastNode(self, n):
        a, ta = self.expr(n.operand)
        t = ctype(self.mod, n.base_type, n.declarator)
        if t.k == 'f':
            return a if isint(ta) or ta.k == 'f' else '_tofloat(%s)' % a, t
        if isint(t):
            if ta.k == 'f':
                a = '_trunc(%s)' % a
                return a if t.name is None else '_narrow(%s, %d, %r)' % (a, *t.name), t
            if t.name is not None:
                return self.coerce(a, ta, t), t
            if t.k == 'u32':
                return '_u32(%s)' % a, t
            if t.k == 'i32' and ta.k in ('u32', 'i64', 'u64'):
                return '_i32(%s)' % a, t
            return a if isint(ta) else '_toint(%s)' % a, t
        if t.k == 'mv':
            return self.coerce(a, ta, t), t
        if t.k == 'ptr':
            raise Unsupported('pointer cast')
        return a, t

    def e_LambdaNode(self, n):
        ps = []
        for a in n.args:
            s = decl_name(a.declarator) or a.base_type.name
            if a.default is not None:
                s += '=' + self.expr(a.default)[0]
            ps.append(s)
        if n.star_arg is not None:
            ps.append('*' + n.star_arg.name)
        if n.starstar_arg is not None:
            ps.append('**' + n.starstar_arg.name)
        return '(lambda %s: %s)' % (', '.join(ps), self.expr(n.result_expr)[0]), OBJ

    def _comp(self, loop):
        parts = []
        n = loop
        while True:
            tn = type(n).__name__
            if tn == 'ForInStatNode':
                tgt = n.target
                t = tgt.name if type(tgt).__name__ == 'NameNode' else self.expr(tgt)[0]
                parts.append('for %s in %s' % (t, self.expr(n.iterator.sequence)[0]))
                n = n.body
            elif tn == 'IfStatNode':
                parts.append('if %s' % self.expr(n.if_clauses[0].condition)[0])
                n = n.if_clauses[0].body
            elif tn == 'StatListNode':
                n = n.stats[0]
            elif tn == 'ExprStatNode':
                n = n.expr
            else:
                return n, ' '.join(parts)

    def e_ComprehensionNode(self, n):
        last, loops = self._comp(n.loop)
        tn = type(last).__name__
        if tn == 'DictComprehensionAppendNode':
            return '{%s: %s %s}' % (self.expr(last.key_expr)[0], self.expr(last.value_expr)[0], loops), OBJ
        o, c = ('{', '}') if 'set' in str(getattr(n.type, 'name', '')) else ('[', ']')
        return '%s%s %s%s' % (o, self.expr(last.expr)[0], loops, c), OBJ

    def e_GeneratorExpressionNode(self, n):
        last, loops = self._comp(n.loop)
        e = getattr(last, 'arg', None)
        if e is None:
            e = last.expr
        return '(%s %s)' % (self.expr(e)[0], loops), OBJ

    def e_AmpersandNode(self, n):
        o = n.operand
        tn = type(o).__name__
        if tn == 'NameNode' and self.infunc:
            t = self.vars.get(o.name, OBJ)
            if t.k == 'carr':
                raise Unsupported('address of a C array')
            self.addressed[o.name] = t
            return '_Pointer(_get_%s, _set_%s)' % (o.name, o.name), T('ptr', elem=t)
        if tn == 'IndexNode':
            b, bt = self.expr(o.base)
            ix = o.index.args if type(o.index).__name__ == 'TupleNode' else [o.index]
            its = [self.index(i) for i in ix]
            if bt.k in ('mv', 'buf') and all(t is not None for _, t in its) and len(ix) == bt.ndim:
                return '_Element(%s, (%s,), %r)' % (b, ', '.join(s for s, _ in its), (self.dirs['boundscheck'], self.dirs['wraparound'])), \
                    T('ptr', elem=elem_type(bt.elem))
            if bt.k == 'carr':
                return '_Element(%s, (%s,), (False, False))' % (b, its[0][0]), T('ptr', elem=bt.elem)
            if bt.k == 'ptr':
                return '_padd(%s, %s)' % (b, its[0][0]), bt
        if tn == 'AttributeNode':
            ob, ot = self.expr(o.obj)
            t = self.attr_type(o, ob)
            if t is None and ot.k == 'struct':
                t = self.mod.structs[ot.name].get(o.attribute)
            if t is not None:
                return '_Attribute(%s, %r)' % (ob, o.attribute), T('ptr', elem=t)
        raise Unsupported('address of %s' % tn)

    def e_SizeofTypeNode(self, n):
        raise Unsupported('sizeof')

    def e_ImportNode(self, n):
        raise Unsupported('import expression')

    def e_AssignmentExpressionNode(self, n):
        return '(%s := %s)' % (n.lhs.name, self.expr(n.rhs)[0]), OBJ
